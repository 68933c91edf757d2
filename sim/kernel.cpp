// Simulated kernel. See kernel.h. All libc/pthread entry points the product code reaches are
// defined here; the dynamic linker and the static linker resolve them to these definitions.
#include "kernel.h"
#include <atomic>
#include <deque>
#include <set>
#include <memory>
#include <random>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cerrno>
#include <algorithm>
#include <dlfcn.h>
#include <fcntl.h>
#include <netdb.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <sys/random.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <linux/futex.h>
#include <unistd.h>
#include <time.h>

static inline long raw6(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  long ret; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
static inline long rawE(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }
template <class F> static F real(const char* name) { return (F)dlsym(RTLD_NEXT, name); }

namespace sim {
Tune tune;
std::function<void(const std::string&)> onDeadlock;
std::function<void()> onSigpipe;
std::function<bool(const std::string&, std::vector<uint32_t>&)> resolver;
std::function<bool(const std::string&, std::vector<std::string>&)> dnsTxt;
uint64_t wallBase = 1735689600ull * 1000000000ull; // 2025-01-01

enum St { RUN, BLOCK, DONE, DEAD };
enum WK { W_NONE, W_MUTEX, W_COND, W_FUTEX, W_JOIN, W_EPOLL, W_SLEEP, W_ONCE, W_RW, W_SIG };
struct Thread {
  int id = 0, node = -1; unsigned gen = 0;
  St st = RUN; int wk = W_NONE; const void* obj = nullptr; uint64_t deadline = UINT64_MAX; bool timedOut = false; bool signaled = false;
  std::atomic<int> go{0};
  void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr; std::function<void()> body; std::string name;
  pthread_t real{};
};
static __thread Thread* self = nullptr;
static __thread int nosched = 0;
static bool active = false;

struct Ev { uint64_t t, seq; std::function<void()> fn; };
struct EvCmp { bool operator()(const Ev* a, const Ev* b) const { return a->t != b->t ? a->t > b->t : a->seq > b->seq; } };

struct Pipe; struct VFd;
struct EpItem { int fd; uint32_t events; epoll_data_t data; bool disabled; uint64_t order; };
enum FT { F_EPOLL, F_EVENT, F_TIMER, F_SOCK };
struct Sock;
struct VFd { FT type; int node; int fd; std::map<int, EpItem> items; uint64_t counter = 0; bool armed = false; uint64_t expiry = 0; uint64_t timerGen = 0; std::shared_ptr<Sock> sock; uint64_t itemOrder = 0; };
struct Seg { std::vector<uint8_t> data; bool fin = false; uint64_t t = 0; };
struct Pipe { // one direction
  std::deque<Seg> flight; size_t flightBytes = 0; std::deque<uint8_t> q; bool finQueued = false, fin = false; bool pumping = false; uint64_t lastT = 0;
};
enum SS { S_NEW, S_BOUND, S_LISTEN, S_CONNECTING, S_CONNECTED, S_CLOSED };
struct Sock {
  int node; int fd = -1; SS st = S_NEW; uint32_t lip = 0, rip = 0; uint16_t lport = 0, rport = 0; int err = 0; bool rst = false; bool rstSeen = false; bool wrShut = false; bool rdShut = false;
  std::shared_ptr<Pipe> in, out; std::weak_ptr<Sock> peer; std::deque<std::shared_ptr<Sock>> backlog; int backlogMax = 128; int peerNode = -1; bool nonblock = false; bool connectDone = false; bool peerGone = false; uint64_t id = 0;
};
static const int FDBASE = 1 << 20; static const int FDPER = 1 << 14;

struct G {
  uint64_t now = 0, steps = 0, evseq = 0, hash = 1469598103934665603ull, sockSeq = 0;
  std::vector<Thread*> threads; std::deque<Thread*> runq;
  std::vector<Ev*> evs;
  Rng dec{1}, content{1}; bool explicitMode = false; std::map<uint64_t, uint64_t> given, taken; uint64_t decN = 0;
  std::map<int, std::map<int, std::unique_ptr<VFd>>> fds; // node+1 -> idx -> fd
  std::map<int, unsigned> gen; std::map<int, int64_t> wall; std::map<int, uint32_t> ip; std::map<uint32_t, int> ipNode;
  std::set<std::pair<int, int>> cut; std::set<int> down, stall; std::vector<std::weak_ptr<Sock>> socks;
  uint64_t maxSteps = 60000000;
  std::map<int, DiskPlan> disk; std::map<int, uint64_t> stepCrash; std::set<int> stepCrashFired;
  std::map<int, std::string> fdPath; std::string root; std::map<std::string, uint64_t> st; std::map<int, uint16_t> ephem;
};
static G* g = nullptr;
static void need() { if (!g) g = new G; }

static void hashIn(uint64_t v) { g->hash = (g->hash ^ v) * 1099511628211ull; g->hash ^= g->hash >> 29; }
static FILE* trf = nullptr;
void traceEvent(uint64_t tag, uint64_t a, uint64_t b) { if (!g) return; hashIn(tag * 0x9E37 + a * 31 + b); if (trf) fprintf(trf, "%lu %lu ev %lu %lu %lu\n", g->steps, g->now, tag, a, b); }
uint64_t traceHash() { return g ? g->hash : 0; }
void decisionsSeed(uint64_t s) { need(); g->dec = Rng(s); g->explicitMode = false; }
void decisionsExplicit(const std::map<uint64_t, uint64_t>& d) { need(); g->explicitMode = true; g->given = d; }
const std::map<uint64_t, uint64_t>& decisionsTaken() { return g->taken; }
uint64_t decisionCount() { return g->decN; }
uint64_t choose(uint64_t n) {
  if (n <= 1) return 0;
  uint64_t i = g->decN++, v = 0;
  if (g->explicitMode) { auto it = g->given.find(i); if (it != g->given.end()) v = it->second % n; }
  else v = g->dec.below(n);
  if (v) g->taken[i] = v;
  hashIn(v + (i << 20));
  return v;
}
bool chance(double p) {
  if (p <= 0) return false;
  uint64_t i = g->decN++, v = 0;
  if (g->explicitMode) { auto it = g->given.find(i); if (it != g->given.end()) v = it->second ? 1 : 0; }
  else v = g->dec.chance(p) ? 1 : 0;
  if (v) g->taken[i] = v;
  hashIn(v + (i << 20));
  return v;
}
bool isActive() { return active; }
uint64_t now() { return g ? g->now : 0; }
void setMaxSteps(uint64_t n) { need(); g->maxSteps = n; }
uint64_t steps() { return g ? g->steps : 0; }
uint64_t randomU64() { return g->content.next(); }
void reseedContent(uint64_t s) { g->content = Rng(s); }
void randomBytes(void* p, size_t n) { uint8_t* b = (uint8_t*)p; while (n) { uint64_t v = g->content.next(); size_t k = n < 8 ? n : 8; memcpy(b, &v, k); b += k; n -= k; } }
void stat(const char* name, uint64_t add) { if (g) g->st[name] += add; }
const std::map<std::string, uint64_t>& stats() { return g->st; }
int currentNode() { return self ? self->node : -1; }
void setCurrentNode(int n) { if (self) { self->node = n; self->gen = g->gen[n]; } }
unsigned nodeGeneration(int n) { return g->gen[n]; }
void setNodeIp(int n, uint32_t ip) { g->ip[n] = ip; g->ipNode[ip] = n; }
void setWallOffset(int n, int64_t o) { g->wall[n] = o; }
int64_t wallOffset(int n) { return g->wall[n]; }
NoSched::NoSched() { ++nosched; }
NoSched::~NoSched() { --nosched; }

static void fwait(std::atomic<int>* p, int v) { raw6(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, v, 0); }
static void fwake(std::atomic<int>* p) { raw6(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1); }

static void pushEv(uint64_t t, std::function<void()> fn) {
  Ev* e = new Ev{t < g->now ? g->now : t, g->evseq++, std::move(fn)};
  g->evs.push_back(e); std::push_heap(g->evs.begin(), g->evs.end(), EvCmp());
}
void at(uint64_t t, std::function<void()> fn) { pushEv(t, std::move(fn)); }
static void makeRun(Thread* t) { if (t->st == BLOCK) { t->st = RUN; t->wk = W_NONE; t->deadline = UINT64_MAX; g->runq.push_back(t); } }
static void runDue() {
  ++nosched;
  while (!g->evs.empty() && g->evs.front()->t <= g->now) {
    std::pop_heap(g->evs.begin(), g->evs.end(), EvCmp()); Ev* e = g->evs.back(); g->evs.pop_back();
    hashIn(e->t ^ 0xE0E0); e->fn(); delete e;
  }
  for (auto t : g->threads) if (t->st == BLOCK && t->deadline <= g->now) { t->timedOut = true; makeRun(t); }
  --nosched;
}
std::string dumpThreads() {
  std::string s; char b[256]; static const char* wk[] = {"-", "mutex", "cond", "futex", "join", "epoll", "sleep", "once", "rw", "signal"}; static const char* st[] = {"run", "block", "done", "dead"};
  for (auto t : g->threads) { if (t->st == DONE || t->st == DEAD) continue; snprintf(b, sizeof b, "T%d node%d %s %s/%s dl=%s; ", t->id, t->node, t->name.c_str(), st[t->st], wk[t->wk], t->deadline == UINT64_MAX ? "-" : std::to_string((t->deadline - g->now) / 1000000).c_str()); s += b; }
  return s;
}
// picks the next thread to run; never returns null (deadlock handler does not return)
static Thread* pick() {
  for (;;) {
    runDue();
    while (!g->runq.empty()) {
      size_t n = g->runq.size();
      size_t i = n > 1 ? (tune.preempt > 0 ? choose(n) : 0) : 0;
      Thread* t = g->runq[i]; g->runq.erase(g->runq.begin() + i);
      if (t->st != RUN) continue;
      return t;
    }
    uint64_t nx = UINT64_MAX;
    if (!g->evs.empty()) nx = g->evs.front()->t;
    for (auto t : g->threads) if (t->st == BLOCK && t->deadline < nx) nx = t->deadline;
    if (nx == UINT64_MAX) {
      std::string d = dumpThreads();
      if (onDeadlock) onDeadlock(d);
      fprintf(stderr, "sim: deadlock: %s\n", d.c_str()); _exit(97);
    }
    if (nx > g->now) g->now = nx;
  }
}
static void handoff(Thread* next) {
  hashIn(0x7000 + next->id);
  if (trf) fprintf(trf, "%lu %lu sw %d->%d dec=%lu\n", g->steps, g->now, self->id, next->id, g->decN);
  if (next == self) return;
  Thread* me = self;
  next->go.store(1, std::memory_order_release); fwake(&next->go);
  while (me->go.load(std::memory_order_acquire) == 0) fwait(&me->go, 0);
  me->go.store(0, std::memory_order_relaxed);
}
static bool block(int wk, const void* obj, uint64_t deadline) { // returns timedOut
  self->st = BLOCK; self->wk = wk; self->obj = obj; self->deadline = deadline; self->timedOut = false;
  handoff(pick());
  self->obj = nullptr;
  return self->timedOut;
}
static void yieldNow() { self->st = RUN; g->runq.push_back(self); handoff(pick()); }
static void die() { self->st = DEAD; handoff(pick()); abort(); }
static void kstep() {
  ++g->steps; g->now += 300;
  if (g->steps == g->maxSteps && onDeadlock) { g->maxSteps = 0; onDeadlock("step limit reached (live-lock): " + dumpThreads()); }
  if (!nosched && self->node >= 0 && !g->stepCrash.empty()) {
    auto it = g->stepCrash.find(self->node);
    if (it != g->stepCrash.end() && g->steps >= it->second) { int n = self->node; g->stepCrash.erase(it); g->stepCrashFired.insert(n); stat("fault.crash.step"); killNode(n); if (self->st == DEAD) die(); }
  }
}
static void syncPoint(double handoff = 0) {
  if (nosched) return;
  kstep();
  if (!g->evs.empty() && g->evs.front()->t <= g->now) runDue();
  if (tune.preempt > 0 && !g->runq.empty() && chance(std::max(tune.preempt, handoff))) { stat("sched.preempt"); yieldNow(); }
}
void yieldPoint() { kstep(); runDue(); if (!g->runq.empty()) yieldNow(); }
void armCrashAtStep(int node, uint64_t s) { g->stepCrash[node] = g->steps + s; g->stepCrashFired.erase(node); }
bool stepCrashFired(int node) { return g->stepCrashFired.count(node) != 0; }

static void* trampoline(void* p) {
  Thread* t = (Thread*)p; self = t;
  while (t->go.load(std::memory_order_acquire) == 0) fwait(&t->go, 0);
  t->go.store(0);
  if (t->body) t->body(); else t->ret = t->fn(t->arg);
  t->st = DONE;
  for (auto o : g->threads) if (o->st == BLOCK && o->wk == W_JOIN && o->obj == t) makeRun(o);
  handoff(pick());
  for (;;) raw6(SYS_pause);
}
static Thread* newThread(int node) { Thread* t = new Thread; t->id = (int)g->threads.size(); t->node = node; t->gen = g->gen[node]; g->threads.push_back(t); return t; }
static int launch(Thread* t) {
  static auto rc = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 4 << 20);
  ++nosched; int r = rc(&t->real, &a, trampoline, t); --nosched;
  pthread_attr_destroy(&a);
  if (r) return r;
  g->runq.push_back(t);
  return 0;
}
Tid spawn(int node, const std::string& name, std::function<void()> fn) {
  Thread* t = newThread(node); t->name = name; t->body = std::move(fn);
  if (launch(t)) { fprintf(stderr, "sim: pthread_create failed\n"); _exit(98); }
  return t->id;
}
bool threadDied(Tid id) { return g->threads[id]->st == DEAD; }
bool joinFor(Tid id, uint64_t to) {
  Thread* t = g->threads[id]; uint64_t dl = to == UINT64_MAX ? UINT64_MAX : g->now + to;
  while (t->st != DONE && t->st != DEAD) { if (g->now >= dl) return false; if (block(W_JOIN, t, dl) && t->st != DONE && t->st != DEAD) return false; }
  return true;
}
void sleepNs(uint64_t ns) { kstep(); block(W_SLEEP, nullptr, g->now + ns); }
bool waitUntil(const std::function<bool()>& pred, uint64_t to, uint64_t poll) {
  uint64_t dl = g->now + to;
  for (;;) { if (pred()) return true; if (g->now >= dl) return false; block(W_SLEEP, nullptr, std::min(dl, g->now + poll)); }
}
bool Signal::wait(uint64_t to) { if (n) { n = 0; return true; } block(W_SIG, this, to == UINT64_MAX ? to : g->now + to); bool r = n != 0; n = 0; return r; }
void Signal::raise() { ++n; for (auto t : g->threads) if (t->st == BLOCK && t->wk == W_SIG && t->obj == this) makeRun(t); }
static void closeSock(const std::shared_ptr<Sock>& s, bool rst);
void killNode(int node) {
  ++g->gen[node]; traceEvent(0xDEAD, node);
  for (auto t : g->threads) if (t->node == node && t->st != DONE) { t->st = DEAD; for (auto o : g->threads) if (o->st == BLOCK && o->wk == W_JOIN && o->obj == t) makeRun(o); }
  g->runq.erase(std::remove_if(g->runq.begin(), g->runq.end(), [](Thread* t) { return t->st == DEAD; }), g->runq.end());
  auto it = g->fds.find(node);
  if (it != g->fds.end()) { for (auto& f : it->second) if (f.second->sock) closeSock(f.second->sock, false); it->second.clear(); }
  g->disk.erase(node);
}
void start(uint64_t contentSeed, const std::string& root) {
  need(); g->content = Rng(contentSeed); g->root = root;
  Thread* t = newThread(-1); t->name = "controller"; self = t; active = true;
  if (getenv("SIM_TRACE")) { trf = fopen(getenv("SIM_TRACE"), "w"); setvbuf(trf, nullptr, _IOLBF, 4096); }
}

// ---------------------------------------------------------------- descriptors
static int nodeOfFd(int fd) { return (fd - FDBASE) / FDPER - 1; }
static VFd* getFd(int fd) {
  if (!g || fd < FDBASE) return nullptr;
  auto a = g->fds.find(nodeOfFd(fd)); if (a == g->fds.end()) return nullptr;
  auto b = a->second.find((fd - FDBASE) % FDPER); return b == a->second.end() ? nullptr : b->second.get();
}
static bool isV(int fd) { return active && fd >= FDBASE; }
static VFd* newFd(FT t) {
  int node = self->node; auto& m = g->fds[node]; int i = 0; for (auto& k : m) { if (k.first != i) break; ++i; }
  auto v = std::unique_ptr<VFd>(new VFd); v->type = t; v->node = node; v->fd = FDBASE + (node + 1) * FDPER + i; VFd* r = v.get(); m[i] = std::move(v); return r;
}
static uint32_t sockEvents(Sock* s) {
  uint32_t e = 0;
  if (s->st == S_LISTEN) return s->backlog.empty() ? 0 : EPOLLIN;
  if (s->st == S_CONNECTING) return 0;
  if (s->st == S_NEW || s->st == S_BOUND) return EPOLLOUT | EPOLLHUP;
  if (s->err && !s->connectDone) return EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP;
  if (s->rst) return EPOLLIN | EPOLLOUT | (s->rstSeen ? 0 : EPOLLERR) | EPOLLHUP | EPOLLRDHUP;
  if (s->in && (!s->in->q.empty() || s->in->fin)) e |= EPOLLIN;
  if (s->in && s->in->fin) e |= EPOLLRDHUP;
  if (s->in && s->in->fin && s->wrShut) e |= EPOLLHUP;
  if (s->out) { size_t used = s->out->flightBytes + s->out->q.size(); if (used < tune.sockBuf * 2 / 3 || s->peerGone) e |= EPOLLOUT; }
  return e;
}
static uint32_t fdEvents(int fd) {
  VFd* v = getFd(fd); if (!v) return 0;
  switch (v->type) { case F_EVENT: return (v->counter ? EPOLLIN : 0) | EPOLLOUT; case F_TIMER: return v->counter ? EPOLLIN : 0; case F_SOCK: return sockEvents(v->sock.get()); default: return 0; }
}
static void notifyNode(int node) { for (auto t : g->threads) if (t->st == BLOCK && t->wk == W_EPOLL && t->node == node) makeRun(t); }

// ---------------------------------------------------------------- network
static std::pair<int, int> pr(int a, int b) { return a < b ? std::make_pair(a, b) : std::make_pair(b, a); }
void setLink(int a, int b, bool up) { if (up) g->cut.erase(pr(a, b)); else g->cut.insert(pr(a, b)); traceEvent(0xC07, a * 64 + b, up); }
bool linkUp(int a, int b) { return !g->cut.count(pr(a, b)) && !g->down.count(a) && !g->down.count(b); }
void setHostDown(int n, bool d) { if (d) g->down.insert(n); else g->down.erase(n); }
void setStall(int n, bool s) { if (s) g->stall.insert(n); else g->stall.erase(n); }
static uint64_t latency() { uint64_t l = tune.netMinLat; if (tune.netJitter) l += choose(16) * (tune.netJitter / 16); return l; }
static void pump(std::shared_ptr<Sock> dst, std::shared_ptr<Pipe> p) {
  if (p->flight.empty()) { p->pumping = false; return; }
  Seg& s = p->flight.front();
  if (s.t > g->now) { pushEv(s.t, [dst, p] { pump(dst, p); }); return; }
  if ((dst->peerNode >= -1 && dst->node != dst->peerNode && !linkUp(dst->node, dst->peerNode)) || g->stall.count(dst->node)) { stat("fault.net.held"); pushEv(g->now + 300000000ull, [dst, p] { pump(dst, p); }); return; }
  if (s.fin) p->fin = true; else { if (dst->st == S_CLOSED || dst->rdShut) { /* data to a closed socket: RST back */ auto src = dst->peer.lock(); if (src && src->st == S_CONNECTED) { src->rst = true; src->peerGone = true; notifyNode(src->node); } } else p->q.insert(p->q.end(), s.data.begin(), s.data.end()); p->flightBytes -= s.data.size(); }
  p->flight.pop_front();
  notifyNode(dst->node);
  if (p->flight.empty()) { p->pumping = false; return; }
  pushEv(std::max(p->flight.front().t, g->now), [dst, p] { pump(dst, p); });
}
static void enqueue(Sock* from, Seg seg) {
  auto dst = from->peer.lock(); auto p = from->out; if (!dst) return;
  seg.t = std::max(p->lastT, g->now + latency()); p->lastT = seg.t; p->flightBytes += seg.data.size(); p->flight.push_back(std::move(seg));
  if (!p->pumping) { p->pumping = true; pushEv(p->flight.front().t, [dst, p] { pump(dst, p); }); }
}
static bool up(Sock* s) { return s->st == S_CONNECTED || (s->st == S_CONNECTING && s->in); }
static void rstArrive(std::shared_ptr<Sock> p, int sn) { // lost while the link is down; a retransmission or probe meets it later
  if (!up(p.get())) return; if (p->node != sn && !linkUp(p->node, sn)) { stat("fault.net.rst_lost"); pushEv(g->now + 300000000ull, [p, sn] { rstArrive(p, sn); }); return; }
  p->rst = true; p->peerGone = true; notifyNode(p->node);
}
static void rstPeer(const std::shared_ptr<Sock>& s) { auto p = s->peer.lock(); if (!p || !up(p.get())) return; int sn = s->node; pushEv(g->now + tune.netMinLat, [p, sn] { rstArrive(p, sn); }); }
static void closeSock(const std::shared_ptr<Sock>& s, bool rst) {
  if (s->st == S_CLOSED) return;
  SS old = s->st; s->st = S_CLOSED;
  if (old == S_LISTEN) { for (auto& b : s->backlog) { b->st = S_CONNECTED; closeSock(b, true); } s->backlog.clear(); return; }
  if (old == S_CONNECTING && s->in) rstPeer(s); // the answer to the connection request meets a closed socket
  if (old == S_CONNECTED) {
    bool unread = s->in && (!s->in->q.empty());
    if (rst || unread || s->rst) rstPeer(s);
    else if (!s->wrShut) { s->wrShut = true; Seg f; f.fin = true; enqueue(s.get(), f); }
  }
}
void resetConnections(int a, int b) {
  for (auto& w : g->socks) { auto s = w.lock(); if (s && up(s.get()) && s->node == a && (b < -1 || s->peerNode == b)) { stat("fault.net.reset"); auto p = s->peer.lock(); s->rst = true; s->peerGone = true; notifyNode(s->node); if (p && up(p.get())) { p->rst = true; p->peerGone = true; notifyNode(p->node); } } }
}
size_t openSockets(int node) { size_t n = 0; for (auto& f : g->fds[node]) if (f.second->type == F_SOCK) ++n; return n; }
static std::shared_ptr<Sock> findListener(uint32_t ip, uint16_t port) {
  auto it = g->ipNode.find(ip); int node = it != g->ipNode.end() ? it->second : -2;
  if ((ip >> 24) == 127) node = self ? self->node : -2;
  if (node == -2) return nullptr;
  for (auto& f : g->fds[node]) if (f.second->sock && f.second->sock->st == S_LISTEN && f.second->sock->lport == port) return f.second->sock;
  return nullptr;
}

// ---------------------------------------------------------------- files
static bool inRoot(const char* p) { return active && !g->root.empty() && p && strncmp(p, g->root.c_str(), g->root.size()) == 0; }
struct FsDec { int act; int err; size_t n; }; // act 0 ok, 1 error, 2 short
static bool mutating(FsKind k) { return k != FS_READ; }
void armDisk(int node, const DiskPlan& p) { g->disk[node] = p; }
DiskPlan& diskPlan(int node) { return g->disk[node]; }
static FsDec fsOp(FsKind k, const std::string& path, size_t n) {
  if (nosched || !self || self->node < 0) return {0, 0, n};
  syncPoint();
  traceEvent(0xF5 + k, n, path.size());
  auto it = g->disk.find(self->node); if (it == g->disk.end()) return {0, 0, n};
  DiskPlan& d = it->second; if (!d.only.empty() && path.find(d.only) == std::string::npos) return {0, 0, n};
  if (!mutating(k)) { uint64_t i = d.seenReads++; if (d.readErrAt >= 0 && (int64_t)i == d.readErrAt) { stat("fault.disk.readerr"); d.errsFired++; return {1, EIO, 0}; } return {0, 0, n}; }
  uint64_t i = d.seen++;
  if (d.crashAt >= 0 && (int64_t)i == d.crashAt) {
    if (getenv("SIM_DEBUG")) fprintf(stderr, "crash at fs op %lu kind %d %s n=%zu mode %d\n", i, k, path.c_str(), n, d.crashMode);
    if (k == FS_WRITE && d.crashMode == 1 && n > 1) return {3, 0, (size_t)mix64(i * 77 + n)}; // cut decided where the file offset is known
    if (d.crashMode == 2) { stat("fault.disk.crash_after"); return {4, 0, n}; }
    stat("fault.disk.crash_before"); int node = self->node; d.crashed = true; killNode(node); die();
  }
  if (d.errAt >= 0 && (int64_t)i >= d.errAt && (int64_t)i < d.errAt + d.errCount) {
    d.errsFired++; 
    if (k == FS_WRITE && d.errShort && (int64_t)i == d.errAt && n > 1) { stat("fault.disk.short"); return {2, 0, 1 + (size_t)(mix64(i * 31 + n) % (n - 1))}; }
    if (k == FS_CLOSE || k == FS_UNLINK) return {0, 0, n};
    stat(d.errNo == ENOSPC ? "fault.disk.enospc" : "fault.disk.eio"); return {1, d.errNo ? d.errNo : EIO, 0};
  }
  return {0, 0, n};
}
void dieHere() { killNode(self->node); die(); }
static void crashNow() { int node = self->node; g->disk[node].crashed = true; killNode(node); die(); }
static std::string pathOf(int fd) { if (!active) return std::string(); auto it = g->fdPath.find(fd); return it == g->fdPath.end() ? std::string() : it->second; }

static uint64_t wallNs() { return wallBase + g->now + (self ? g->wall[self->node] : 0); }
static uint64_t monoNs() { return 1000000000000ull + g->now; }
} // namespace sim

using namespace sim;
#define ACT (sim::active && sim::self)

// ---------------------------------------------------------------- time
extern "C" int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!ACT) return (int)rawE(raw6(SYS_clock_gettime, c, (long)ts));
  if (c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) { ts->tv_sec = g->now / 1000000000ull; ts->tv_nsec = g->now % 1000000000ull; return 0; }
  if (!nosched) g->now += 100;
  uint64_t t = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? wallNs() : monoNs();
  ts->tv_sec = t / 1000000000ull; ts->tv_nsec = t % 1000000000ull; return 0;
}
extern "C" time_t time(time_t* t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
extern "C" int gettimeofday(struct timeval* tv, void*) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
extern "C" int nanosleep(const struct timespec* r, struct timespec* rem) { if (!ACT) return (int)rawE(raw6(SYS_nanosleep, (long)r, (long)rem)); sim::sleepNs(r->tv_sec * 1000000000ull + r->tv_nsec); return 0; }
extern "C" int clock_nanosleep(clockid_t c, int flags, const struct timespec* r, struct timespec* rem) {
  if (!ACT) return (int)-raw6(SYS_clock_nanosleep, c, flags, (long)r, (long)rem);
  uint64_t t = r->tv_sec * 1000000000ull + r->tv_nsec; if (flags & TIMER_ABSTIME) { uint64_t n = c == CLOCK_REALTIME ? wallNs() : monoNs(); t = t > n ? t - n : 0; }
  sim::sleepNs(t); return 0;
}
extern "C" int usleep(useconds_t u) { if (!ACT) { struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); } sim::sleepNs(u * 1000ull); return 0; }
extern "C" unsigned sleep(unsigned s) { if (!ACT) { struct timespec t = {(time_t)s, 0}; nanosleep(&t, nullptr); return 0; } sim::sleepNs(s * 1000000000ull); return 0; }
extern "C" int sched_yield(void) { if (!ACT) return 0; g->now += 1000; sim::yieldPoint(); return 0; }
extern "C" int get_nprocs(void) { return tune.ncpu; }

// ---------------------------------------------------------------- randomness
extern "C" ssize_t getrandom(void* b, size_t n, unsigned f) { if (!ACT) return rawE(raw6(SYS_getrandom, (long)b, n, f)); sim::randomBytes(b, n); return n; }
extern "C" int getentropy(void* b, size_t n) { getrandom(b, n, 0); return 0; }
extern "C" uint32_t arc4random(void) { uint32_t v; getrandom(&v, 4, 0); return v; }
extern "C" void arc4random_buf(void* b, size_t n) { getrandom(b, n, 0); }
namespace std { unsigned int random_device::_M_getval() { unsigned v; getrandom(&v, sizeof v, 0); return v; } unsigned int random_device::_M_getval_pretr1() { return _M_getval(); } }
extern "C" void generate_random_bytes(size_t n, void* p) { getrandom(p, n, 0); }

// ---------------------------------------------------------------- mutexes, conditions, threads
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!ACT) return 0;
  auto& d = m->__data; int me = self->id + 1; int kind = d.__kind & 3;
  syncPoint();
  if (d.__owner == me) { if (kind == PTHREAD_MUTEX_RECURSIVE) { ++d.__count; return 0; } if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; }
  while (d.__owner != 0) { stat("sched.contended"); block(W_MUTEX, m, UINT64_MAX); }
  d.__owner = me; d.__count = 0; return 0;
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!ACT) return 0;
  auto& d = m->__data; int me = self->id + 1; syncPoint();
  if (d.__owner == me && (d.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++d.__count; return 0; }
  if (d.__owner != 0) return EBUSY;
  d.__owner = me; d.__count = 0; return 0;
}
static bool mutexRelease(pthread_mutex_t* m) { auto& d = m->__data; d.__owner = 0; d.__count = 0; bool w = false; for (auto t : g->threads) if (t->st == BLOCK && t->wk == W_MUTEX && t->obj == m) makeRun(t), w = true; return w; }
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!ACT) return 0;
  auto& d = m->__data; if (d.__owner == self->id + 1 && d.__count > 0) { --d.__count; return 0; }
  if (d.__owner != self->id + 1) { stat("mutex.foreign_unlock"); if ((d.__kind & 3) != 0) return EPERM; }
  syncPoint(mutexRelease(m) ? tune.handoff : 0); return 0;
}
extern "C" int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
struct CondX { uint32_t clock; };
static uint32_t& condClock(pthread_cond_t* c) { return *(uint32_t*)((char*)c + 40); }
extern "C" int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { memset(c, 0, sizeof *c); if (a) { clockid_t k = 0; pthread_condattr_getclock(a, &k); condClock(c) = k; } return 0; }
extern "C" int pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline) {
  kstep();
  int cnt = m->__data.__count; 
  if (tune.spurious > 0 && chance(tune.spurious)) { stat("fault.spurious_wakeup"); mutexRelease(m); yieldNow(); while (m->__data.__owner != 0) block(W_MUTEX, m, UINT64_MAX); m->__data.__owner = self->id + 1; m->__data.__count = cnt; return 0; }
  mutexRelease(m); self->signaled = false;
  bool to = block(W_COND, c, deadline);
  while (m->__data.__owner != 0) block(W_MUTEX, m, UINT64_MAX);
  m->__data.__owner = self->id + 1; m->__data.__count = cnt;
  return to ? ETIMEDOUT : 0;
}
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!ACT) return 0; return condWait(c, m, UINT64_MAX); }
static uint64_t absToSim(clockid_t k, const struct timespec* t) { uint64_t v = (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec, n = k == CLOCK_MONOTONIC ? monoNs() : wallNs(); return v > n ? g->now + (v - n) : g->now; }
extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { if (!ACT) return ETIMEDOUT; return condWait(c, m, absToSim(condClock(c), t)); }
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { if (!ACT) return ETIMEDOUT; return condWait(c, m, absToSim(k, t)); }
extern "C" int pthread_cond_signal(pthread_cond_t* c) {
  if (!ACT) return 0; std::vector<Thread*> w; for (auto t : g->threads) if (t->st == BLOCK && t->wk == W_COND && t->obj == c) w.push_back(t);
  if (!w.empty()) makeRun(w[w.size() > 1 ? choose(w.size()) : 0]); syncPoint(); return 0;
}
extern "C" int pthread_cond_broadcast(pthread_cond_t* c) { if (!ACT) return 0; for (auto t : g->threads) if (t->st == BLOCK && t->wk == W_COND && t->obj == c) makeRun(t); syncPoint(); return 0; }
extern "C" int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (*o == 2) return 0;
  if (!ACT) { *o = 2; fn(); return 0; }
  while (*o == 1) block(W_ONCE, o, g->now + 1000000);
  if (*o == 2) return 0;
  *o = 1; try { fn(); } catch (...) { *o = 0; throw; } *o = 2; return 0;
}
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if (!ACT) return 0; auto& d = l->__data; syncPoint(); while (d.__cur_writer || d.__readers) block(W_RW, l, UINT64_MAX); d.__cur_writer = self->id + 1; return 0; }
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if (!ACT) return 0; auto& d = l->__data; syncPoint(); while (d.__cur_writer) block(W_RW, l, UINT64_MAX); ++d.__readers; return 0; }
extern "C" int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if (!ACT) return 0; auto& d = l->__data; if (d.__cur_writer) return EBUSY; ++d.__readers; return 0; }
extern "C" int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if (!ACT) return 0; auto& d = l->__data; if (d.__cur_writer || d.__readers) return EBUSY; d.__cur_writer = self->id + 1; return 0; }
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t* l) { if (!ACT) return 0; auto& d = l->__data; if (d.__cur_writer) d.__cur_writer = 0; else if (d.__readers) --d.__readers; for (auto t : g->threads) if (t->st == BLOCK && t->wk == W_RW && t->obj == l) makeRun(t); return 0; }

extern "C" int pthread_create(pthread_t* out, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (!ACT) { static auto rc = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create"); return rc(out, a, fn, arg); }
  Thread* t = newThread(self->node); t->fn = fn; t->arg = arg; t->name = "t";
  int r = launch(t); if (r) return r; *out = t->real; stat("threads.created");
  syncPoint(); return 0;
}
static Thread* byReal(pthread_t p) { for (auto it = g->threads.rbegin(); it != g->threads.rend(); ++it) if ((*it)->real == p && (*it)->id != 0) return *it; return nullptr; }
extern "C" int pthread_join(pthread_t p, void** ret) {
  if (!ACT) { static auto rj = real<int (*)(pthread_t, void**)>("pthread_join"); return rj(p, ret); }
  Thread* t = byReal(p); if (!t) return ESRCH; if (t == self) return EDEADLK; kstep();
  while (t->st != DONE) block(W_JOIN, t, UINT64_MAX);
  if (ret) *ret = t->ret; return 0;
}
extern "C" int pthread_detach(pthread_t p) { if (!ACT) { static auto rd = real<int (*)(pthread_t)>("pthread_detach"); return rd(p); } return 0; }

static long simFutex(uint32_t* addr, int op, uint32_t val, const struct timespec* to) {
  int cmd = op & FUTEX_CMD_MASK;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    syncPoint();
    if (__atomic_load_n(addr, __ATOMIC_ACQUIRE) != val) { errno = EAGAIN; return -1; }
    uint64_t dl = UINT64_MAX;
    if (to) { if (cmd == FUTEX_WAIT) dl = g->now + to->tv_sec * 1000000000ull + to->tv_nsec; else dl = absToSim((op & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, to); }
    if (block(W_FUTEX, addr, dl)) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) { long n = 0; for (auto t : g->threads) if (n < (long)val && t->st == BLOCK && t->wk == W_FUTEX && t->obj == addr) { makeRun(t); ++n; } syncPoint(); return n; }
  errno = ENOSYS; return -1;
}
extern "C" long syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a[6]; for (int i = 0; i < 6; ++i) a[i] = va_arg(ap, long); va_end(ap);
  if (ACT) {
    if (n == SYS_futex) return simFutex((uint32_t*)a[0], (int)a[1], (uint32_t)a[2], (const struct timespec*)a[3]);
    if (n == SYS_getrandom) return getrandom((void*)a[0], a[1], a[2]);
    if (n == SYS_clock_gettime) return clock_gettime(a[0], (struct timespec*)a[1]);
  }
  return rawE(raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]));
}

// ---------------------------------------------------------------- epoll / eventfd / timerfd
extern "C" int epoll_create1(int f) { if (!ACT) return (int)rawE(raw6(SYS_epoll_create1, f)); return newFd(F_EPOLL)->fd; }
extern "C" int eventfd(unsigned c, int f) { if (!ACT) return (int)rawE(raw6(SYS_eventfd2, c, f)); VFd* v = newFd(F_EVENT); v->counter = c; return v->fd; }
extern "C" int timerfd_create(int, int) { return newFd(F_TIMER)->fd; }
extern "C" int timerfd_settime(int fd, int, const struct itimerspec* n, struct itimerspec*) {
  VFd* v = getFd(fd); if (!v || v->type != F_TIMER) { errno = EBADF; return -1; }
  if (n->it_value.tv_nsec < 0 || n->it_value.tv_nsec > 999999999 || n->it_value.tv_sec < 0) { errno = EINVAL; return -1; }
  kstep(); v->counter = 0; uint64_t gen = ++v->timerGen; uint64_t d = n->it_value.tv_sec * 1000000000ull + n->it_value.tv_nsec; v->armed = d != 0;
  if (d) { int node = v->node; unsigned ng = g->gen[node]; v->expiry = g->now + d; pushEv(v->expiry, [fd, gen, node, ng] { if (g->gen[node] != ng) return; VFd* x = getFd(fd); if (x && x->type == F_TIMER && x->timerGen == gen) { x->counter = 1; x->armed = false; notifyNode(node); } }); }
  return 0;
}
extern "C" int epoll_ctl(int ep, int op, int fd, struct epoll_event* ev) {
  if (!isV(ep)) return (int)rawE(raw6(SYS_epoll_ctl, ep, op, fd, (long)ev));
  VFd* e = getFd(ep); if (!e || e->type != F_EPOLL || !getFd(fd)) { errno = EBADF; return -1; }
  syncPoint();
  auto it = e->items.find(fd);
  if (op == EPOLL_CTL_ADD) { if (it != e->items.end()) { errno = EEXIST; return -1; } e->items[fd] = EpItem{fd, ev->events, ev->data, false, ++e->itemOrder}; }
  else if (op == EPOLL_CTL_MOD) { if (it == e->items.end()) { errno = ENOENT; return -1; } it->second.events = ev->events; it->second.data = ev->data; it->second.disabled = false; it->second.order = ++e->itemOrder; }
  else { if (it == e->items.end()) { errno = ENOENT; return -1; } e->items.erase(it); }
  notifyNode(e->node);
  return 0;
}
extern "C" int epoll_wait(int ep, struct epoll_event* evs, int max, int timeout) {
  if (!isV(ep)) return (int)rawE(raw6(SYS_epoll_wait, ep, (long)evs, max, timeout));
  uint64_t dl = timeout < 0 ? UINT64_MAX : g->now + timeout * 1000000ull;
  for (;;) {
    syncPoint();
    VFd* e = getFd(ep); if (!e || e->type != F_EPOLL) { errno = EBADF; return -1; }
    if (tune.eintr > 0 && timeout != 0 && chance(tune.eintr)) { stat("fault.eintr"); errno = EINTR; return -1; }
    std::vector<EpItem*> ready;
    for (auto& i : e->items) { auto& it = i.second; if (it.disabled) continue; uint32_t r = fdEvents(it.fd) & (it.events | EPOLLERR | EPOLLHUP); if (r) ready.push_back(&it); }
    if (!ready.empty()) {
      std::sort(ready.begin(), ready.end(), [](EpItem* a, EpItem* b) { return a->order < b->order; });
      if (tune.shuffleEpoll > 0 && ready.size() > 1 && chance(tune.shuffleEpoll)) { for (size_t i = 0; i + 1 < ready.size(); ++i) std::swap(ready[i], ready[i + choose(ready.size() - i)]); stat("sched.epoll_shuffle"); }
      int n = 0; for (auto it : ready) { if (n == max) break; evs[n].events = fdEvents(it->fd) & (it->events | EPOLLERR | EPOLLHUP); evs[n].data = it->data; if (it->events & EPOLLONESHOT) it->disabled = true; it->order = ++e->itemOrder; ++n; }
      return n;
    }
    if (timeout == 0 || g->now >= dl) return 0;
    block(W_EPOLL, e, dl);
  }
}

// ---------------------------------------------------------------- sockets
extern "C" int socket(int dom, int type, int proto) {
  if (!ACT) return (int)rawE(raw6(SYS_socket, dom, type, proto));
  if (dom != AF_INET || (type & 0xf) != SOCK_STREAM) { errno = EAFNOSUPPORT; return -1; }
  syncPoint(); if (tune.socketFail > 0 && chance(tune.socketFail)) { stat("fault.net.emfile"); errno = EMFILE; return -1; }
  VFd* v = newFd(F_SOCK); v->sock = std::make_shared<Sock>(); v->sock->node = v->node; v->sock->fd = v->fd; v->sock->lip = g->ip[v->node]; v->sock->id = ++g->sockSeq; g->socks.push_back(v->sock); return v->fd;
}
static Sock* sk(int fd) { VFd* v = getFd(fd); if (!v || v->type != F_SOCK) { errno = EBADF; return nullptr; } return v->sock.get(); }
extern "C" int bind(int fd, const struct sockaddr* a, socklen_t l) {
  if (!isV(fd)) return (int)rawE(raw6(SYS_bind, fd, (long)a, l));
  Sock* s = sk(fd); if (!s) return -1; uint16_t port = ntohs(((const sockaddr_in*)a)->sin_port);
  if (port) for (auto& f : g->fds[s->node]) if (f.second->sock && f.second->sock.get() != s && f.second->sock->st == S_LISTEN && f.second->sock->lport == port) { errno = EADDRINUSE; return -1; }
  s->lport = port; s->st = S_BOUND; return 0;
}
extern "C" int listen(int fd, int n) { if (!isV(fd)) return (int)rawE(raw6(SYS_listen, fd, n)); Sock* s = sk(fd); if (!s) return -1; s->st = S_LISTEN; s->backlogMax = n; return 0; }
static void finishConnect(std::shared_ptr<Sock> c, unsigned gen, int attempt);
extern "C" int connect(int fd, const struct sockaddr* a, socklen_t l) {
  if (!isV(fd)) return (int)rawE(raw6(SYS_connect, fd, (long)a, l));
  Sock* s = sk(fd); if (!s) return -1; syncPoint();
  const sockaddr_in* in = (const sockaddr_in*)a; s->rip = ntohl(in->sin_addr.s_addr); s->rport = ntohs(in->sin_port); s->st = S_CONNECTING;
  if (!s->lport) s->lport = 40000 + (g->ephem[s->node]++ % 20000);
  auto sp = getFd(fd)->sock; unsigned gen = g->gen[s->node];
  if (tune.connectFail > 0 && chance(tune.connectFail)) { stat("fault.net.connfail"); pushEv(g->now + latency(), [sp] { if (sp->st == S_CONNECTING) { sp->st = S_CONNECTED; sp->err = EHOSTUNREACH; notifyNode(sp->node); } }); errno = EINPROGRESS; return -1; }
  pushEv(g->now + latency(), [sp, gen] { finishConnect(sp, gen, 0); });
  errno = EINPROGRESS; return -1;
}
static void finishConnect(std::shared_ptr<Sock> c, unsigned gen, int attempt) {
  if (c->st != S_CONNECTING || g->gen[c->node] != gen) return;
  int dn = (c->rip >> 24) == 127 ? c->node : (g->ipNode.count(c->rip) ? g->ipNode[c->rip] : -2);
  bool reach = dn != -2 && (dn == c->node || linkUp(c->node, dn));
  if (!reach) { stat("fault.net.syn_lost"); if (attempt >= 6) { c->st = S_CONNECTED; c->err = ETIMEDOUT; notifyNode(c->node); return; } pushEv(g->now + (1000000000ull << attempt), [c, gen, attempt] { finishConnect(c, gen, attempt + 1); }); return; }
  std::shared_ptr<Sock> ls; for (auto& f : g->fds[dn]) if (f.second->sock && f.second->sock->st == S_LISTEN && f.second->sock->lport == c->rport) ls = f.second->sock;
  if (!ls || (int)ls->backlog.size() >= ls->backlogMax) { c->st = S_CONNECTED; c->err = ECONNREFUSED; notifyNode(c->node); return; }
  auto s = std::make_shared<Sock>(); s->node = dn; s->st = S_CONNECTED; s->lip = g->ip[dn]; s->lport = c->rport; s->rip = (c->rip >> 24) == 127 ? c->rip : g->ip[c->node]; s->rport = c->lport; s->peerNode = c->node; c->peerNode = dn; s->id = ++g->sockSeq; g->socks.push_back(s);
  auto p1 = std::make_shared<Pipe>(), p2 = std::make_shared<Pipe>(); c->out = p1; s->in = p1; s->out = p2; c->in = p2; s->peer = c; c->peer = s; s->connectDone = true;
  ls->backlog.push_back(s); notifyNode(dn);
  pushEv(g->now + latency(), [c] { if (c->st == S_CONNECTING) { c->st = S_CONNECTED; c->connectDone = true; notifyNode(c->node); } });
}
static int doAccept(int fd, struct sockaddr* a, socklen_t* l) {
  Sock* s = sk(fd); if (!s) return -1; syncPoint(); s = sk(fd); if (!s) return -1;
  if (s->st != S_LISTEN) { errno = EINVAL; return -1; }
  if (s->backlog.empty()) { errno = EAGAIN; return -1; }
  if (tune.acceptFail > 0 && chance(tune.acceptFail)) { stat("fault.net.accept"); errno = choose(2) ? ECONNABORTED : EMFILE; return -1; }
  auto c = s->backlog.front(); s->backlog.pop_front(); int saved = self->node; VFd* v = newFd(F_SOCK); (void)saved; v->sock = c; c->fd = v->fd;
  if (a && l) { sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_addr.s_addr = htonl(c->rip); in.sin_port = htons(c->rport); memcpy(a, &in, std::min<size_t>(*l, sizeof in)); *l = sizeof in; }
  return v->fd;
}
extern "C" int accept(int fd, struct sockaddr* a, socklen_t* l) { if (!isV(fd)) return (int)rawE(raw6(SYS_accept, fd, (long)a, (long)l)); return doAccept(fd, a, l); }
extern "C" int accept4(int fd, struct sockaddr* a, socklen_t* l, int f) { if (!isV(fd)) return (int)rawE(raw6(SYS_accept4, fd, (long)a, (long)l, f)); return doAccept(fd, a, l); }
static ssize_t doRecv(int fd, void* b, size_t n) {
  Sock* s = sk(fd); if (!s) return -1; syncPoint(); s = sk(fd); if (!s) return -1;
  if (s->err && !s->connectDone) { errno = s->err; return -1; }
  if (s->st != S_CONNECTED) { errno = s->st == S_CONNECTING ? EAGAIN : ENOTCONN; return -1; }
  if (s->rst && s->in->q.empty()) { if (s->rstSeen) return 0; s->rstSeen = true; errno = ECONNRESET; return -1; }
  if (s->in->q.empty()) { if (s->in->fin) return 0; errno = EAGAIN; return -1; }
  size_t k = std::min(n, s->in->q.size()); if (k > 1 && tune.shortRead > 0 && chance(tune.shortRead)) { k = 1 + choose(k - 1); stat("fault.net.short_read"); }
  std::copy(s->in->q.begin(), s->in->q.begin() + k, (uint8_t*)b); s->in->q.erase(s->in->q.begin(), s->in->q.begin() + k);
  traceEvent(0x4EC, s->id, k);
  auto p = s->peer.lock(); if (p) notifyNode(p->node);
  return k;
}
static int brokenPipe(int flags) { if (!(flags & MSG_NOSIGNAL)) { stat("net.sigpipe"); if (onSigpipe) onSigpipe(); } errno = EPIPE; return -1; }
static ssize_t doSend(int fd, const void* b, size_t n, int flags) {
  Sock* s = sk(fd); if (!s) return -1; syncPoint(); s = sk(fd); if (!s) return -1;
  if (s->err && !s->connectDone) { errno = s->err; return -1; }
  if (s->st != S_CONNECTED) { errno = s->st == S_CONNECTING ? EAGAIN : ENOTCONN; return -1; }
  if (s->rst) { if (s->rstSeen) return brokenPipe(flags); s->rstSeen = true; errno = ECONNRESET; return -1; }
  if (s->wrShut) return brokenPipe(flags);
  size_t used = s->out->flightBytes + s->out->q.size(); if (used >= tune.sockBuf) { stat("net.backpressure"); errno = EAGAIN; return -1; }
  size_t k = std::min(n, (size_t)tune.sockBuf - used); if (k < n) stat("net.partial_send");
  if (k > 1 && tune.frag > 0 && chance(tune.frag)) { k = 1 + choose(k - 1); stat("fault.net.short_send"); }
  const uint8_t* p = (const uint8_t*)b; size_t off = 0;
  while (off < k) { size_t m = k - off; if (m > 1 && tune.frag > 0 && chance(tune.frag)) { m = 1 + choose(m - 1); stat("fault.net.fragment"); } Seg sg; sg.data.assign(p + off, p + off + m); enqueue(s, std::move(sg)); off += m; }
  traceEvent(0x5E7D, s->id, k); stat("net.sends"); stat("net.bytes", k);
  return k;
}
extern "C" ssize_t recv(int fd, void* b, size_t n, int f) { if (!isV(fd)) return rawE(raw6(SYS_recvfrom, fd, (long)b, n, f)); return doRecv(fd, b, n); }
extern "C" ssize_t send(int fd, const void* b, size_t n, int f) { if (!isV(fd)) return rawE(raw6(SYS_sendto, fd, (long)b, n, f)); return doSend(fd, b, n, f); }
extern "C" int shutdown(int fd, int how) { if (!isV(fd)) return (int)rawE(raw6(SYS_shutdown, fd, how)); Sock* s = sk(fd); if (!s) return -1; if (s->st != S_CONNECTED || s->rst || (s->err && !s->connectDone)) { errno = ENOTCONN; return -1; } if (how != SHUT_RD && !s->wrShut) { s->wrShut = true; Seg x; x.fin = true; enqueue(s, x); } if (how != SHUT_WR) s->rdShut = true; notifyNode(s->node); return 0; }
extern "C" int getpeername(int fd, struct sockaddr* a, socklen_t* l) { if (!isV(fd)) return (int)rawE(raw6(SYS_getpeername, fd, (long)a, (long)l)); Sock* s = sk(fd); if (!s) return -1; if (s->st != S_CONNECTED || s->rst) { errno = ENOTCONN; return -1; } sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_addr.s_addr = htonl(s->rip); in.sin_port = htons(s->rport); memcpy(a, &in, sizeof in); *l = sizeof in; return 0; }
extern "C" int getsockname(int fd, struct sockaddr* a, socklen_t* l) { if (!isV(fd)) return (int)rawE(raw6(SYS_getsockname, fd, (long)a, (long)l)); Sock* s = sk(fd); if (!s) return -1; sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_addr.s_addr = htonl(s->lip); in.sin_port = htons(s->lport); memcpy(a, &in, sizeof in); *l = sizeof in; return 0; }
extern "C" int setsockopt(int fd, int lv, int o, const void* v, socklen_t l) { if (!isV(fd)) return (int)rawE(raw6(SYS_setsockopt, fd, lv, o, (long)v, l)); return sk(fd) ? 0 : -1; }
extern "C" int getsockopt(int fd, int lv, int o, void* v, socklen_t* l) { if (!isV(fd)) return (int)rawE(raw6(SYS_getsockopt, fd, lv, o, (long)v, (long)l)); Sock* s = sk(fd); if (!s) return -1; if (lv == SOL_SOCKET && o == SO_ERROR) { *(int*)v = s->err; *l = 4; } return 0; }
static int vfcntl(int fd, int cmd, long arg) { Sock* s = sk(fd); if (!s) return -1; if (cmd == F_GETFL) return s->nonblock ? O_RDWR | O_NONBLOCK : O_RDWR; if (cmd == F_SETFL) { s->nonblock = arg & O_NONBLOCK; return 0; } return 0; }
extern "C" int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); if (isV(fd)) return vfcntl(fd, cmd, a); return (int)rawE(raw6(SYS_fcntl, fd, cmd, a)); }
extern "C" int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); if (isV(fd)) return vfcntl(fd, cmd, a); return (int)rawE(raw6(SYS_fcntl, fd, cmd, a)); }

extern "C" int close(int fd) {
  if (!isV(fd)) { if (active) { auto it = g->fdPath.find(fd); if (it != g->fdPath.end()) { std::string p = it->second; g->fdPath.erase(it); fsOp(FS_CLOSE, p, 0); } } return (int)rawE(raw6(SYS_close, fd)); }
  VFd* v = getFd(fd); if (!v) { stat("net.close_bad_fd"); errno = EBADF; return -1; }
  int node = v->node; for (auto& f : g->fds[node]) if (f.second->type == F_EPOLL) f.second->items.erase(fd);
  if (v->sock) closeSock(v->sock, false);
  g->fds[node].erase((fd - FDBASE) % FDPER); syncPoint(); return 0;
}
extern "C" ssize_t read(int fd, void* b, size_t n) {
  if (isV(fd)) {
    VFd* v = getFd(fd); if (!v) { errno = EBADF; return -1; }
    if (v->type == F_SOCK) return doRecv(fd, b, n);
    syncPoint(); v = getFd(fd); if (!v) { errno = EBADF; return -1; }
    if (v->type == F_EVENT || v->type == F_TIMER) { if (!v->counter) { errno = EAGAIN; return -1; } uint64_t c = v->counter; v->counter = 0; memcpy(b, &c, 8); return 8; }
    errno = EINVAL; return -1;
  }
  if (active) { std::string p = pathOf(fd); if (!p.empty()) { FsDec d = fsOp(FS_READ, p, n); if (d.act == 1) { errno = d.err; return -1; } } }
  return rawE(raw6(SYS_read, fd, (long)b, n));
}
static ssize_t fileWrite(int fd, const struct iovec* v, int cnt, off_t off, bool pos) {
  size_t tot = 0; for (int i = 0; i < cnt; ++i) tot += v[i].iov_len;
  std::string p = pathOf(fd);
  if (p.empty()) return pos ? rawE(raw6(SYS_pwritev, fd, (long)v, cnt, off, 0)) : rawE(raw6(SYS_writev, fd, (long)v, cnt));
  FsDec d = fsOp(FS_WRITE, p, tot);
  if (d.act == 1) { errno = d.err; return -1; }
  if (d.act == 3) { // a killed process leaves whole pages of its last write
    off_t at = pos ? off : (off_t)raw6(SYS_lseek, fd, 0, SEEK_CUR); size_t first = 4096 - (size_t)(at % 4096), cuts = tot > first ? 1 + (tot - first - 1) / 4096 : 0;
    size_t k = d.n % (cuts + 2); d.n = k == 0 ? 0 : k == cuts + 1 ? tot : first + (k - 1) * 4096; stat(d.n && d.n < tot ? "fault.disk.crash_torn" : "fault.disk.crash_whole");
  }
  std::vector<struct iovec> w; size_t left = d.n; for (int i = 0; i < cnt && left; ++i) { struct iovec x = v[i]; x.iov_len = std::min(x.iov_len, left); left -= x.iov_len; w.push_back(x); }
  if (w.empty()) w.push_back({nullptr, 0});
  ssize_t r = pos ? rawE(raw6(SYS_pwritev, fd, (long)w.data(), w.size(), off, 0)) : rawE(raw6(SYS_writev, fd, (long)w.data(), w.size()));
  if (d.act == 3 || d.act == 4) crashNow();
  return r;
}
extern "C" ssize_t write(int fd, const void* b, size_t n) {
  if (isV(fd)) {
    VFd* v = getFd(fd); if (!v) { errno = EBADF; return -1; }
    if (v->type == F_SOCK) return doSend(fd, b, n, 0);
    syncPoint(); v = getFd(fd); if (!v) { errno = EBADF; return -1; }
    if (v->type == F_EVENT) { if (tune.eintr > 0 && chance(tune.eintr)) { stat("fault.eintr"); errno = EINTR; return -1; } uint64_t c; memcpy(&c, b, 8); v->counter += c; notifyNode(v->node); syncPoint(); return 8; }
    errno = EINVAL; return -1;
  }
  struct iovec v = {(void*)b, n}; if (active && g->fdPath.count(fd)) return fileWrite(fd, &v, 1, 0, false);
  return rawE(raw6(SYS_write, fd, (long)b, n));
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c) { if (active && g->fdPath.count(fd)) return fileWrite(fd, v, c, 0, false); return rawE(raw6(SYS_writev, fd, (long)v, c)); }
extern "C" ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { struct iovec v = {(void*)b, n}; if (active && g->fdPath.count(fd)) return fileWrite(fd, &v, 1, o, true); return rawE(raw6(SYS_pwrite64, fd, (long)b, n, o)); }
extern "C" ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
static int doOpen(int dir, const char* p, int fl, mode_t m) {
  if (inRoot(p)) { bool mut = (fl & (O_TRUNC | O_CREAT)) != 0; FsDec d = fsOp(mut ? FS_OPENW : FS_READ, p, 0); if (d.act == 1) { errno = d.err; return -1; } int r = (int)rawE(raw6(SYS_openat, dir, (long)p, fl, m)); if (r >= 0) g->fdPath[r] = p; if (d.act == 4) crashNow(); return r; }
  return (int)rawE(raw6(SYS_openat, dir, (long)p, fl, m));
}
#define OPENVA mode_t m = 0; if (fl & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
extern "C" int open(const char* p, int fl, ...) { OPENVA return doOpen(AT_FDCWD, p, fl, m); }
extern "C" int open64(const char* p, int fl, ...) { OPENVA return doOpen(AT_FDCWD, p, fl, m); }
extern "C" int openat(int dir, const char* p, int fl, ...) { OPENVA return doOpen(dir, p, fl, m); }
extern "C" int openat64(int dir, const char* p, int fl, ...) { OPENVA return doOpen(dir, p, fl, m); }
static FILE* doFopen(const char* p, const char* mode) {
  static auto rf = real<FILE* (*)(const char*, const char*)>("fopen64");
  if (!inRoot(p)) return rf(p, mode);
  bool mut = mode[0] == 'w' || mode[0] == 'a';
  FsDec d = fsOp(mut ? FS_OPENW : FS_READ, p, 0); if (d.act == 1) { errno = d.err; return nullptr; }
  FILE* f = rf(p, mode); if (f) g->fdPath[fileno(f)] = p; if (d.act == 4) crashNow(); return f;
}
extern "C" FILE* fopen(const char* p, const char* m) { return doFopen(p, m); }
extern "C" FILE* fopen64(const char* p, const char* m) { return doFopen(p, m); }
extern "C" int fclose(FILE* f) { static auto rc = real<int (*)(FILE*)>("fclose"); if (active && f) { auto it = g->fdPath.find(fileno(f)); if (it != g->fdPath.end()) { std::string p = it->second; g->fdPath.erase(it); fsOp(FS_CLOSE, p, 0); } } return rc(f); }
extern "C" int ftruncate(int fd, off_t n) { std::string p = pathOf(fd); if (!p.empty()) { FsDec d = fsOp(FS_TRUNC, p, n); if (d.act == 1) { errno = d.err; return -1; } long r = raw6(SYS_ftruncate, fd, n); if (d.act == 4) crashNow(); return (int)rawE(r); } return (int)rawE(raw6(SYS_ftruncate, fd, n)); }
extern "C" int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
#define FSWRAP(kind, path, call) if (inRoot(path)) { FsDec d = fsOp(kind, path, 0); if (d.act == 1) { errno = d.err; return -1; } long r = call; if (d.act == 4) crashNow(); return (int)rawE(r); } return (int)rawE(call);
extern "C" int rename(const char* a, const char* b) { FSWRAP(FS_RENAME, a, raw6(SYS_rename, (long)a, (long)b)) }
extern "C" int renameat(int d1, const char* a, int d2, const char* b) { FSWRAP(FS_RENAME, a, raw6(SYS_renameat, d1, (long)a, d2, (long)b)) }
extern "C" int unlink(const char* a) { FSWRAP(FS_UNLINK, a, raw6(SYS_unlink, (long)a)) }
extern "C" int unlinkat(int dd, const char* a, int f) { FSWRAP(FS_UNLINK, a, raw6(SYS_unlinkat, dd, (long)a, f)) }
extern "C" int remove(const char* a) { int r = unlink(a); if (r && (errno == EISDIR || errno == EPERM)) return (int)rawE(raw6(SYS_rmdir, (long)a)); return r; }
extern "C" int mkdir(const char* a, mode_t m) { FSWRAP(FS_MKDIR, a, raw6(SYS_mkdir, (long)a, m)) }
extern "C" int fsync(int fd) { std::string p = pathOf(fd); if (!p.empty()) { FsDec d = fsOp(FS_SYNC, p, 0); if (d.act == 1) { errno = d.err; return -1; } if (d.act == 4) crashNow(); return 0; } return (int)rawE(raw6(SYS_fsync, fd)); }
extern "C" int msync(void* a, size_t n, int f) { if (ACT && self->node >= 0) { FsDec d = fsOp(FS_SYNC, g->root + "/msync", n); if (d.act == 1) { errno = d.err; return -1; } if (d.act == 4) crashNow(); return 0; } return (int)rawE(raw6(SYS_msync, (long)a, n, f)); }

// ---------------------------------------------------------------- names
struct OwnAi { struct addrinfo ai; sockaddr_in sa; };
extern "C" int getaddrinfo(const char* h, const char* svc, const struct addrinfo* hints, struct addrinfo** res) {
  std::vector<uint32_t> ips; in_addr a; if (h && inet_pton(AF_INET, h, &a) == 1) ips.push_back(ntohl(a.s_addr)); else if (!h || !strcmp(h, "localhost")) ips.push_back(0x7f000001); else if (!resolver || !resolver(h, ips)) return EAI_NONAME;
  struct addrinfo* first = nullptr; struct addrinfo** last = &first;
  for (auto ip : ips) { OwnAi* o = new OwnAi; memset(o, 0, sizeof *o); o->ai.ai_family = AF_INET; o->ai.ai_socktype = SOCK_STREAM; o->ai.ai_protocol = IPPROTO_TCP; o->ai.ai_addrlen = sizeof o->sa; o->ai.ai_addr = (sockaddr*)&o->sa; o->sa.sin_family = AF_INET; o->sa.sin_addr.s_addr = htonl(ip); *last = &o->ai; last = &o->ai.ai_next; }
  if (!first) return EAI_NONAME; *res = first; return 0;
}
extern "C" void freeaddrinfo(struct addrinfo* a) { while (a) { auto n = a->ai_next; delete (OwnAi*)a; a = n; } }
