// Cooperative multitasking (dispatcher, events, timers, groups, remote calls, sockets) and byte-stream
// scenarios (raw connections, peer messages, HTTP) on the simulated kernel.
#include "harness.h"
#include <System/Dispatcher.h>
#include <System/Event.h>
#include <System/EventLock.h>
#include <System/RemoteEventLock.h>
#include <System/RemoteContext.h>
#include <System/Context.h>
#include <System/ContextGroup.h>
#include <System/ContextGroupTimeout.h>
#include <System/Timer.h>
#include <System/TcpConnection.h>
#include <System/TcpConnector.h>
#include <System/TcpListener.h>
#include <System/TcpStream.h>
#include <System/Ipv4Address.h>
#include <System/InterruptedException.h>
#include <deque>
#include <memory>
#include <algorithm>
#include <cstring>

using namespace platform_system;
using hs::Plan; using hs::Op;
namespace {
const uint64_t MS = 1000000ull, SEC = 1000 * MS;
const uint32_t LOOP = 0x7f000001;
uint8_t pat(uint64_t stream, uint64_t pos) { return (uint8_t)(sim::mix64(stream * 1000003 + pos / 8) >> (8 * (pos & 7))); }

// ------------------------------------------------------------------ C13: tasks on one dispatcher
enum Kind { K_IDLE, K_EVENT, K_TIMER, K_YIELD, K_GROUP, K_LOCK, K_REMOTE, K_CTX, K_READ, K_WRITE, K_ACCEPT, K_CONNECT };
const char* kindName[] = {"idle", "event wait", "timer", "yield", "group wait", "lock", "remote call", "sub-task", "read", "write", "accept", "connect"};

struct Act { std::string k; std::vector<uint64_t> a; uint64_t arg(size_t i) const { return i < a.size() ? a[i] : 0; } };
struct Script { int group = 0; bool root = true; std::vector<Act> acts; bool spawned = false; };

struct T { // one task as the model sees it
  int id = 0, group = -1; bool started = false, ended = false; NativeContext* ctx = nullptr;
  uint64_t credits = 0; bool must = false; uint64_t mustAt = 0;
  Kind kind = K_IDLE; uint64_t since = 0, due = 0; int target = -1; bool mustAtBegin = false;
  uint64_t timeoutAt = 0;   // a group timeout interrupts this task at that time
  T* parent = nullptr; uint64_t spawnedAt = 0; bool readyToReturn = false; uint64_t readyAt = 0;
};

struct Pair { std::unique_ptr<TcpConnection> c[2]; uint64_t written[2] = {0, 0}, got[2] = {0, 0}; bool rd[2] = {false, false}, wr[2] = {false, false}; bool shut[2] = {false, false}; bool reset = false; uint64_t resetAt = 0, lastWrite[2] = {0, 0}, lastRead[2] = {0, 0}, shutAt[2] = {0, 0}; };

struct Sys {
  const Plan& plan; Dispatcher d; std::vector<Script> scripts; std::vector<std::vector<Act>> remotes;
  std::vector<std::unique_ptr<Event>> ev; std::vector<uint64_t> setSeq; std::vector<uint64_t> clearedAt;
  std::vector<std::unique_ptr<ContextGroup>> gr; std::vector<int> live; std::vector<uint64_t> zeroSeq, zeroAt;
  std::unique_ptr<Event> lockEv; int inside = 0; uint64_t freeAt = 0; int lockWaiters = 0; int remoteLockers = 0; uint64_t remoteLockSince = 0;
  std::deque<T> tasks; T* cur = nullptr; bool ending = false; uint64_t tol;
  std::vector<Pair> pairs; std::unique_ptr<TcpListener> listener; bool accepting = false, anyReset = false; std::deque<std::unique_ptr<TcpConnection>> accepted; uint64_t connects = 0, accepts = 0, connReadyAt = 0;
  uint64_t remotePosted = 0, remoteRan = 0, remotePostedAt = 0; std::vector<uint64_t> remoteNext;
  int remotesLive = 0, remoteCalls = 0; std::thread::id owner;
  uint64_t intDone = 0;

  explicit Sys(const Plan& p) : plan(p) {
    tol = 50 * MS;
    for (auto& o : p.ops) {
      if (o.name == "task") { scripts.emplace_back(); scripts.back().group = o.arg(0); scripts.back().root = o.arg(1); }
      else if (o.name == "remote") remotes.emplace_back();
      else if (o.name.substr(0, 2) == "a.") { if (!scripts.empty()) scripts.back().acts.push_back({o.name.substr(2), o.a}); }
      else if (o.name.substr(0, 2) == "r.") { if (!remotes.empty()) remotes.back().push_back({o.name.substr(2), o.a}); }
    }
    size_t ne = 4, ng = 3;
    for (size_t i = 0; i < ne; ++i) { ev.emplace_back(new Event(d)); }
    setSeq.assign(ne, 0); clearedAt.assign(ne, 0);
    for (size_t i = 0; i < ng; ++i) gr.emplace_back(new ContextGroup(d));
    live.assign(ng, 0); zeroSeq.assign(ng, 0); zeroAt.assign(ng, 0);
    lockEv.reset(new Event(d)); lockEv->set();
    owner = std::this_thread::get_id();
  }
  std::string who(T* t) { std::ostringstream o; o << "task " << t->id << " (" << kindName[t->kind] << (t->target >= 0 ? " " + std::to_string(t->target) : "") << ", since " << t->since / MS << " ms, now " << sim::now() / MS << " ms)"; return o.str(); }

  // ---- entering and leaving blocking calls
  void begin(T* t, Kind k, int target = -1, uint64_t due = 0) {
    if (cur != t) VIOL("C13", "two-running", "two tasks run at once: " << who(t) << " and another");
    t->kind = k; t->target = target; t->since = sim::now(); t->due = due; t->mustAtBegin = t->must; t->readyToReturn = false; cur = nullptr;
    sim::traceEvent(0x5100 + k, t->id, target);
  }
  void end(T* t) {
    if (cur) VIOL("C13", "two-running", "task " << t->id << " resumed while task " << cur->id << " runs");
    if (d.getCurrentContext() != t->ctx) VIOL("C13", "wrong-context", "task " << t->id << " resumed on another task's context");
    cur = t;
  }
  void returned(T* t, bool checksInterrupt) { // normal return
    end(t);
    if (checksInterrupt && t->mustAtBegin) VIOL("C13", "lost-interrupt", who(t) << " began with an interrupt pending and returned normally: the interrupt was lost");
    t->kind = K_IDLE;
  }
  bool interruptSeen(T* t) { // the call ended with InterruptedException
    end(t);
    if (t->credits == 0) {
      if (t->timeoutAt && sim::now() >= t->timeoutAt) {}
      else if (t->parent && t->parent->credits > 0 ) { --t->parent->credits; }
      else VIOL("C13", "spurious-interrupt", who(t) << " was interrupted though nobody interrupted it");
    } else --t->credits;
    if (t->timeoutAt && sim::now() >= t->timeoutAt) t->timeoutAt = 0;
    t->must = false; t->kind = K_IDLE; ++intDone; hs::count("interrupts-observed");
    return true;
  }
  void direct(T* t) { // model side of "interrupt directed at t"
    if (t->ended) return;
    ++t->credits; if (!t->must) { t->must = true; t->mustAt = sim::now(); }
    hs::count("interrupts");
  }
  void interruptGroup(int g) { for (auto& t : tasks) if (t.group == g && !t.ended) direct(&t); gr[g]->interrupt(); }
  void setEvent(int e) {
    if (!ev[e]->get()) { ++setSeq[e]; for (auto& t : tasks) if (t.kind == K_EVENT && t.target == e && !t.readyToReturn) { t.readyToReturn = true; t.readyAt = sim::now(); } }
    ev[e]->set();
  }
  T* newTask(int g) { tasks.emplace_back(); T* t = &tasks.back(); t->id = tasks.size(); t->group = g; t->spawnedAt = sim::now(); return t; }
  void spawnScript(int i, int g) {
    if (i < 0 || i >= (int)scripts.size() || scripts[i].spawned) return;
    scripts[i].spawned = true; T* t = newTask(g); ++live[g]; hs::count("tasks");
    gr[g]->spawn([this, t, i, g] {
      startTask(t);
      run(t, scripts[i], i);
      endTask(t); cur = nullptr;
      if (--live[g] == 0) { ++zeroSeq[g]; zeroAt[g] = sim::now(); for (auto& x : tasks) if (x.kind == K_GROUP && x.target == g && !x.readyToReturn) { x.readyToReturn = true; x.readyAt = sim::now(); } }
    });
  }
  void startTask(T* t) {
    if (cur) VIOL("C13", "two-running", "task " << t->id << " started while task " << cur->id << " runs");
    if (std::this_thread::get_id() != owner) VIOL("C13", "wrong-thread", "a task runs on another thread than its dispatcher's");
    if (t->started) VIOL("C13", "run-twice", "task " << t->id << " ran twice");
    t->started = true; t->ctx = d.getCurrentContext(); cur = t;
  }
  void endTask(T* t) { t->ended = true; t->ctx = nullptr; t->kind = K_IDLE; }

  // ---- actions
  template <class F> bool call(T* t, Kind k, int target, uint64_t due, F f) { // true: normal return
    uint64_t canary[8]; for (int i = 0; i < 8; ++i) canary[i] = sim::mix64(t->id * 8 + i);
    begin(t, k, target, due);
    int how = 0; std::string what;
    try { f(); } catch (InterruptedException&) { how = 1; } catch (std::exception& e) { how = 2; what = e.what(); }
    for (int i = 0; i < 8; ++i) if (canary[i] != sim::mix64(t->id * 8 + i)) VIOL("C13", "stack", "task stack corrupted across a wait");
    if (how == 1) { interruptSeen(t); return false; }
    if (how == 2) {
      end(t);
      if (k == K_READ || k == K_WRITE) { if (!pairs[target / 2].reset && !(k == K_WRITE && pairs[target / 2].shut[target & 1])) VIOL("C13,C14", "io-error", who(t) << " failed on an intact connection: " << what); }
      else if ((k == K_CONNECT || k == K_ACCEPT) && (sim::tune.connectFail > 0 || sim::tune.acceptFail > 0 || sim::tune.socketFail > 0 || anyReset)) {}
      else VIOL("C13", "exception", who(t) << " failed: " << what);
      t->kind = K_IDLE; return false;
    }
    return true;
  }
  void sleep(T* t, uint64_t ns) {
    Timer timer(d); uint64_t t0 = sim::now();
    if (call(t, ns ? K_TIMER : K_YIELD, -1, t0 + ns, [&] { timer.sleep(std::chrono::nanoseconds(ns)); })) {
      if (sim::now() < t0 + ns) VIOL("C13", "early-timer", "a timer of " << ns << " ns ended after " << sim::now() - t0);
      returned(t, true);
    }
  }
  void run(T* t, const Script& s, int idx) { for (auto& a : s.acts) { if (ending) return; act(t, a, idx); } }
  void act(T* t, const Act& a, int idx) {
    const std::string& k = a.k; size_t ne = ev.size(), ng = gr.size();
    if (k == "wait") {
      int e = a.arg(0) % ne; uint64_t seq = setSeq[e]; bool was = ev[e]->get();
      if (call(t, K_EVENT, e, 0, [&] { ev[e]->wait(); })) { if (!was && setSeq[e] == seq) VIOL("C13", "spurious-wake", who(t) << " ended although the event was never set"); returned(t, true); }
    } else if (k == "set") setEvent(a.arg(0) % ne);
    else if (k == "clear") { ev[a.arg(0) % ne]->clear(); }
    else if (k == "sleep") sleep(t, a.arg(0));
    else if (k == "busy") sim::sleepNs(a.arg(0)); // the task keeps the processor: everything that becomes due meanwhile is found at once
    else if (k == "yield") { if (call(t, K_YIELD, -1, 0, [&] { d.yield(); })) returned(t, false); }
    else if (k == "spawn") spawnScript(idx + 1 + a.arg(0) % 6, a.arg(1) % ng);
    else if (k == "spawnset") { spawnScript(idx + 1 + a.arg(0) % 6, a.arg(1) % ng); setEvent(a.arg(2) % ne); }
    else if (k == "igroup") interruptGroup(a.arg(0) % ng);
    else if (k == "itask") { std::vector<T*> c; for (auto& x : tasks) if (x.started && !x.ended && x.ctx) c.push_back(&x); if (!c.empty()) { T* x = c[a.arg(0) % c.size()]; direct(x); d.interrupt(x->ctx); } }
    else if (k == "iself") { direct(t); d.interrupt(); }
    else if (k == "isleeping") { // the tasks whose timer is due about now
      for (auto& x : tasks) if (x.kind == K_TIMER && x.started && !x.ended && x.due <= sim::now() + a.arg(0)) { direct(&x); d.interrupt(x.ctx); break; } }
    else if (k == "poll") { bool r = d.interrupted(); if (!r && t->must) VIOL("C13", "lost-interrupt", who(t) << " asked whether it was interrupted and was told no"); if (r) { if (!t->credits && !t->timeoutAt && !(t->parent && t->parent->credits)) VIOL("C13", "spurious-interrupt", who(t) << " was told it was interrupted"); if (t->credits) --t->credits; t->must = false; } }
    else if (k == "gwait") {
      int g = t->group < 0 ? 0 : t->group + 1 + a.arg(0) % ng; if (g >= (int)ng || t->group < 0) return;
      uint64_t z = zeroSeq[g]; bool was = live[g] == 0;
      if (call(t, K_GROUP, g, 0, [&] { gr[g]->wait(); })) { if (!was && zeroSeq[g] == z) VIOL("C13", "early-group", who(t) << " ended although " << live[g] << " tasks of the group still run"); returned(t, false); }
    } else if (k == "lock") {
      bool in = false; std::unique_ptr<EventLock> l; ++lockWaiters;
      if (call(t, K_LOCK, -1, 0, [&] { l.reset(new EventLock(*lockEv)); })) { returned(t, false); in = true; }
      --lockWaiters;
      if (in) { enterLock(); if (a.arg(0)) sleep(t, a.arg(0)); leaveLock(); l.reset(); }
    } else if (k == "remotecall") {
      int v = a.arg(0), got = -1; ++remoteCalls;
      { std::unique_ptr<RemoteContext<int>> rc; bool mb = t->must; uint64_t ns = a.arg(1);
        rc.reset(new RemoteContext<int>(d, [v, ns] { if (ns) sim::sleepNs(ns); return v; }));
        if (call(t, K_REMOTE, -1, sim::now() + ns, [&] { got = rc->get(); })) { returned(t, false); }
        (void)mb;
        rc.reset(); }
      --remoteCalls;
      if (got != v) VIOL("C13", "remote-result", "a remote call returned " << got << " instead of " << v);
      hs::count("remote-calls");
    } else if (k == "subtask") {
      T* c = newTask(-2); c->parent = t; uint64_t ns = a.arg(0); int e = a.arg(1) % (ne + 1); bool doInt = a.arg(2) & 1; int res = -1;
      { Context<int> ctx(d, [this, c, ns, e, ne] { startTask(c); if (e < (int)ne) act(c, Act{"wait", {(uint64_t)e}}, 0); else sleep(c, ns); endTask(c); cur = nullptr; return 7; });
        if (doInt) { if (a.arg(3)) sleep(t, a.arg(3)); direct(c); ctx.interrupt(); }
        if (call(t, K_CTX, -1, 0, [&] { res = ctx.get(); })) returned(t, false);
        t->must = false; // forwarded to the sub-task
        begin(t, K_CTX); }
      end(t); t->kind = K_IDLE;
      if (res != 7) VIOL("C13", "subtask-result", "a sub-task returned " << res);
      if (!c->ended) VIOL("C13", "subtask-alive", "a sub-task still runs after its owner waited for it");
    } else if (k == "timeout") {
      T* c = newTask(-2); uint64_t dur = 1 + a.arg(0); int e = a.arg(1) % (ne + 1); uint64_t ns = a.arg(2);
      { ContextGroup g(d);
        c->timeoutAt = sim::now() + dur;
        g.spawn([this, c, e, ns, ne] { startTask(c); if (e < (int)ne) act(c, Act{"wait", {(uint64_t)e}}, 0); else sleep(c, ns); endTask(c); cur = nullptr; });
        ContextGroupTimeout to(d, g, std::chrono::nanoseconds(dur));
        c->parent = t;
        if (call(t, K_CTX, -1, 0, [&] { g.wait(); })) returned(t, false);
        if (!c->ended) VIOL("C13", "early-group", "a group with a timeout ended before its task");
        begin(t, K_CTX); }
      end(t); t->kind = K_IDLE; hs::count("timeouts");
    } else if (k == "write" || k == "read" || k == "shut") {
      if (pairs.empty()) return; int x = a.arg(0) % (pairs.size() * 2); Pair& p = pairs[x / 2]; int s = x & 1; std::vector<uint8_t> b(1 + a.arg(1));
      if (k == "write") {
        if (p.wr[s] || p.shut[s]) return; p.wr[s] = true; size_t n = 0;
        for (size_t i = 0; i < b.size(); ++i) b[i] = pat(x, p.written[s] + i);
        if (call(t, K_WRITE, x, 0, [&] { n = p.c[s]->write(b.data(), b.size()); })) { if (n == 0 || n > b.size()) VIOL("C13,C14", "write-count", "write of " << b.size() << " bytes returned " << n); p.written[s] += n; p.lastWrite[s] = sim::now(); returned(t, true); }
        p.wr[s] = false;
      } else if (k == "read") {
        if (p.rd[s]) return; p.rd[s] = true; size_t n = 0; int from = 1 - s;
        if (call(t, K_READ, x, 0, [&] { n = p.c[s]->read(b.data(), b.size()); })) {
          if (n > b.size()) VIOL("C13,C14", "read-count", "read into " << b.size() << " bytes returned " << n);
          if (!n && !p.shut[from] && !p.reset) VIOL("C13,C14", "false-eof", who(t) << " read end of stream from an open connection");
          if (!n && !p.reset && p.got[from] != p.written[from]) VIOL("C13,C14", "lost-bytes", who(t) << " reached end of stream after " << p.got[from] << " of " << p.written[from] << " bytes");
          for (size_t i = 0; i < n; ++i) if (b[i] != pat(x ^ 1, p.got[from] + i)) VIOL("C13,C14", "bytes", who(t) << ": byte " << p.got[from] + i << " differs from the one written");
          p.got[from] += n; p.lastRead[from] = sim::now(); returned(t, true);
        }
        p.rd[s] = false;
      } else { if (!p.shut[s] && !p.wr[s] && !p.reset) { bool ok = call(t, K_WRITE, x, 0, [&] { p.c[s]->write(nullptr, 0); }); if (ok) { p.shut[s] = true; p.shutAt[s] = sim::now(); returned(t, true); } } }
    } else if (k == "reset") { if (!pairs.empty() && !ending) { anyReset = true; sim::resetConnections(0, 0); for (auto& p : pairs) if (!p.reset) { p.reset = true; p.resetAt = sim::now(); } hs::count("resets"); } }
    else if (k == "accept") {
      if (!listener || accepting) return; accepting = true; std::unique_ptr<TcpConnection> c;
      if (call(t, K_ACCEPT, -1, 0, [&] { TcpConnection x = listener->accept(); c.reset(new TcpConnection(std::move(x))); })) { ++accepts; returned(t, true); }
      accepting = false; if (c) accepted.push_back(std::move(c)); if (accepted.size() > 3) accepted.pop_front();
    } else if (k == "connect") {
      if (!listener) return; std::unique_ptr<TcpConnection> c; TcpConnector k(d);
      if (call(t, K_CONNECT, -1, 0, [&] { TcpConnection x = k.connect(Ipv4Address(LOOP), 9000); c.reset(new TcpConnection(std::move(x))); })) { ++connects; connReadyAt = sim::now(); returned(t, true); }
      if (c && a.arg(0)) sleep(t, a.arg(0));
    }
  }
  void enterLock() { if (inside) VIOL("C13", "mutual-exclusion", "two holders of one event lock"); inside = 1; hs::count("locks"); }
  void leaveLock() { inside = 0; freeAt = sim::now(); }

  // ---- remote threads
  void remoteThread(int r) {
    for (auto& a : remotes[r]) {
      if (a.k == "sleep") sim::sleepNs(a.arg(0));
      else if (a.k == "spawn") {
        uint64_t seq = a.arg(3); // assigned in order below
        uint64_t my = ++rSeq[r]; (void)seq; ++remotePosted; remotePostedAt = sim::now(); Act act = a; hs::count("remote-spawns");
        d.remoteSpawn([this, r, my, act] {
          if (std::this_thread::get_id() != owner) VIOL("C13", "wrong-thread", "a remotely spawned procedure ran on the caller's thread");
          if (cur) VIOL("C13", "two-running", "a remotely spawned procedure runs while task " << cur->id << " runs");
          if (my != remoteNext[r] + 1) VIOL("C13", "remote-order", "procedure " << my << " of remote thread " << r << " ran after procedure " << remoteNext[r]);
          remoteNext[r] = my; ++remoteRan;
          int what = act.arg(0) % 4;
          if (what == 0) setEvent(act.arg(1) % ev.size());
          else if (what == 1 && !ending) spawnScript(act.arg(1) % std::max<size_t>(1, scripts.size()), act.arg(2) % gr.size());
          else if (what == 2) interruptGroup(act.arg(1) % gr.size());
        });
      } else if (a.k == "lock") {
        ++remoteLockers; remoteLockSince = sim::now();
        { RemoteEventLock l(d, *lockEv); --remoteLockers; enterLock(); if (a.arg(0)) sim::sleepNs(a.arg(0)); leaveLock(); }
        hs::count("remote-locks");
      }
    }
    --remotesLive;
  }
  std::vector<uint64_t> rSeq;

  // ---- checks made by the main context
  void late(T* t, const char* why) { VIOL("C13", std::string("lost-wakeup:") + kindName[t->kind], who(t) << " still waits although " << why); }
  void monitor() {
    uint64_t n = sim::now(); uint64_t io = tol + 2 * (sim::tune.netMinLat + sim::tune.netJitter);
    int waitingLocks = 0; uint64_t lockSince = n;
    for (auto& t : tasks) {
      if (t.ended) continue;
      if (!t.started) { if (n > t.spawnedAt + tol) VIOL("C13", "never-started", "task " << t.id << " spawned at " << t.spawnedAt / MS << " ms never ran"); continue; }
      switch (t.kind) {
        case K_EVENT: if (t.readyToReturn && n > t.readyAt + tol) late(&t, "its event was set"); break;
        case K_TIMER: if (n > t.due + tol) late(&t, "its time has come"); break;
        case K_YIELD: if (n > t.since + tol) late(&t, "it only yielded"); break;
        case K_GROUP: if (t.readyToReturn && n > t.readyAt + tol) late(&t, "the group has become empty"); break;
        case K_REMOTE: if (n > t.due + 2 * tol) late(&t, "the remote call has finished"); break;
        case K_LOCK: ++waitingLocks; lockSince = std::min(lockSince, t.since); break;
        case K_READ: { Pair& p = pairs[t.target / 2]; int from = 1 - (t.target & 1);
          if (p.reset) { if (n > std::max(p.resetAt, t.since) + io) late(&t, "its connection was reset"); }
          else if (p.written[from] > p.got[from] && n > std::max(std::max(p.lastWrite[from], p.lastRead[from]), t.since) + io) late(&t, "bytes wait to be read");
          else if (p.shut[from] && n > std::max(p.shutAt[from], t.since) + io) late(&t, "the other side has closed");
          break; }
        case K_WRITE: { Pair& p = pairs[t.target / 2]; int s = t.target & 1;
          if (p.reset) { if (n > std::max(p.resetAt, t.since) + io) late(&t, "its connection was reset"); }
          else if (p.written[s] == p.got[s] && n > std::max(p.lastRead[s], t.since) + io) late(&t, "everything written before has been read");
          break; }
        case K_ACCEPT: if (connects > accepts && !anyReset && n > std::max(connReadyAt, t.since) + io && sim::tune.acceptFail == 0) late(&t, "a connection is waiting"); break;
        case K_CONNECT: if (n > t.since + io) late(&t, "the listener is up"); break;
        default: break;
      }
      bool interruptible = t.kind == K_EVENT || t.kind == K_TIMER || t.kind == K_LOCK || t.kind == K_READ || t.kind == K_WRITE || t.kind == K_ACCEPT || t.kind == K_CONNECT;
      if (interruptible && t.must && n > t.mustAt + tol && n > t.since + tol) VIOL("C13", "lost-interrupt", who(&t) << " was interrupted at " << t.mustAt / MS << " ms and still waits");
      if (interruptible && t.timeoutAt && n > t.timeoutAt + tol && n > t.since + tol) VIOL("C13", "lost-timeout", who(&t) << " still waits after its timeout at " << t.timeoutAt / MS << " ms");
    }
    if (waitingLocks && !inside && lockEv->get() && n > std::max(freeAt, lockSince) + tol) VIOL("C13", "lost-wakeup:lock", waitingLocks << " tasks wait for a free lock");
    if (remoteLockers && !inside && !waitingLocks && n > std::max(freeAt, remoteLockSince) + tol) VIOL("C13", "lost-wakeup:remote-lock", remoteLockers << " threads wait for a free lock");
    if (remotePosted != remoteRan && n > remotePostedAt + tol) VIOL("C13", "lost-remote-spawn", remotePosted - remoteRan << " procedures given to remoteSpawn never ran");
    sim::traceEvent(0x5200, intDone, remoteRan);
  }
  void mainSleep(uint64_t ns) {
    Timer t(d); uint64_t t0 = sim::now();
    if (cur) VIOL("C13", "two-running", "the main context runs while task " << cur->id << " runs");
    try { t.sleep(std::chrono::nanoseconds(ns)); } catch (InterruptedException&) { VIOL("C13", "spurious-interrupt", "the main context was interrupted though nobody interrupted it"); }
    if (cur) VIOL("C13", "two-running", "the main context resumed while task " << cur->id << " runs");
    if (sim::now() < t0 + ns) VIOL("C13", "early-timer", "a timer ended early");
    if (sim::now() > t0 + ns + tol) VIOL("C13", "late-timer", "a timer of " << ns / MS << " ms of the main context ended after " << (sim::now() - t0) / MS << " ms");
  }
  size_t alive() { size_t n = 0; for (auto& t : tasks) if (!t.ended) ++n; return n; }

  void go() {
    size_t np = plan.num("pairs", 1);
    if (np || plan.num("listener", 1)) {
      sim::Tune save = sim::tune; sim::tune.acceptFail = sim::tune.connectFail = sim::tune.socketFail = 0;
      listener.reset(new TcpListener(d, Ipv4Address(LOOP), 9000));
      pairs.resize(np);
      for (size_t i = 0; i < np; ++i) { // ordinary accept and connect on this dispatcher
        ContextGroup g(d); TcpConnection* got = nullptr;
        g.spawn([&] { TcpConnection x = listener->accept(); got = new TcpConnection(std::move(x)); });
        TcpConnector k(d); TcpConnection c = k.connect(Ipv4Address(LOOP), 9000); g.wait();
        if (!got) VIOL("C13", "accept", "accept and connect on one dispatcher did not pair up");
        pairs[i].c[0].reset(new TcpConnection(std::move(c))); pairs[i].c[1].reset(got);
      }
      sim::tune = save;
    }
    rSeq.assign(remotes.size(), 0); remoteNext.assign(remotes.size(), 0);
    std::vector<sim::Tid> tids;
    remotesLive = remotes.size();
    for (size_t r = 0; r < remotes.size(); ++r) tids.push_back(sim::spawn(0, "remote", [this, r] { remoteThread(r); }));
    for (size_t i = 0; i < scripts.size(); ++i) if (scripts[i].root) spawnScript(i, scripts[i].group % gr.size());
    uint64_t until = sim::now() + plan.num("runms", 600) * MS;
    while (sim::now() < until && (alive() || remotesLive)) { mainSleep(plan.num("pollms", 10) * MS); monitor(); hs::state(stateHash()); }
    hs::count("tasks-done-before-end", tasks.size() - alive());
    // orderly end: whatever still waits must give way
    ending = true; int rounds = 0;
    while (alive() || remotesLive || remotePosted != remoteRan) {
      for (size_t e = 0; e < ev.size(); ++e) setEvent(e);
      for (size_t g = 0; g < gr.size(); ++g) interruptGroup(g);
      mainSleep(20 * MS); monitor();
      if (++rounds > 400) { std::string s; for (auto& t : tasks) if (!t.ended) s += (t.started ? who(&t) : "unstarted task " + std::to_string(t.id)) + "; "; VIOL("C13", "stuck", "tasks that never end although every event is set and they are interrupted again and again: " << s << (remotesLive ? " remote threads alive" : "")); }
    }
    for (auto t : tids) while (!sim::joinFor(t, 5 * MS)) { mainSleep(MS); if (++rounds > 2000) VIOL("C13", "stuck", "a remote thread never ends"); }
    for (auto& t : tasks) if (!t.started || !t.ended) VIOL("C13", "never-started", "task " << t.id << " never ran to its end");
    for (size_t g = 0; g < gr.size(); ++g) gr[g]->wait();
    d.yield();
    accepted.clear(); pairs.clear(); listener.reset(); gr.clear();
  }
  uint64_t stateHash() { uint64_t h = 17; for (auto& t : tasks) h = h * 31 + (t.ended ? 99 : t.started ? t.kind * 7 + t.must : 98); for (auto& e : ev) h = h * 3 + e->get(); return sim::mix64(h); }
};

void runDisp(const Plan& p) {
  hs::setFailureProps("C13", "C13");
  sim::start(p.seed, hs::scratchDir()); sim::setMaxSteps(3000000); sim::setNodeIp(0, LOOP);
  sim::onSigpipe = [] { VIOL("C13,C14", "sigpipe", "a write to a broken connection raised SIGPIPE, which ends a process that does not ignore it"); };
  sim::Tid t = sim::spawn(0, "dispatcher", [&] { Sys s(p); s.go(); });
  if (!sim::joinFor(t, 3600 * SEC)) VIOL("C13", "stuck", "the dispatcher thread never finished: " << sim::dumpThreads());
}

Plan genDisp(uint64_t seed, const std::string&) {
  Plan p; sim::Rng r(sim::mix64(seed * 7919 + 11));
  p.setr("t_preempt", r.chance(0.5) ? 0.05 * r.below(8) : 0); if (r.chance(0.3)) p.setr("t_spurious", 0.05); if (r.chance(0.3)) p.setr("t_eintr", 0.1);
  p.setr("t_frag", r.chance(0.5) ? 0.3 : 0); p.setr("t_shortread", r.chance(0.4) ? 0.3 : 0); p.setr("t_shuffle", r.chance(0.5) ? 0.4 : 0);
  p.set("t_lat", r.chance(0.3) ? 1000 : r.below(3000000)); p.set("t_jitter", r.chance(0.5) ? r.below(2000000) : 0);
  p.set("t_sockbuf", r.chance(0.6) ? 64 + r.below(4000) : 262144);
  if (r.chance(0.15)) { p.setr("t_acceptfail", 0.2); p.setr("t_connectfail", 0.2); }
  p.set("pairs", r.below(3)); p.set("pollms", 3 + r.below(20)); p.set("runms", 200 + r.below(900));
  int flavour = r.below(5); // 0 mixed, 1 events/groups, 2 timers+interrupts, 3 sockets, 4 remote
  // times from a small grid, so that coincidences (a timer due exactly when something else happens) are common
  auto tm = [&]() -> uint64_t { switch (r.below(6)) { case 0: return 0; case 1: return 1 + r.below(2000); case 2: return MS * (1 + r.below(4)); case 3: return MS * 10 * (1 + r.below(3)); case 4: return MS * (1 + r.below(4)) + r.below(3000); default: return MS * (20 + r.below(200)); } };
  size_t ns = 3 + r.below(10);
  for (size_t i = 0; i < ns; ++i) {
    p.op("task", {r.below(3), (uint64_t)(i < 2 || r.chance(0.55))});
    size_t na = 1 + r.below(9);
    for (size_t j = 0; j < na; ++j) {
      int k = r.below(100);
      if (flavour == 3 && k < 70) k = 70 + k % 26;
      if (flavour == 2 && k < 40) k = k % 3 == 0 ? 20 : k % 3 == 1 ? 40 + k % 10 : 55;
      if (flavour == 1 && k >= 70) k = k % 40;
      if (k < 10) p.op("a.wait", {r.below(4)});
      else if (k < 17) p.op("a.set", {r.below(4)});
      else if (k < 20) p.op("a.clear", {r.below(4)});
      else if (k < 22) p.op("a.busy", {1 + r.below(5 * MS)});
      else if (k < 30) p.op("a.sleep", {tm()});
      else if (k < 35) p.op("a.yield");
      else if (k < 40) p.op(r.chance(0.5) ? "a.spawn" : "a.spawnset", {r.below(6), r.below(3), r.below(4)});
      else if (k < 44) p.op("a.igroup", {r.below(3)});
      else if (k < 47) p.op("a.itask", {r.below(20)});
      else if (k < 49) p.op("a.iself");
      else if (k < 51) p.op("a.poll");
      else if (k < 55) p.op("a.gwait", {r.below(3)});
      else if (k < 57) p.op("a.isleeping", {r.below(3000)});
      else if (k < 61) p.op("a.lock", {tm()});
      else if (k < 64) p.op("a.remotecall", {r.below(1000), tm()});
      else if (k < 67) p.op("a.subtask", {tm(), r.below(5), r.below(2), r.chance(0.5) ? tm() : 0});
      else if (k < 70) p.op("a.timeout", {tm(), r.below(5), tm()});
      else if (k < 80) p.op("a.write", {r.below(4), r.chance(0.5) ? r.below(40) : r.below(6000)});
      else if (k < 91) p.op("a.read", {r.below(4), r.chance(0.5) ? r.below(40) : r.below(6000)});
      else if (k < 92) p.op("a.shut", {r.below(4)});
      else if (k < 93) { if (r.chance(0.3)) p.op("a.reset"); }
      else if (k < 96) p.op("a.accept");
      else p.op("a.connect", {r.chance(0.5) ? tm() : 0});
    }
  }
  size_t nr = flavour == 4 ? 1 + r.below(3) : r.chance(0.4) ? 1 + r.below(2) : 0;
  for (size_t i = 0; i < nr; ++i) {
    p.op("remote"); size_t na = 1 + r.below(8);
    for (size_t j = 0; j < na; ++j) { int k = r.below(10); if (k < 4) p.op("r.sleep", {tm()}); else if (k < 8) p.op("r.spawn", {r.below(4), r.below(12), r.below(3)}); else p.op("r.lock", {tm()}); }
  }
  return p;
}
hs::AutoReg rDisp({"sys_disp", genDisp, runDisp});
}
#include "sys_stream.inc"
