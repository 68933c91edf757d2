#include "harness.h"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <errno.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <ftw.h>
#include <time.h>
#include <malloc.h>
#include <execinfo.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <iostream>

namespace hs {
static Report g_rep;
static std::string g_crashProps, g_hangProps;
static int g_out = 1;
static bool g_dump = false;
static std::vector<Scenario>* g_sc;
static std::string g_scenario, g_dir;
static uint64_t g_seed;
static bool g_finishing = false;

Report& report() { return g_rep; }
void registerScenario(const Scenario& s) { if (!g_sc) g_sc = new std::vector<Scenario>(); g_sc->push_back(s); }
void state(uint64_t h) { if (g_rep.states.size() < 400) g_rep.states.insert(h); }
void count(const std::string& w, uint64_t n) { sim::NoSched ns; g_rep.counts[w] += n; }
void note(const std::string& s) { sim::NoSched ns; if (g_rep.notes.size() < 6) g_rep.notes.push_back(s); }
struct Shared { int sig; uint64_t seed; char props[96]; char scenario[32]; };
static Shared* g_shared;
void setFailureProps(const std::string& c, const std::string& h) { g_crashProps = c; g_hangProps = h; if (g_shared) snprintf(g_shared->props, sizeof g_shared->props, "%s", c.c_str()); }
std::string scratchDir() { return g_dir; }
std::string hex(const void* p, size_t n) { static const char* d = "0123456789abcdef"; std::string r; for (size_t i = 0; i < n; ++i) { uint8_t b = ((const uint8_t*)p)[i]; r += d[b >> 4]; r += d[b & 15]; } return r; }
uint64_t fnv(const void* p, size_t n, uint64_t h) { for (size_t i = 0; i < n; ++i) h = (h ^ ((const uint8_t*)p)[i]) * 1099511628211ull; return h; }

std::string Plan::text() const {
  std::ostringstream o;
  o << "scenario " << scenario << "\nfocus " << (focus.empty() ? "-" : focus) << "\nseed " << seed << "\n";
  for (auto& p : params) o << "param " << p.first << " " << p.second << "\n";
  for (auto& x : ops) { o << "op " << x.name; for (auto v : x.a) o << " " << v; o << "\n"; }
  if (explicitDecisions) o << "explicit 1\n";
  for (auto& d : decisions) o << "dec " << d.first << " " << d.second << "\n";
  return o.str();
}
Plan Plan::parse(const std::string& t) {
  Plan p; std::istringstream in(t); std::string line;
  while (std::getline(in, line)) {
    std::istringstream l(line); std::string w; if (!(l >> w) || w[0] == '#') continue;
    if (w == "scenario") l >> p.scenario;
    else if (w == "focus") { l >> p.focus; if (p.focus == "-") p.focus.clear(); }
    else if (w == "seed") l >> p.seed;
    else if (w == "param") { std::string k, v; l >> k >> v; p.params[k] = v; }
    else if (w == "op") { Op o; l >> o.name; uint64_t v; while (l >> v) o.a.push_back(v); p.ops.push_back(o); }
    else if (w == "explicit") p.explicitDecisions = true;
    else if (w == "dec") { uint64_t a, b; l >> a >> b; p.decisions[a] = b; }
  }
  return p;
}
void applyTune(const Plan& p) {
  sim::Tune t;
  t.preempt = p.real("t_preempt", 0); t.spurious = p.real("t_spurious", 0); t.eintr = p.real("t_eintr", 0);
  t.frag = p.real("t_frag", 0); t.shortRead = p.real("t_shortread", 0); t.shuffleEpoll = p.real("t_shuffle", 0);
  t.netMinLat = p.num("t_lat", 200000); t.netJitter = p.num("t_jitter", 0); t.sockBuf = p.num("t_sockbuf", 262144);
  t.acceptFail = p.real("t_acceptfail", 0); t.socketFail = p.real("t_socketfail", 0); t.connectFail = p.real("t_connectfail", 0);
  t.ncpu = p.num("t_ncpu", 2);
  sim::tune = t;
}
static void esc(std::ostringstream& o, const std::string& s) {
  o << '"';
  for (unsigned char c : s) { if (c == '"' || c == '\\') o << '\\' << c; else if (c == '\n') o << "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o << b; } else o << c; }
  o << '"';
}
static void wr(int fd, const char* p, size_t n) { while (n) { ssize_t r = syscall(SYS_write, fd, p, n); if (r < 0) { if (errno == EINTR) continue; break; } p += r; n -= r; } }
[[noreturn]] static void emit(const char* outcome) {
  g_finishing = true;
  std::ostringstream o;
  o << "{\"seed\":" << g_seed << ",\"scenario\":\"" << g_scenario << "\",\"outcome\":\"" << outcome << "\",\"hash\":\"" << std::hex << sim::traceHash() << std::dec << "\",\"steps\":" << sim::steps()
    << ",\"decisions\":" << sim::decisionCount() << ",\"switches\":" << sim::decisionsTaken().size() << ",\"simns\":" << sim::now() << ",\"ops\":" << g_rep.opsDone;
  if (!g_rep.key.empty()) { o << ",\"props\":"; esc(o, g_rep.props); o << ",\"key\":"; esc(o, g_rep.key); o << ",\"msg\":"; esc(o, g_rep.msg); o << ",\"op\":" << g_rep.curOp; }
  o << ",\"stats\":{"; bool f = true;
  for (auto& s : sim::stats()) { o << (f ? "" : ",") << '"' << s.first << "\":" << s.second; f = false; }
  o << "},\"counts\":{"; f = true;
  for (auto& s : g_rep.counts) { o << (f ? "" : ","); esc(o, s.first); o << ":" << s.second; f = false; }
  o << "},\"states\":["; f = true;
  for (auto s : g_rep.states) { o << (f ? "" : ",") << '"' << std::hex << s << std::dec << '"'; f = false; }
  o << "],\"notes\":["; f = true;
  for (auto& s : g_rep.notes) { o << (f ? "" : ","); esc(o, s); f = false; }
  o << "]";
  { uint64_t h = 7; for (auto& d : sim::decisionsTaken()) h = sim::mix64(h ^ sim::mix64(d.first * 1000003 + d.second)); o << ",\"inter\":\"" << std::hex << h << std::dec << '"'; }
  if (g_dump) { o << ",\"dec\":["; f = true; for (auto& d : sim::decisionsTaken()) { o << (f ? "" : ",") << "[" << d.first << "," << d.second << "]"; f = false; } o << "]"; }
  o << "}\n";
  std::string s = o.str(); wr(g_out, s.data(), s.size());
  syscall(SYS_exit_group, 0); __builtin_unreachable();
}
void violation(const std::string& props, const std::string& key, const std::string& msg) {
  sim::NoSched ns;
  if (getenv("SIM_ABORT")) { fprintf(stderr, "VIOLATION %s %s: %s\n", props.c_str(), key.c_str(), msg.c_str()); signal(SIGABRT, SIG_DFL); abort(); }
  g_rep.props = props; g_rep.key = key; g_rep.msg = msg; emit("violation");
}
void finish() { sim::NoSched ns; emit("ok"); }

static std::string frameNames(int skip, int max) {
  void* bt[40]; int n = backtrace(bt, 40); char** s = backtrace_symbols(bt, n); std::string r;
  int got = 0;
  for (int i = skip; i < n && got < max; ++i) {
    std::string l = s[i]; size_t a = l.find('('), b = l.find('+', a);
    std::string m = a != std::string::npos && b != std::string::npos ? l.substr(a + 1, b - a - 1) : "";
    if (m.empty()) continue;
    int st; char* d = abi::__cxa_demangle(m.c_str(), 0, 0, &st); std::string nm = d && st == 0 ? d : m;
    size_t p = nm.find('('); if (p != std::string::npos && p) nm = nm.substr(0, p);
    if (nm.find("hs::") == 0 || nm.find("std::") != std::string::npos || nm.find("__") == 0 || nm.find("gsignal") == 0 || nm == "abort" || nm == "raise" || nm.find("killpg") == 0) continue;
    r += (r.empty() ? "" : " < ") + nm; ++got;
  }
  return r;
}
static void onSignal(int sig) {
  if (g_shared && !g_shared->sig) g_shared->sig = sig; // the report may be impossible when the heap is damaged: then the parent writes it
  if (g_finishing) syscall(SYS_exit_group, 9);
  g_finishing = true;
  sim::NoSched ns;
  bool cpu = sig == SIGXCPU;
  g_rep.props = cpu ? g_hangProps : g_crashProps; g_rep.key = cpu ? "hang" : (sig == SIGABRT ? "abort" : "crash");
  std::string fr = frameNames(1, 6);
  g_rep.msg = (cpu ? std::string("no progress: processor time limit") : std::string("signal ") + strsignal(sig)) + " in " + fr;
  emit("violation");
}
static void onTerminate() {
  sim::NoSched ns;
  std::string w = "terminate";
  if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (const std::exception& x) { w = std::string("uncaught ") + typeid(x).name() + ": " + x.what(); } catch (...) { w = "uncaught exception"; } }
  violation(g_crashProps, "terminate", w + " in " + frameNames(1, 6));
}
static int rmOne(const char* p, const struct stat*, int, struct FTW*) { remove(p); return 0; }
static void rmTree(const char* p) { nftw(p, rmOne, 32, FTW_DEPTH | FTW_PHYS); }

static const Scenario* find(const std::string& n) { if (g_sc) for (auto& s : *g_sc) if (s.name == n) return &s; return nullptr; }

static void executeText(const char* text, size_t n) {
  Plan p = Plan::parse(std::string(text, n));
  if (g_shared) { g_shared->seed = p.seed; snprintf(g_shared->scenario, sizeof g_shared->scenario, "%s", p.scenario.c_str()); }
  const Scenario* s = find(p.scenario);
  if (!s) { fprintf(stderr, "no scenario %s\n", p.scenario.c_str()); _exit(3); }
  g_scenario = p.scenario; g_seed = p.seed;
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  stack_t st; st.ss_sp = malloc(262144); st.ss_size = 262144; st.ss_flags = 0; sigaltstack(&st, 0);
  for (int g : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU}) sigaction(g, &sa, 0);
  signal(SIGPIPE, SIG_IGN);
  std::set_terminate(onTerminate);
  void* warm[2]; backtrace(warm, 2);
  applyTune(p);
  sim::decisionsSeed(p.seed);
  if (p.explicitDecisions) sim::decisionsExplicit(p.decisions);
  sim::onDeadlock = [](const std::string& d) { violation(g_hangProps, "deadlock", "nothing can run any more: " + d); };
  s->execute(p);
  finish();
}
static const size_t CAP = 1 << 20;
static char g_plan[CAP]; static size_t g_planLen;
static char g_res[4 << 20]; static size_t g_resLen;
static char g_dirBuf[128];
static unsigned g_cpuLimit = 60;

// parent side: no heap use, so that every child starts from the same heap
static bool readAll(int fd, char* buf, size_t cap, size_t& len, int timeoutMs) {
  len = 0;
  for (;;) {
    pollfd p{fd, POLLIN, 0}; int r = poll(&p, 1, timeoutMs); if (r <= 0) return false;
    ssize_t k = read(fd, buf + len, cap - len); if (k < 0) { if (errno == EINTR) continue; return false; }
    if (!k) return true;
    len += k; if (len == cap) return true;
  }
}
static void genInto(const char* sc, const char* focus, uint64_t seed) {
  int p[2]; if (pipe(p)) _exit(4);
  pid_t c = fork();
  if (!c) {
    close(p[0]); const Scenario* s = find(sc); if (!s) _exit(3);
    Plan pl = s->generate(seed, focus); pl.scenario = sc; pl.seed = seed; pl.focus = focus; std::string t = pl.text(); wr(p[1], t.data(), t.size()); syscall(SYS_exit_group, 0);
  }
  close(p[1]); readAll(p[0], g_plan, CAP, g_planLen, 60000); close(p[0]); int st; waitpid(c, &st, 0);
}
static void runPlan() {
  int p[2]; if (pipe(p)) _exit(4);
  if (!g_shared) { void* m = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (m != MAP_FAILED) g_shared = (Shared*)m; }
  if (g_shared) memset(g_shared, 0, sizeof *g_shared);
  rmTree(g_dirBuf); mkdir(g_dirBuf, 0700); // a killed batch with the same pid may have left its files
  pid_t c = fork();
  if (!c) {
    close(p[0]); g_out = p[1]; { int dn = open("/dev/null", O_WRONLY); if (dn >= 0) { dup2(dn, 1); close(dn); } }
    struct rlimit rl{g_cpuLimit, g_cpuLimit + 20}; setrlimit(RLIMIT_CPU, &rl); struct rlimit z{0, 0}; setrlimit(RLIMIT_CORE, &z);
    struct rlimit as{(rlim_t)12 << 30, (rlim_t)12 << 30}; setrlimit(RLIMIT_AS, &as);
    g_dir = g_dirBuf; executeText(g_plan, g_planLen); syscall(SYS_exit_group, 0);
  }
  close(p[1]);
  bool ok = readAll(p[0], g_res, sizeof g_res, g_resLen, 280000);
  close(p[0]);
  if (!ok) kill(c, SIGKILL);
  int st = 0; waitpid(c, &st, 0);
  rmTree(g_dirBuf);
  if (ok && !g_resLen && g_shared && g_shared->sig && g_shared->sig != SIGXCPU && g_shared->props[0]) {
    g_resLen = snprintf(g_res, sizeof g_res, "{\"seed\":%llu,\"scenario\":\"%s\",\"outcome\":\"violation\",\"hash\":\"0\",\"steps\":0,\"decisions\":0,\"switches\":0,\"simns\":0,\"ops\":0,\"props\":\"%s\",\"key\":\"%s\",\"msg\":\"signal %d, memory too damaged for a report\",\"op\":0,\"stats\":{},\"counts\":{},\"states\":[],\"notes\":[],\"inter\":\"0\",\"dec\":[]}\n",
      (unsigned long long)g_shared->seed, g_shared->scenario, g_shared->props, g_shared->sig == SIGABRT ? "abort" : "crash", g_shared->sig);
    return;
  }
  if (!ok || !g_resLen) {
    // killed without a report: an error of the run itself (never reported as a violation)
    g_resLen = snprintf(g_res, sizeof g_res, "{\"outcome\":\"lost\",\"status\":%d,\"timeout\":%d}\n", st, ok ? 0 : 1);
  }
}
static void noAslr(char** argv) {
  if (getenv("SIM_REEXEC")) return;
  if (personality(0xffffffff) & ADDR_NO_RANDOMIZE) return;
  if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) == -1) return;
  setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv);
}
}
int main(int argc, char** argv) {
  using namespace hs;
  noAslr(argv);
  mallopt(M_ARENA_MAX, 1); mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 1 << 30);
  const char* base = getenv("SIM_TMP"); if (!base) base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
  snprintf(g_dirBuf, sizeof g_dirBuf, "%s/sim%08d", base, (int)getpid() % 100000000);
  if (getenv("SIM_CPU")) g_cpuLimit = atoi(getenv("SIM_CPU"));
  std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "list") { if (g_sc) for (auto& s : *g_sc) printf("%s\n", s.name.c_str()); return 0; }
  if (mode == "gen" && argc >= 5) { genInto(argv[2], argv[3][0] == '-' ? "" : argv[3], strtoull(argv[4], 0, 10)); wr(1, g_plan, g_planLen); return 0; }
  if ((mode == "run" || mode == "rundec") && argc >= 3) {
    g_dump = mode == "rundec";
    int fd = open(argv[2], O_RDONLY); if (fd < 0) { perror(argv[2]); return 2; }
    readAll(fd, g_plan, CAP, g_planLen, -1); close(fd); runPlan(); wr(1, g_res, g_resLen); return 0;
  }
  if (mode == "inproc" && argc >= 3) { // for a debugger: no fork
    int fd = open(argv[2], O_RDONLY); readAll(fd, g_plan, CAP, g_planLen, -1); mkdir(g_dirBuf, 0700); g_dir = g_dirBuf; executeText(g_plan, g_planLen); return 0;
  }
  if (mode == "batch" && argc >= 8) { // batch SCENARIO FOCUS FIRST STRIDE COUNT SECONDS
    const char* focus = argv[3][0] == '-' ? "" : argv[3];
    uint64_t first = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10), cnt = strtoull(argv[6], 0, 10); double secs = atof(argv[7]);
    timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    for (uint64_t i = 0; i < cnt; ++i) {
      timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
      if (secs > 0 && (t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break;
      genInto(argv[2], focus, first + i * stride); runPlan(); wr(1, g_res, g_resLen);
    }
    return 0;
  }
  fprintf(stderr, "usage: list | gen SC FOCUS SEED | run PLAN | rundec PLAN | batch SC FOCUS FIRST STRIDE COUNT SECONDS\n");
  return 2;
}
