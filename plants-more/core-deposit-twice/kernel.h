// Simulated kernel: threads, time, sockets, files and randomness under one seeded scheduler.
// Everything here runs with the "token": exactly one simulated thread executes at any time.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <functional>
#include <map>

namespace sim {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed ? seed : 0x9E3779B97F4A7C15ull) {}
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
};
inline uint64_t mix64(uint64_t x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }

// ---- tunables of one run (part of the plan) ----
struct Tune {
  double preempt = 0;       // probability of a switch at a synchronisation point
  double spurious = 0;      // spurious condition-variable wake-ups
  double eintr = 0;         // EINTR from epoll_wait / eventfd write
  double frag = 0;          // probability a send is split / short
  double shortRead = 0;     // recv returns fewer bytes than available
  double shuffleEpoll = 0;  // ready descriptors reported in another order than FIFO
  uint64_t netMinLat = 200000;      // ns
  uint64_t netJitter = 0;           // ns
  uint32_t sockBuf = 256 * 1024;    // per-direction socket buffer
  double acceptFail = 0, socketFail = 0, connectFail = 0;
  unsigned ncpu = 2;
};
extern Tune tune;

// ---- decisions: every scheduling / fault choice goes through here ----
void decisionsSeed(uint64_t seed);
void decisionsExplicit(const std::map<uint64_t, uint64_t>& d); // replay mode: listed choices, default elsewhere
const std::map<uint64_t, uint64_t>& decisionsTaken();          // non-default choices made so far
uint64_t decisionCount();
uint64_t choose(uint64_t n);      // 0..n-1, 0 is the default
bool chance(double p);            // default false

// ---- lifecycle ----
void start(uint64_t contentSeed, const std::string& fsRoot);   // current thread becomes sim thread 0 (node -1)
bool isActive();
uint64_t now();                   // ns of simulated time
void setMaxSteps(uint64_t n);
uint64_t steps();                 // kernel entries so far
void traceEvent(uint64_t tag, uint64_t a = 0, uint64_t b = 0); // folds into the run hash
uint64_t traceHash();
uint64_t randomU64();             // content randomness (keys, nonces); not part of the schedule
void randomBytes(void* p, size_t n);
void reseedContent(uint64_t seed);

// ---- threads ----
typedef int Tid;
Tid spawn(int node, const std::string& name, std::function<void()> fn); // simulated thread on a node
bool joinFor(Tid t, uint64_t timeoutNs);     // true when the thread finished or died; false on timeout
bool threadDied(Tid t);                      // killed by a node crash
int currentNode();
void setCurrentNode(int node);
void yieldPoint();                           // voluntary scheduling point
void sleepNs(uint64_t ns);
bool waitUntil(const std::function<bool()>& pred, uint64_t timeoutNs, uint64_t pollNs = 10000000); // controller helper
std::string dumpThreads();
extern std::function<void(const std::string&)> onDeadlock;  // called when nothing can ever run again

// ---- nodes ----
void setNodeIp(int node, uint32_t ipHostOrder);
void setWallOffset(int node, int64_t ns);
int64_t wallOffset(int node);
extern uint64_t wallBase;                    // ns since epoch at simulated time 0
void killNode(int node);                     // process kill: threads gone, sockets closed; files stay as the OS has them
unsigned nodeGeneration(int node);
void at(uint64_t timeNs, std::function<void()> fn); // event at absolute simulated time

// ---- network ----
void setLink(int a, int b, bool up);         // partition control (both directions)
bool linkUp(int a, int b);
void setHostDown(int node, bool down);       // host unreachable (connects time out)
void resetConnections(int a, int b);         // RST every connection between a and b
void setStall(int node, bool stalled);       // node's receive side delivers nothing
size_t openSockets(int node);
void lossyClose(int node, double p);

// ---- disk ----
enum FsKind { FS_OPENW, FS_WRITE, FS_RENAME, FS_UNLINK, FS_TRUNC, FS_SYNC, FS_READ, FS_MKDIR, FS_CLOSE };
struct DiskPlan {
  int64_t crashAt = -1;      // index (from arming) of the mutating file operation to die at
  int crashMode = 0;         // 0 before it, 1 after a prefix of the data, 2 after it
  int64_t errAt = -1; int errNo = 0; int64_t errCount = 0; // errCount operations fail from errAt on
  int errShort = 0;          // 1: the first failing write stores a prefix
  int64_t readErrAt = -1;
  uint64_t seen = 0, seenReads = 0;
  bool crashed = false;
  uint64_t errsFired = 0;
  std::string only;          // only paths containing this
};
void armDisk(int node, const DiskPlan& p);
DiskPlan& diskPlan(int node);
void armCrashAtStep(int node, uint64_t stepsFromNow); // dies at a synchronisation point / kernel entry
bool stepCrashFired(int node);

// ---- stats ----
void stat(const char* name, uint64_t add = 1);
const std::map<std::string, uint64_t>& stats();

// DNS / resolver
extern std::function<bool(const std::string& host, std::vector<uint32_t>& ips)> resolver;
extern std::function<bool(const std::string& host, std::vector<std::string>& txt)> dnsTxt;

// scope that makes calls free of scheduling points (harness bookkeeping)
struct NoSched { NoSched(); ~NoSched(); };
}
