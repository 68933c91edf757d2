// Scenario framework: plans (explicit, text, minimisable), one forked process per run, JSON reports.
#pragma once
#include "kernel.h"
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <sstream>

namespace hs {

struct Op { std::string name; std::vector<uint64_t> a; uint64_t arg(size_t i) const { return i < a.size() ? a[i] : 0; } };
struct Plan {
  std::string scenario, focus;
  uint64_t seed = 1;
  std::map<std::string, std::string> params;
  std::vector<Op> ops;
  bool explicitDecisions = false;
  std::map<uint64_t, uint64_t> decisions;
  uint64_t num(const std::string& k, uint64_t def = 0) const { auto i = params.find(k); return i == params.end() ? def : std::stoull(i->second); }
  double real(const std::string& k, double def = 0) const { auto i = params.find(k); return i == params.end() ? def : std::stod(i->second); }
  std::string str(const std::string& k, const std::string& def = "") const { auto i = params.find(k); return i == params.end() ? def : i->second; }
  void set(const std::string& k, uint64_t v) { params[k] = std::to_string(v); }
  void setr(const std::string& k, double v) { std::ostringstream s; s << v; params[k] = s.str(); }
  void op(const std::string& n, std::vector<uint64_t> a = {}) { ops.push_back({n, std::move(a)}); }
  std::string text() const;
  static Plan parse(const std::string& t);
};

// What a run tells the outside. Any thread of the run may call these (one thread runs at a time).
struct Report {
  std::string props, key, msg;          // violation, if any
  std::vector<std::string> notes;       // samples of what was checked
  std::set<uint64_t> states;            // distinct states reached (bounded)
  std::map<std::string, uint64_t> counts;
  uint64_t opsDone = 0;
  size_t curOp = 0;
};
Report& report();
// Ends the run: prints the report and exits the process.
// props: comma separated property ids this observation contradicts; key: stable identity of the failure kind.
[[noreturn]] void violation(const std::string& props, const std::string& key, const std::string& msg);
[[noreturn]] void finish();
void state(uint64_t h);
void count(const std::string& what, uint64_t n = 1);
void note(const std::string& s);
// properties a crash / deadlock / hang of this run contradicts
void setFailureProps(const std::string& crash, const std::string& hang);

struct Scenario {
  std::string name;
  std::function<Plan(uint64_t seed, const std::string& focus)> generate;
  std::function<void(const Plan&)> execute;
};
void registerScenario(const Scenario& s);
struct AutoReg { AutoReg(const Scenario& s) { registerScenario(s); } };

std::string scratchDir();      // this run's directory (fixed-length name, removed by the parent)
std::string hex(const void* p, size_t n);
template <class T> std::string hx(const T& t, size_t n = 4) { return hex(&t, n); }
uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }
void applyTune(const Plan& p); // sim::tune from the plan's t_* parameters
}
#define VIOL(props, key, expr) do { std::ostringstream _o; _o << expr; hs::violation(props, key, _o.str()); } while (0)
