// Miner scenario: the real Miner with its worker threads, driven from several threads, over a scripted template
// source (mode 0) or over the real core (mode 1). Every hash the workers compute is observed.
#include "world.h"
#include <CryptoNoteCore/Miner.h>
#include <CryptoNoteCore/Difficulty.h>
#include <algorithm>
#include <unistd.h>
using namespace w;
using hs::hx; using hs::Plan; using hs::Op;
namespace {
const uint64_t MS = 1000000, SEC = 1000 * MS;
thread_local bool t_controller = false;
struct AsNode { int o; AsNode(int n = 0) : o(sim::currentNode()) { sim::setCurrentNode(n); } ~AsNode() { sim::setCurrentNode(o); } };
struct MinerSim;
MinerSim* g_ms = nullptr;
struct Tpl { BinaryArray blob; size_t off = 0; uint64_t diff = 0; uint64_t gen = 0; Hash prev; int addr = 0; uint64_t offered = 0, done = 0; bool mayBeOld = false; };
struct Wk { uint64_t last = 0, first = 0; bool pending = false; Hash sol; uint64_t hashes = 0; int tpl = -1; bool stopSeen = false; BinaryArray lastBlob; };
struct MinerSim : IMinerHandler {
  const Plan& plan; World w; std::unique_ptr<Node> node; Miner* m = nullptr; std::unique_ptr<Miner> own; bool real;
  std::vector<Tpl> tpls; std::map<BinaryArray, int> byBlob; std::map<unsigned long, Wk> wk; std::set<std::pair<int, uint32_t>> hashed; std::set<Hash, HashLess> submitted;
  uint64_t chainGen = 0; uint64_t pausedSince = UINT64_MAX, paused = 0; bool wantRun = false; uint64_t stopCalled = 0, startedAt = 0, stopDone = UINT64_MAX; int curAddr = -1; uint64_t startGen = 0; int startsRunning = 0; uint64_t startsTotal = 0; bool signalled = false;
  uint64_t lastFail = 0; bool everFail = false; uint64_t hashNs; std::map<unsigned, int> busy; MBP tip; std::vector<std::pair<uint64_t, Hash>> tips; // tip changes (time known done)
  MinerSim(const Plan& p) : plan(p), w(paramsFrom(p), 4), real(p.num("real")) { hashNs = p.num("hashns", 1000000); g_ms = this; }
  // ------------------------------------------------------------ template source (mode 0)
  Block makeTemplate(int addr) { Block b; b.baseTransaction.version = 1; b.baseTransaction.unlockTime = 0; b.majorVersion = BLOCK_MAJOR_VERSION_7; b.minorVersion = 0; b.timestamp = sim::wallBase / SEC + sim::now() / SEC; b.previousBlockHash = crypto::cn_fast_hash(&chainGen, 8); b.nonce = 0;
    b.baseTransaction.version = 1; BaseInput in; in.blockIndex = chainGen; b.baseTransaction.inputs.push_back(in); uint64_t n = tpls.size(); TransactionOutput o; o.amount = 1 + n; KeyOutput k; k.key = w.accs[addr].address.spendPublicKey; o.target = k; b.baseTransaction.outputs.push_back(o); return b; }
  int addTpl(const Block& b0, uint64_t diff, int addr) {
    Tpl t; Block b = b0; BinaryArray x, y; b.nonce = 0; get_block_hashing_blob(b, x); b.nonce = 0xffffffff; get_block_hashing_blob(b, y); while (x[t.off] == y[t.off]) ++t.off; t.blob = x; t.diff = diff; t.gen = chainGen; t.prev = b.previousBlockHash; t.addr = addr; t.offered = sim::now(); t.done = UINT64_MAX;
    auto f = byBlob.find(x); if (f != byBlob.end()) return f->second; byBlob[x] = tpls.size(); tpls.push_back(t); return tpls.size() - 1; }
  int addrOf(const AccountPublicAddress& a) { for (size_t i = 0; i < w.accs.size(); ++i) if (w.accs[i].address.spendPublicKey == a.spendPublicKey) return i; return -1; }
  std::map<uint64_t, std::vector<int>> offers; uint64_t tok = 0; // templates handed out during a call we know the end of
  static thread_local std::vector<int>* t_offers;
  bool get_block_template(Block& b, const AccountPublicAddress& adr, difficulty_type& d, uint32_t& height, const BinaryArray&) override {
    if (uint64_t ns = plan.num("slowtpl")) if (sim::chance(0.5)) sim::sleepNs((1 + sim::choose(ns)) * MS);
    if (plan.num("failtpl") && sim::chance(0.15)) { everFail = true; lastFail = sim::now(); hs::count("template-failures"); return false; }
    int a = addrOf(adr); if (a < 0) VIOL("C23", "template-address", "a template is requested for an address mining was never started with");
    b = makeTemplate(a); d = plan.num("diff", 20) * (1 + chainGen % 3); height = chainGen; int i = addTpl(b, d, a); if (t_offers) t_offers->push_back(i); hs::count("templates"); if (uint64_t ns = plan.num("slowtpl")) if (sim::chance(0.3)) sim::sleepNs((1 + sim::choose(ns)) * MS); return true; }
  bool handle_block_found(Block& b) override {
    solution(b); hs::count("solutions"); bool ok = !plan.num("reject") || !sim::chance(0.3); bool wasCtl = t_controller; t_controller = true;
    if (ok) { Scope s(this); newTip(true); }
    t_controller = wasCtl; return ok; }
  uint64_t genKnown = 0, genKnownAt = 0;
  void newTip(bool slow) { m->pause(); uint64_t g = ++chainGen; if (uint64_t ns = slow ? plan.num("slowadd") : 0) sim::sleepNs((1 + sim::choose(ns)) * MS); bool on = m->is_mining() && startedAt && stopDone == UINT64_MAX; uint64_t sc = stopCalled; bool ok = m->on_block_chain_update(); if (ok && on && sc == stopCalled && g > genKnown) { genKnown = g; genKnownAt = sim::now(); } m->resume(); }
  struct Scope { MinerSim* s; std::vector<int> o, *old; Scope(MinerSim* s) : s(s) { old = t_offers; t_offers = &o; } ~Scope() { t_offers = old; for (int i : o) s->tpls[i].done = sim::now(); } };
  // ------------------------------------------------------------ what the workers do
  void solution(const Block& b) {
    BinaryArray x; Block z = b; z.nonce = 0; get_block_hashing_blob(z, x); auto f = byBlob.find(x); Wk& k = wk[pthread_self()];
    if (!real && f == byBlob.end()) VIOL("C23", "foreign-solution", "a block is submitted that belongs to no template");
    Hash h; if (!get_block_longhash_quiet(b, h)) VIOL("", "harness", "hash"); uint64_t d = real ? 0 : tpls[f->second].diff;
    if (!real && !check_hash(h, d)) VIOL("C23", "weak-solution", "a block is submitted whose hash does not meet the template's difficulty " << d);
    if (!submitted.insert(get_block_hash(b)).second) VIOL("C23", "submitted-twice", "a solution was submitted twice");
    k.pending = false; }
  bool get_block_longhash_quiet(const Block& b, Hash& h) { bool o = t_controller; t_controller = true; bool r = get_block_longhash(*w.ctx, b, h); t_controller = o; return r; }
  void onHash(const void* d, size_t n, const Hash& h) { // a worker computed h over the hashing blob
    if (hashNs) sim::sleepNs(hashNs / 2 + sim::choose(hashNs)); else sim::yieldPoint();
    BinaryArray x((const uint8_t*)d, (const uint8_t*)d + n); int ti = -1; uint32_t nonce = 0;
    for (int i = tpls.size(); i-- > 0;) { auto& t = tpls[i]; if (t.blob.size() != x.size()) continue; memcpy(&nonce, &x[t.off], 4); BinaryArray y = x; memset(&y[t.off], 0, 4); if (y == t.blob) { ti = i; break; } }
    Wk& k = wk[pthread_self()]; uint64_t now = sim::now(); uint64_t prev = k.last; 
    if (real && x == k.lastBlob) return; // its solution is being validated
    if (real) { k.lastBlob = x; ++k.hashes; hs::count("hashes"); realHash(x, k, prev); k.last = now; return; }
    if (ti < 0) VIOL("C23", "unknown-template", "a worker hashes something that was never a template");
    Tpl& t = tpls[ti]; k.stopSeen = false;
    if (k.pending) VIOL("C23", "solution-lost", "a worker found a solution and went on without submitting it");
    if (stopDone != UINT64_MAX && startedAt < stopDone) VIOL("C23,C19", "hash-after-stop", "a worker still hashes after stop has returned");
    if (prev) { // the previous hash was done at prev: this one uses the template looked at afterwards
      for (size_t i = ti + 1; i < tpls.size(); ++i) if (tpls[i].done <= prev && tpls[i].offered > t.done && t.done != UINT64_MAX) VIOL("C23", "stale-template", "a worker searches a template that was replaced " << (now - tpls[i].done) / MS << " ms ago, before its previous attempt had ended");
      if (t.gen < genKnown && genKnownAt <= prev) VIOL("C23", "stale-tip", "a worker searches a template of chain state " << t.gen << " although the miner was told of state " << genKnown << " " << (now - genKnownAt) / MS << " ms ago, before its previous attempt had ended");
      if (paused && pausedSince < prev) VIOL("C23", "hash-while-paused", "a worker starts attempts while mining has been paused for " << (now - pausedSince) / MS << " ms");
    }
    if (!startsRunning && curAddr >= 0 && startedAt && t.addr != curAddr) VIOL("C23", "wrong-address", "mining was started for account " << curAddr << " but searches a template paying account " << t.addr);
    if (startedAt && !everFail && t.gen < startGen) VIOL("C23", "old-chain", "mining was started when the chain was at state " << startGen << " and searches a template of state " << t.gen);
    if (!hashed.insert({ti, nonce}).second) VIOL("C23", "same-nonce", "two attempts on one template use the same nonce");
    if (check_hash(h, t.diff)) { k.pending = true; k.sol = h; }
    k.last = now; k.tpl = ti; ++k.hashes; hs::count("hashes"); }
  void realHash(const BinaryArray& x, Wk& k, uint64_t prev) { // which tip does it build on?
    if (stopDone != UINT64_MAX && startedAt < stopDone) VIOL("C23,C19", "hash-after-stop", "a worker still hashes after stop has returned");
    if (!prev || prev < startedAt) return; // tips: (time at which it was known to be adopted, hash)
    size_t cur = tips.size(); std::string s((const char*)x.data(), x.size()); for (size_t i = tips.size(); i-- > 0;) if (s.find(std::string((const char*)&tips[i].second, 32)) != std::string::npos) { cur = i; break; }
    if (cur == tips.size()) return; // a tip found by a worker just now
    if (cur + 1 < tips.size() && tips[cur + 1].first <= prev) { if (getenv("SIM_DEBUG")) { for (auto& t : tips) fprintf(stderr, "tip %lu %s h%d\n", t.first, hx(t.second).c_str(), w.blocks.count(t.second) ? (int)w.blocks[t.second]->height : -1); fprintf(stderr, "cur %zu prev %lu now %lu node tip %s\n", cur, prev, sim::now(), hx(node->tip()).c_str()); } VIOL("C23", "stale-tip", "a worker searches on a tip replaced " << (sim::now() - tips[cur + 1].first) / MS << " ms ago, before its previous attempt had ended"); } }
  // ------------------------------------------------------------ operations (on any controller thread)
  struct Mut { std::vector<sim::Signal*> q; bool held = false; void lock() { while (held) { sim::Signal s; q.push_back(&s); s.wait(UINT64_MAX); } held = true; } void unlock() { held = false; if (!q.empty()) { auto* s = q.front(); q.erase(q.begin()); s->raise(); } } } life;
  void start(int a, int n) { Scope s(this); bool alone = !startsRunning++; uint64_t nStarts = ++startsTotal, g = chainGen; bool was = m->is_mining(); uint64_t t0 = sim::now(), stopsBefore = stopCalled; uint64_t sd = stopDone; if (!was) stopDone = UINT64_MAX; bool r = m->start(w.accs[a].address, n); if (!r && !was && stopDone == UINT64_MAX && nStarts == startsTotal && stopsBefore == stopCalled) stopDone = sd;
    
    if (r) { curAddr = a; startGen = g; wantRun = true; startedAt = sim::now(); stopDone = UINT64_MAX; hs::count("starts"); } else if (!was && !signalled && alone && nStarts == startsTotal && stopsBefore == stopCalled) VIOL("C23", "start-refused", "starting a stopped miner failed"); --startsRunning; (void)t0; }
  void stop() { ++stopCalled; hs::count("stops"); uint64_t t = sim::now(); m->stop(); if (sim::now() - t > 3 * SEC + 20 * hashNs + plan.num("slowtpl") * 20 * MS + plan.num("slowadd") * 20 * MS) VIOL("C23,C19", "stop-slow", "stopping took " << (sim::now() - t) / MS << " ms"); }
  void doOp(const Op& o) {
    sim::reseedContent(sim::mix64(o.arg(1) ^ plan.seed));
    if (o.name == "start") { bool l = !o.arg(3) || real; if (l) life.lock(); if (real) { startReal(o); } else start(o.arg(1) % 4, 1 + o.arg(2) % 3); if (l) life.unlock(); }
    else if (o.name == "stop") { bool l = !o.arg(3); if (l) life.lock(); uint64_t n0 = startsTotal; bool other = startsRunning; stop(); other |= n0 != startsTotal; wk.clear(); if (l) { signalled = false; stopDone = sim::now(); wantRun = false; if (other) stopDone = UINT64_MAX; else if (m->is_mining()) VIOL("C23", "mining-after-stop", "is_mining after stop has returned"); life.unlock(); } }
    else if (o.name == "signal") { m->send_stop_signal(); for (auto& x : wk) x.second.pending = false; wantRun = false; signalled = true; }
    else if (o.name == "pause") { life.lock(); m->pause(); if (!paused++) pausedSince = sim::now(); life.unlock(); }
    else if (o.name == "resume") { life.lock(); if (paused) { if (!--paused) pausedSince = UINT64_MAX; m->resume(); } life.unlock(); }
    else if (o.name == "chain") { if (real) chainReal(o); else for (uint64_t k = 0; k < 1 + (o.arg(2) % 3 == 0 ? o.arg(2) / 3 % (hashNs < 5000 ? 40 : 8) : 0); ++k) { Scope s(this); newTip(false); if (o.arg(2) / 24 % 2) sim::yieldPoint(); } }
    else if (o.name == "idle") { Scope s(this); if (real) node->c->on_idle(); else m->on_idle(); }
    else if (o.name == "wait") sim::sleepNs(o.arg(1) * MS);
    else if (o.name == "speed") { m->get_speed(); m->is_mining(); }
  }
  void progress() { // started and not paused: solutions must come
    for (auto& x : std::vector<int>(paused)) { (void)x; m->resume(); } paused = 0; pausedSince = UINT64_MAX;
    if (!m->is_mining()) { doOp(Op{"stop", {0, 0, 0, 0}}); doOp(Op{"start", {0, 1, 1, 0}}); }
    Scope s(this); for (int i = 0; i < 20 && !real; ++i) { if (m->on_block_chain_update() && tpls.size() && tpls.back().done == UINT64_MAX) break; sim::sleepNs(10 * MS); }
    uint64_t n0 = hs::report().counts["hashes"], s0 = hs::report().counts[real ? "mined" : "solutions"]; uint64_t need = real ? 40 : plan.num("diff", 20) < 60 ? 3000 : 200;
    if (!sim::waitUntil([&] { return hs::report().counts["hashes"] > n0 + need || hs::report().counts[real ? "mined" : "solutions"] > s0; }, 3000 * SEC, 50 * MS)) VIOL("C23,C19", "no-progress", "mining is on but workers make no attempts: " << sim::dumpThreads());
    if (!real && hs::report().counts["solutions"] == s0 && plan.num("diff", 20) < 60) VIOL("C23", "no-solutions", "3000 attempts at difficulty of at most " << plan.num("diff", 20) * 3 << " and no solution submitted"); hs::count("progress-checks"); }
  // ------------------------------------------------------------ mode 1: the real core
  void setTip() { Hash t = node->tip(); if (tips.empty() || !(tips.back().second == t)) tips.push_back({sim::now(), t}); }
  void startReal(const Op& o) { bool was = m->is_mining(); if (!was) { stopDone = UINT64_MAX; startedAt = sim::now(); } bool r = m->start(w.accs[o.arg(1) % 4].address, 1 + o.arg(2) % 3); if (r) { startedAt = sim::now(); stopDone = UINT64_MAX; hs::count("starts"); } else if (!was && !signalled) VIOL("C23", "start-refused", "starting a stopped miner failed"); }
  MBP learn() { Hash t = node->tip(); std::vector<Block> bs; while (!w.blocks.count(t)) { Block b; if (!node->c->getBlockByHash(t, b)) break; bs.push_back(b); t = b.previousBlockHash; }
    for (; !bs.empty(); bs.pop_back()) { auto p = w.blocks.find(bs.back().previousBlockHash); if (p == w.blocks.end()) VIOL("", "harness", "unknown parent"); MBP b = w.adopt(bs.back(), p->second); if (!b) VIOL("C23,C07", "unknown-tx", "a mined block holds a transaction nobody made"); if (!b->bad.empty()) VIOL("C23,C07,C10", "mined-invalid", "the node mined an invalid block: " << b->bad); hs::count("mined"); }
    return w.blocks[node->tip()]; }
  void chainReal(const Op& o) { MBP t; { bool c = t_controller; t_controller = true; t = learn(); World::BlockSpec s; s.parent = t; s.miner = o.arg(2) % 4; s.ts = std::max<uint64_t>(t->b.timestamp + 1, sim::wallBase / SEC + sim::now() / SEC); MBP b = w.build(s); if (b && b->bad.empty()) { node->offer(b); hs::count("external-blocks"); } t_controller = c; } setTip(); }
  void run() {
    AsNode an; t_controller = true;
    std::string dir = hs::scratchDir() + "/n00";
    if (real) { node.reset(new Node(w, dir)); if (!node->open()) VIOL("", "harness", "open"); uint32_t len = 14; uint64_t ts = sim::wallBase / SEC - len * 120 - 600; MBP cur = w.genesis; for (uint32_t i = 0; i < len; ++i) { World::BlockSpec s; s.parent = cur; ts += 100; s.ts = ts; cur = w.build(s); node->offer(cur); } setTip(); m = &node->c->get_miner(); }
    else { own.reset(new Miner(*w.cur, *this, nolog)); m = own.get(); }
    { MinerConfig mc; std::string f = hs::scratchDir() + "/extra"; FILE* x = fopen(f.c_str(), "w"); fputs("YWJj\nZGVm\n", x); fclose(x); mc.extraMessages = f; mc.miningThreads = 0; if (!m->init(mc)) VIOL("", "harness", "miner init"); }
    int T = plan.num("threads", 2); if (real) T = 1; std::vector<sim::Tid> tid; std::vector<std::vector<Op>> q(T); for (size_t i = 0; i < plan.ops.size(); ++i) q[plan.ops[i].arg(0) % T].push_back(plan.ops[i]);
    for (int t = 0; t < T; ++t) tid.push_back(sim::spawn(0, "ctl", [this, t, &q] { t_controller = true; for (auto& o : q[t]) { doOp(o); hs::report().opsDone++; hs::state(hs::fnv(std::to_string(m->is_mining()) + "/" + std::to_string(paused) + "/" + std::to_string(wk.size()) + "/" + std::to_string(chainGen))); sim::sleepNs(1000 * (1 + sim::choose(200))); } }));
    for (auto t : tid) if (!sim::joinFor(t, 3600 * SEC)) VIOL("C23,C19", "stuck", "an operation on the miner never returns: " << sim::dumpThreads());
    if (plan.num("progress", 1)) progress();
    if (real) { learn(); doOp(Op{"stop", {0, 0, 0, 0}}); MBP t = learn(); hs::note("mined up to height " + std::to_string(t->height)); node->close(); }
    else { if (plan.num("enddestroy")) { sim::Tid x = sim::spawn(0, "destroy", [this] { t_controller = true; own.reset(); }); if (!sim::joinFor(x, 600 * SEC)) VIOL("C23,C19", "destroy-hangs", "destroying the miner never returns: " << sim::dumpThreads()); } else { sim::Tid x = sim::spawn(0, "stop", [this] { t_controller = true; doOp(Op{"stop", {0, 0, 0, 0}}); own.reset(); }); if (!sim::joinFor(x, 600 * SEC)) VIOL("C23,C19", "stop-hangs", "stopping the miner never returns: " << sim::dumpThreads()); }
      stopDone = sim::now(); startedAt = 0; uint64_t n = hs::report().counts["hashes"]; sim::sleepNs(5 * SEC); if (hs::report().counts["hashes"] != n) VIOL("C23,C19", "hash-after-stop", "attempts after the miner was destroyed"); }
  }
};
thread_local std::vector<int>* MinerSim::t_offers = nullptr;
Plan genMiner(uint64_t seed, const std::string& focus) {
  Plan p; sim::Rng r(sim::mix64(seed) ^ hs::fnv(focus + "miner")); p.seed = seed; p.focus = focus;
  p.set("h2", 1); p.set("h3", 2); p.set("h4", 3); p.set("h7", 4); p.set("h8", 5);
  p.set("real", r.chance(0.2)); p.set("threads", r.range(1, 4)); bool fast = !p.num("real") && r.chance(0.35); p.set("hashns", fast ? (r.chance(0.5) ? 0 : r.range(100, 4000)) : 1000 * (r.chance(0.5) ? r.range(50, 2000) : r.range(2000, 80000))); p.set("diff", r.chance(fast ? 0.2 : 0.7) ? r.range(3, 40) : r.range(100, 5000));
  if (!fast && r.chance(0.4)) p.set("slowtpl", r.range(1, 300)); if (!fast && r.chance(0.3)) p.set("slowadd", r.range(1, 300)); p.set("failtpl", r.chance(0.2)); p.set("reject", r.chance(0.3)); p.set("enddestroy", r.chance(0.5));
  p.setr("t_preempt", r.chance(0.7) ? 0.05 + r.below(75) / 100.0 : 0); p.set("t_ncpu", r.range(1, 3)); if (r.chance(0.3)) p.setr("t_spurious", 0.2);
  bool wild = r.chance(0.3); int n = r.range(6, 40); const char* k[] = {"start", "start", "start", "stop", "stop", "pause", "resume", "resume", "chain", "chain", "chain", "idle", "wait", "wait", "speed", "signal"};
  for (int i = 0; i < n; ++i) { std::string o = k[r.below(16)]; if (o == "signal" && r.chance(0.6)) o = "chain"; p.op(o, {r.below(8), o == "wait" ? fast ? r.range(0, 2) : (r.chance(0.6) ? r.range(1, 300) : r.range(300, 9000)) : r.next() >> 20, r.next() >> 20, (uint64_t)(wild && r.chance(0.5))}); }
  return p;
}
void runMiner(const Plan& p) {
  sim::start(p.seed, hs::scratchDir()); hs::setFailureProps("C23,C19", "C23,C19");
  MinerSim* s = new MinerSim(p);
  sim::powHook = [](const void* d, size_t n, const void* h) { if (t_controller || !g_ms) return; Hash x; memcpy(&x, h, 32); g_ms->onHash(d, n, x); };
  s->run();
}
hs::AutoReg rMiner({"miner", genMiner, runMiner});
}
