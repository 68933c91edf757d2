// Ledger scenarios: the real core (blockchain, pool, miner object, storage) driven by a seeded mix of
// blocks, branches, forged input, transactions, clock changes and restarts, compared after every
// operation with the reference model of world.cpp.
#include "world.h"
#include <algorithm>
#include <array>
#include <CryptoNoteCore/IBlock.h>
#include <Rpc/CoreRpcServerCommandsDefinitions.h>
#include <CryptoNoteProtocol/CryptoNoteProtocolDefinitions.h>
#include <CryptoNoteCore/VerificationContext.h>
#include <time.h>
#include <unistd.h>
#include <boost/filesystem.hpp>
using namespace w;
using hs::hx; using hs::Plan; using hs::Op;

namespace {
const uint64_t C6 = 1000000;
typedef std::set<Hash, HashLess> HSet;

bool stopOnDiskError = false; // a node that met a disk error is stopped at the end of the call in progress
struct AsNode { AsNode() { sim::setCurrentNode(0); } ~AsNode() { if (stopOnDiskError && sim::diskPlan(0).errsFired) { sim::stat("fault.kill_after_disk_error"); sim::dieHere(); } sim::setCurrentNode(-1); } };

struct CoreSim {
  const Plan& plan; World w; std::string dir; std::unique_ptr<Node> n; bool indexes;
  MBP tip; std::map<Hash, MBP, HashLess> alts;
  std::vector<MBP> universe, withheld; std::set<Hash, HashLess> inUni;
  std::map<uint32_t, Hash> cps;
  struct Track { uint64_t since; uint64_t ttl; bool kept; uint64_t last; }; // accepted at; latest moment its lifetime may have restarted
  std::map<Hash, Track, HashLess> tracked;   // pending transactions the node has accepted
  HSet everExpired;
  std::vector<Hash> txOrder;                 // registered transactions in creation order
  std::vector<crypto::KeyImage> kis;
  std::vector<MBP> history;                  // every main chain tip the node has had
  MBP attempt;                               // block being offered, while the offer runs
  bool clockBack = false; uint64_t lastIdle = 0; int idleSince = 0;
  uint64_t t0;
  CoreSim(const Plan& p) : plan(p), w(paramsFrom(p), 4), dir(hs::scratchDir() + "/n0"), indexes(p.num("indexes")) { }

  uint64_t now() { AsNode a; return (uint64_t)time(nullptr); }
  void sleepSec(uint64_t s) { sim::sleepNs(s * 1000000000ull); }
  void addUni(const MBP& b) { if (inUni.insert(b->hash).second) universe.push_back(b); }
  bool onMain(const MBP& b) { return onChain(b, tip); }
  static bool onChain(const MBP& b, const MBP& t) { const MB* x = t.get(); while (x && x->height > b->height) x = x->parent.get(); return x == b.get(); }
  static MBP ancestor(const MBP& t, uint32_t h) { MBP x = t; while (x && x->height > h) x = x->parent; return x; }
  uint32_t lastCp() { return cps.empty() ? 0 : cps.rbegin()->first; }

  // ---------------------------------------------------------------- start
  void base() {
    uint32_t len = plan.num("base", 14); uint64_t step = plan.num("step", 120);
    t0 = sim::wallBase / 1000000000ull - (uint64_t)len * step - plan.num("t0back", 600);
    MBP cur = w.genesis; addUni(cur);
    sim::Rng r(plan.seed * 31 + 5);
    uint64_t ts = t0;
    for (uint32_t i = 0; i < len; ++i) {
      World::BlockSpec s; s.parent = cur; s.miner = r.below(w.accs.size()); s.outs = 1 + r.below(3);
      size_t txBytes = 0;
      ts += cur->height < w.p.h4 + 2 ? 100 : plan.num("even") ? step : 1 + r.below(2 * step); // the old rule runs away on the first close or distant timestamps
      if (w.p.profile == 3) ts = cur->b.timestamp + paceOld(cur, r); // old difficulty rule: keep it in a useful range
      if (cur->height == 0) ts = t0;
      if (cur->height > 10 && r.chance(0.6)) { // ordinary use before the run starts: transfers and deposits
        Ledger led = *cur->led; uint64_t is = 0; int64_t dep = 0; static const char* bk[] = {"transfer", "deposit", "deposit", "msig", "bigdeposit", "deposit", "deposit", "msig", "withdraw", "msigspend"}; int nbk = plan.focus == "C02" || plan.focus == "C03" ? 10 : 5;
        for (int j = 0, m = 1 + r.below(3); j < m; ++j) { TxInfo t; if (!makeTxKind(bk[r.below(nbk)], cur, r.next() >> 8, t)) continue; std::string pr; if (!w.checkTx(led, t, cur->height + 1, pr).empty() || w.timeLock(led, t.tx)) continue; if (t.tx.unlockTime >= 500000000 || txBytes + t.size > w.p.rewardZone - 300) continue; txBytes += t.size;
          regTx(t); w.apply(led, t.tx, t.id, cur->height + 1, s.txs.size() + 1, is, dep); s.txs.push_back(t.id); }
      }
      s.ts = ts; cur = w.build(s); if (!cur) VIOL("", "harness", "base block could not be built");
      if (!cur->bad.empty()) VIOL("", "harness", "base block is invalid: " << cur->bad);
      ts = cur->b.timestamp; addUni(cur);
    }
    tipBase = cur;
  }
  MBP tipBase;
  uint64_t paceOld(const MBP& p, sim::Rng& r) { uint64_t d = w.nextDiff(p); return d < 4 ? 20 + r.below(60) : d < 60 ? 60 + r.below(110) : 130 + r.below(120); }
  void openNode() {
    AsNode a; n.reset(new Node(w, dir, indexes, false));
    bool ok = n->open(cps); if (!ok && stopOnDiskError && sim::diskPlan(0).errsFired) sim::dieHere();
    if (!ok) VIOL("C01,C04", "init-failed", "the node does not start on an intact data directory");
  }
  void feed(Node& nd, const MBP& to, uint32_t from) {
    AsNode a;
    for (MB* b : to->path()) { if (b->height < from) continue; MBP m = w.blocks[b->hash];
      Node::Res r = nd.offer(m, true, false);
      if (!(nd.tip() == m->hash)) VIOL("C01,C06", "base-refused", "a fresh node refuses block " << m->height << " of a valid chain (tx refused " << r.txRefused << ")"); }
  }
  void start() {
    base();
    if (plan.num("cp")) cps[std::min<uint64_t>(plan.num("cp"), tipBase->height)] = ancestor(tipBase, plan.num("cp"))->hash;
    if (plan.num("fcp")) { // a checkpoint ahead of the chain, on a branch only the harness knows
      MBP c = tipBase; for (uint64_t i = 0; i < plan.num("fcp"); ++i) { World::BlockSpec s; s.parent = c; s.ts = c->b.timestamp + 60; s.miner = i % 4; c = w.build(s); withheld.push_back(c); }
      cps[c->height] = c->hash;
    }
    openNode(); feed(*n, tipBase, 1); tip = tipBase; history.push_back(tip);
    hs::count("base-blocks", tip->height);
  }

  // ---------------------------------------------------------------- prediction
  struct Out { enum K { EXISTS, PUSHED, REFUSED, STORED, SWITCHED, SWITCHFAIL, ORPHAN, OUTSIDE } k; std::string why; };
  bool canPush(const MBP& b, HSet& avail, uint64_t t, std::string& why) {
    if (!b->bad.empty()) { why = b->bad; return false; }
    for (auto& h : b->b.transactionHashes) if (!avail.count(h)) { why = "missing-tx"; return false; }
    if (b->b.timestamp > t + w.p.future) { why = "future-time"; return false; }
    if (!w.medianOk(b->parent, b->b.timestamp, false)) { why = "old-time"; return false; }
    if (b->needTime > t) { why = "time-locked"; return false; }
    auto c = cps.find(b->height); if (c != cps.end() && b->height <= lastCp() && !(c->second == b->hash)) { why = "checkpoint"; return false; }
    for (auto& h : b->b.transactionHashes) avail.erase(h);
    return true;
  }
  bool altAllowed(uint32_t size, uint32_t h) {
    if (!h) return false;
    uint32_t low = size < 10 ? 0 : size - 10;
    if (h < low && !(!cps.empty() && h <= lastCp())) return false;
    auto it = cps.upper_bound(size); if (it == cps.begin()) return true;
    --it; return it->first < h;
  }
  Out predict(const MBP& b, HSet avail, uint64_t t) {
    Out o; std::string why;
    if (onMain(b) || alts.count(b->hash)) { o.k = Out::EXISTS; return o; }
    if (b->parent == tip) {
      if (!canPush(b, avail, t, why)) { o.k = Out::REFUSED; o.why = why; return o; }
      o.k = Out::PUSHED; setTip(b); return o;
    }
    o.k = Out::REFUSED;
    uint32_t size = tip->height + 1;
    if (!altAllowed(size, get_block_height(b->b))) { o.why = "too-deep"; return o; }
    if (b->b.majorVersion != w.version(get_block_height(b->b))) { o.why = "version"; return o; }
    if (b->headerBad == "block-too-big") { o.why = b->headerBad; return o; }
    if (!onMain(b->parent) && !alts.count(b->parent->hash)) { o.k = Out::ORPHAN; return o; }
    std::vector<MBP> A{b}; MBP r = b->parent;
    while (alts.count(r->hash)) { A.insert(A.begin(), r); r = r->parent; }
    if (!onMain(r)) { o.why = "dangling"; return o; }
    if (A.size() > 1 && A[0]->height >= size) { o.why = "dangling"; return o; }
    if (!w.medianOk(b->parent, b->b.timestamp, true)) { o.why = "old-time"; return o; }
    auto c = cps.find(b->height); bool isCp = c != cps.end() && c->second == b->hash;
    if (c != cps.end() && !isCp) { o.why = "checkpoint"; return o; }
    if (!b->headerBad.empty()) { o.why = b->headerBad; return o; }
    // stored
    std::map<Hash, MBP, HashLess> before = alts; alts[b->hash] = b;
    if (!(isCp || b->cum > tip->cum)) { o.k = Out::STORED; return o; }
    o.k = Out::SWITCHFAIL;
    if (A[0]->height >= size) { o.why = "dangling"; return o; }
    std::vector<MBP> D; for (MBP x = tip; x != r; x = x->parent) D.insert(D.begin(), x);
    HSet at; for (auto& x : A) for (auto& h : x->b.transactionHashes) at.insert(h);
    for (auto& x : D) for (auto& h : x->b.transactionHashes) if (!at.count(h)) { o.why = "discards-transactions"; return o; }
    for (auto& x : D) for (auto& h : x->b.transactionHashes) avail.insert(h);
    for (size_t i = 0; i < A.size(); ++i) if (!canPush(A[i], avail, t, why)) { o.why = why; if (i) history.push_back(A[i - 1]); for (; i < A.size(); ++i) alts.erase(A[i]->hash); return o; }
    if (!isCp) for (auto& x : D) if (!altAllowed(A.back()->height + 1, x->height)) { o.k = Out::OUTSIDE; return o; }
    for (auto& x : A) alts.erase(x->hash);
    if (!isCp) for (auto& x : D) alts[x->hash] = x;
    o.k = Out::SWITCHED; hs::count("reorg-depth-" + std::to_string(D.size())); setTip(b);
    // transactions of displaced blocks that are not on the new chain are pending again (none: the switch rule), others mined
    return o;
  }
  std::vector<MBP> pub; // tips since the query group began
  void setTip(const MBP& b) { tip = b; history.push_back(b); pub.push_back(b); }

  // ---------------------------------------------------------------- pool bookkeeping
  bool conflictsWithMain(const Transaction& tx) {
    const Ledger& l = *tip->led;
    for (auto& in : tx.inputs) {
      if (in.type() == typeid(KeyInput)) { if (l.ki.count(boost::get<KeyInput>(in).keyImage)) return true; }
      else if (in.type() == typeid(MultisignatureInput)) { auto& m = boost::get<MultisignatureInput>(in); auto f = l.ms.find(m.amount); if (f != l.ms.end() && m.outputIndex < f->second.size() && f->second[m.outputIndex].used) return true; }
    }
    return false;
  }
  static bool share(const Transaction& a, const Transaction& b) {
    for (auto& x : a.inputs) for (auto& y : b.inputs) {
      if (x.type() != y.type()) continue;
      if (x.type() == typeid(KeyInput)) { if (boost::get<KeyInput>(x).keyImage == boost::get<KeyInput>(y).keyImage) return true; }
      else if (x.type() == typeid(MultisignatureInput)) { auto& p = boost::get<MultisignatureInput>(x); auto& q = boost::get<MultisignatureInput>(y); if (p.amount == q.amount && p.outputIndex == q.outputIndex) return true; }
    }
    return false;
  }
  void checkPool(const char* when) {
    std::vector<Hash> P; { AsNode a; P = n->pool(); }
    HSet ps(P.begin(), P.end()); uint64_t t = now();
    for (auto& id : P) {
      if (tip->led->tx.count(id)) VIOL("C07,C01", "pool-has-mined", when << ": pending set contains mined transaction " << hx(id));
      if (!w.txs.count(id)) VIOL("C05,C07", "pool-unknown", when << ": pending set contains a transaction nobody sent " << hx(id));
      if (!tracked.count(id)) { tracked[id] = {t, ttlOf(id), true, t}; }
      Hash pid; if (indexes && getPaymentIdFromTxExtra(w.txs[id].tx.extra, pid)) {
        std::vector<Transaction> ts; { AsNode a; n->c->getTransactionsByPaymentId(pid, ts); } bool f = false; for (auto& x : ts) if (getObjectHash(x) == id) f = true;
        hs::count("pending-by-payment-id"); if (!f) VIOL("C20", "pending-payment-id", when << ": pending transaction " << hx(id) << " is not found by its payment id");
      }
    }
    if (!trusted() && (plan.focus == "C08" || plan.focus == "C07" || plan.focus == "C20" || plan.seed % 4 == 1)) { // what the node offers wallets and miners as pending
      std::vector<Transaction> add; std::vector<Hash> del; { AsNode a; n->c->getPoolChanges({}, add, del); } HSet ready; for (auto& x : add) ready.insert(getObjectHash(x));
      for (auto& id : P) { auto& ti = w.txs[id]; std::string pr, why = w.checkTx(*tip->led, ti, tip->height + 1, pr); uint64_t tl = w.timeLock(*tip->led, ti.tx), t2 = now(); hs::count(why.empty() ? "pending-usable" : "pending-unusable");
        if (ready.count(id) && (!why.empty() || tl > t2)) VIOL("C07,C20", "offers-unusable-pending", when << ": pending transaction " << hx(id) << " is offered although unusable on this chain: " << (why.empty() ? "time-locked" : why));
        if (!ready.count(id) && why.empty() && tl <= t) VIOL("C08,C20", "withholds-usable-pending", when << ": pending transaction " << hx(id) << " is usable on this chain but treated as unusable"); }
    }
    uint64_t live = std::min(w.p.poolLife, w.p.altPoolLife);
    for (auto it = tracked.begin(); it != tracked.end();) {
      const Hash& id = it->first;
      if (tip->led->tx.count(id)) { it->second.since = it->second.last = t; it->second.kept = true; ++it; continue; } // mined; comes back when abandoned
      if (ps.count(id)) { ++it; continue; }
      bool expired = t >= it->second.since + live || (it->second.ttl && it->second.ttl <= t);
      if (!expired && !conflictsWithMain(w.txs[id].tx))
        VIOL("C08", "tx-lost", when << ": pending transaction " << hx(id) << " disappeared after " << (int64_t)(t - it->second.since) << " s (neither mined, expired nor conflicting; kept=" << it->second.kept << " ttl=" << it->second.ttl << ")");
      if (expired) everExpired.insert(id);
      it = tracked.erase(it);
    }
    for (size_t i = 0; i < P.size(); ++i) for (size_t j = i + 1; j < P.size(); ++j) {
      auto a = tracked.find(P[i]), b = tracked.find(P[j]);
      if (a == tracked.end() || b == tracked.end() || a->second.kept || b->second.kept) continue;
      if (share(w.txs[P[i]].tx, w.txs[P[j]].tx)) VIOL("C07,C02", "pool-conflict", when << ": two pending transactions accepted for relay spend the same coin " << hx(P[i]) << " " << hx(P[j]));
    }
    hs::state(sim::mix64(hs::fnv(&tip->hash, 32) ^ hs::fnv(P.data(), P.size() * 32)));
  }
  uint64_t ttlOf(const Hash& id) { auto f = w.txs.find(id); return f == w.txs.end() ? 0 : f->second.ttl; }

  // ---------------------------------------------------------------- facts
  std::vector<MBP> recent() { std::vector<MBP> r; for (auto& b : universe) if (b->height + 14 > tip->height) r.push_back(b); return r; }
  void compare(bool heavy, const char* when, const char* extraProps = "") {
    std::string k; std::map<std::string, std::string> a, b;
    { AsNode x; a = n->facts(universe, kis, heavy); }
    b = modelFacts(w, tip, universe, kis, heavy, indexes);
    std::string d = diffFacts(a, b, "node", "expected", k);
    hs::count(heavy ? "full-state-comparisons" : "light-state-comparisons");
    if (!d.empty()) {
      std::string props = "C01"; if (k == "coins" || k == "deposits" || k == "block-interest" || k == "block-deposit" || k == "block-coins" || k == "block-emitted") props += ",C03";
      if (k == "spent-marker") props += ",C02"; if (k == "next-difficulty" || k == "block-difficulty") props += ",C21";
      if (k == "size" || k == "top" || k == "tail") props += ",C06";
      VIOL(props + extraProps, "state-" + k, when << ": " << d);
    }
  }
  void checkKnown(const char* when) { // which blocks the node says it has: the main chain and the alternatives it keeps
    for (auto& b : universe) { if (b->height + 14 <= tip->height) continue; bool have; { AsNode x; have = n->c->have_block(b->hash); }
      bool exp = onMain(b) || alts.count(b->hash);
      if (have != exp) VIOL("C06,C01,C05" + std::string(b->parent && !w.medianOk(b->parent, b->b.timestamp, true) ? ",C21" : "") + (b->badProps.empty() ? "" : "," + b->badProps), have ? "forgotten-block-known" : "known-block-forgotten", when << ": block " << b->height << " " << hx(b->hash) << (b->bad.empty() ? "" : " [invalid: " + b->bad + "]") << (have ? " is still held although it or its parent was refused or discarded" : " is no longer held")); }
    hs::count("known-block-checks");
  }
  std::map<std::string, std::string> snap(bool heavy = false) { AsNode x; return n->facts(universe, kis, heavy); }

  // ---------------------------------------------------------------- offering
  Out offer(const MBP& b, const std::string& what, uint64_t withhold = 0) {
    addUni(b);
    auto f0 = snap(); HSet p0; MBP oldTip = tip; Out o;
    bool txRefused = false, wasBadTx = false; Hash refusedId; Node::Res res; HSet avail; uint64_t t1, t2;
    {
      AsNode a;
      for (auto& x : n->pool()) p0.insert(x);
      size_t i = 0;
      for (auto& t : b->txs) {
        if (withhold >> (i++ % 64) & 1) continue;
        Hash id = getObjectHash(t); bool ret; auto v = n->submit(t, true, &ret);
        if (v.m_verification_failed) { txRefused = true; refusedId = id; break; }
      }
      for (auto& x : n->pool()) avail.insert(x);
      t1 = time(nullptr); attempt = b;
      if (!txRefused) { res.bvc = block_verification_context{}; res.ret = n->c->handle_incoming_block_blob(toBinaryArray(b->b), res.bvc, true, true); }
      t2 = time(nullptr);
    }
    hs::count("offer:" + what);
    attempt.reset();
    if (t1 != t2 && (b->b.timestamp == t1 + w.p.future + 1 || b->needTime == t2)) { hs::count("offer-time-edge-skipped"); }
    if (txRefused) {
      o.k = Out::REFUSED; o.why = "tx-refused";
      if (b->bad.empty() && b->parent->bad.empty() && onMain(b->parent)) VIOL("C05,C06,C08", "refused-valid-block-tx", what << ": transaction " << hx(refusedId) << " of a valid block is refused on delivery");
      (void)wasBadTx;
    } else {
      bool nEx = onMain(b) || alts.count(b->hash);
      o = predict(b, avail, t2);
      if (o.k == Out::OUTSIDE) { hs::count("outside-envelope"); hs::finish(); }
      if (nEx != (bool)res.bvc.m_already_exists && o.k != Out::REFUSED) VIOL("C01,C06", nEx ? "known-block-not-recognised" : "block-taken-for-known", what << ": block " << b->height << " " << hx(b->hash) << " already-exists reported " << res.bvc.m_already_exists);
    }
    static const char* kn[] = {"exists", "pushed", "refused", "stored", "switched", "switch-failed", "orphan", "outside"};
    hs::count(std::string("outcome:") + kn[o.k]); if (o.k == Out::REFUSED || o.k == Out::SWITCHFAIL) hs::count("refusal:" + o.why);
    Hash got; { AsNode a; got = n->tip(); }
    if (!(got == tip->hash)) {
      auto f = w.blocks.find(got);
      std::string k, props; std::ostringstream m;
      m << what << ": after block " << b->height << " " << hx(b->hash) << (b->bad.empty() ? "" : " [invalid: " + b->bad + "]") << " the node's tip is ";
      if (f == w.blocks.end()) { m << "unknown block " << hx(got); k = "tip-unknown"; props = "C01,C06"; }
      else {
        MBP g = f->second; m << g->height << " " << hx(got) << " (work " << g->cum << "), expected " << tip->height << " " << hx(tip->hash) << " (work " << tip->cum << ", outcome " << kn[o.k] << " " << o.why << ")";
        const MB* firstBad = nullptr; for (const MB* x = g.get(); x; x = x->parent.get()) if (!x->bad.empty() && x->bad != "invalid-parent") firstBad = x;
        if (firstBad) { k = "accepted-" + firstBad->bad; props = firstBad->badProps + ",C06"; }
        else if (g == oldTip) { k = o.k == Out::SWITCHED ? "heavier-branch-not-adopted" : "valid-block-refused"; props = "C06"; if (what == "template") props = "C07"; if (o.k == Out::PUSHED) props += ",C05"; if (!clockBackOrSkew()) ; }
        else if (o.k == Out::REFUSED || o.k == Out::SWITCHFAIL) { k = "accepted-" + o.why; props = o.why == "future-time" || o.why == "old-time" || o.why == "time-locked" ? "C21,C06" : o.why == "missing-tx" ? "C05,C06" : "C06"; if (!onChain(b, g)) { k = "chain-lost"; props = "C05,C06"; } if (o.why == "time-locked") props = "C02,C21"; }
        else { k = "wrong-tip"; props = "C06"; }
      }
      VIOL(props, k, m.str());
    }
    if (o.k == Out::PUSHED || o.k == Out::SWITCHED) {
      if (!res.bvc.m_added_to_main_chain) VIOL("C06", "adopted-but-not-reported", what << ": block adopted but reported as not added");
      for (const MB* x = tip.get(); x && x != oldTip.get(); x = x->parent.get()) { if (onChain(w.blocks[x->hash], oldTip)) break; for (auto& h : x->b.transactionHashes) { tracked[h] = {t2, ttlOf(h), true, t2}; } }
    } else {
      // nothing may have changed
      auto f1 = snap(); std::string k, d = diffFacts(f1, f0, "after", "before", k);
      if (o.k == Out::REFUSED || o.k == Out::SWITCHFAIL || o.k == Out::ORPHAN) {
        if (res.bvc.m_added_to_main_chain) VIOL("C06", "refused-but-reported-added", what << ": refused block (" << kn[o.k] << " " << o.why << ") reported as added");
        hs::count("refusals-checked");
      }
      if (!d.empty()) VIOL("C05", "refused-changed-state", what << " (" << kn[o.k] << " " << o.why << (b->bad.empty() ? "" : ", block is " + b->bad) << "): " << d);
      HSet p1; { AsNode a; for (auto& x : n->pool()) p1.insert(x); }
      HSet allowed = p0; for (auto& h : b->b.transactionHashes) if (!tip->led->tx.count(h)) allowed.insert(h);
      for (auto& x : p1) if (!allowed.count(x)) VIOL("C05", "refused-changed-pool", what << ": pending set gained " << hx(x));
      for (auto& x : p0) if (!p1.count(x)) VIOL("C05,C08", "refused-lost-pending", what << " (" << kn[o.k] << " " << o.why << ", block is " << b->bad << "): pending transaction " << hx(x) << " disappeared");
    }
    for (MBP x = b; x; x = x->parent) { // taken from and returned to the pool, perhaps by a branch tried again: its lifetime starts again
      if (ancestor(tip, x->height) == x && x != b) break;
      for (auto& h : x->b.transactionHashes) { auto f = tracked.find(h); if (f != tracked.end()) f->second.last = t2; }
    }
    sim::traceEvent(0xB10C, hs::fnv(&got, 32), o.k);
    checkPool(what.c_str()); checkKnown(what.c_str());
    if ((o.k == Out::SWITCHED || o.k == Out::SWITCHFAIL) && probing()) probeSpent("switch");
    return o;
  }
  bool clockBackOrSkew() { return clockBack; }

  // ---------------------------------------------------------------- choosing
  MBP pickParent(uint64_t r) {
    uint64_t x = r % 100; uint64_t fork = plan.num("forky", 30);
    if (x >= fork) return tip;
    r /= 100;
    std::vector<MBP> c;
    if (x % 10 < 7) { for (auto& a : alts) if (a.second->height + 7 > tip->height) c.push_back(a.second); std::sort(c.begin(), c.end(), [](const MBP& p, const MBP& q) { return p->cum != q->cum ? p->cum > q->cum : memcmp(&p->hash, &q->hash, 32) < 0; }); if (c.size() > 3) c.resize(3); }
    if (c.empty()) { uint32_t d = 1 + r % 6; if (tip->height <= d + 1) return tip; return ancestor(tip, tip->height - d); }
    return c[(r / 7) % c.size()];
  }
  uint64_t pickTs(const MBP& p, uint64_t r) {
    uint64_t k = r % 100, v = r / 100; uint64_t t = now();
    if (w.p.profile == 3) { sim::Rng g(r); return p->b.timestamp + paceOld(p, g); }
    std::vector<uint64_t> ts; for (const MB* b = p.get(); b && ts.size() < w.p.tsWindow; b = b->parent.get()) ts.push_back(b->b.timestamp);
    uint64_t med = ts.size() < w.p.tsWindow ? 0 : medianOf(ts);
    if (k < 70) return std::max(med, p->b.timestamp + 1 + v % 200);
    if (k < 80) return std::max<uint64_t>(med, p->b.timestamp - std::min<uint64_t>(p->b.timestamp - 1, v % 300));
    if (k < 84) return med ? med : p->b.timestamp + 30;
    if (k < 88) return std::max(med, t + w.p.future - v % 2);         // as far ahead as allowed
    if (k < 94) return std::max(med, t);
    return std::max(med, p->b.timestamp + 120);
  }
  void runClockTo(uint64_t ts, uint64_t r) { uint64_t t = now(); if (ts > t && ts < t + 40000 && r % 10 < 7) sleepSec(ts - t); }
  // transactions for a block on p: those a switch to this branch must carry, plus valid pending and fresh ones
  std::vector<Hash> pickTxs(const MBP& p, uint64_t r) {
    std::vector<Hash> out; std::vector<Hash> cand;
    if (!onMain(p)) { MBP f = p; HSet have; while (!onMain(f)) { for (auto& h : f->b.transactionHashes) have.insert(h); f = f->parent; }
      if (r % 100 < 88) for (MB* b : tip->path()) if (b->height > f->height) for (auto& h : b->b.transactionHashes) if (!have.count(h)) cand.push_back(h);
    } else if (p != tip && r % 100 < 88) for (MB* b : tip->path()) if (b->height > p->height) for (auto& h : b->b.transactionHashes) cand.push_back(h);
    size_t must = cand.size(), lim = must + (r / 100) % (1 + plan.num("maxtx", 4));
    size_t st = txOrder.empty() ? 0 : (r / 1000) % txOrder.size();
    for (size_t i = 0; i < txOrder.size(); ++i) cand.push_back(txOrder[(st + i) % txOrder.size()]);
    auto led = std::make_shared<Ledger>(*p->led); HSet in; size_t sz = 300; uint64_t is = 0; int64_t dep = 0;
    for (auto& id : cand) {
      if (out.size() >= lim) break;
      if (!in.insert(id).second) continue;
      const TxInfo& t = w.txs[id]; if (!t.bad.empty() || t.ttl) continue;
      std::string pr; if (!w.checkTx(*led, t, p->height + 1, pr).empty()) continue;
      if (t.tx.version > 1 && w.version(p->height + 1) == 1) continue;
      if (sz + t.size > 2 * w.p.rewardZone) continue;
      sz += t.size; w.apply(*led, t.tx, id, p->height + 1, out.size() + 1, is, dep); out.push_back(id);
    }
    return out;
  }
  TxInfo& regTx(const TxInfo& t) {
    if (!w.txs.count(t.id)) { txOrder.push_back(t.id); for (auto& in : t.tx.inputs) if (in.type() == typeid(KeyInput) && kis.size() < 80) kis.push_back(boost::get<KeyInput>(in).keyImage); }
    return w.reg(t);
  }
  std::vector<OutInfo> deposits(const MBP& at, int owner, bool mature, bool term, bool used) {
    std::vector<OutInfo> r;
    for (auto& a : at->led->ms) for (auto& o : a.second) {
      if (o.used != used || (o.term != 0) != term) continue;
      if (term && owner >= 0 && o.owner != owner) continue;
      if (o.unlock < 500000000 && o.unlock > at->height + 1) continue;
      if (term && mature != ((uint64_t)o.height + o.term <= at->height + 1)) continue;
      r.push_back(o);
    }
    return r;
  }
  // kinds of transactions; 'at' is the branch whose coins are used
  bool makeTxKind(const std::string& kind, const MBP& at, uint64_t r, TxInfo& t) {
    World::TxSpec s; s.at = at; s.from = r % 4; s.to = (r / 4) % 4; r /= 16; s.pick = r % 1000; r /= 1000; s.mixin = r % 3; r /= 3; s.nOuts = 1 + r % 3; r /= 3; s.fee = 1000;
    s.amount = C6 * (1 + r % 40) / (1 + r % 3) + r % 997; r /= 64;
    if (r % 5 == 0) { s.pid = crypto::cn_fast_hash(&r, 1); } r /= 5;
    std::set<crypto::KeyImage, HashLess> avoid;
    if (kind == "transfer") { if (r % 8 == 0) s.unlock = at->height + 2 + r % 5; else if (r % 8 == 1) s.unlock = now() + (r / 8) % 4000; if (r % 16 == 5) s.fee = 2000; return w.makeTx(s, t); }
    if (kind == "big") { s.pad = 600 + r % 3000; return w.makeTx(s, t); }
    if (kind == "ttl") { s.fee = 0; s.ttl = now() + 1 + r % 3000; return w.makeTx(s, t); }
    if (kind == "deposit") { s.term = w.p.minTermV3 * (1 + r % 3); s.amount = r % 2 ? C6 : C6 * (1 + r % 9) + (r % 3 ? 0 : 1234); s.to = s.from; s.msOut = false; return w.makeTx(s, t); }
    if (kind == "bigdeposit") { s.term = w.p.minTermV3 * (1 + r % 2); s.amount = C6 * (10000ull + 3000 * (r % 6)); s.to = s.from; return w.makeTx(s, t); }
    if (kind == "msig") { s.msOut = true; s.msSigners = 1 + r % 3; if (r / 3 % 2) s.amount = C6; return w.makeTx(s, t); }
    if (kind == "msigspend") { auto d = deposits(at, -1, true, false, false); if (d.empty()) return false; return w.makeWithdrawal(at, {d[r % d.size()]}, s.to, 0, 1000, t); }
    if (kind == "withdraw") { auto d = deposits(at, -1, true, true, false); if (d.empty()) return false; std::vector<OutInfo> v{d[r % d.size()]}; if (d.size() > 1 && r % 3 == 0) { auto& o = d[(r + 1) % d.size()]; if (outKeyDiff(o, v[0])) v.push_back(o); } return w.makeWithdrawal(at, v, s.to, 0, 1000, t); }
    // ---- invalid ones
    if (kind == "greedywithdraw") { auto d = deposits(at, -1, true, true, false); if (d.empty()) return false; return w.makeWithdrawal(at, {d[r % d.size()]}, s.to, 1001 + r % 5, 1000, t); }
    if (kind == "early") { auto d = deposits(at, -1, false, true, false); if (d.empty()) return false; return w.makeWithdrawal(at, {d[r % d.size()]}, s.to, 0, 1000, t); }
    if (kind == "again") { auto d = deposits(at, -1, true, true, true); auto e = deposits(at, -1, true, false, true); d.insert(d.end(), e.begin(), e.end()); if (d.empty()) return false; return w.makeWithdrawal(at, {d[r % d.size()]}, s.to, 0, 1000, t); }
    if (kind == "badmsig") { auto d = deposits(at, -1, true, true, false); if (d.empty()) return false; return w.makeWithdrawal(at, {d[r % d.size()]}, s.to, 0, 1000, t, true); }
    if (kind == "badsig") { s.badSig = true; return w.makeTx(s, t); }
    if (kind == "overspend") { s.overspend = 1001 + r % 100000; return w.makeTx(s, t); }
    if (kind == "locked") { s.ignoreLock = true; std::vector<OutInfo> c; for (int a = 0; a < 4; ++a) for (auto& o : w.spendable(at, a, true)) if (o.unlock < 500000000 && o.unlock > at->height + 1) { c.push_back(o); } if (c.empty()) return false; s.force = {c[r % c.size()]}; s.from = s.force[0].owner; s.amount = s.force[0].amount / 2; s.mixin = 0; return w.makeTx(s, t); }
    if (kind == "unknown") { s.wrongRing = true; s.mixin = 1; return w.makeTx(s, t); }
    if (kind == "dupinput") { s.dupInput = true; return w.makeTx(s, t); }
    if (kind == "respend") { // a coin already spent on this branch
      std::vector<OutInfo> c; for (auto& a : at->led->key) for (auto& o : a.second) if (o.owner >= 0 && o.amount > 5000 && at->led->ki.count(w.keyImage(o))) c.push_back(o);
      if (c.empty()) return false; s.force = {c[r % c.size()]}; s.from = s.force[0].owner; s.amount = s.force[0].amount / 2; return w.makeTx(s, t); }
    if (kind == "conflict") { // a coin some pending transaction spends
      std::vector<Hash> P; { AsNode a; P = n->pool(); } if (P.empty()) return false;
      for (size_t i = 0; i < P.size(); ++i) { auto& p = w.txs[P[(r + i) % P.size()]];
        for (auto& in : p.tx.inputs) if (in.type() == typeid(KeyInput)) { auto& ki = boost::get<KeyInput>(in).keyImage;
          for (auto& a : at->led->key) for (auto& o : a.second) if (o.owner >= 0 && w.keyImage(o) == ki && o.amount > 3000) { s.force = {o}; s.from = o.owner; s.amount = o.amount / 2; return w.makeTx(s, t); } }
        else if (in.type() == typeid(MultisignatureInput)) { auto& m = boost::get<MultisignatureInput>(in); auto f = at->led->ms.find(m.amount); if (f != at->led->ms.end() && m.outputIndex < f->second.size()) return w.makeWithdrawal(at, {f->second[m.outputIndex]}, s.to, 0, 1000, t); } }
      return false; }
    return false;
  }
  bool outKeyDiff(const OutInfo& a, const OutInfo& b) { return !(a.tx == b.tx && a.idx == b.idx); }

  // ---------------------------------------------------------------- operations
  void opMine(const Op& o) {
    MBP p = pickParent(o.arg(1)); MBP b = mineOn(p, o, 0);
    // a stretch of blocks on the same branch, long enough to overtake now and then
    if (b && p != tip && o.arg(5) % 100 < plan.num("burst", 0)) for (uint64_t i = 1, k = 1 + (o.arg(5) / 100) % 7; i <= k && b && b != tip; ++i) b = mineOn(b, o, i);
  }
  MBP mineOn(MBP p, const Op& o, uint64_t salt) {
    auto A = [&](int i) { return salt ? sim::mix64(o.arg(i) + salt * 1000003) >> 16 : o.arg(i); };
    World::BlockSpec s; s.parent = p; s.ts = pickTs(p, A(2)); s.txs = pickTxs(p, A(3)); s.miner = A(0) % 4; s.outs = 1 + (A(0) / 4) % 3;
    if ((A(0) / 12) % 20 == 0 && w.version(p->height + 1) >= 2) { s.coinbaseDeposit = true; s.coinbaseTerm = w.p.minTermV3 * (1 + A(0) % 2); s.outs = 2; }
    if (plan.num("pad") && (A(0) / 240) % 4 == 0) s.extraPad = (A(0) / 1000) % plan.num("pad");
    if (w.nextDiff(p) > 4000 || w.nextDiff(p) == 0) { hs::count("difficulty-out-of-range"); return nullptr; }
    MBP b = w.build(s); if (!b) return nullptr;
    runClockTo(b->b.timestamp, A(4));
    if ((A(4) / 10) % 100 < plan.num("withhold", 15)) { withheld.push_back(b); hs::count("withheld"); return b; }
    offer(b, p == tip ? "mine" : "branch"); return b;
  }
  void opDeliver(const Op& o) { if (withheld.empty()) return; size_t i = o.arg(1) % withheld.size(); if (o.arg(2) % 3) i = 0; MBP b = withheld[i]; if (!(o.arg(3) % 6 == 0)) withheld.erase(withheld.begin() + i); offer(b, "deliver"); }
  void opReoffer(const Op& o) { if (universe.size() < 2) return; std::vector<MBP> c; for (auto& b : universe) if (b->height && b->height + 9 > tip->height) c.push_back(b); if (c.empty()) return; offer(c[o.arg(1) % c.size()], "again"); }
  void opBad(const Op& o) {
    static const std::vector<std::string> kinds = {"weakpow", "reward+", "reward-", "unlock", "height", "version", "cbdeposit-term", "cbdeposit-version", "future", "old", "missing",
      "tx:badsig", "tx:overspend", "tx:locked", "tx:unknown", "tx:dupinput", "tx:respend", "tx:early", "tx:greedywithdraw", "tx:again", "tx:badmsig", "two-conflicting", "same-block", "twice", "big", "reward+small", "tx:locked-time", "future-branch", "childofbad"};
    std::string k = kinds[o.arg(5) % kinds.size()];
    if (plan.focus == "C21" && o.arg(5) / 64 % 5 < 2) { static const char* tk[] = {"old", "old", "future", "future-branch", "tx:locked-time"}; k = tk[o.arg(5) / 320 % 5]; }
    MBP p = pickParent(o.arg(1));
    if (k == "old" && o.arg(1) / 7 % 3 && !alts.empty()) { std::vector<MBP> c; for (auto& a : alts) if (a.second->height + 8 > tip->height) c.push_back(a.second); if (!c.empty()) p = c[o.arg(1) / 21 % c.size()]; } World::BlockSpec s; s.parent = p; s.ts = std::max(pickTs(p, o.arg(2) % 70), p->b.timestamp + 1); s.txs = pickTxs(p, o.arg(3)); s.miner = o.arg(0) % 4; s.outs = 1 + o.arg(0) % 2;
    if (w.nextDiff(p) > 4000 || w.nextDiff(p) == 0) return;
    if (p->height + 1 <= lastCp()) return; // work and signatures are not checked below a checkpoint
    uint64_t r = o.arg(4), withhold = 0;
    if (k == "weakpow") { s.weakPow = true; if (w.nextDiff(p) < 2) return; }
    else if (k == "reward+") s.rewardDelta = 11 + r % 100000; else if (k == "reward-") s.rewardDelta = -(int64_t)(1 + r % 1000);
    else if (k == "reward+small") s.rewardDelta = 1 + r % 10; // tolerated by the rules
    else if (k == "unlock") s.unlockDelta = (r % 2 ? 1 : -1) * (1 + r % 5); else if (k == "height") s.heightDelta = (r % 2 ? 1 : -1);
    else if (k == "version") s.versionDelta = (r % 2 ? 1 : -1);
    else if (k == "cbdeposit-term") { s.coinbaseDeposit = true; s.outs = 2; s.coinbaseTerm = w.p.minTermV3 + 1; }
    else if (k == "cbdeposit-version") { s.coinbaseDeposit = true; s.coinbaseVersion = 1; s.outs = 2; s.coinbaseTerm = w.p.minTermV3; }
    else if (k == "future" || k == "future-branch") { s.ts = now() + w.p.future + (r % 3 == 0 ? 1 : 2 + r % 4000); }
    else if (k == "old") { std::vector<uint64_t> ts; for (const MB* b = p.get(); b && ts.size() < w.p.tsWindow; b = b->parent.get()) ts.push_back(b->b.timestamp); if (ts.size() < w.p.tsWindow) return; s.ts = medianOf(ts) - 1 - (r % 3 ? 0 : r % 1000); }
    else if (k == "missing") { TxInfo t; if (!makeTxKind("transfer", p, r, t)) return; regTx(t); txOrder.pop_back(); s.txs.push_back(t.id); withhold = ~0ull; }
    else if (k.substr(0, 3) == "tx:") {
      TxInfo t; std::string tk = k.substr(3);
      if (tk == "locked-time") { // coin locked until a clock time still ahead
        std::vector<OutInfo> c; uint64_t tn = now(); for (int a = 0; a < 4; ++a) for (auto& x : w.spendable(p, a, true)) if (x.unlock >= 500000000 && x.unlock > tn + 125) c.push_back(x);
        if (c.empty()) return; World::TxSpec q; q.at = p; q.force = {c[r % c.size()]}; q.from = q.force[0].owner; q.amount = q.force[0].amount / 2; if (!w.makeTx(q, t)) return;
      } else if (!makeTxKind(tk, p, r, t)) return;
      regTx(t); s.txs.insert(s.txs.begin() + (s.txs.empty() ? 0 : r % (s.txs.size() + 1)), t.id);
    }
    else if (k == "two-conflicting") {
      auto c = w.spendable(p, r % 4, false); if (c.empty()) return; OutInfo oi = c[(r / 4) % c.size()]; if (oi.amount < 10000) return;
      for (int i = 0; i < 2; ++i) { World::TxSpec q; q.at = p; q.force = {oi}; q.from = oi.owner; q.to = i; q.amount = oi.amount / 2 + i; TxInfo t; if (!w.makeTx(q, t)) return; regTx(t); s.txs.push_back(t.id); }
    }
    else if (k == "same-block") { // spends an output created in the same block
      TxInfo t; if (!makeTxKind("transfer", p, r, t)) return; if (t.tx.unlockTime) return; regTx(t);
      Ledger l = *p->led; uint64_t is = 0; int64_t dep = 0; w.apply(l, t.tx, t.id, p->height + 1, 1, is, dep);
      MBP fake = std::make_shared<MB>(*p); fake->led = std::make_shared<Ledger>(l);
      std::vector<OutInfo> c; for (auto& x : l.key) for (auto& y : x.second) if (y.tx == t.id && y.owner >= 0 && y.amount > 5000) c.push_back(y); if (c.empty()) return;
      World::TxSpec q; q.at = fake; q.force = {c[r % c.size()]}; q.from = q.force[0].owner; q.amount = q.force[0].amount / 2; TxInfo t2; if (!w.makeTx(q, t2)) return; regTx(t2);
      s.txs.push_back(t.id); s.txs.push_back(t2.id);
    }
    else if (k == "twice") { if (s.txs.empty()) return; s.txs.push_back(s.txs[0]); }
    else if (k == "big") { if (w.p.maxBlock0 > 30000) return; s.extraPad = w.p.maxBlock0 + 300 + r % 1000; }
    else if (k == "childofbad") { std::vector<MBP> c; for (auto& b : universe) if (!b->bad.empty() && b->headerBad.empty() && b->height + 8 > tip->height) c.push_back(b); if (c.empty()) return; s.parent = c[r % c.size()]; s.txs.clear(); s.ts = s.parent->b.timestamp + 60; }
    MBP b = w.build(s); if (!b) return; b->forged = true; hs::count("forged:" + k);
    if (k == "height" || k == "version") { /* refused at once */ }
    offer(b, "bad-" + k, withhold);
    // honest-looking blocks on top of an invalid one: the branch may overtake and then fail half way
    if (p != tip && alts.count(b->hash) && o.arg(1) / 7 % 2) { MBP c = b; for (uint64_t i = 1, m = 1 + o.arg(2) % 7; i <= m && c && c != tip && alts.count(c->hash); ++i) { Op q = o; q.a[4] = 9; c = mineOn(c, q, i); hs::count("blocks-on-invalid"); } }
  }
  bool trusted() { return tip->height + 1 <= lastCp(); } // below a checkpoint work and signatures are not checked
  void opTx(const Op& o) {
    if (trusted()) return;
    static const std::vector<std::string> good = {"transfer", "transfer", "transfer", "transfer", "deposit", "deposit", "withdraw", "withdraw", "msig", "msigspend", "ttl", "big", "bigdeposit"};
    static const std::vector<std::string> bad = {"badsig", "overspend", "locked", "unknown", "dupinput", "respend", "conflict", "conflict", "early", "again", "greedywithdraw", "badmsig", "resubmit", "locked-time", "ttl-bad", "corrupt"};
    std::string k; TxInfo t; uint64_t r = o.arg(1);
    if (o.arg(2) % 100 < plan.num("goodtx", 70)) k = good[o.arg(3) % good.size()]; else k = bad[o.arg(3) % bad.size()];
    if ((plan.focus == "C02" || plan.focus == "C03") && o.arg(3) / 1000 % 3 == 0) { static const char* dk[] = {"withdraw", "withdraw", "msigspend", "deposit", "again", "msig"}; k = dk[o.arg(3) / 3000 % 6]; }
    if (k == "resubmit") { if (txOrder.empty()) return; t = w.txs[txOrder[r % txOrder.size()]]; }
    else if (k == "ttl-bad") { World::TxSpec s; s.at = tip; s.from = r % 4; s.amount = C6; s.fee = 0; s.ttl = r % 2 ? now() - 1 - r % 100 : now() + w.p.poolLife + w.p.future + 5 + r % 1000; if (!w.makeTx(s, t)) return; t.ttl = s.ttl; }
    else if (k == "locked-time") { std::vector<OutInfo> c; for (int a = 0; a < 4; ++a) for (auto& x : w.spendable(tip, a, true)) if (x.unlock >= 500000000) c.push_back(x); if (c.empty()) return; World::TxSpec q; q.at = tip; q.force = {c[r % c.size()]}; q.from = q.force[0].owner; q.amount = q.force[0].amount / 2; if (!w.makeTx(q, t)) return; }
    else if (k == "corrupt") { if (!makeTxKind("transfer", tip, r, t)) return; BinaryArray ba = toBinaryArray(t.tx); size_t p = o.arg(4) % ba.size(); ba[p] ^= 1 + (o.arg(4) / 1000) % 255; if (o.arg(4) % 4 == 0) ba.resize(ba.size() / 2);
      Transaction x; Hash h, h2; auto f0 = snap(); HSet p0; tx_verification_context v{}; { AsNode a; for (auto& id : n->pool()) p0.insert(id); n->c->handle_incoming_tx(ba, v, false); std::vector<Hash> P = n->pool(); for (auto& id : P) if (!p0.count(id)) VIOL("C02,C05", "corrupt-tx-accepted", "a transaction altered after signing is accepted as pending (byte " << p << ")"); }
      hs::count("tx:corrupt"); return; }
    else if (!makeTxKind(k, tip, r, t)) return;
    if (k != "resubmit" && k != "ttl-bad") regTx(t); else if (k == "ttl-bad") { w.reg(t); }
    submit(t, k);
  }
  void submit(const TxInfo& t, const std::string& k) {
    HSet p0; std::string pr, why = w.checkTx(*tip->led, t, tip->height + 1, pr); bool conflict = false, clash = false, dup = false; uint64_t need = w.timeLock(*tip->led, t.tx);
    tx_verification_context v; bool ret; uint64_t t1, t2; HSet p1;
    { AsNode a; for (auto& x : n->pool()) p0.insert(x); }
    for (auto& x : p0) { if (x == t.id) dup = true; else if (share(w.txs[x].tx, t.tx)) { clash = true; auto f = tracked.find(x); if (f != tracked.end() && !f->second.kept) conflict = true; } }
    auto f0 = snap();
    { AsNode a; t1 = time(nullptr); v = n->submit(t.tx, false, &ret); t2 = time(nullptr); for (auto& x : n->pool()) p1.insert(x); }
    bool in = p1.count(t.id), added = in && !dup;
    hs::count("tx:" + k); hs::count(added ? "tx-accepted" : "tx-not-accepted");
    bool timeOk = need <= t2, ttlOk = !t.ttl || (t.ttl > t1 && t.ttl - t1 <= w.p.poolLife + w.p.future);
    if (added) {
      if (!why.empty()) VIOL(pr + ",C07", "accepted-tx-" + why, k << " transaction " << hx(t.id) << " is accepted as pending although it is invalid (" << why << ")");
      if (conflict) VIOL("C02,C07", "accepted-conflicting-tx", k << " transaction " << hx(t.id) << " spends a coin already spent by a pending transaction and is accepted");
      if (need > t2 + 1) VIOL("C02,C21", "accepted-time-locked-tx", k << " transaction " << hx(t.id) << " spends a coin locked for another " << need - t2 << " s and is accepted");
      if (t.ttl && !ttlOk && t1 == t2) VIOL("C07,C08", "accepted-expired-tx", "transaction with lifetime end " << t.ttl << " accepted at " << t2);
      if (v.m_verification_failed) VIOL("C05", "refused-tx-kept", k << " transaction is reported as refused but is now pending");
      tracked[t.id] = {t2, t.ttl, false, t2};
    } else if (!dup && why.empty() && !clash && timeOk && ttlOk && t.size < 2 * w.p.rewardZone - 600 && !expiredOnce(t.id) && (w.version(tip->height + 1) > 1 || t.tx.version == 1)) {
      VIOL("C05,C07,C08", "refused-valid-tx", k << " transaction " << hx(t.id) << " is valid and conflicts with nothing but is not accepted (failed=" << v.m_verification_failed << ")");
    }
    for (auto& x : p0) if (!p1.count(x)) VIOL("C05,C08", "pending-lost-on-submit", "pending transaction " << hx(x) << " disappeared when " << k << " " << hx(t.id) << " was submitted");
    for (auto& x : p1) if (!p0.count(x) && !(x == t.id)) VIOL("C05", "pool-gained", "unrelated transaction became pending");
    if (!added) { auto f1 = snap(); std::string kk, d = diffFacts(f1, f0, "after", "before", kk); if (!d.empty()) VIOL("C05", "refused-changed-state", k << ": " << d); }
    sim::traceEvent(0x7A, hs::fnv(&t.id, 32), added);
    checkPool("submit");
  }
  // after blocks left the main chain: what was withdrawn on what remains must stay withdrawn, and what came free must be withdrawable
  void probeSpent(const char* when) {
    if (trusted() || w.version(tip->height + 1) == 1) return;
    int left = 4; std::vector<OutInfo> c; for (auto& v : {deposits(tip, -1, true, true, true), deposits(tip, -1, true, false, true)}) c.insert(c.end(), v.begin(), v.end());
    std::stable_sort(c.begin(), c.end(), [](const OutInfo& a, const OutInfo& b) { return a.height > b.height; });
    for (auto& oi : c) { if (!left--) break; TxInfo t; if (!w.makeWithdrawal(tip, {oi}, 0, 0, 3000, t)) continue; w.reg(t); submit(t, std::string("probe-again-after-") + when); }
    left = 3;
    for (auto& a : tip->led->key) for (auto& o : a.second) { if (left <= 0) return; if (o.owner < 0 || o.amount < 20000 || o.height + 12 < tip->height || !tip->led->ki.count(w.keyImage(o))) continue; TxInfo t; World::TxSpec s; s.at = tip; s.force = {o}; s.from = o.owner; s.amount = o.amount / 3; s.fee = 2000; if (!w.makeTx(s, t)) continue; --left; w.reg(t); submit(t, std::string("probe-respend-after-") + when); }
  }
  bool probing() { return plan.focus == "C02" || plan.focus == "C03" || plan.seed % 4 == 0; }
  bool expiredOnce(const Hash& id) { return everExpired.count(id); }
  void opTemplate(const Op& o) {
    if (trusted()) return;
    Block b; difficulty_type d = 0; uint32_t h = 0; BinaryArray nonce; if (o.arg(1) % 2) nonce.assign(o.arg(1) % 40 + 1, 0x5a);
    std::vector<uint64_t> ts; for (const MB* x = tip.get(); x && ts.size() < w.p.tsWindow; x = x->parent.get()) ts.push_back(x->b.timestamp);
    uint64_t med = ts.size() < w.p.tsWindow ? 0 : medianOf(ts), t = now(); bool ok; { AsNode a; ok = n->c->get_block_template(b, w.accs[o.arg(2) % 4].address, d, h, nonce); }
    hs::count("templates");
    uint64_t nd = w.nextDiff(tip); if (!nd || nd > 4000) return;
    if (!ok) VIOL("C07,C23", "no-template", "no block template at height " << h);
    if (d != nd || h != tip->height + 1 || !(b.previousBlockHash == tip->hash)) VIOL("C07,C21", "template-header", "template height " << h << " difficulty " << d << " expected " << tip->height + 1 << " " << nd);
    for (auto& id : b.transactionHashes) if (!w.txs.count(id)) VIOL("C07", "template-unknown-tx", "template contains an unknown transaction");
    MBP m = w.adopt(b, tip);
    if (m && !m->bad.empty() && m->bad != "weak-work") VIOL("C07," + m->badProps, "template-" + m->bad, "the node's own template is invalid: " << m->bad << " (" << b.transactionHashes.size() << " transactions)");
    uint64_t need = m ? m->needTime : 0; if (m && need > now() + 1) VIOL("C07,C21", "template-time-locked", "the template spends a coin that is still locked");
    if (med > t + w.p.future) return;
    Hash pow; for (b.nonce = 0;; ++b.nonce) { get_block_longhash(*w.ctx, b, pow); if (powOk(pow, nd)) break; }
    m = w.adopt(b, tip); hs::count("template-txs", b.transactionHashes.size());
    if (o.arg(3) % 4 == 0) return;
    if (b.timestamp > now() + w.p.future) return;
    offer(m, "template");
  }
  void opRestart(const Op& o) {
    std::map<std::string, std::string> f0 = snap(true); std::vector<Hash> p0, p1;
    { AsNode a; p0 = n->pool(); n->close(); }
    if (o.arg(1) % 4 == 0) sleepSec(o.arg(2) % 5000);
    noteExpired(); alts.clear(); openNode();
    auto f1 = snap(true); std::string k, d = diffFacts(f1, f0, "after restart", "before", k);
    if (!d.empty()) VIOL("C01,C04", "restart-" + k, "orderly restart changed the node: " << d);
    hs::count("restarts"); checkPool("restart");
  }
  void opSave(const Op&) { AsNode a; n->c->saveBlockchain(); hs::count("saves"); }
  void opRollback(const Op& o) {
    uint32_t d = 1 + o.arg(1) % 6; if (tip->height < d + 3) return; uint32_t h = tip->height - d; if (h <= lastCp()) return;
    std::set<Hash, HashLess> gone; for (MBP x = tip; x->height > h; x = x->parent) for (auto& t : x->b.transactionHashes) gone.insert(t);
    { AsNode a; n->c->rollback_chain_to(h); }
    setTip(ancestor(tip, h)); alts.clear();
    HSet P; { AsNode a; for (auto& x : n->pool()) P.insert(x); }
    for (auto& g : gone) if (!P.count(g)) tracked.erase(g);
    hs::count("rollbacks"); compare(false, "rollback"); checkPool("rollback"); checkKnown("rollback");
    if (probing()) probeSpent("rollback");
  }
  void opClock(const Op& o) {
    int64_t d = (int64_t)(1 + o.arg(1) % 5400); if (o.arg(2) % 2) { d = -d; clockBack = true; }
    if (o.arg(2) % 8 == 0) d *= 6;
    sim::setWallOffset(0, sim::wallOffset(0) + d * 1000000000ll); hs::count(d < 0 ? "clock-back" : "clock-forward");
    for (auto& x : tracked) x.second.since = std::min(x.second.since, now()); // a refused block may restart its age at the new clock
    { AsNode a; n->c->on_idle(); } noteExpired(); checkPool("clock");
  }
  void noteExpired() { uint64_t t = now(); for (auto& x : tracked) if (t + 1 >= x.second.since + std::min(w.p.poolLife, w.p.altPoolLife) || (x.second.ttl && x.second.ttl <= t + 1)) everExpired.insert(x.first); }
  void opIdle(const Op& o) {
    sleepSec(61); noteExpired(); { AsNode a; n->c->on_idle(); } hs::count("idles"); checkPool("idle");
    if (!clockBack) { AsNode a; uint64_t t = time(nullptr), live = std::max(w.p.poolLife, w.p.altPoolLife); for (auto& id : n->pool()) { auto f = tracked.find(id); if (f == tracked.end()) continue; if ((t > f->second.last + live + 5) || (f->second.ttl && f->second.ttl + 5 < t)) VIOL("C08", "expired-tx-lingers", "transaction " << hx(id) << " is still pending " << t - f->second.last << " s after it arrived (lifetime " << live << " s, ttl " << f->second.ttl << ", now " << t << ")"); } }
  }
  void fresh() { // a node fed only the current main chain must look the same
    auto a = snap(true);
    Node f(w, hs::scratchDir() + "/fresh", indexes, false); std::map<std::string, std::string> b;
    { AsNode x; if (!f.open(cps)) VIOL("C01", "init-failed", "fresh node does not start"); }
    uint64_t t = now(), mx = 0; for (MB* x : tip->path()) mx = std::max(mx, x->b.timestamp); for (MB* x : tip->path()) mx = std::max(mx, x->needTime);
    if (mx > t) sleepSec(mx - t);
    feed(f, tip, 1);
    { AsNode x; b = f.facts(universe, kis, true); }
    std::string k, d = diffFacts(a, b, "node", "fresh node", k); hs::count("fresh-node-comparisons");
    if (!d.empty()) VIOL("C01", "fresh-" + k, "differs from a fresh node fed the same main chain: " << d);
    AsNode x; f.close();
  }
  void run() {
    size_t i = 0; uint64_t every = plan.num("checkevery", 12);
    for (auto& o : plan.ops) {
      hs::report().curOp = i++;
      doOp(o);
      hs::report().opsDone++;
      if (i % every == 0) compare(false, "periodic");
    }
    hs::report().curOp = i;
    compare(true, "end");
  }
  void doOp(const Op& o) {
      sim::reseedContent(sim::mix64(o.arg(0) ^ plan.seed * 77));
      if (o.name == "mine") opMine(o); else if (o.name == "deliver") opDeliver(o); else if (o.name == "bad") opBad(o); else if (o.name == "tx") opTx(o);
      else if (o.name == "template") opTemplate(o); else if (o.name == "restart") opRestart(o); else if (o.name == "save") opSave(o); else if (o.name == "rollback") opRollback(o);
      else if (o.name == "clock") opClock(o); else if (o.name == "idle") opIdle(o); else if (o.name == "wait") { sleepSec(1 + o.arg(1) % 900); } else if (o.name == "again") opReoffer(o);
      else if (o.name == "check") compare(true, "check");
  }
};

void swarm(Plan& p, sim::Rng& r, std::vector<std::pair<std::string, int>> ops, size_t nOps) {
  // each run uses a random subset of operation kinds with random emphasis
  std::vector<std::pair<std::string, uint64_t>> wts; uint64_t sum = 0;
  for (auto& o : ops) { uint64_t x = o.second; if (o.first != "mine" && r.chance(0.25)) x = 0; else if (r.chance(0.25)) x *= 3; if (x) { sum += x; wts.push_back({o.first, x}); } }
  for (size_t i = 0; i < nOps; ++i) {
    uint64_t v = r.below(sum); std::string name;
    for (auto& x : wts) { if (v < x.second) { name = x.first; break; } v -= x.second; }
    p.op(name, {r.next() >> 16, r.next() >> 16, r.next() >> 16, r.next() >> 16, r.next() >> 16, r.next() >> 16});
  }
}
void profile(Plan& p, sim::Rng& r, const std::string& focus) {
  uint64_t x = r.below(100); int prof = x < 45 ? 0 : x < 70 ? 1 : x < 85 ? 2 : 3;
  if (focus == "C21" && r.chance(0.4)) prof = 1;
  if ((focus == "C03" || focus == "C08" || focus == "C07") && prof == 3) prof = 0;
  p.set("profile", prof);
  if (prof == 0) { uint64_t a = r.range(1, 3); p.set("h2", a); p.set("h3", a + 1); p.set("h4", a + 2); p.set("h7", a + 3); p.set("h8", a + 4); p.set("base", focus == "C21" ? r.range(30, 44) : r.range(14, 34)); }
  else if (prof == 1) { p.set("h2", 1); p.set("h3", 2); p.set("h4", 3); p.set("h7", 4); p.set("h8", r.range(5, 8)); p.set("base", r.range(75, 85)); }
  else if (prof == 2) { p.set("h2", 1); p.set("h3", 2); p.set("h4", 3); p.set("h7", r.range(4, 30)); p.set("h8", 100000); p.set("base", r.range(16, 36)); }
  else { p.set("h2", 1); p.set("h3", r.chance(0.5) ? 4 : 100000); p.set("h4", 100001); p.set("h7", 100002); p.set("h8", 100003); p.set("base", r.range(14, 40)); }
  p.set("hV4", 0); p.set("hV3", 0);
  p.set("step", r.chance(0.7) ? 120 : r.range(60, 200)); p.set("even", r.chance(0.3)); p.set("indexes", r.chance(focus == "C01" ? 0.7 : 0.5));
  p.set("t0back", r.chance(0.5) ? 600 : r.range(0, 9000));
  if (r.chance(0.25)) { p.set("rewardZone", r.range(1200, 4000)); p.set("maxBlock0", r.range(6000, 12000)); p.set("pad", 2500); }
  if (r.chance(0.4)) { p.set("poolLife", r.range(600, 8000)); p.set("altPoolLife", r.range(600, 8000)); }
}
Plan genCore(uint64_t seed, const std::string& focus) {
  Plan p; sim::Rng r(sim::mix64(seed) ^ hs::fnv(focus)); p.focus = focus; p.seed = seed;
  profile(p, r, focus);
  if (focus == "C06" ? r.chance(0.4) : r.chance(0.1)) { if (r.chance(0.5)) p.set("cp", p.num("base") - r.below(6)); else p.set("fcp", r.range(1, 4)); }
  p.set("forky", r.range(10, 65)); p.set("withhold", r.chance(0.5) ? r.range(5, 50) : 0); p.set("goodtx", r.range(40, 95)); p.set("maxtx", r.range(1, 6));
  p.set("checkevery", r.range(4, 16)); p.set("burst", r.chance(0.7) ? r.range(10, 70) : 0);
  std::vector<std::pair<std::string, int>> o = {{"mine", 40}, {"tx", 24}, {"bad", 10}, {"template", 5}, {"deliver", 8}, {"rollback", 2}, {"restart", 3}, {"save", 1}, {"clock", 2}, {"wait", 3}, {"idle", 2}, {"again", 2}, {"check", 2}};
  auto boost = [&](const char* k, int v) { for (auto& x : o) if (x.first == k) x.second = v; };
  if (focus == "C01") { boost("rollback", 5); boost("restart", 6); boost("check", 4); }
  if (focus == "C02" || focus == "C03") { boost("bad", 22); boost("tx", 34); boost("rollback", 4); }
  if (focus == "C05") { boost("bad", 34); }
  if (focus == "C06") { boost("deliver", 14); p.set("forky", r.range(30, 75)); }
  if (focus == "C07") { boost("template", 16); boost("tx", 40); }
  if (focus == "C08") { boost("clock", 6); boost("idle", 8); boost("tx", 34); boost("restart", 6); p.set("forky", r.range(20, 60)); }
  if (focus == "C21") { boost("clock", 8); boost("bad", 20); boost("template", 8); }
  swarm(p, r, o, r.range(18, 60));
  return p;
}
void runCore(const Plan& p) {
  sim::start(p.seed, hs::scratchDir());
  hs::setFailureProps("C01,C05,C10", "C19,C06");
  CoreSim* s = new CoreSim(p);
  s->start(); s->run();
  if (p.focus == "C01" || p.seed % 3 == 0) s->fresh();
  { AsNode a; s->n->close(); }
}
// ---------------------------------------------------------------- the process dies and is started again
struct CrashSim : CoreSim {
  size_t next = 0; int crashes = 0; bool diskErr = false, started = false;
  CrashSim(const Plan& p) : CoreSim(p) { stopOnDiskError = true; }
  bool allowed(const MBP& t) { for (auto& h : history) if (onChain(t, h)) return true; return attempt && onChain(t, attempt); }
  void arm(const Op& o) {
    sim::DiskPlan d; uint64_t k = o.arg(1) % 10, at = o.arg(2) % (o.arg(3) % 3 ? 40 : 400);
    if (k < 3) { d.crashAt = at; d.crashMode = 0; } else if (k < 5) { d.crashAt = at; d.crashMode = 1; } else if (k < 7) { d.crashAt = at; d.crashMode = 2; }
    else if (k < 9) { d.errAt = at; d.errNo = o.arg(4) % 2 ? ENOSPC : EIO; d.errCount = 1 + (o.arg(5) % 4 ? o.arg(5) % 3 : 1000); d.errShort = o.arg(4) / 2 % 2; diskErr = true; }
    else { d.readErrAt = at; diskErr = true; }
    static const char* only[] = {"", "", "", "spentkeys", "transactionsmap", "blockscache", "blocks.bin", "blockindexes", "poolstate", "blockchainindices"};
    if (o.arg(6) % 3 == 0) { d.only = only[o.arg(6) / 3 % 10]; if (!d.only.empty()) { int64_t m = 1 + o.arg(2) % 6; if (d.crashAt >= 0) d.crashAt %= m; if (d.errAt >= 0) d.errAt %= m; if (d.readErrAt >= 0) d.readErrAt %= m; } }
    sim::armDisk(0, d); hs::count("armed");
  }
  void step(const Op& o) {
    if (o.name == "arm") return arm(o);
    if (o.name == "cut") { // an orderly stop whose last write to one of the rewritten files did not make it completely
      static const char* fs[] = {"blockscache", "blockscache", "poolstate", "blockchainindices"}; std::string want = fs[o.arg(1) % 4];
      { AsNode a; n->close(); }
      for (auto& f : boost::filesystem::directory_iterator(dir)) { std::string p = f.path().string(); if (p.find(want) == std::string::npos) continue; uint64_t sz = boost::filesystem::file_size(p); if (!sz) continue; uint64_t lose = 1 + o.arg(2) % (o.arg(3) % 2 ? sz : std::min<uint64_t>(sz, 300)); if (truncate(p.c_str(), sz - lose)) continue; hs::count("cut:" + want); }
      AsNode a; n.reset(); sim::dieHere();
    }
    if (o.name == "kill") { AsNode a; sim::dieHere(); }
    doOp(o);
  }
  // body of the node's main thread: returns when the plan is done
  void body() { try { while (next < plan.ops.size()) { const Op& o = plan.ops[next]; hs::report().curOp = next; ++next; step(o); hs::report().opsDone++; } }
    catch (const std::exception& e) { hs::count("stopped-by-exception"); sim::setCurrentNode(0); if (!sim::diskPlan(0).errsFired) VIOL("C04,C10,C05", "exception", "the node stops with an exception without any disk error: " << e.what()); sim::dieHere(); } }
  int phase = 0; bool opened = false; std::string openErr;
  void inThread(const std::function<void()>& f, bool& died) { auto t = sim::spawn(-1, "main", f); if (!sim::joinFor(t, 3600ull * 1000000000ull * 24 * 30)) VIOL("C19,C04", "hang", "the node's main thread does not end: " << sim::dumpThreads()); died = sim::threadDied(t); }
  void recover(bool armedErr, const std::string& how) {
    // start again until a start survives; the second try has no faults
    for (int tries = 0;; ++tries) {
      if (n) n->abandon(); n.reset(new Node(w, dir, indexes, false));
      bool died; opened = false; openErr.clear();
      if (tries == 0 && sim::mix64(plan.seed + crashes) % 4 == 0) { sim::DiskPlan d; uint64_t h = sim::mix64(plan.seed * 3 + crashes); d.crashAt = h % 30; d.crashMode = h / 64 % 3; sim::armDisk(0, d); hs::count("crash-while-restarting"); } else sim::armDisk(0, sim::DiskPlan());
      inThread([&] { AsNode a; try { opened = n->open(cps); } catch (const std::exception& e) { openErr = e.what(); } }, died);
      if (!died) break;
      if (tries > 2) VIOL("", "harness", "restart keeps dying");
    }
    sim::armDisk(0, sim::DiskPlan());
    hs::count("restarts-after-crash");
    if (!opened) { hs::count(armedErr ? "refused-start-after-disk-error" : "refused-start-after-kill"); if (!armedErr) VIOL("C04", "refused-start", how << ": the node refuses to start on the files a killed process left: " << openErr); hs::finish(); }
    Hash got; uint32_t size; { AsNode a; got = n->tip(); size = n->size(); }
    auto f = w.blocks.find(got);
    if (f == w.blocks.end()) VIOL("C04", "unknown-chain", how << ": restarted with tip " << hx(got) << " at height " << size - 1 << ", a block nobody made");
    MBP T = f->second;
    if (!allowed(T)) VIOL("C04", "wrong-chain", how << ": restarted on block " << T->height << " " << hx(got) << ", which is on no chain the node had");
    if (attempt) history.push_back(attempt->bad.empty() && attempt->parent->bad.empty() ? attempt : tip);
    attempt.reset(); alts.clear(); hs::count("blocks-lost-by-crash", tip->height > T->height ? tip->height - T->height : 0); if (T != tip) hs::count("restarted-below-tip");
    tip = T;
    std::vector<Hash> P; { AsNode a; P = n->pool(); }
    tracked.clear(); for (auto& id : P) { if (!w.txs.count(id)) VIOL("C04,C05", "pool-unknown", how << ": restarted with an unknown pending transaction"); tracked[id] = {0, ttlOf(id), true, now()}; }
    for (auto& t : txOrder) everExpired.insert(t); // what the node remembers about old transactions is not predicted after a crash
    std::string h = how; compare(true, h.c_str(), ",C04"); checkPool(how.c_str()); checkKnown(how.c_str());
    hs::count("states-compared-after-crash");
  }
  void runCrash() {
    bool died;
    inThread([&] { start(); started = true; }, died);
    if (died) VIOL("", "harness", "died while starting");
    while (next < plan.ops.size()) {
      inThread([&] { body(); }, died);
      if (died) {
        ++crashes; size_t at = next ? next - 1 : 0; bool e = diskErr; diskErr = false;
        recover(e, "killed during operation " + std::to_string(at) + " (" + plan.ops[at].name + ")");
      }
    }
    sim::armDisk(0, sim::DiskPlan());
    hs::report().curOp = plan.ops.size();
    compare(true, "end", ",C04");
    catchUp();
    fresh();
    { AsNode a; n->close(); }
  }
  void catchUp() { // the network still has the heaviest chain the node ever had: it must get there
    MBP best = tip; for (auto& h : history) { bool good = true; for (const MB* x = h.get(); x; x = x->parent.get()) if (!x->bad.empty()) good = false; if (good && h->cum > best->cum) best = h; }
    if (best == tip) { hs::count("catch-up-none"); return; }
    uint64_t mx = 0; for (MB* x : best->path()) mx = std::max({mx, x->b.timestamp, x->needTime}); if (mx > now()) sleepSec(mx - now());
    MBP f = best; uint32_t back = 0; while (!onMain(f)) f = f->parent; back = tip->height - f->height;
    if (back >= 9) { hs::count("catch-up-too-deep"); return; }
    HSet have; for (MBP x = best; x != f; x = x->parent) for (auto& t : x->b.transactionHashes) have.insert(t);
    for (MBP x = tip; x != f; x = x->parent) for (auto& t : x->b.transactionHashes) if (!have.count(t)) { hs::count("catch-up-would-discard"); return; }
    for (MB* b : best->path()) if (b->height > f->height) offer(w.blocks[b->hash], "catch-up");
    hs::count("catch-ups");
    if (tip != best) { AsNode a; if (!(n->tip() == best->hash)) hs::count("catch-up-not-heaviest"); }
  }
};
Plan genCrash(uint64_t seed, const std::string& focus) {
  Plan p; sim::Rng r(sim::mix64(seed) ^ hs::fnv(focus + "crash")); p.focus = focus; p.seed = seed;
  profile(p, r, focus);
  p.set("forky", r.range(10, 65)); p.set("withhold", r.chance(0.5) ? r.range(5, 50) : 0); p.set("goodtx", r.range(60, 98)); p.set("maxtx", r.range(1, 6)); p.set("burst", r.chance(0.7) ? r.range(10, 70) : 0);
  std::vector<std::pair<std::string, int>> o = {{"mine", 40}, {"tx", 16}, {"bad", 3}, {"template", 3}, {"deliver", 6}, {"rollback", 4}, {"restart", 6}, {"save", 6}, {"wait", 2}, {"idle", 1}, {"again", 1}};
  swarm(p, r, o, r.range(14, 40));
  std::vector<Op> out; int k = r.range(1, 4); std::set<size_t> at; for (int i = 0; i < k; ++i) at.insert(r.below(p.ops.size()));
  for (size_t i = 0; i < p.ops.size(); ++i) { if (at.count(i)) { Op q; double z0 = r.below(100); if (z0 < 18) q.name = "kill"; else if (z0 < 30) q.name = "cut"; else { q.name = "arm"; } for (int j = 0; j < 7; ++j) q.a.push_back(r.next() >> 16); out.push_back(q); if (q.name == "arm" && r.chance(0.6)) { Op z; z.name = r.chance(0.6) ? "restart" : r.chance(0.5) ? "save" : "rollback"; for (int j = 0; j < 6; ++j) z.a.push_back(r.next() >> 16); out.push_back(z); } } out.push_back(p.ops[i]); }
  p.ops = out;
  return p;
}
void runCrash(const Plan& p) {
  sim::start(p.seed, hs::scratchDir()); hs::setFailureProps("C04,C10", "C19,C04");
  CrashSim* s = new CrashSim(p); s->runCrash();
}
#include "core_conc.inc"
hs::AutoReg rCrash({"core_crash", genCrash, runCrash});
hs::AutoReg rCore({"core", genCore, runCore});
}
