// Synchroniser scenario: the real BlockchainSynchronizer, TransfersSyncronizer, consumers and containers against a
// scripted node whose chain, pool, delays, failures and reorganisations the plan decides. Recorder consumers state
// what a consumer may be told; the containers are compared with an independent scan of the chain.
#include "scriptnode.h"
using namespace w;
using hs::hx; using hs::Plan; using hs::Op;

namespace {
const char* P18 = "C18,C15";
struct SyncSim;
// ------------------------------------------------------------------ recorder consumer
struct Rec : IObservableImpl<IBlockchainConsumerObserver, IBlockchainConsumer> {
  SyncSim& s; std::vector<Hash> chain; std::unordered_set<Hash> pool; Hashes localTx; uint64_t since; bool inCall = false; int64_t cut = -1; Hash cutHash; uint64_t calls = 0;
  Rec(SyncSim& s, uint64_t since); 
  struct In { Rec* r; In(Rec* r); ~In() { r->inCall = false; } };
  SynchronizationStart getSyncStart() override { return {since, 0}; }
  const std::unordered_set<Hash>& getKnownPoolTxIds() const override { return pool; }
  void onBlockchainDetach(uint32_t h) override;
  bool onNewBlocks(const CompleteBlock* b, uint32_t start, uint32_t n) override;
  std::error_code onPoolUpdated(const std::vector<std::unique_ptr<ITransactionReader>>& add, const std::vector<Hash>& del) override;
  std::error_code addUnconfirmedTransaction(const ITransactionReader& t) override;
  void removeUnconfirmedTransaction(const Hash& h) override;
};

struct AccObs : ITransfersObserver {
  SyncSim& s; int a; Hashes txs; std::set<OutKey, OutKeyLess> unl; std::set<OutKey, OutKeyLess> everSpent; uint64_t errors = 0; AccObs(SyncSim& s, int a) : s(s), a(a) {}
  void in();
  void onError(ITransfersSubscription*, uint32_t, std::error_code) override { in(); ++errors; }
  void onTransactionUpdated(ITransfersSubscription*, const Hash& h) override { in(); txs.insert(h); }
  void onTransactionDeleted(ITransfersSubscription*, const Hash& h) override { in(); if (!txs.erase(h)) VIOL("C18,C15", "delete-unknown", "a transaction is reported deleted which was never reported"); for (auto i = unl.begin(); i != unl.end();) if (i->first == h) i = unl.erase(i); else ++i; }
  void onTransfersUnlocked(ITransfersSubscription*, const std::vector<TransactionOutputInformation>& v) override { in(); for (auto& o : v) unl.insert({o.transactionHash, o.outputInTransaction}); }
  void onTransfersLocked(ITransfersSubscription*, const std::vector<TransactionOutputInformation>& v) override { in(); for (auto& o : v) unl.erase({o.transactionHash, o.outputInTransaction}); }
};
template <class T> struct Poisoned { // a destroyed object is overwritten, so that a late call on it cannot go unnoticed
  void* mem; T* p; template <class... A> explicit Poisoned(A&&... a) : mem(malloc(sizeof(T))), p(new (mem) T(std::forward<A>(a)...)) {}
  ~Poisoned() { p->~T(); memset(mem, 0xdd, sizeof(T)); } T* operator->() { return p; } T& operator*() { return *p; } };

struct SyncSim : IBlockchainSynchronizerObserver {
  const Plan& plan; World w; std::unique_ptr<ScriptNode> node; sim::Rng r; bool running = false; bool faults = true; int nacc, nrec; uint32_t age;
  std::vector<std::unique_ptr<Rec>> recs; std::unique_ptr<Poisoned<BlockchainSynchronizer>> sync; std::unique_ptr<Poisoned<TransfersSyncronizer>> ts; std::vector<uint64_t> since;
  std::vector<std::unique_ptr<AccObs>> obs; std::vector<ITransfersContainer*> cont;
  double recFail = 0; std::set<crypto::KeyImage, HashLess> used; uint64_t completedOk = 0, completedErr = 0; MBP okTip; Hashes okPool, seenPool; Hashes local; bool started = false; uint64_t notifySeq = 0;
  Hashes oldTips; std::vector<std::pair<uint64_t, int>> notq; sim::Signal notSig; bool notRun = true; uint64_t terminated = 0;
  struct Snap { std::string ts; std::vector<std::string> st; std::vector<std::vector<Hash>> chain; std::vector<std::unordered_set<Hash>> pool; std::vector<std::set<OutKey, OutKeyLess>> unl; bool ok = false; Hashes local; MBP okTip; std::vector<Hashes> txs; std::vector<std::set<OutKey, OutKeyLess>> ever; };
  Snap snap; uint32_t floorHeight = 12; // reorganisations do not reach below a scan's start: a wallet does not see what its coins before it become
  std::set<crypto::KeyImage, HashLess> pending; // spent by a transaction which was not in a block at some time
  void seenPending(const Hash& id) { for (auto& in : w.txs.at(id).tx.inputs) if (in.type() == typeid(KeyInput)) pending.insert(boost::get<KeyInput>(in).keyImage); else { auto& m = boost::get<MultisignatureInput>(in); pendingMs.insert({m.amount, m.outputIndex}); } }
  std::set<std::pair<uint64_t, uint32_t>> pendingMs;
  SyncSim(const Plan& p) : plan(p), w(paramsFrom(p), 4), r(p.seed * 77 + 3), nacc(p.num("accs", 2)), nrec(p.num("recs", 1)), age(p.num("age", 1)) {}
  // ---------------------------------------------------------------- oracle
  int ownedBy(const OutInfo& o, int a) { if (o.keys.empty()) { auto f = w.ownerOf.find(o.key); return f != w.ownerOf.end() && f->second == a; } for (auto& k : o.keys) { auto f = w.ownerOf.find(k); if (f != w.ownerOf.end() && f->second == a) return 1; } return 0; }
  Exp expected(int a, const MBP& T, const Hashes& P) { sim::NoSched ns; Exp e; std::map<crypto::KeyImage, OutKey, HashLess> ki; std::map<std::pair<uint64_t, uint32_t>, OutKey> ms; auto path = T->path(); uint64_t from = consumerSince(a);
    auto add = [&](const OutInfo& o, uint32_t g) { if (!ownedBy(o, a) || path[o.height]->b.timestamp < from) return; XO x; x.amount = o.amount; x.g = g; x.height = o.height; x.term = o.term; x.ms = !o.keys.empty(); x.unlock = o.unlock; OutKey k{o.tx, o.idx}; if (!x.ms) x.ki = w.keyImage(o); e.outs[k] = x; e.txs[o.tx] = o.height; if (x.ms) ms[{o.amount, g}] = k; else ki[w.keyImage(o)] = k; };
    for (auto& q : T->led->key) for (size_t i = 0; i < q.second.size(); ++i) add(q.second[i], i);
    for (auto& q : T->led->ms) for (size_t i = 0; i < q.second.size(); ++i) add(q.second[i], i);
    auto spend = [&](const Transaction& t, const Hash& id, int how, uint32_t h) { uint32_t n = 0; for (auto& in : t.inputs) { OutKey* k = nullptr; if (in.type() == typeid(KeyInput)) { auto f = ki.find(boost::get<KeyInput>(in).keyImage); if (f != ki.end()) k = &f->second; } else if (in.type() == typeid(MultisignatureInput)) { auto& m = boost::get<MultisignatureInput>(in); auto f = ms.find({m.amount, m.outputIndex}); if (f != ms.end()) k = &f->second; }
      if (k) { XO& x = e.outs[*k]; if (x.spent) { e.conflict = true; } else { x.spent = how; x.by = id; x.spentHeight = h; x.input = n; if (how == 1) e.txs[id] = h; else e.pend.insert(id); } } ++n; } };
    for (auto* b : path) { if (b->b.timestamp < from) continue; for (size_t i = 0; i < b->txs.size(); ++i) spend(b->txs[i], b->b.transactionHashes[i], 1, b->height); }
    for (auto& id : P) { if (T->led->tx.count(id)) continue; auto& t = w.txs.at(id).tx; bool mine = false; for (uint32_t i = 0; i < t.outputs.size(); ++i) { OutInfo o{}; o.amount = t.outputs[i].amount; if (t.outputs[i].target.type() == typeid(KeyOutput)) o.key = boost::get<KeyOutput>(t.outputs[i].target).key; else { auto& m = boost::get<MultisignatureOutput>(t.outputs[i].target); o.keys = m.keys; o.term = m.term; } if (ownedBy(o, a)) { XO x; x.amount = o.amount; x.ms = !o.keys.empty(); x.term = o.term; x.unlock = t.unlockTime; e.pendOuts[{id, i}] = x; mine = true; } } if (mine) e.pend.insert(id); spend(t, id, 2, 0); }
    // a pool transaction in conflict with the chain or with another one: none of the accounts scanned together has to know it
    { std::set<crypto::KeyImage, HashLess> seen; for (auto& id : P) { if (T->led->tx.count(id)) continue; for (auto& in : w.txs.at(id).tx.inputs) if (in.type() == typeid(KeyInput)) { auto& q = boost::get<KeyInput>(in).keyImage; if (T->led->ki.count(q) || !seen.insert(q).second) e.conflict = true; } } }
    return e; }
  uint64_t consumerSince(int a) { uint64_t m = since[a]; for (int i = 0; i < nacc; ++i) if (w.accs[i].address.viewPublicKey == w.accs[a].address.viewPublicKey) m = std::min(m, since[i]); return m; }
  int stateOf(const XO& x, const MBP& T) { bool u = x.unlock < 500000000 ? T->height + 1 >= x.unlock : sim::wallBase / SEC + sim::now() / SEC + 120 >= x.unlock; if (u && x.ms && x.term) u = T->height + 1 >= x.height + x.term; if (!u) return ITransfersContainer::IncludeStateLocked; return T->height < x.height + age ? ITransfersContainer::IncludeStateSoftLocked : ITransfersContainer::IncludeStateUnlocked; }
  static int typeOf(const XO& x) { return !x.ms ? ITransfersContainer::IncludeTypeKey : x.term ? ITransfersContainer::IncludeTypeDeposit : ITransfersContainer::IncludeTypeMultisignature; }
  void checkAccount(int a, const MBP& T, const Hashes& P, const Hashes& maybe) { // maybe: transactions whose presence is not determined now
    Exp e = expected(a, T, P); auto& c = *cont[a]; hs::count("account-checks"); const char* pr = "C15,C18"; std::string who = "account " + std::to_string(a) + " at height " + std::to_string(T->height);
    // confirmed transactions, and the coins they brought
    for (auto& x : e.txs) { TransactionInformation ti; uint64_t ai, ao; if (!c.getTransactionInformation(x.first, ti, &ai, &ao)) VIOL(pr, "tx-missing", who << ": transaction " << hx(x.first) << " of block " << x.second << " is missing"); if (ti.blockHeight != x.second) VIOL(pr, "tx-height", who << ": transaction " << hx(x.first) << " of block " << x.second << " is recorded in block " << (int)ti.blockHeight);
      if (ti.timestamp != ancestor(T, x.second)->b.timestamp) VIOL(pr, "tx-time", who << ": transaction " << hx(x.first) << " has another time than its block");
      uint64_t eo = 0, ei = 0; for (auto& o : e.outs) { if (o.first.first == x.first) eo += o.second.amount; if (o.second.spent == 1 && o.second.by == x.first) ei += o.second.amount; } if (eo != ao || ei != ai) VIOL(pr, "tx-amounts", who << ": transaction " << hx(x.first) << " receives " << ao << " (should be " << eo << ") and spends " << ai << " (should be " << ei << ")"); }
    std::vector<Hash> un; c.getUnconfirmedTransactions(un); Hashes us(un.begin(), un.end());
    if (c.transactionsCount() != e.txs.size() + us.size()) VIOL(pr, "tx-extra", who << ": " << c.transactionsCount() - us.size() << " confirmed transactions are recorded, the chain has " << e.txs.size());
    bool loose = e.conflict || !maybe.empty();
    for (auto& h : us) if (!P.count(h) && !maybe.count(h)) VIOL(pr, "pending-gone", who << ": transaction " << hx(h) << " is still pending although the node's pool no longer has it");
    if (!loose) { for (auto& h : e.pend) if (!us.count(h)) VIOL(pr, "pending-missing", who << ": the pending transaction " << hx(h) << " is not known"); for (auto& h : us) if (!e.pend.count(h)) VIOL(pr, "pending-extra", who << ": " << hx(h) << " is pending but does not concern the account"); }
    // outputs, spent ones included
    std::map<OutKey, TransactionOutputInformation, OutKeyLess> av; std::vector<TransactionOutputInformation> v; c.getOutputs(v, ITransfersContainer::IncludeAll); for (auto& o : v) if (!av.insert({{o.transactionHash, o.outputInTransaction}, o}).second) VIOL(pr, "output-twice", who << ": an output is listed twice");
    std::map<OutKey, TransactionSpentOutputInformation, OutKeyLess> sp; for (auto& o : c.getSpentOutputs()) if (!sp.insert({{o.transactionHash, o.outputInTransaction}, o}).second) VIOL(pr, "output-twice", who << ": a spent output is listed twice");
    for (auto& x : e.outs) { bool ia = av.count(x.first), is = sp.count(x.first); std::string what = "output " + hx(x.first.first) + "/" + std::to_string(x.first.second) + " of " + std::to_string(x.second.amount) + " in block " + std::to_string(x.second.height);
      if (!ia && !is) VIOL(pr, "output-missing", who << ": " << what << " is missing"); if (ia && is) VIOL(pr, "output-both", who << ": " << what << " is spent and unspent");
      const TransactionOutputInformation& o = ia ? av[x.first] : sp[x.first];
      if (o.amount != x.second.amount || o.globalOutputIndex != x.second.g) VIOL(pr, "output-index", who << ": " << what << " has global index " << o.globalOutputIndex << ", the chain has " << x.second.g);
      if ((o.type == transaction_types::OutputType::Multisignature) != x.second.ms || (x.second.ms && o.term != x.second.term)) VIOL(pr, "output-kind", who << ": " << what << " has another kind or term");
      if (x.second.spent == 1) { if (ia) VIOL(pr, "spent-available", who << ": " << what << " is shown unspent although the chain spends it in " << hx(x.second.by)); auto& q = sp[x.first]; if (!(q.spendingTransactionHash == x.second.by) || q.spendingBlockHeight != x.second.spentHeight || q.inputInTransaction != x.second.input) VIOL(pr, "spent-by", who << ": " << what << " is recorded as spent by " << hx(q.spendingTransactionHash) << " in block " << (int)q.spendingBlockHeight << ", really by " << hx(x.second.by) << " in " << x.second.spentHeight); }
      else if (x.second.spent == 2 && ia && !loose) VIOL(pr, "pending-spend-available", who << ": " << what << " is shown unspent although pool transaction " << hx(x.second.by) << " spends it");
      else if (!x.second.spent && is && !maybe.count(sp[x.first].spendingTransactionHash)) VIOL(pr, "unspent-spent", who << ": " << what << " is shown as spent by " << hx(sp[x.first].spendingTransactionHash) << ", nothing spends it");
      TransactionOutputInformation ti; ITransfersContainer::TransferState ts; if (!c.getTransfer(x.first.first, x.first.second, ti, ts) || ti.amount != x.second.amount || !(ti.transactionHash == x.first.first)) VIOL(pr, "get-transfer", who << ": getTransfer answers wrongly for " << what);
      int st = stateOf(x.second, T); ITransfersContainer::TransferState want = is ? ITransfersContainer::TransferState::TransferSpent : st == ITransfersContainer::IncludeStateUnlocked ? ITransfersContainer::TransferState::TransferAvailable : ITransfersContainer::TransferState::TransferLocked; if (ts != want) VIOL(pr, "transfer-state", who << ": " << what << " has state " << (int)ts << ", should be " << (int)want); 
      OutKey k = x.first; if (is || (x.second.ms ? pendingMs.count({x.second.amount, x.second.g}) > 0 : pending.count(x.second.ki) > 0)) obs[a]->everSpent.insert(k); bool jobs = x.second.unlock < 500000000 && age >= 1; if (jobs && ia && !obs[a]->everSpent.count(k)) { bool un = st == ITransfersContainer::IncludeStateUnlocked; if (un != (bool)obs[a]->unl.count(k)) VIOL(pr, un ? "unlock-not-told" : "lock-not-told", who << ": " << what << " is " << (un ? "unlocked but its owner was never told" : "locked but its owner was last told it is unlocked")); } }
    for (auto& x : av) if (!e.outs.count(x.first) && !e.pendOuts.count(x.first) && !maybe.count(x.first.first)) VIOL(pr, "output-extra", who << ": output " << hx(x.first.first) << " of " << x.second.amount << " is shown, the chain does not have it");
    for (auto& x : sp) if (!e.outs.count(x.first)) VIOL(pr, "output-extra", who << ": spent output " << hx(x.first.first) << " is shown, the chain does not have it");
    if (!loose) for (auto& x : e.pendOuts) if (!av.count(x.first)) VIOL(pr, "pending-output-missing", who << ": a pending output of " << x.second.amount << " is not shown");
    if (!loose) for (int ty : {ITransfersContainer::IncludeTypeKey, ITransfersContainer::IncludeTypeMultisignature, ITransfersContainer::IncludeTypeDeposit}) for (int st : {ITransfersContainer::IncludeStateUnlocked, ITransfersContainer::IncludeStateLocked, ITransfersContainer::IncludeStateSoftLocked}) { uint64_t want = 0; for (auto& x : e.outs) if (!x.second.spent && typeOf(x.second) == ty && stateOf(x.second, T) == st) want += x.second.amount; if (st == ITransfersContainer::IncludeStateLocked) for (auto& x : e.pendOuts) if (typeOf(x.second) == ty) want += x.second.amount; uint64_t got = c.balance(ty | st); if (got != want) VIOL(pr, "balance", who << ": balance of kind " << std::hex << (ty | st) << std::dec << " is " << got << ", the chain and the pool say " << want); }
    // what the observer was told
    Hashes have; for (auto& x : e.txs) have.insert(x.first); for (auto& h : us) have.insert(h); if (have != obs[a]->txs) VIOL(pr, "observer-history", who << ": the notifications add up to " << obs[a]->txs.size() << " transactions, the container has " << have.size()); }
  // ---------------------------------------------------------------- observer of the synchroniser
  void synchronizationProgressUpdated(uint32_t d, uint32_t t) override { if (!running) VIOL("C18,C19", "event-while-stopped", "progress is reported after stop has returned"); hs::count("progress"); (void)d; (void)t; }
  void synchronizationCompleted(std::error_code ec) override {
    if (!running) VIOL("C18,C19", "event-while-stopped", "completion is reported after stop has returned");
    if (ec) { ++completedErr; hs::count("completed-error"); node->answers.clear(); return; }
    ++completedOk; hs::count("completed-ok"); if (node->answers.empty()) VIOL("C18", "completed-unasked", "completion is reported although the node's pool was not asked since the last one");
    auto A = node->answers; node->answers.clear(); auto last = A.back(); MBP T = last.tip; Hashes lo = last.pool, hi = last.pool; if (A.size() > 1) { auto& q = A[A.size() - 2].pool; for (auto& x : q) hi.insert(x); for (auto i = lo.begin(); i != lo.end();) if (!q.count(*i)) i = lo.erase(i); else ++i; }
    for (auto& c : recs) { if (c->chain.empty() || !(c->chain.back() == T->hash) || c->chain.size() != T->height + 1) VIOL("C18", "completed-behind", "completion is reported at node height " << T->height << " but a consumer is at height " << (int)c->chain.size() - 1);
      for (auto& x : lo) if (!c->pool.count(x)) VIOL("C18", "pool-missing", "completion is reported but a consumer was not told of pool transaction " << hx(x)); for (auto& x : c->pool) if (!hi.count(x)) VIOL("C18", "pool-extra", "completion is reported but a consumer still has " << hx(x) << " which is not in the pool"); }
    Hashes maybe = local; for (auto& x : hi) if (!lo.count(x)) maybe.insert(x);
    for (int a = 0; a < nacc; ++a) checkAccount(a, T, lo, maybe);
    okTip = T; okPool = hi; for (auto& x : lo) seenPool.insert(x); for (auto i = local.begin(); i != local.end();) if (T->led->tx.count(*i)) i = local.erase(i); else ++i;
    hs::state(hs::fnv(hx(T->hash) + std::to_string(lo.size()))); }
  // ---------------------------------------------------------------- chain and pool
  void setTip(const MBP& t) { MBP old = node->tip; node->tip = t; std::vector<Hash> np; auto conflict = [&](const Hash& id) { for (auto& in : w.txs.at(id).tx.inputs) if (in.type() == typeid(KeyInput) && t->led->ki.count(boost::get<KeyInput>(in).keyImage)) return true; return false; };
    auto keep = [&](const Hash& id) { if (t->led->tx.count(id)) return false; std::string pr; if (w.checkTx(*t->led, w.txs.at(id), t->height + 1, pr).empty()) return true; return plan.num("stale") && conflict(id); };
    for (auto& id : node->pool) if (keep(id)) np.push_back(id);
    MBP o = old; while (o && !onChain(o, t)) { for (auto& id : o->b.transactionHashes) if (!t->led->tx.count(id) && std::find(np.begin(), np.end(), id) == np.end() && keep(id) && r.chance(0.8)) np.push_back(id); o = o->parent; }
    for (auto& id : np) seenPending(id);
    node->pool = np; }
  MBP grow(const MBP& p, bool mixTx, const std::vector<Hash>& prefer) { World::BlockSpec s; s.parent = p; s.miner = r.below(w.accs.size()); s.outs = 1 + r.below(3); s.ts = std::max<uint64_t>(p->b.timestamp + 1 + r.below(60), sim::wallBase / SEC + sim::now() / SEC); std::set<crypto::KeyImage, HashLess> ki; std::set<std::pair<uint64_t, uint32_t>> ms;
    auto take = [&](const Hash& id) { std::string pr; auto& t = w.txs.at(id); if (std::find(s.txs.begin(), s.txs.end(), id) != s.txs.end() || !w.checkTx(*p->led, t, p->height + 1, pr).empty()) return; for (auto& in : t.tx.inputs) { if (in.type() == typeid(KeyInput) && ki.count(boost::get<KeyInput>(in).keyImage)) return; if (in.type() == typeid(MultisignatureInput) && ms.count({boost::get<MultisignatureInput>(in).amount, boost::get<MultisignatureInput>(in).outputIndex})) return; } for (auto& in : t.tx.inputs) { if (in.type() == typeid(KeyInput)) ki.insert(boost::get<KeyInput>(in).keyImage); else ms.insert({boost::get<MultisignatureInput>(in).amount, boost::get<MultisignatureInput>(in).outputIndex}); } s.txs.push_back(id); };
    for (auto& id : prefer) if (r.chance(0.8)) take(id);
    if (mixTx) for (auto& id : node->pool) if (r.chance(0.5)) take(id);
    for (int k = r.below(3); k > 0; --k) { TxInfo t; if (makeAny(p, t, plan.num("stale") && r.chance(0.3))) { w.reg(t); take(t.id); } }
    MBP b = w.build(s); if (!b) VIOL("", "harness", "unbuildable block"); if (!b->bad.empty()) VIOL("", "harness", "built a bad block: " << b->bad); return b; }
  bool makeAny(const MBP& at, TxInfo& t, bool clash) { if (at->height < 12) return false;
    if (r.chance(0.15)) { std::vector<OutInfo> ds; for (auto& q : at->led->ms) for (auto& o : q.second) if (o.term && !o.used && o.height + o.term <= at->height + 1 && o.owner >= 0) ds.push_back(o); if (!ds.empty()) { auto d = ds[r.below(ds.size())]; if (w.makeWithdrawal(at, {d}, d.owner, 0, 1000, t) && t.bad.empty()) return true; } }
    World::TxSpec q; q.at = at; q.from = r.below(w.accs.size()); q.to = r.below(w.accs.size()); q.amount = 1000 + r.below(300000); q.fee = 1000; q.nOuts = 1 + r.below(3); q.pick = r.next(); q.mixin = r.below(3); std::set<crypto::KeyImage, HashLess> av; if (!clash) for (auto& id : node->pool) for (auto& in : w.txs.at(id).tx.inputs) if (in.type() == typeid(KeyInput)) av.insert(boost::get<KeyInput>(in).keyImage); q.avoid = &av;
    if (r.chance(0.5)) { auto c = w.spendable(at, q.from, false); std::vector<OutInfo> rec; for (auto& o : c) if (o.height + 8 > at->height && !av.count(w.keyImage(o)) && o.amount > 5000) rec.push_back(o); if (!rec.empty()) { q.force = {rec[r.below(rec.size())]}; q.amount = std::min<uint64_t>(q.amount, q.force[0].amount - 3000); } }
    if (r.chance(0.2)) { q.term = w.p.minTermV3 * (1 + r.below(3)); q.to = q.from; q.amount = 1000000 + r.below(100000); q.force.clear(); } else if (r.chance(0.08)) { q.msOut = true; } else if (r.chance(0.15)) q.unlock = r.chance(0.7) ? at->height + r.below(12) : sim::wallBase / SEC + sim::now() / SEC + r.below(600);
    if (r.chance(0.2)) memset(&q.pid, 0x30 + r.below(3), 32);
    std::string pr; return w.makeTx(q, t) && w.checkTx(*at->led, t, at->height + 1, pr).empty(); }
  void notify(int kind, uint64_t d) { notq.push_back({sim::now() + d, kind}); notSig.raise(); }
  void notifier() { while (notRun) { if (notq.empty()) { notSig.wait(SEC); continue; } auto q = notq.front(); notq.erase(notq.begin()); if (q.first > sim::now()) sim::sleepNs(q.first - sim::now()); sim::stat("notifications"); uint32_t h = node->tip->height; if (q.second == 0) node->obs.notify(&INodeObserver::localBlockchainUpdated, h); else if (q.second == 1) node->obs.notify(&INodeObserver::lastKnownBlockHeightUpdated, h); else node->obs.notify(&INodeObserver::poolChanged); } }
  // ---------------------------------------------------------------- life cycle
  void build() { sync.reset(new Poisoned<BlockchainSynchronizer>(*node, w.genesis->hash)); (*sync)->addObserver(this);
    ts.reset(new Poisoned<TransfersSyncronizer>(*w.cur, nolog, **sync, *node)); obs.clear(); cont.clear();
    for (int a = 0; a < nacc; ++a) { AccountSubscription s; s.keys = w.accs[a]; s.syncStart = {since[a], 0}; s.transactionSpendableAge = age; auto& sub = (*ts)->addSubscription(s); obs.emplace_back(new AccObs(*this, a)); sub.addObserver(obs.back().get()); cont.push_back(&sub.getContainer()); }
    if (recs.empty()) for (int i = 0; i < nrec; ++i) recs.emplace_back(new Rec(*this, plan.num("recsince" + std::to_string(i)) && nacc ? since[0] : 0)); for (auto& c : recs) (*sync)->addConsumer(c.get()); }
  void startSync() { if (running) return; node->answers.clear(); running = true; started = true; (*sync)->start(); }
  void stopSync() { if (!running) return; uint64_t t = sim::now(); (*sync)->stop(); if (sim::now() - t > 30 * SEC + 4 * node->maxDelay) VIOL("C18,C19", "stop-slow", "stopping the synchroniser took " << (sim::now() - t) / MS << " ms"); running = false; }
  void takeSnap() { stopSync(); snap = Snap(); std::stringstream o; (*ts)->save(o); snap.ts = o.str(); for (auto& c : recs) { std::stringstream q; (*sync)->getConsumerState(c.get())->save(q); snap.st.push_back(q.str()); snap.chain.push_back(c->chain); snap.pool.push_back(c->pool); } for (auto& o : obs) { snap.unl.push_back(o->unl); snap.txs.push_back(o->txs); snap.ever.push_back(o->everSpent); } snap.local = local; snap.okTip = okTip; snap.ok = true; }
  void reload(bool older) { stopSync(); if (!older || !snap.ok) takeSnap(); if (r.chance(0.3)) ts.reset(); else { if (r.chance(0.5)) (*sync)->removeObserver(this); }
    ts.reset(); sync.reset(); transactions_hash_seen.clear(); public_keys_seen.clear(); recs.clear(); build(); std::stringstream i(snap.ts); (*ts)->load(i); for (size_t k = 0; k < recs.size(); ++k) { std::stringstream q(snap.st[k]); (*sync)->getConsumerState(recs[k].get())->load(q); recs[k]->chain = snap.chain[k]; recs[k]->pool = snap.pool[k]; }
    for (size_t a = 0; a < obs.size(); ++a) { obs[a]->unl = snap.unl[a]; obs[a]->txs = snap.txs[a]; obs[a]->everSpent = snap.ever[a]; } if (older) local = snap.local; okTip = snap.okTip; std::unordered_set<Hash> unc(local.begin(), local.end()); (*ts)->initTransactionPool(unc); hs::count(older ? "reload-older" : "reload"); }
  void doOp(const Op& o) {
    sim::reseedContent(sim::mix64(o.arg(1) ^ plan.seed)); r.s = sim::mix64(o.arg(1) ^ (plan.seed << 7) ^ 0x55);
    if (o.name == "mine") { for (uint64_t i = 0; i <= o.arg(0); ++i) { setTip(grow(node->tip, true, {})); hs::count("mined"); if (!(o.arg(2) & 1)) notify(o.arg(2) >> 1 & 1, r.below(50 * MS)); } if (o.arg(2) & 1) notify(0, r.below(50 * MS)); }
    else if (o.name == "reorg") { uint32_t d = std::min<uint32_t>(1 + o.arg(0), node->tip->height - std::min(floorHeight, node->tip->height)); MBP f = ancestor(node->tip, node->tip->height - d), cur = f; std::vector<Hash> disp; for (auto x = node->tip; x != f; x = x->parent) disp.insert(disp.begin(), x->b.transactionHashes.begin(), x->b.transactionHashes.end()); for (uint32_t i = 0; i <= d; ++i) cur = grow(cur, o.arg(2) & 1, disp); setTip(cur); hs::count("reorgs"); notify(0, r.below(50 * MS)); }
    else if (o.name == "tx") { TxInfo t; if (makeAny(node->tip, t, plan.num("stale") && r.chance(0.1))) { w.reg(t); seenPending(t.id); node->pool.push_back(t.id); hs::count("pool-txs"); notify(2, r.below(50 * MS)); } }
    else if (o.name == "drop") { std::vector<Hash> c; for (auto& id : node->pool) if (!local.count(id)) c.push_back(id); if (!c.empty()) { Hash h = c[r.below(c.size())]; node->pool.erase(std::find(node->pool.begin(), node->pool.end(), h)); hs::count("pool-drops"); notify(2, r.below(50 * MS)); } }
    else if (o.name == "notify") notify(o.arg(0) % 3, r.below(100 * MS));
    else if (o.name == "wait") sim::sleepNs(o.arg(0) * MS);
    else if (o.name == "err") { node->errRate = o.arg(0) / 100.0; recFail = o.arg(2) / 100.0; }
    else if (o.name == "known") node->known = o.arg(0);
    else if (o.name == "stop") stopSync(); else if (o.name == "start") startSync();
    else if (o.name == "snap") { bool was = running; takeSnap(); if (was) startSync(); }
    else if (o.name == "reload") { reload(o.arg(0) & 1); if (o.arg(0) & 2) startSync(); }
    else if (o.name == "settle") { if (running) { uint64_t n = completedOk; notify(0, 0); sim::waitUntil([&] { return completedOk > n; }, 20 * SEC, 20 * MS); } }
    else if (o.name == "add") { TxInfo t; if (!running || !okTip || !onChain(okTip, node->tip) || !makeAny(okTip, t, false)) return; w.reg(t); seenPending(t.id); auto rd = createTransactionPrefix(t.tx, t.id); local.insert(t.id); bool bad = false; try { bad = (bool)(*sync)->addUnconfirmedTransaction(*rd).get(); } catch (std::exception&) { bad = true; } hs::count("local-add");
      bool ok = !bad && r.chance(0.7); if (r.chance(0.5)) sim::sleepNs(r.below(100 * MS)); std::string pr; if (ok && (node->tip->led->tx.count(t.id) || !w.checkTx(*node->tip->led, t, node->tip->height + 1, pr).empty())) ok = false;
      if (ok) { node->pool.push_back(t.id); notify(2, r.below(50 * MS)); } else if (bad) local.erase(t.id); else { try { (*sync)->removeUnconfirmedTransaction(t.id).get(); local.erase(t.id); } catch (std::exception&) {} } }
  }
  void base() { uint32_t len = plan.num("base", 20); uint64_t ts = sim::wallBase / SEC - (uint64_t)len * 120 - 600; MBP cur = w.genesis; node->tip = cur; r.s = plan.seed * 31 + 5;
    for (uint32_t i = 0; i < len; ++i) { World::BlockSpec s; s.parent = cur; s.miner = r.below(w.accs.size()); s.outs = 1 + r.below(4); ts += 60 + r.below(60); s.ts = ts; if (cur->height > 11) for (int k = r.below(3); k > 0; --k) { TxInfo t; if (makeAny(cur, t, false)) { bool clash = false; for (auto& h : s.txs) for (auto& x : w.txs.at(h).tx.inputs) for (auto& y : t.tx.inputs) if (x.type() == typeid(KeyInput) && y.type() == typeid(KeyInput) && boost::get<KeyInput>(x).keyImage == boost::get<KeyInput>(y).keyImage) clash = true; else if (x.type() == typeid(MultisignatureInput) && y.type() == x.type()) clash = true; if (!clash) { w.reg(t); s.txs.push_back(t.id); } } }
      cur = w.build(s); if (!cur || !cur->bad.empty()) VIOL("", "harness", "base block " << (cur ? cur->bad : "unbuildable")); }
    node->tip = cur; }
  void run() {
    if (plan.num("sharedview")) { w.accs[1].viewSecretKey = w.accs[0].viewSecretKey; w.accs[1].address.viewPublicKey = w.accs[0].address.viewPublicKey; }
    node.reset(new ScriptNode(w, plan.seed * 13 + 1)); node->maxBlocks = plan.num("maxblocks", 10); node->maxDelay = plan.num("delayms", 20) * MS; node->syncRate = plan.num("syncpct", 20) / 100.0; base();
    for (int a = 0; a < nacc; ++a) { uint64_t k = plan.num("since" + std::to_string(a)); if (k) floorHeight = std::max<uint32_t>(floorHeight, std::min<uint64_t>(k, node->tip->height)); since.push_back(k ? ancestor(node->tip, std::min<uint64_t>(k, node->tip->height))->b.timestamp + (k & 1) : 0); }
    if (nacc + nrec == 0) nrec = 1;
    sim::setCurrentNode(0); auto nt = sim::spawn(1, "notifier", [this] { notifier(); }); build(); startSync();
    for (auto& o : plan.ops) { doOp(o); hs::report().opsDone++; hs::report().curOp++; }
    // faults stop: one more block, one notification, and everything has to be there
    node->errRate = 0; recFail = 0; faults = false; node->known = 0; if (!running) startSync();
    doOp(Op{"mine", {0, 4711, 1}}); uint64_t n = completedOk; MBP T = node->tip; notify(0, SEC); notify(2, 2 * SEC);
    if (!sim::waitUntil([&] { return completedOk > n && okTip == T; }, 300 * SEC, 50 * MS)) VIOL("C18,C15", "no-progress", "the node answers and has told of a new block, but synchronisation does not complete (completed " << completedOk << " / failed " << completedErr << ") " << sim::dumpThreads());
    sim::sleepNs(5 * SEC); uint64_t m = completedOk; notify(2, 0); if (!sim::waitUntil([&] { return completedOk > m; }, 300 * SEC, 50 * MS)) VIOL("C18,C15", "no-progress", "no completion after a pool notification");
    // each change is told once, at any moment of the work under way: none may be lost
    for (int k = 0; k < 4; ++k) { int acts = 1 + r.below(3); for (int i = 0; i < acts; ++i) { doOp(Op{r.chance(0.6) ? "mine" : "tx", {0, r.next() % 1000000, 0}}); sim::sleepNs(1 + r.below(2 * node->maxDelay + 30 * MS)); }
      if (!sim::waitUntil([&] { if (okTip != node->tip) return false; for (auto& x : node->pool) if (!okPool.count(x)) return false; return true; }, 120 * SEC, 50 * MS)) VIOL("C18,C15", "notification-lost", "the node told of each change and answers, but the consumers stay at height " << (okTip ? okTip->height : 0) << ", the node is at " << node->tip->height); hs::count("quiet-rounds"); T = node->tip; }
    if (plan.num("enddestroy")) { uint64_t t = sim::now(); if (plan.num("enddestroy") == 2) notify(0, 0); ts.reset(); sync.reset(); running = false; if (sim::now() - t > 60 * SEC) VIOL("C18,C19", "stop-slow", "destroying the synchroniser takes long"); notify(0, 0); }
    else { stopSync(); } sim::sleepNs(2 * SEC); notRun = false; notSig.raise(); sim::joinFor(nt, 20 * SEC); hs::note("height " + std::to_string(T->height) + ", completions " + std::to_string(completedOk)); }
};
void AccObs::in() { if (!s.running) VIOL("C18,C19", "event-while-stopped", "a transfer is reported after stop has returned"); }
Rec::In::In(Rec* r) : r(r) { if (!r->s.running) VIOL("C18,C19", "event-while-stopped", "a consumer is called after stop has returned"); if (r->inCall) VIOL("C18", "concurrent-calls", "a consumer is called concurrently"); r->inCall = true; ++r->calls; if (sim::chance(0.2)) sim::yieldPoint(); }
Rec::Rec(SyncSim& s, uint64_t since) : s(s), since(since) { chain.push_back(s.w.genesis->hash); }
void Rec::onBlockchainDetach(uint32_t h) { In i(this); hs::count("detaches"); if (h == 0 || h >= chain.size()) VIOL("C18", "bad-detach", "a consumer at height " << (int)chain.size() - 1 << " is told to detach from " << h); cut = h; cutHash = chain[h]; chain.resize(h); }
bool Rec::onNewBlocks(const CompleteBlock* b, uint32_t start, uint32_t n) { In i(this); hs::count("batches");
  if (!n) VIOL("C18", "no-blocks", "a consumer is handed no block"); if (start != chain.size()) VIOL("C18", "gap", "a consumer at height " << (int)chain.size() - 1 << " is handed blocks from " << start);
  for (uint32_t k = 0; k < n; ++k) { auto f = s.w.blocks.find(b[k].blockHash); if (f == s.w.blocks.end()) VIOL("C18", "unknown-block", "a block nobody made"); MBP m = f->second; if (m->height != start + k || !(m->parent->hash == (k ? b[k - 1].blockHash : chain.back()))) VIOL("C18", "unlinked", "block " << start + k << " handed to a consumer does not follow the previous one");
    if (b[k].block) { if (!(get_block_hash(*b[k].block) == m->hash) || b[k].transactions.size() != m->txs.size() + 1) VIOL("C18", "content", "a block arrives with other contents"); size_t j = 0; for (auto& t : b[k].transactions) { Hash h = t->getTransactionHash(); if (!(h == (j ? m->b.transactionHashes[j - 1] : getObjectHash(m->b.baseTransaction)))) VIOL("C18", "content", "the transactions of a block arrive in another order"); ++j; } }
    else if (m->b.timestamp >= since) VIOL("C18", "content-missing", "block " << m->height << " arrives without content although the consumer's start is before it"); }
  if (cut >= 0 && start == cut && b[0].blockHash == cutHash) VIOL("C18", "needless-detach", "a consumer was told to detach block " << cut << " and is handed the same block again");
  if (s.faults && sim::chance(s.recFail)) { hs::count("consumer-failures"); if (sim::chance(0.5)) throw std::runtime_error("consumer"); return false; }
  cut = -1; for (uint32_t k = 0; k < n; ++k) chain.push_back(b[k].blockHash); return true; }
std::error_code Rec::onPoolUpdated(const std::vector<std::unique_ptr<ITransactionReader>>& add, const std::vector<Hash>& del) { In i(this); hs::count("pool-updates");
  if (s.faults && sim::chance(s.recFail)) { hs::count("consumer-failures"); if (sim::chance(0.5)) throw std::runtime_error("consumer"); return std::make_error_code(std::errc::io_error); }
  for (auto& t : add) pool.insert(t->getTransactionHash()); for (auto& h : del) pool.erase(h); return {}; }
std::error_code Rec::addUnconfirmedTransaction(const ITransactionReader& t) { In i(this); if (s.faults && sim::chance(s.recFail)) { hs::count("consumer-failures"); return std::make_error_code(std::errc::io_error); } if (!localTx.insert(t.getTransactionHash()).second) VIOL("C18", "local-twice", "a transaction is added twice"); return {}; }
void Rec::removeUnconfirmedTransaction(const Hash& h) { In i(this); if (!localTx.erase(h)) VIOL("C18", "local-remove", "a transaction is removed which was not added"); }

Plan genSync(uint64_t seed, const std::string& focus) {
  Plan p; sim::Rng r(sim::mix64(seed) ^ hs::fnv(focus + "sync")); p.seed = seed; p.focus = focus; p.set("h2", 1); p.set("h3", 2); p.set("h4", 3); p.set("h7", 4); p.set("h8", 5);
  p.set("base", 14 + r.below(14)); p.set("accs", r.chance(0.15) ? 0 : r.range(1, 3)); p.set("recs", r.range(r.chance(0.3) ? 0 : 1, 2)); p.set("age", r.chance(0.6) ? 1 : r.range(1, 4)); p.set("sharedview", r.chance(0.4)); for (int a = 0; a < 3; ++a) if (r.chance(0.25)) p.set("since" + std::to_string(a), r.range(1, 22)); for (int a = 0; a < 2; ++a) p.set("recsince" + std::to_string(a), r.chance(0.3));
  p.set("maxblocks", r.chance(0.4) ? 1 + r.below(3) : 20); p.set("delayms", r.chance(0.5) ? 5 : r.range(10, 400)); p.set("syncpct", r.chance(0.3) ? 0 : r.below(100)); p.set("stale", r.chance(0.35)); p.set("enddestroy", r.below(3));
  p.setr("t_preempt", r.chance(0.6) ? r.below(60) / 100.0 : 0); p.set("t_ncpu", r.range(1, 2)); if (r.chance(0.3)) p.setr("t_spurious", 0.2);
  bool errs = r.chance(0.6), life = r.chance(0.5); int n = r.range(6, 45);
  for (int i = 0; i < n; ++i) { uint64_t k = r.below(100); uint64_t sd = r.next() >> 20;
    if (k < 22) p.op("mine", {r.chance(0.8) ? 0 : r.range(1, 4), sd, r.below(4)}); else if (k < 36) p.op("tx", {0, sd}); else if (k < 44) p.op("reorg", {r.chance(0.7) ? r.below(3) : r.below(8), sd, r.below(2)}); else if (k < 48) p.op("drop", {0, sd}); else if (k < 52) p.op("notify", {r.below(3), sd}); else if (k < 66) p.op("wait", {r.chance(0.6) ? r.range(1, 60) : r.range(60, 3000), sd}); else if (k < 72) p.op("add", {0, sd}); else if (k < 82) p.op("settle", {0, sd});
    else if (k < 87) { if (errs) p.op("err", {r.chance(0.4) ? 0 : r.range(1, 60), sd, r.chance(0.6) ? 0 : r.range(1, 50)}); } else if (k < 88) p.op("known", {r.below(3), sd}); else if (life) { if (k < 91) p.op("stop", {0, sd}); else if (k < 95) p.op("start", {0, sd}); else if (k < 97) p.op("snap", {0, sd}); else p.op("reload", {r.below(4), sd}); } }
  return p; }
void runSync(const Plan& p) { sim::start(p.seed, hs::scratchDir()); hs::setFailureProps("C18,C15,C19", "C18,C15,C19"); SyncSim* s = new SyncSim(p); s->run(); hs::finish(); }
hs::AutoReg rSync({"sync", genSync, runSync});
}
