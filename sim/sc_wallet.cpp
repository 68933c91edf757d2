// Wallet scenario: the real WalletGreen (container file, synchroniser, transfers, deposits) in a simulated process with its
// own dispatcher, against a scripted node. The process is saved, closed, killed and reopened; the node fails, delays,
// reorganises. Balances, history, deposits, payments and the wallet file are judged by an independent ledger.
#include "scriptnode.h"
#include <deque>
#include <System/Dispatcher.h>
#include <System/Event.h>
#include <Wallet/WalletGreen.h>
#include <Wallet/WalletErrors.h>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace w;
using hs::hx; using hs::Plan; using hs::Op;

namespace {
const int PID = 2;
struct Job { std::function<void(WalletGreen&)> fn; bool done = false, threw = false; std::string err; std::error_code ec; };
typedef std::shared_ptr<Job> JobP;
struct Proc { // one life of the wallet program
  platform_system::Dispatcher* d = nullptr; platform_system::Event* quit = nullptr; WalletGreen* wal = nullptr; ScriptNode* node = nullptr; bool ready = false, ended = false; unsigned gen = 0; sim::Tid tid = -1;
  struct Client { std::deque<std::function<void()>> q; sim::Signal sig; }; std::shared_ptr<Client> cl; std::deque<std::pair<uint64_t, int>> notq; sim::Signal notSig;
};
struct Snap { uint64_t act = 0, pend = 0, dl = 0, du = 0; std::map<int, std::array<uint64_t, 4>> by; std::vector<WalletTransaction> tx; std::vector<std::vector<WalletTransfer>> tr; std::vector<Deposit> dep; std::vector<std::string> addr; std::vector<size_t> delayed; std::vector<Hash> unc; uint32_t count = 0; Hash top; std::map<OutKey, uint64_t, OutKeyLess> unspent; };

struct WalletSim : IWalletObserver {
  const Plan& plan; World w; sim::Rng r; Proc* p = nullptr; ScriptNode* node = nullptr; std::vector<int> mine; std::set<int> gone; int nextAcc = 0; std::string dir, path; std::vector<std::string> pws; bool running = false; uint64_t completedOk = 0;
  uint32_t age; std::set<Hash, HashLess> unseenDrop;  // sent, and dropped from the pool before the wallet had looked there: shown as pending until it is opened again
  bool errArmed = false;  // a disk error was asked for since the process started
  std::set<Hash, HashLess> lostAnswer; bool madeSinceLost = false;  // another transaction with the coins of one accepted without the wallet knowing it has the same output keys, the first is then not read
  std::set<Hash, HashLess> madeBlind; /* made before the wallet had seen every spend of its coins */ bool synced = false, reorgSince = false;  // reorgSince: a transaction taken back with its coins is known again only after the next look at the pool
  std::map<Hash, int, HashLess> knownSent; std::set<Hash, HashLess> settled; std::vector<JobP> outstanding; Hashes accepted; std::map<Hash, size_t, HashLess> created; Hashes lost; // lost: accepted but reported as failed
  std::set<int> maybeAdd, maybeDel; uint64_t crashes = 0; bool quietDisk() { return true; } std::string exportPath, exportPw; std::vector<int> exportAcc; bool deposits, fileFocus; double errRate = 0; bool everCrashed = false; bool loadFails = false, reorged = false;
  WalletSim(const Plan& p) : plan(p), w(paramsFrom(p), 8), r(p.seed * 91 + 5), age(p.num("age", 1)) { deposits = p.num("deposits"); fileFocus = p.num("file"); }
  // ---------------------------------------------------------------- observer
  void initCompleted(std::error_code) override {} void saveCompleted(std::error_code) override {} void synchronizationProgressUpdated(uint32_t, uint32_t) override {} void synchronizationCompleted(std::error_code ec) override { if (!ec) { ++completedOk; hs::count("completed-ok"); } else hs::count("completed-error"); }
  void actualBalanceUpdated(uint64_t) override {} void pendingBalanceUpdated(uint64_t) override {} void actualDepositBalanceUpdated(uint64_t) override {} void pendingDepositBalanceUpdated(uint64_t) override {} void actualInvestmentBalanceUpdated(uint64_t) override {} void pendingInvestmentBalanceUpdated(uint64_t) override {} void externalTransactionCreated(TransactionId) override {} void sendTransactionCompleted(TransactionId, std::error_code) override {} void transactionUpdated(TransactionId) override {} void depositUpdated(DepositId) override {} void depositsUpdated(const std::vector<DepositId>&) override {}
  // ---------------------------------------------------------------- process
  bool died() { return p && (sim::nodeGeneration(PID) != p->gen || sim::threadDied(p->tid)); }
  void startProc() { p = new Proc; p->gen = sim::nodeGeneration(PID); auto* n = new ScriptNode(w, plan.seed * 13 + 1 + crashes); n->pid = PID; n->tip = node->tip; n->pool = node->pool; n->maxDelay = node->maxDelay; n->syncRate = node->syncRate; n->maxBlocks = node->maxBlocks; n->errRate = errRate; n->accept = [this](const Transaction& t) { return accept(t); }; node = n; p->node = n; transactions_hash_seen.clear(); public_keys_seen.clear(); Proc* q = p; knownSent.clear(); synced = errArmed = false; running = true; for (auto& id : node->pool) if (accepted.count(id)) lostAnswer.insert(id);
    q->cl = std::make_shared<Proc::Client>(); auto c = q->cl; q->tid = sim::spawn(PID, "wallet", [this, q] { platform_system::Dispatcher d; { WalletGreen wal(d, *w.cur, *q->node, nolog, age); wal.addObserver(this); platform_system::Event quit(d); q->d = &d; q->quit = &quit; q->wal = &wal; q->ready = true; quit.wait(); q->ready = false; wal.removeObserver(this); } q->ended = true; q->d = nullptr; });
    sim::spawn(PID, "client", [c] { for (;;) { while (!c->q.empty()) { auto f = c->q.front(); c->q.pop_front(); f(); } c->sig.wait(UINT64_MAX); } });
    sim::spawn(PID, "notifier", [q] { for (;;) { if (q->notq.empty()) { q->notSig.wait(SEC); continue; } auto x = q->notq.front(); q->notq.pop_front(); if (x.first > sim::now()) sim::sleepNs(x.first - sim::now()); uint32_t h = q->node->tip->height; if (x.second == 0) q->node->obs.notify(&INodeObserver::localBlockchainUpdated, h); else if (x.second == 1) q->node->obs.notify(&INodeObserver::lastKnownBlockHeightUpdated, h); else q->node->obs.notify(&INodeObserver::poolChanged); } });
    if (!sim::waitUntil([&] { return q->ready || died(); }, 100 * SEC)) VIOL("C19", "hang", "the wallet process does not start"); }
  void notify(int kind, uint64_t d) { p->notq.push_back({sim::now() + d, kind}); p->notSig.raise(); }
  JobP post(const std::function<void(WalletGreen&)>& fn) { JobP j = std::make_shared<Job>(); j->fn = fn; Proc* q = p; auto run = [j, q] { try { j->fn(*q->wal); } catch (const std::system_error& e) { j->threw = true; j->err = e.what(); j->ec = e.code(); } catch (const std::exception& e) { j->threw = true; j->err = e.what(); } j->done = true; };
    q->cl->q.push_back([q, run] { if (q->d) q->d->remoteSpawn(run); }); q->cl->sig.raise(); return j; }
  void await(const JobP& j, const char* what) { if (!sim::waitUntil([&] { return j->done || died(); }, 900 * SEC, 20 * MS)) VIOL("C19,C17,C15,C16", "hang", "the wallet does not finish: " << what << " " << sim::dumpThreads()); }
  // true: done without exception
  bool call(const std::function<void(WalletGreen&)>& fn, const char* what, JobP* out = nullptr) { JobP j = post(fn); if (out) *out = j; await(j, what); if (!j->done) return false; if (j->threw) hs::count(std::string("threw:") + what); return !j->threw; }
  void drain() { for (auto& j : outstanding) await(j, "a concurrent transfer"); outstanding.clear(); }
  void quitProc(bool kill = false) { drain(); if (!died() && !kill) { JobP j = post([this](WalletGreen&) { p->quit->set(); }); if (!sim::waitUntil([&] { return p->ended || died(); }, 900 * SEC, 20 * MS)) VIOL("C19,C16", "hang", "the wallet does not close " << sim::dumpThreads()); } running = false; sim::killNode(PID); sim::armDisk(PID, sim::DiskPlan()); synced = false; knownSent.clear(); created.clear(); }
  // ---------------------------------------------------------------- the node accepts or refuses
  bool sigsOk(const Ledger& l, const Transaction& t) { Hash ph = getObjectHash(*static_cast<const TransactionPrefix*>(&t)); for (size_t i = 0; i < t.inputs.size(); ++i) { if (t.inputs[i].type() == typeid(KeyInput)) { auto& k = boost::get<KeyInput>(t.inputs[i]); auto f = l.key.find(k.amount); if (f == l.key.end()) return false; std::vector<const crypto::PublicKey*> ks; uint32_t a = 0; for (auto x : k.outputIndexes) { a += x; if (a >= f->second.size()) return false; ks.push_back(&f->second[a].key); } if (i >= t.signatures.size() || t.signatures[i].size() != ks.size() || !crypto::check_ring_signature(ph, k.keyImage, ks, t.signatures[i].data())) return false; }
      else if (t.inputs[i].type() == typeid(MultisignatureInput)) { auto& m = boost::get<MultisignatureInput>(t.inputs[i]); auto f = l.ms.find(m.amount); if (f == l.ms.end() || m.outputIndex >= f->second.size() || i >= t.signatures.size() || t.signatures[i].size() != 1) return false; bool ok = false; for (auto& k : f->second[m.outputIndex].keys) if (crypto::check_signature(ph, k, t.signatures[i][0])) ok = true; if (!ok) return false; } } return true; }
  std::vector<std::string> spends(const Transaction& t) { std::vector<std::string> v; for (auto& in : t.inputs) if (in.type() == typeid(KeyInput)) v.push_back(hx(boost::get<KeyInput>(in).keyImage, 32)); else if (in.type() == typeid(MultisignatureInput)) { auto& m = boost::get<MultisignatureInput>(in); v.push_back("m" + std::to_string(m.amount) + "/" + std::to_string(m.outputIndex)); } return v; }
  std::error_code accept(const Transaction& tx) { TxInfo t = w.info(tx); hs::count("relayed"); if (node->tip->led->tx.count(t.id) || std::find(node->pool.begin(), node->pool.end(), t.id) != node->pool.end()) { accepted.insert(t.id); return {}; }
    auto mineS = spends(tx); std::set<std::string> ms(mineS.begin(), mineS.end()); if (ms.size() != mineS.size()) VIOL("C17", "same-coin-inside", "a transaction sent by the wallet spends a coin twice");
    if (!reorgSince) for (auto& k : knownSent) { if (k.first == t.id || !w.txs.count(k.first)) continue; if (!node->tip->led->tx.count(k.first) && std::find(node->pool.begin(), node->pool.end(), k.first) == node->pool.end()) continue; for (auto& s : spends(w.txs.at(k.first).tx)) if (ms.count(s)) VIOL("C17", "same-coin", "the wallet sends a transaction which spends a coin its earlier transaction " << hx(k.first) << " has spent"); }
    std::string pr, bad = w.checkTx(*node->tip->led, t, node->tip->height + 1, pr); if (bad.empty() && !sigsOk(*node->tip->led, tx)) bad = "signature"; if (bad.empty()) for (auto& id : node->pool) for (auto& s : spends(w.txs.at(id).tx)) if (ms.count(s)) bad = "pool-conflict"; if (bad.empty() && t.size > w.cur->transactionMaxSize()) bad = "size";
    if (!bad.empty()) { hs::count("relayed-bad:" + bad); if (synced) VIOL("C17,C15", "invalid-sent", "the wallet, in step with its node, sends a transaction which is not valid: " << bad); return std::make_error_code(std::errc::invalid_argument); }
    if (w.p.testnet) { } w.reg(t); node->pool.push_back(t.id); accepted.insert(t.id); if (node->losing) { synced = false; lostAnswer.insert(t.id); } hs::count("accepted"); return {}; }
  // ---------------------------------------------------------------- what the ledger says
  int ownedBy(const OutInfo& o, int a) { if (o.keys.empty()) { auto f = w.ownerOf.find(o.key); return f != w.ownerOf.end() && f->second == a; } for (auto& k : o.keys) { auto f = w.ownerOf.find(k); if (f != w.ownerOf.end() && f->second == a) return 1; } return 0; }
  Exp expected(int a, const MBP& T, const std::vector<Hash>& P) { sim::NoSched ns; Exp e; std::map<crypto::KeyImage, OutKey, HashLess> ki; std::map<std::pair<uint64_t, uint32_t>, OutKey> ms; auto path = T->path();
    auto add = [&](const OutInfo& o, uint32_t g) { if (!ownedBy(o, a)) return; XO x; x.amount = o.amount; x.g = g; x.height = o.height; x.term = o.term; x.ms = !o.keys.empty(); x.unlock = o.unlock; OutKey k{o.tx, o.idx}; e.outs[k] = x; e.txs[o.tx] = o.height; if (x.ms) ms[{o.amount, g}] = k; else ki[w.keyImage(o)] = k; };
    for (auto& q : T->led->key) for (size_t i = 0; i < q.second.size(); ++i) add(q.second[i], i);
    for (auto& q : T->led->ms) for (size_t i = 0; i < q.second.size(); ++i) add(q.second[i], i);
    auto spend = [&](const Transaction& t, const Hash& id, int how, uint32_t h) { uint32_t n = 0; for (auto& in : t.inputs) { OutKey* k = nullptr; if (in.type() == typeid(KeyInput)) { auto f = ki.find(boost::get<KeyInput>(in).keyImage); if (f != ki.end()) k = &f->second; } else if (in.type() == typeid(MultisignatureInput)) { auto& m = boost::get<MultisignatureInput>(in); auto f = ms.find({m.amount, m.outputIndex}); if (f != ms.end()) k = &f->second; }
      if (k) { XO& x = e.outs[*k]; if (x.spent) e.conflict = true; else { x.spent = how; x.by = id; x.spentHeight = h; x.input = n; if (how == 1) e.txs[id] = h; else e.pend.insert(id); } } ++n; } };
    for (auto* b : path) for (size_t i = 0; i < b->txs.size(); ++i) spend(b->txs[i], b->b.transactionHashes[i], 1, b->height);
    for (auto& id : P) { if (T->led->tx.count(id)) continue; auto& t = w.txs.at(id).tx; for (uint32_t i = 0; i < t.outputs.size(); ++i) { OutInfo o{}; o.amount = t.outputs[i].amount; if (t.outputs[i].target.type() == typeid(KeyOutput)) o.key = boost::get<KeyOutput>(t.outputs[i].target).key; else { auto& m = boost::get<MultisignatureOutput>(t.outputs[i].target); o.keys = m.keys; o.term = m.term; } if (ownedBy(o, a)) { XO x; x.amount = o.amount; x.ms = !o.keys.empty(); x.term = o.term; x.unlock = t.unlockTime; e.pendOuts[{id, i}] = x; e.pend.insert(id); } } spend(t, id, 2, 0); }
    std::set<std::string> seen; for (auto& id : P) if (!T->led->tx.count(id)) for (auto& s : spends(w.txs.at(id).tx)) if (!seen.insert(s).second) e.conflict = true;
    return e; }
  int stateOf(const XO& x, const MBP& T) { bool u = x.unlock < 500000000 ? T->height + 1 >= x.unlock : sim::wallBase / SEC + sim::now() / SEC + 120 >= x.unlock; if (u && x.ms && x.term) u = T->height + 1 >= x.height + x.term; if (!u) return 2; return T->height < x.height + age ? 1 : 0; } // 0 unlocked, 1 soft locked, 2 locked
  std::string addrOf(int a) { return w.cur->accountAddressAsString(w.accs[a].address); }
  // ---------------------------------------------------------------- reading the wallet
  void read(WalletGreen& g, Snap& s) { s = Snap(); s.act = g.getActualBalance(); s.pend = g.getPendingBalance(); s.dl = g.getLockedDepositBalance(); s.du = g.getUnlockedDepositBalance(); for (size_t i = 0; i < g.getAddressCount(); ++i) s.addr.push_back(g.getAddress(i)); for (int a : mine) { std::string x = addrOf(a); if (std::find(s.addr.begin(), s.addr.end(), x) == s.addr.end()) continue; s.by[a] = {g.getActualBalance(x), g.getPendingBalance(x), g.getLockedDepositBalance(x), g.getUnlockedDepositBalance(x)}; }
    for (size_t i = 0; i < g.getTransactionCount(); ++i) { s.tx.push_back(g.getTransaction(i)); s.tr.push_back({}); for (size_t k = 0; k < g.getTransactionTransferCount(i); ++k) s.tr.back().push_back(g.getTransactionTransfer(i, k)); } for (size_t i = 0; i < g.getWalletDepositCount(); ++i) s.dep.push_back(g.getDeposit(i)); s.delayed = g.getDelayedTransactionIds(); for (auto& u : g.getUnconfirmedTransactions()) s.unc.push_back(u.transaction.hash); s.count = g.getBlockCount(); auto b = g.getBlockHashes(s.count - 1, 1); s.top = b.empty() ? NULL_HASH : b[0]; for (auto& o : g.getUnspentOutputs()) s.unspent[{o.transactionHash, o.outputInTransaction}] = o.amount; }
  static const char* stName(WalletTransactionState s) { switch (s) { case WalletTransactionState::SUCCEEDED: return "succeeded"; case WalletTransactionState::FAILED: return "failed"; case WalletTransactionState::CANCELLED: return "cancelled"; case WalletTransactionState::CREATED: return "created"; default: return "deleted"; } }
  bool touches(const Hash& id, const std::set<int>& as, const MBP& T) { auto f = w.txs.find(id); const Transaction* t = nullptr; if (f != w.txs.end()) t = &f->second.tx; else for (auto* b : T->path()) if (getObjectHash(b->b.baseTransaction) == id) t = &b->b.baseTransaction; if (!t) return true; for (auto& o : t->outputs) { std::vector<crypto::PublicKey> ks; if (o.target.type() == typeid(KeyOutput)) ks = {boost::get<KeyOutput>(o.target).key}; else ks = boost::get<MultisignatureOutput>(o.target).keys; for (auto& k : ks) { auto q = w.ownerOf.find(k); if (q != w.ownerOf.end() && as.count(q->second)) return true; } }
    std::set<crypto::KeyImage, HashLess> kis; for (auto& in : t->inputs) if (in.type() == typeid(KeyInput)) kis.insert(boost::get<KeyInput>(in).keyImage); else if (in.type() == typeid(MultisignatureInput)) { auto& m = boost::get<MultisignatureInput>(in); auto q = T->led->ms.find(m.amount); if (q != T->led->ms.end() && m.outputIndex < q->second.size()) for (int a : as) if (ownedBy(q->second[m.outputIndex], a)) return true; } for (auto& q : T->led->key) for (auto& o : q.second) if (o.owner >= 0 && as.count(o.owner) && kis.count(w.keyImage(o))) return true; return false; }
  bool failedSinceGood = false, openedSinceGood = false; // what happened since the last settled state that was right
  void check() { Snap s; if (!call([&](WalletGreen& g) { read(g, s); }, "read")) return; sim::NoSched ns; MBP T = node->tip; auto& P = node->pool; hs::count("checks"); settled.insert(P.begin(), P.end()); std::string prs = "C15"; if (failedSinceGood) prs += ",C17"; if (openedSinceGood) prs += ",C16"; const char* pr = prs.c_str(); std::string who = "at height " + std::to_string(T->height); std::map<int, Exp> E; std::set<int> ms(mine.begin(), mine.end()); bool conflict = false; if (madeSinceLost || !created.empty()) for (auto& x : P) conflict |= lostAnswer.count(x) != 0; for (auto& t : s.tx) if (t.state == WalletTransactionState::SUCCEEDED && t.blockHeight == WALLET_UNCONFIRMED_TRANSACTION_HEIGHT && unseenDrop.count(t.hash) && std::find(P.begin(), P.end(), t.hash) == P.end()) { hs::count("unseen-drops"); conflict = true; } for (int a : mine) { E[a] = expected(a, T, P); conflict |= E[a].conflict; }
    if (s.addr.size() != mine.size()) VIOL("C16,C15", "addresses", "the wallet has " << s.addr.size() << " addresses, " << mine.size() << " were created"); for (int a : mine) if (std::find(s.addr.begin(), s.addr.end(), addrOf(a)) == s.addr.end()) VIOL("C16,C15", "address-missing", "an address whose creation was acknowledged is missing");
    if (getenv("SIM_DEBUG")) { auto un = s.unspent; for (auto& e : E) for (auto& x : e.second.outs) if (!x.second.ms && !x.second.spent && stateOf(x.second, T) == 0) { if (!un.erase(x.first)) fprintf(stderr, "acc %d out %s/%u %llu not shown\n", e.first, hx(x.first.first).c_str(), x.first.second, (unsigned long long)x.second.amount); } for (auto& u : un) { fprintf(stderr, "shown out %s/%u %llu unexpected\n", hx(u.first.first).c_str(), u.first.second, (unsigned long long)u.second); for (auto& e : E) { auto f = e.second.outs.find(u.first); if (f != e.second.outs.end()) fprintf(stderr, "  acc %d spent %d by %s at %u state %d\n", e.first, f->second.spent, hx(f->second.by).c_str(), f->second.spentHeight, stateOf(f->second, T)); } }
      for (auto& e : E) for (auto& x : e.second.outs) if (x.second.ms) fprintf(stderr, "acc %d deposit %llu term %u height %u spent %d\n", e.first, (unsigned long long)x.second.amount, x.second.term, x.second.height, x.second.spent); for (auto& id : P) fprintf(stderr, "pool %s mined %d\n", hx(id).c_str(), (int)T->led->tx.count(id)); for (auto& e : E) { for (auto& x : e.second.outs) if (x.second.spent == 2) fprintf(stderr, "acc %d out %s/%u %llu spent by %s\n", e.first, hx(x.first.first).c_str(), x.first.second, (unsigned long long)x.second.amount, hx(x.second.by).c_str()); for (auto& x : e.second.pendOuts) fprintf(stderr, "acc %d pending out %s/%u %llu\n", e.first, hx(x.first.first).c_str(), x.first.second, (unsigned long long)x.second.amount); } for (auto& d : s.dep) fprintf(stderr, "shown deposit %llu term %u height %llu interest %llu spent %zu\n", (unsigned long long)d.amount, d.term, (unsigned long long)d.height, (unsigned long long)d.interest, d.spendingTransactionId); for (size_t i = 0; i < s.tx.size(); ++i) fprintf(stderr, "tx %zu %s block %d amount %lld %s transfers %zu\n", i, hx(s.tx[i].hash).c_str(), (int)s.tx[i].blockHeight, (long long)s.tx[i].totalAmount, stName(s.tx[i].state), s.tr[i].size()); }
    std::set<Hash, HashLess> del; for (auto i : s.delayed) del.insert(s.tx.at(i).hash); for (auto i = created.begin(); i != created.end();) { bool gonetx = false; if (!del.count(i->first) && (reorged || !lostAnswer.empty() || madeBlind.count(i->first))) for (auto& t : s.tx) gonetx |= t.hash == i->first && t.state == WalletTransactionState::CANCELLED; if (gonetx) { hs::count("delayed-cancelled"); i = created.erase(i); } else ++i; }
    for (auto& c : created) if (!del.count(c.first) && !T->led->tx.count(c.first) && !gone.size()) VIOL("C17,C15", "delayed-missing", "a transaction made but not yet sent is no longer among the delayed ones"); for (auto& d : del) if (!created.count(d)) VIOL("C17,C15", "delayed-extra", "a transaction nobody left unsent is among the delayed ones");
    for (auto i : s.delayed) if (s.tx[i].state != WalletTransactionState::CREATED) VIOL("C17,C15", "delayed-state", "a delayed transaction has state " << stName(s.tx[i].state));
    bool loose = conflict || !del.empty(); if (loose) hs::count("loose-checks"); uint64_t ta = 0, tp = 0, tl = 0, tu = 0, la = 0; bool clock = false;
    for (int a : mine) { uint64_t act = 0, pend = 0, dl = 0, du = 0; for (auto& x : E[a].outs) { if (x.second.spent) continue; if (x.second.unlock >= 500000000) clock = true; int st = stateOf(x.second, T); if (!x.second.ms) (st ? pend : act) += x.second.amount; else if (x.second.term) (st ? dl : du) += x.second.amount + w.interest(x.second.amount, x.second.term, x.second.height + x.second.term); }
      for (auto& x : E[a].pendOuts) if (!x.second.ms) pend += x.second.amount; else if (x.second.term) { dl += x.second.amount + w.cur->calculateInterest(x.second.amount, x.second.term, 0xffffffffu); }
      ta += act; tp += pend; tl += dl; tu += du; auto& q = s.by[a]; if (!loose && !clock && (q[0] != act || q[1] != pend)) VIOL(pr, q[0] != act ? "balance" : "pending-balance", who << ": address " << a << " shows actual " << q[0] << " pending " << q[1] << ", the chain and the pool say " << act << " and " << pend);
      if (!loose && !clock && (q[2] != dl || q[3] != du)) VIOL(pr, "deposit-balance", who << ": address " << a << " shows deposits locked " << q[2] << " unlocked " << q[3] << ", the chain and the pool say " << dl << " and " << du); la += act; }
    if (!loose && !clock && (s.act != ta || s.pend != tp || s.dl != tl || s.du != tu)) VIOL(pr, "total-balance", who << ": totals are " << s.act << "/" << s.pend << "/" << s.dl << "/" << s.du << ", the addresses add up to " << ta << "/" << tp << "/" << tl << "/" << tu);
    if (loose && !conflict) { int64_t net = 0; for (auto i : s.delayed) if (!T->led->tx.count(s.tx[i].hash) && std::find(P.begin(), P.end(), s.tx[i].hash) == P.end()) net += s.tx[i].totalAmount; if ((int64_t)(s.act + s.pend) != (int64_t)(ta + tp) + net && !clock) VIOL("C15,C17", "balance-delayed", who << ": with " << del.size() << " delayed transactions worth " << net << " the balances are " << s.act << "+" << s.pend << ", without them " << ta << "+" << tp); }
    // the history
    std::map<Hash, uint32_t, HashLess> conf; Hashes pend; for (auto& e : E) { for (auto& x : e.second.txs) conf[x.first] = x.second; for (auto& x : e.second.pend) pend.insert(x); }
    std::map<Hash, size_t, HashLess> have; for (size_t i = 0; i < s.tx.size(); ++i) { if (!have.insert({s.tx[i].hash, i}).second) VIOL(pr, "tx-twice", who << ": transaction " << hx(s.tx[i].hash) << " is listed twice"); }
    for (auto& c : conf) { auto f = have.find(c.first); if (f == have.end()) VIOL(pr, "tx-missing", who << ": transaction " << hx(c.first) << " of block " << c.second << " is not in the history"); auto& t = s.tx[f->second]; if (t.state != WalletTransactionState::SUCCEEDED || t.blockHeight != c.second) VIOL(pr, "tx-state", who << ": transaction " << hx(c.first) << " of block " << c.second << " is shown as " << stName(t.state) << " in block " << (int)t.blockHeight);
      if (t.timestamp != ancestor(T, c.second)->b.timestamp) VIOL(pr, "tx-time", who << ": transaction " << hx(c.first) << " has another time than its block"); if (gone.size() && touches(c.first, gone, T)) continue;
      std::map<std::string, std::pair<int64_t, int64_t>> want, got; int64_t net = 0; for (auto& e : E) { int64_t in = 0, out = 0; for (auto& o : e.second.outs) { if (o.first.first == c.first) out += o.second.amount; if (o.second.spent == 1 && o.second.by == c.first) in -= o.second.amount; } if (in || out) want[addrOf(e.first)] = {in, out}; net += in + out; }
      if (t.totalAmount != net) VIOL(pr, "tx-amount", who << ": transaction " << hx(c.first) << " is shown with amount " << t.totalAmount << ", it moved " << net); int64_t all = 0; for (auto& x : s.tr[f->second]) { all += x.amount; bool m = false; for (int a : mine) if (addrOf(a) == x.address) m = true; if (m) (x.amount < 0 ? got[x.address].first : got[x.address].second) += x.amount; }
      if (want != got) VIOL(pr, "tx-transfers", who << ": the transfers of transaction " << hx(c.first) << " do not add up to what its addresses spent and received"); auto wt = w.txs.find(c.first); if (wt != w.txs.end()) { int64_t in = 0, out = 0; bool dep = false; for (auto& i : wt->second.tx.inputs) if (i.type() == typeid(KeyInput)) in += boost::get<KeyInput>(i).amount; else { dep = true; } for (auto& o : wt->second.tx.outputs) out += o.amount; if (!dep && ((int64_t)t.fee != in - out || all != out - in)) VIOL(pr, "tx-fee", who << ": transaction " << hx(c.first) << " paid a fee of " << in - out << " but is shown with " << t.fee << ", its transfers sum to " << all); if (t.isBase) VIOL(pr, "tx-base", "a transaction is shown as a block reward"); } else if (!t.isBase) VIOL(pr, "tx-base", "a block reward is not shown as such"); }
    for (auto& h : have) { auto& t = s.tx[h.second]; if (conf.count(h.first)) continue; if (t.state == WalletTransactionState::DELETED) continue; if (t.blockHeight != WALLET_UNCONFIRMED_TRANSACTION_HEIGHT) { if (gone.size() && touches(h.first, gone, T)) continue; VIOL(pr, "tx-extra", who << ": transaction " << hx(h.first) << " is shown in block " << t.blockHeight << ", the chain does not have it there"); }
      if (t.state == WalletTransactionState::SUCCEEDED && !pend.count(h.first) && !conflict && !(gone.size() && touches(h.first, gone, T))) VIOL("C15,C17", "pending-extra", who << ": transaction " << hx(h.first) << " is shown as pending, the node's pool does not have it"); }
    if (!conflict) for (auto& x : pend) { auto f = have.find(x); if (f == have.end()) VIOL(pr, "pending-missing", who << ": pool transaction " << hx(x) << " is not in the history"); auto& t = s.tx[f->second]; if (t.state != WalletTransactionState::SUCCEEDED && !lost.count(x) && !created.count(x)) VIOL("C15,C17", "pending-state", who << ": pool transaction " << hx(x) << " is shown as " << stName(t.state)); }
    for (auto& u : s.unc) if (!pend.count(u) && !conflict && !(gone.size() && touches(u, gone, T))) VIOL(pr, "unconfirmed-extra", who << ": " << hx(u) << " is listed as unconfirmed");
    // deposits
    if (!gone.size()) { std::set<OutKey, OutKeyLess> seen; std::map<OutKey, std::pair<XO, int>, OutKeyLess> want; for (auto& e : E) for (auto& o : e.second.outs) if (o.second.ms && o.second.term) want[o.first] = {o.second, e.first};
      for (auto& d : s.dep) { OutKey k{d.transactionHash, d.outputInTransaction}; auto f = want.find(k); if (f == want.end() && reorged && d.creatingTransactionId < s.tx.size() && s.tx[d.creatingTransactionId].hash == d.transactionHash && s.tx[d.creatingTransactionId].blockHeight == WALLET_UNCONFIRMED_TRANSACTION_HEIGHT) { hs::count("deposit-of-reverted-tx"); continue; } if (f == want.end()) VIOL(pr, "deposit-extra", who << ": a deposit of " << d.amount << " made in " << hx(d.transactionHash) << " is listed, the chain does not have it"); if (!seen.insert(k).second) VIOL(pr, "deposit-twice", who << ": the deposit made in " << hx(d.transactionHash) << " is listed twice"); auto& x = f->second.first;
        if (d.amount != x.amount || d.term != x.term || d.height != x.height || d.unlockHeight != x.height + x.term || d.interest != w.interest(x.amount, x.term, x.height + x.term)) VIOL(pr, "deposit-data", who << ": a deposit of " << x.amount << " for " << x.term << " blocks from block " << x.height << " is shown as " << d.amount << " for " << d.term << " from " << d.height << " until " << d.unlockHeight << " with interest " << d.interest);
        if (d.creatingTransactionId >= s.tx.size() || !(s.tx[d.creatingTransactionId].hash == d.transactionHash)) VIOL(pr, "deposit-creator", who << ": a deposit names the wrong creating transaction"); bool sp = d.spendingTransactionId != WALLET_INVALID_TRANSACTION_ID; if (conflict || (x.spent != 1 && !del.empty())) continue; if (sp != (x.spent != 0)) VIOL(pr, "deposit-spent", who << ": a deposit made in " << hx(d.transactionHash) << " is shown as " << (sp ? "spent" : "unspent") << ", it is " << (x.spent == 1 ? "spent in the chain" : x.spent == 2 ? "spent in the pool" : "unspent")); if (sp && (d.spendingTransactionId >= s.tx.size() || !(s.tx[d.spendingTransactionId].hash == x.by))) VIOL(pr, "deposit-spender", who << ": a deposit names the wrong spending transaction");
        if (d.locked != (T->height + 1 < d.unlockHeight)) VIOL(pr, "deposit-locked", who << ": a deposit until block " << d.unlockHeight << " is shown as " << (d.locked ? "locked" : "unlocked")); }
      for (auto& x : want) if (!seen.count(x.first)) VIOL(pr, "deposit-missing", who << ": the deposit made in " << hx(x.first.first) << " is not listed"); }
    synced = true; for (auto& x : P) if (lostAnswer.count(x) && (madeSinceLost || !created.empty())) synced = false; else knownSent[x] = 1; reorgSince = false; failedSinceGood = openedSinceGood = false; hs::state(hs::fnv(hx(T->hash) + std::to_string(P.size()) + std::to_string(s.act))); }
  // ---------------------------------------------------------------- chain and pool
  void setTip(const MBP& t) { MBP old = node->tip; node->tip = t; synced = false; std::vector<Hash> np; if (!onChain(old, t)) { knownSent.clear(); reorged = reorgSince = true; } auto keep = [&](const Hash& id) { std::string pr; return !t->led->tx.count(id) && w.checkTx(*t->led, w.txs.at(id), t->height + 1, pr).empty() && sigsOk(*t->led, w.txs.at(id).tx); }; std::set<std::string> used; auto put = [&](const Hash& id) { if (std::find(np.begin(), np.end(), id) != np.end() || !keep(id)) return; auto v = spends(w.txs.at(id).tx); for (auto& s : v) if (used.count(s)) return; used.insert(v.begin(), v.end()); np.push_back(id); };
    for (auto& id : node->pool) put(id); for (MBP o = old; o && !onChain(o, t); o = o->parent) for (auto& id : o->b.transactionHashes) if (r.chance(0.85)) put(id); for (auto& id : accepted) if (!settled.count(id) && !t->led->tx.count(id) && std::find(np.begin(), np.end(), id) == np.end()) unseenDrop.insert(id); node->pool = np; }
  int anyAcc() { int k = r.below(2 + mine.size()); return k < 2 ? k : mine[k - 2]; }
  bool makeAny(const MBP& at, TxInfo& t, bool base) { if (at->height < 12) return false; World::TxSpec q; q.at = at; q.from = base && r.chance(0.3) ? anyAcc() : r.below(2); q.to = r.chance(0.6) && mine.size() ? mine[r.below(mine.size())] : anyAcc(); q.nOuts = 1 + r.below(4); static const uint64_t unit[] = {100000, 500000, 2000000, 30000}; q.amount = r.chance(0.7) ? unit[r.below(4)] * q.nOuts : 1000 + r.below(300000); q.fee = 1000; q.pick = r.next(); q.mixin = r.below(3); std::set<crypto::KeyImage, HashLess> av; for (auto& id : node->pool) for (auto& in : w.txs.at(id).tx.inputs) if (in.type() == typeid(KeyInput)) av.insert(boost::get<KeyInput>(in).keyImage); q.avoid = &av;
    if (deposits && r.chance(0.15)) { q.term = w.p.minTermV3 * (1 + r.below(3)); q.amount = 1000000 + r.below(100000); } else if (r.chance(0.15)) q.unlock = r.chance(0.9) || !plan.num("clocklock") ? at->height + r.below(12) : sim::wallBase / SEC + sim::now() / SEC + r.below(600); if (r.chance(0.2)) memset(&q.pid, 0x30 + r.below(3), 32); std::string pr; return w.makeTx(q, t) && w.checkTx(*at->led, t, at->height + 1, pr).empty(); }
  MBP grow(const MBP& par, bool mix, const std::vector<Hash>& prefer) { World::BlockSpec s; s.parent = par; s.miner = anyAcc(); s.outs = 1 + r.below(3); s.ts = std::max<uint64_t>(par->b.timestamp + 1 + r.below(60), sim::wallBase / SEC + sim::now() / SEC); std::set<std::string> used; auto take = [&](const Hash& id) { std::string pr; auto& t = w.txs.at(id); if (std::find(s.txs.begin(), s.txs.end(), id) != s.txs.end() || !w.checkTx(*par->led, t, par->height + 1, pr).empty() || !sigsOk(*par->led, t.tx)) return; auto v = spends(t.tx); for (auto& x : v) if (used.count(x)) return; used.insert(v.begin(), v.end()); s.txs.push_back(id); };
    for (auto& id : prefer) if (r.chance(0.8)) take(id); if (mix) for (auto& id : node->pool) if (r.chance(0.6)) take(id); for (int k = r.below(2); k > 0; --k) { TxInfo t; if (makeAny(par, t, false)) { w.reg(t); take(t.id); } } MBP b = w.build(s); if (!b || !b->bad.empty()) VIOL("", "harness", "cannot build a block: " << (b ? b->bad : "")); return b; }
  void base() { uint32_t len = plan.num("base", 30); uint64_t ts = sim::wallBase / SEC - (uint64_t)len * 120 - 600; MBP cur = w.genesis; node->tip = cur; r.s = plan.seed * 31 + 5; for (uint32_t i = 0; i < len; ++i) { World::BlockSpec s; s.parent = cur; s.miner = anyAcc(); s.outs = 1 + r.below(4); ts += 60 + r.below(60); s.ts = ts; std::set<std::string> used; if (cur->height > 11) for (int k = r.below(4); k > 0; --k) { TxInfo t; if (!makeAny(cur, t, true)) continue; bool clash = false; auto v = spends(t.tx); for (auto& x : v) clash |= used.count(x); if (clash) continue; used.insert(v.begin(), v.end()); w.reg(t); s.txs.push_back(t.id); } cur = w.build(s); if (!cur || !cur->bad.empty()) VIOL("", "harness", "base block " << (cur ? cur->bad : "unbuildable")); } node->tip = cur; }
  // ---------------------------------------------------------------- synchronise and compare
  bool inStep(bool verify = true) { if (mine.empty()) return false; drain(); if (died()) return false; double er = node->errRate; node->errRate = 0; uint64_t dl = sim::now() + 600 * SEC; bool ok = false;
    while (sim::now() < dl && !died()) { uint64_t n = completedOk; notify(r.below(2) * 2, 0); sim::waitUntil([&] { return completedOk > n || died(); }, 20 * SEC, 20 * MS); if (completedOk == n) continue; n = completedOk; notify(2, 0); sim::waitUntil([&] { return completedOk > n || died(); }, 20 * SEC, 20 * MS); if (completedOk == n) continue; sim::sleepNs(50 * MS); Hash top = NULL_HASH; uint32_t c = 0; for (int k = 0; k < 2; ++k) call([&](WalletGreen& g) { c = g.getBlockCount(); auto b = g.getBlockHashes(c - 1, 1); if (!b.empty()) top = b[0]; }, "read"); if (c == node->tip->height + 1 && top == node->tip->hash) { ok = true; break; } if (getenv("SIM_DEBUG")) fprintf(stderr, "settle: wallet at %u, node at %u\n", c, node->tip->height + 1); notify(0, 0); }
    node->errRate = er; if (died()) return false; if (!ok) VIOL("C15,C18", "no-progress", "the node answers, but the wallet does not reach its chain " << sim::dumpThreads()); if (verify) check(); return true; }
  // ---------------------------------------------------------------- what a transfer must have done
  void checkPaid(const Hash& id, const std::map<int, uint64_t>& to, uint64_t fee, int change, const std::set<int>& src, const char* what) { sim::NoSched ns; if (!accepted.count(id)) VIOL("C17", "sent-not-accepted", "the wallet reports a " << what << " as sent, the node never accepted it"); auto& t = w.txs.at(id).tx; uint64_t in = 0, out = 0; std::map<int, uint64_t> got; for (auto& i : t.inputs) if (i.type() == typeid(KeyInput)) { auto& k = boost::get<KeyInput>(i); in += k.amount; int own = -1; auto f = node->tip->led->key.find(k.amount); uint32_t a = 0; if (f != node->tip->led->key.end()) for (auto x : k.outputIndexes) { a += x; if (a < f->second.size() && f->second[a].owner >= 0 && !memcmp(&k.keyImage, std::addressof(static_cast<const crypto::KeyImage&>(w.keyImage(f->second[a]))), 32)) own = f->second[a].owner; } if (own >= 0 && !src.count(own)) VIOL("C17", "other-source", "a " << what << " spends a coin of an address it should not use"); }
    for (auto& o : t.outputs) { out += o.amount; int own = -1; std::vector<crypto::PublicKey> ks; if (o.target.type() == typeid(KeyOutput)) ks = {boost::get<KeyOutput>(o.target).key}; else ks = boost::get<MultisignatureOutput>(o.target).keys; for (auto& k : ks) { auto f = w.ownerOf.find(k); if (f != w.ownerOf.end()) own = f->second; } if (own < 0) VIOL("C17", "pays-unknown", "a " << what << " pays somebody unknown"); got[own] += o.amount; }
    if (in != out + fee) VIOL("C17", "fee", "a " << what << " with a stated fee of " << fee << " pays " << in - out); std::map<int, uint64_t> want = to; uint64_t sum = 0; for (auto& x : to) sum += x.second; if (in < sum + fee) VIOL("C17", "pays-wrong", "a " << what << " spends less than it pays"); if (in > sum + fee) want[change] += in - sum - fee; for (auto i = want.begin(); i != want.end();) if (!i->second) i = want.erase(i); else ++i; if (want != got) { std::ostringstream a, b; for (auto& x : want) a << " " << x.first << ":" << x.second; for (auto& x : got) b << " " << x.first << ":" << x.second; VIOL("C17", "pays-wrong", "a " << what << " should pay" << a.str() << " and pays" << b.str()); } }
  struct Pay { TransactionParameters q; std::map<int, uint64_t> to; int change; std::set<int> src; uint64_t sum = 0, can = 0; bool must = false; };
  bool makePay(Pay& y) { if (mine.empty()) return false; if (!lostAnswer.empty()) madeSinceLost = true; TransactionParameters& q = y.q; bool one = r.chance(0.4) || mine.size() == 1; if (one) { int s = mine[r.below(mine.size())]; q.sourceAddresses = {addrOf(s)}; y.src = {s}; y.change = s; if (r.chance(0.3)) q.changeDestination = addrOf(s); } else { y.src.insert(mine.begin(), mine.end()); y.change = mine[r.below(mine.size())]; q.changeDestination = addrOf(y.change); }
    uint64_t can = 0, n = 0; for (int a : y.src) { sim::NoSched ns; Exp e = expected(a, node->tip, node->pool); for (auto& x : e.outs) if (!x.second.spent && !x.second.ms && !stateOf(x.second, node->tip) && x.second.amount > 10) { can += x.second.amount; ++n; } } y.can = can; if (can < 3000) return false; int d = 1 + r.below(3); uint64_t budget = r.chance(0.2) ? can : r.chance(0.5) ? can / 4 : std::min<uint64_t>(can / 2, 400000); for (int i = 0; i < d; ++i) { int a = anyAcc(); uint64_t v = r.chance(0.3) ? 10000 * (1 + r.below(9)) : 1 + r.below(std::max<uint64_t>(1, budget / d)); if (v < 50) v = 50; q.destinations.push_back({addrOf(a), v}); y.to[a] += v; y.sum += v; } if (r.chance(0.1) && can > y.sum + 1000) { uint64_t rest = can - y.sum - 1000; q.destinations.push_back({addrOf(0), rest}); y.to[0] += rest; y.sum += rest; }
    q.fee = 1000; q.mixIn = r.chance(0.5) ? 0 : r.below(4); if (r.chance(0.1)) q.unlockTimestamp = node->tip->height + r.below(10); if (r.chance(0.1)) { q.messages.push_back({addrOf(r.below(2)), "hello"}); } y.must = synced && created.empty() && node->errRate == 0 && q.mixIn == 0 && y.sum + 1000 <= can && n < 40; return true; }
  void transfer(const Op&, bool wait) { Pay y; if (!makePay(y)) return; auto yp = std::make_shared<Pay>(y); if (outstanding.size()) yp->must = false; unsigned gen = p->gen; JobP j = post([this, yp, gen](WalletGreen& g) { crypto::SecretKey sk; Hash id = NULL_HASH; size_t before = g.getTransactionCount(); try { size_t i = g.transfer(yp->q, sk); id = g.getTransaction(i).hash; } catch (const std::exception& e) { if (died() || gen != p->gen) throw; hs::count("transfer-failed"); failedSinceGood = true; if (getenv("SIM_DEBUG")) fprintf(stderr, "transfer failed: %s\n", e.what()); for (size_t i = before; i < g.getTransactionCount(); ++i) { auto t = g.getTransaction(i); if (t.state == WalletTransactionState::FAILED && accepted.count(t.hash)) lost.insert(t.hash); } if (yp->must) VIOL("C17,C15", "cannot-spend", "a transfer of " << yp->sum << " is refused (" << e.what() << ") although " << yp->can << " are spendable and the node works"); throw; }
      hs::count("transfer-ok"); knownSent[id] = 1; checkPaid(id, yp->to, 1000, yp->change, yp->src, "transfer"); }); if (wait) await(j, "a transfer"); else { yp->must = false; outstanding.push_back(j); } if (r.chance(0.5)) notify(2, r.below(50 * MS)); }
  // ---------------------------------------------------------------- opening, closing, dying
  void afterLoad(bool exact, const std::vector<int>& want) { Snap s; if (!call([&](WalletGreen& g) { read(g, s); }, "read")) return; std::set<std::string> have(s.addr.begin(), s.addr.end()); if (have.size() != s.addr.size()) VIOL("C16", "address-twice", "the reopened wallet lists an address twice"); std::vector<int> now; for (int a : want) { if (have.count(addrOf(a))) now.push_back(a); else if (!maybeDel.count(a)) VIOL("C16", "address-lost", "the reopened wallet lacks an address whose creation was acknowledged"); else gone.insert(a); have.erase(addrOf(a)); } for (int a : maybeAdd) if (have.count(addrOf(a))) { now.push_back(a); have.erase(addrOf(a)); } if (!have.empty()) VIOL("C16", "address-extra", "the reopened wallet has an address nobody created"); mine = now; maybeAdd.clear(); maybeDel.clear(); created.clear(); for (auto i : s.delayed) created[s.tx.at(i).hash] = i; (void)exact;
    bool ok = call([&](WalletGreen& g) { for (size_t i = 0; i < g.getAddressCount(); ++i) { auto k = g.getAddressSpendKey(i); int a = -1; for (int x : mine) if (addrOf(x) == g.getAddress(i)) a = x; if (a < 0 || memcmp(&k.secretKey, &w.accs[a].spendSecretKey, 32)) VIOL("C16", "key-wrong", "the reopened wallet has another key for an address"); } auto v = g.getViewKey(); if (memcmp(&v.secretKey, &w.accs[2].viewSecretKey, 32)) VIOL("C16", "key-wrong", "the reopened wallet has another view key"); }, "read keys"); (void)ok; }
  uint64_t fileHash() { struct stat st; std::ifstream f(stat(path.c_str(), &st) ? path + ".bak" : path, std::ios::binary); std::stringstream s; s << f.rdbuf(); return hs::fnv(s.str()); }
  void tryWrong() { uint64_t h0 = fileHash(); bool ok = call([&](WalletGreen& g) { g.load(path, "not the password"); }, "load-wrong"); if (died()) return; if (ok) VIOL("C16", "wrong-password", "the wallet opens with a wrong password"); if (fileHash() != h0) VIOL("C16", "wrong-password-damage", "an attempt with a wrong password changes the wallet file"); hs::count("wrong-password"); }
  bool isDiskDead() { return died() && sim::diskPlan(PID).crashed; }
  void open() { // a new process opens the file on disk; pws: the acknowledged password and those which may have come into force
    openedSinceGood = true;
    for (int tries = 0;; ++tries) { startProc(); if (r.chance(0.15)) tryWrong(); std::string errs; bool ok = false; std::string used; std::vector<std::string> c = pws; for (auto& pw : c) { JobP j; if (call([&](WalletGreen& g) { std::string ex; g.load(path, pw, ex); }, "load", &j)) { ok = true; used = pw; break; } if (died()) break; errs += " [" + j->err + "]"; }
      if (died()) { if (tries > 3) VIOL("", "harness", "the wallet dies again and again"); afterDeath(); continue; } if (!ok) VIOL("C16", "cannot-open", "the wallet does not open with any password it may have:" << errs); pws = {used}; std::vector<int> want = mine; afterLoad(false, want); if (died()) { afterDeath(); continue; } return; } }
  void afterDeath() { ++crashes; everCrashed = true; hs::count("deaths"); outstanding.clear(); running = false; sim::killNode(PID); sim::armDisk(PID, sim::DiskPlan()); synced = false; knownSent.clear(); created.clear(); }
  void sweep() { if (p && running && died()) { afterDeath(); open(); } }
  void close(bool save, WalletSaveLevel lv) { drain(); if (save) { call([&](WalletGreen& g) { g.save(lv); }, "save"); if (died()) return; } if (r.chance(0.7)) { call([&](WalletGreen& g) { g.shutdown(); }, "shutdown"); } if (died()) return; quitProc(); }
  void doOp(const Op& o) {
    sim::reseedContent(sim::mix64(o.arg(1) ^ plan.seed)); r.s = sim::mix64(o.arg(1) ^ (plan.seed << 7) ^ 0x55); std::string n = o.name; sweep();
    if (n == "mine") { for (uint64_t i = 0; i <= o.arg(0); ++i) { setTip(grow(node->tip, true, {})); hs::count("mined"); if (!(o.arg(2) & 1)) notify(o.arg(2) >> 1 & 1, r.below(50 * MS)); } if (o.arg(2) & 1) notify(0, r.below(50 * MS)); }
    else if (n == "reorg") { uint32_t d = std::min<uint32_t>(1 + o.arg(0), node->tip->height - std::min<uint32_t>(14, node->tip->height)); MBP f = ancestor(node->tip, node->tip->height - d), cur = f; std::vector<Hash> disp; for (auto x = node->tip; x != f; x = x->parent) disp.insert(disp.begin(), x->b.transactionHashes.begin(), x->b.transactionHashes.end()); for (uint32_t i = 0; i <= d; ++i) cur = grow(cur, o.arg(2) & 1, disp); setTip(cur); hs::count("reorgs"); notify(0, r.below(50 * MS)); }
    else if (n == "tx") { TxInfo t; if (makeAny(node->tip, t, false)) { w.reg(t); node->pool.push_back(t.id); hs::count("pool-txs"); synced = false; notify(2, r.below(50 * MS)); } }
    else if (n == "drop") { std::vector<size_t> can; for (size_t i = 0; i < node->pool.size(); ++i) if (!accepted.count(node->pool[i]) || settled.count(node->pool[i])) can.push_back(i); if (!can.empty()) { node->pool.erase(node->pool.begin() + can[r.below(can.size())]); knownSent.clear(); synced = false; hs::count("pool-drops"); notify(2, r.below(50 * MS)); } }
    else if (n == "wait") sim::sleepNs(o.arg(0) * MS); else if (n == "err") { errRate = node->errRate = o.arg(0) / 100.0; } else if (n == "settle") inStep();
    else if (n == "transfer") { drain(); transfer(o, true); } else if (n == "burst") { drain(); for (uint64_t i = 0; i < 2 + o.arg(0) % 3; ++i) { transfer(o, false); if (r.chance(0.3)) sim::sleepNs(r.below(30 * MS)); } }
    else if (n == "make") { drain(); Pay y; if (makePay(y)) { Hash id = NULL_HASH; size_t i = 0; bool blind = !synced; if (call([&](WalletGreen& g) { i = g.makeTransaction(y.q); id = g.getTransaction(i).hash; }, "make")) { created[id] = i; if (blind) madeBlind.insert(id); hs::count("made"); synced = false; } } }
    else if (n == "commit") { drain(); if (!created.empty()) { auto it = created.begin(); std::advance(it, r.below(created.size())); Hash id = it->first; bool ok = call([&](WalletGreen& g) { g.commitTransaction(it->second); }, "commit"); if (died()) return; if (ok) { hs::count("committed"); if (!accepted.count(id)) VIOL("C17", "sent-not-accepted", "a committed transaction was never accepted by the node"); created.erase(id); knownSent[id] = 1; } else if (accepted.count(id)) lost.insert(id); notify(2, r.below(50 * MS)); } }
    else if (n == "rollback") { drain(); if (!created.empty()) { auto it = created.begin(); std::advance(it, r.below(created.size())); Hash id = it->first; if (lost.count(id) || accepted.count(id)) return; if (call([&](WalletGreen& g) { g.rollbackUncommitedTransaction(it->second); }, "rollback")) { created.erase(id); hs::count("rolled-back"); failedSinceGood = true; } else if (!died() && !everCrashed && node->tip->led->tx.count(id) == 0) hs::count("rollback-refused"); } }
    else if (n == "deposit") { drain(); if (mine.empty()) return; int src = mine[r.below(mine.size())], dst = r.chance(0.75) ? src : mine[r.below(mine.size())]; uint64_t amt = 1000000 + r.below(3) * 250000; uint32_t term = w.p.minTermV3 * (1 + r.below(3)); std::string h; bool ok = call([&](WalletGreen& g) { g.createDeposit(amt, term, r.chance(0.3) ? "" : addrOf(src), src == dst ? "" : addrOf(dst), h); }, "deposit"); if (died()) return; Hash id; if (!h.empty()) common::podFromHex(h, id); if (ok) { hs::count("deposit-made"); knownSent[id] = 1; if (!accepted.count(id)) VIOL("C17", "sent-not-accepted", "a deposit reported as made was never accepted by the node"); auto& t = w.txs.at(id).tx; uint64_t in = 0, out = 0, dep = 0; for (auto& i : t.inputs) in += boost::get<KeyInput>(i).amount; for (auto& x : t.outputs) { out += x.amount; if (x.target.type() == typeid(MultisignatureOutput)) { auto& m = boost::get<MultisignatureOutput>(x.target); dep += x.amount; auto f = w.ownerOf.find(m.keys.at(0)); if (m.term != term || m.keys.size() != 1 || f == w.ownerOf.end() || std::find(mine.begin(), mine.end(), f->second) == mine.end()) VIOL("C17", "deposit-wrong", "a deposit has another term or owner than asked"); } else { auto f = w.ownerOf.find(boost::get<KeyOutput>(x.target).key); if (f == w.ownerOf.end() || std::find(mine.begin(), mine.end(), f->second) == mine.end()) VIOL("C17", "pays-unknown", "the change of a deposit goes to somebody else"); } } if (dep != amt || in != out + 1000) VIOL("C17", "pays-wrong", "a deposit of " << amt << " locks " << dep << " and pays a fee of " << in - out); } else if (!h.empty() && accepted.count(id)) lost.insert(id); notify(2, r.below(50 * MS)); }
    else if (n == "withdraw") { drain(); Snap s; if (mine.empty() || !call([&](WalletGreen& g) { read(g, s); }, "read")) return; std::vector<size_t> c; for (size_t i = 0; i < s.dep.size(); ++i) if (s.dep[i].spendingTransactionId == WALLET_INVALID_TRANSACTION_ID && (!s.dep[i].locked || r.chance(0.1))) c.push_back(i); if (c.empty()) return; size_t i = c[r.below(c.size())]; auto d = s.dep[i]; bool must = synced && created.empty() && node->errRate == 0 && !d.locked && gone.empty(); std::string h; JobP j; bool ok = call([&](WalletGreen& g) { g.withdrawDeposit(i, h); }, "withdraw", &j); if (died()) return; Hash id; if (!h.empty()) common::podFromHex(h, id); if (must && !ok) VIOL("C17,C15", "cannot-withdraw", "a matured deposit of " << d.amount << " is shown as unlocked but cannot be withdrawn: " << j->err);
      if (ok) { hs::count("withdrawn"); knownSent[id] = 1; if (!accepted.count(id)) VIOL("C17", "sent-not-accepted", "a withdrawal reported as sent was never accepted by the node"); auto& t = w.txs.at(id).tx; uint64_t out = 0; for (auto& x : t.outputs) { out += x.amount; auto f = w.ownerOf.find(boost::get<KeyOutput>(x.target).key); if (f == w.ownerOf.end() || std::find(mine.begin(), mine.end(), f->second) == mine.end()) VIOL("C17", "pays-unknown", "a withdrawal pays somebody else"); } if (t.inputs.size() != 1 || boost::get<MultisignatureInput>(t.inputs[0]).amount != d.amount || out + 10 != d.amount + d.interest) VIOL("C17", "pays-wrong", "a withdrawal of " << d.amount << " with interest " << d.interest << " pays " << out); } else if (!h.empty() && accepted.count(id)) lost.insert(id); notify(2, r.below(50 * MS)); }
    else if (n == "addr") { drain(); if (nextAcc >= (int)w.accs.size()) return; int a = nextAcc++; maybeAdd.insert(a); bool reset = false; if (call([&](WalletGreen& g) { std::string x; if (o.arg(0) % 3 == 2 || plan.num("resetmode")) { x = g.createAddressList({w.accs[a].spendSecretKey}, true)[0]; reset = true; } else x = g.createAddress(w.accs[a].spendSecretKey); if (x != addrOf(a)) VIOL("C16", "address-wrong", "a created address is not the one of its key"); }, "address")) { mine.push_back(a); maybeAdd.erase(a); hs::count("addresses"); if (reset) { hs::count("rescans"); created.clear(); knownSent.clear(); } } else if (running && !died()) { bool has = false; call([&](WalletGreen& g) { for (size_t i = 0; i < g.getAddressCount(); ++i) has |= g.getAddress(i) == addrOf(a); }, "read"); if (has) { mine.push_back(a); maybeAdd.erase(a); hs::count("addresses-despite-error"); } } synced = false; }
    else if (n == "del") { drain(); if (mine.size() < 2) return; int a = mine[r.below(mine.size())]; maybeDel.insert(a); if (call([&](WalletGreen& g) { g.deleteAddress(addrOf(a)); }, "delete-address")) { mine.erase(std::find(mine.begin(), mine.end(), a)); maybeDel.erase(a); gone.insert(a); hs::count("deleted-addresses"); call([&](WalletGreen& g) { auto v = g.getDelayedTransactionIds(); std::map<Hash, size_t, HashLess> k; for (auto i : v) k[g.getTransaction(i).hash] = i; created = k; }, "read"); } synced = false; }
    else if (n == "save") { drain(); WalletSaveLevel lv = o.arg(0) % 4 < 2 ? WalletSaveLevel::SAVE_ALL : o.arg(0) % 4 == 2 ? WalletSaveLevel::SAVE_KEYS_AND_TRANSACTIONS : WalletSaveLevel::SAVE_KEYS_ONLY; if (call([&](WalletGreen& g) { g.save(lv, "x"); }, "save")) hs::count("saves"); }
    else if (n == "passwd") { drain(); std::string np = "pw" + std::to_string(o.arg(1) % 1000); if (np == pws[0]) return; pws.push_back(np); std::string old = pws[0]; JobP j; bool ok = call([&](WalletGreen& g) { g.changePassword(old, np); }, "passwd", &j); if (ok) { pws = {np}; hs::count("password-changes"); } else if (!died()) { bool q = sim::diskPlan(PID).errsFired || (errArmed && j->err.find(".bak file due to earlier errors") != std::string::npos); if (!q) VIOL("C16", "passwd-refused", "changing the password fails: " << j->err); } if (!died() && r.chance(0.3)) { if (call([&](WalletGreen& g) { g.changePassword("wrong", "other"); }, "passwd-wrong")) VIOL("C16", "wrong-password", "the password can be changed with a wrong one"); } }
    else if (n == "export") { drain(); std::string e = dir + "/export" + std::to_string(o.arg(1) % 1000); struct stat st; if (!stat(e.c_str(), &st)) return; bool enc = r.chance(0.7); WalletSaveLevel lv = r.chance(0.5) ? WalletSaveLevel::SAVE_ALL : r.chance(0.5) ? WalletSaveLevel::SAVE_KEYS_ONLY : WalletSaveLevel::SAVE_KEYS_AND_TRANSACTIONS; if (call([&](WalletGreen& g) { g.exportWallet(e, lv, enc); }, "export")) { exportPath = e; exportPw = enc ? pws[0] : ""; exportAcc = mine; hs::count("exports"); } }
    else if (n == "reload") { drain(); bool cmp = o.arg(0) & 1; if (cmp) { double er = errRate; errRate = node->errRate = 1; sim::sleepNs(3 * node->maxDelay + SEC); Snap a, b; if (call([&](WalletGreen& g) { g.save(WalletSaveLevel::SAVE_ALL); }, "save") && call([&](WalletGreen& g) { read(g, a); }, "read")) { close(false, WalletSaveLevel::SAVE_ALL); if (died() && running) { afterDeath(); errRate = er; open(); return; } auto keep = created; open(); if (call([&](WalletGreen& g) { read(g, b); }, "read")) compare(a, b); } errRate = node->errRate = er; hs::count("save-compare"); notify(0, 0); }
      else { bool sv = o.arg(0) & 2; auto lv = o.arg(0) & 4 ? WalletSaveLevel::SAVE_ALL : o.arg(0) & 8 ? WalletSaveLevel::SAVE_KEYS_AND_TRANSACTIONS : WalletSaveLevel::SAVE_KEYS_ONLY; close(sv, lv); if (died() && running) { afterDeath(); } if (!exportPath.empty()) checkExport(); open(); hs::count("reloads"); notify(0, 0); } }
    else if (n == "kill") { if (o.arg(0)) { sim::armCrashAtStep(PID, o.arg(0)); } else { sim::killNode(PID); } hs::count("kills"); }
    else if (n == "diskcrash") { sim::DiskPlan d; d.crashAt = o.arg(0) % 40; d.crashMode = o.arg(2) % 3; sim::armDisk(PID, d); hs::count("disk-crash-armed"); }
    else if (n == "diskerr") { errArmed = true; sim::DiskPlan d; d.errAt = o.arg(0) % 25; d.errNo = o.arg(2) % 2 ? ENOSPC : EIO; d.errCount = 1 + o.arg(2) / 2 % 3; d.errShort = r.below(2); sim::armDisk(PID, d); hs::count("disk-error-armed"); }
    sweep(); }
  void compare(const Snap& a, const Snap& b) { const char* pr = "C16,C15"; if (a.addr != b.addr) VIOL(pr, "reload-addresses", "a saved and reopened wallet lists other addresses"); if (a.act != b.act || a.pend != b.pend || a.dl != b.dl || a.du != b.du) VIOL(pr, "reload-balance", "balances " << a.act << "/" << a.pend << "/" << a.dl << "/" << a.du << " were saved, the reopened wallet shows " << b.act << "/" << b.pend << "/" << b.dl << "/" << b.du); if (a.count != b.count || !(a.top == b.top)) VIOL(pr, "reload-height", "a saved and reopened wallet is at another block");
    std::vector<size_t> ia; for (size_t i = 0; i < a.tx.size(); ++i) if (a.tx[i].state != WalletTransactionState::DELETED) ia.push_back(i); if (ia.size() != b.tx.size()) VIOL(pr, "reload-history", ia.size() << " transactions were saved, the reopened wallet shows " << b.tx.size()); for (size_t k = 0; k < ia.size(); ++k) { auto& x = a.tx[ia[k]]; auto& y = b.tx[k]; if (!(x.hash == y.hash) || x.state != y.state || x.blockHeight != y.blockHeight || x.totalAmount != y.totalAmount || x.fee != y.fee || x.timestamp != y.timestamp || x.unlockTime != y.unlockTime || x.extra != y.extra || x.isBase != y.isBase) VIOL(pr, "reload-history", "a saved transaction differs after reopening: " << stName(x.state) << "/" << stName(y.state)); auto& u = a.tr[ia[k]]; auto& v = b.tr[k]; if (u.size() != v.size()) VIOL(pr, "reload-transfers", "a saved transaction has other transfers after reopening"); for (size_t q = 0; q < u.size(); ++q) if (u[q].address != v[q].address || u[q].amount != v[q].amount || u[q].type != v[q].type) VIOL(pr, "reload-transfers", "a saved transaction has other transfers after reopening"); }
    if (a.dep.size() != b.dep.size()) VIOL(pr, "reload-deposits", a.dep.size() << " deposits were saved, the reopened wallet shows " << b.dep.size()); for (size_t i = 0; i < a.dep.size(); ++i) if (!(a.dep[i].transactionHash == b.dep[i].transactionHash) || a.dep[i].amount != b.dep[i].amount || a.dep[i].term != b.dep[i].term || a.dep[i].height != b.dep[i].height || a.dep[i].outputInTransaction != b.dep[i].outputInTransaction || a.dep[i].interest != b.dep[i].interest) VIOL(pr, "reload-deposits", "a saved deposit differs after reopening"); if (ia.size() == a.tx.size()) for (size_t i = 0; i < a.dep.size(); ++i) if (a.dep[i].spendingTransactionId != b.dep[i].spendingTransactionId || a.dep[i].creatingTransactionId != b.dep[i].creatingTransactionId) VIOL(pr, "reload-deposits", "a saved deposit names other transactions after reopening"); if (a.delayed.size() != b.delayed.size()) VIOL(pr, "reload-delayed", a.delayed.size() << " unsent transactions were saved, " << b.delayed.size() << " come back"); }
  void checkExport() { std::string ep = exportPath; exportPath.clear(); double er = errRate; errRate = 1; startProc(); JobP j; bool ok = call([&](WalletGreen& g) { g.load(ep, exportPw); }, "load-export", &j); if (died()) { afterDeath(); errRate = er; return; } if (!ok) VIOL("C16", "export-unusable", "an exported wallet does not open: " << j->err); std::vector<std::string> a; call([&](WalletGreen& g) { for (size_t i = 0; i < g.getAddressCount(); ++i) a.push_back(g.getAddress(i)); }, "read"); std::vector<std::string> want; for (int x : exportAcc) want.push_back(addrOf(x)); std::sort(a.begin(), a.end()); std::sort(want.begin(), want.end()); if (!died() && a != want) VIOL("C16", "export-addresses", "an exported wallet has other addresses"); quitProc(); errRate = er; hs::count("exports-checked"); }
  void run() {
    for (size_t a = 3; a < w.accs.size(); ++a) { w.accs[a].viewSecretKey = w.accs[2].viewSecretKey; w.accs[a].address.viewPublicKey = w.accs[2].address.viewPublicKey; }
    int n = plan.num("addrs", 2); for (int i = 0; i < n; ++i) mine.push_back(2 + i); nextAcc = 2 + n; node = new ScriptNode(w, plan.seed); node->maxBlocks = plan.num("maxblocks", 10); node->maxDelay = plan.num("delayms", 20) * MS; node->syncRate = plan.num("syncpct", 20) / 100.0; base(); dir = hs::scratchDir() + "/w"; mkdir(dir.c_str(), 0755); path = dir + "/wallet"; pws = {"first"}; sim::setCurrentNode(0); std::vector<int> want = mine; mine.clear(); 
    startProc(); JobP j; if (!call([&](WalletGreen& g) { g.initializeWithViewKey(path, "first", w.accs[2].viewSecretKey); std::vector<crypto::SecretKey> ks; for (int a : want) ks.push_back(w.accs[a].spendSecretKey); auto got = g.createAddressList(ks, plan.num("resetmode") != 0); for (size_t i = 0; i < want.size(); ++i) if (got.size() != want.size() || got[i] != addrOf(want[i])) VIOL("C16", "address-wrong", "a created address is not the one of its key"); }, "create", &j)) VIOL("C16", "cannot-create", "creating a wallet fails: " << j->err); mine = want;
    for (auto& o : plan.ops) { if (getenv("SIM_DEBUG")) fprintf(stderr, "op %zu %s at %.3f\n", hs::report().curOp, o.name.c_str(), sim::now() / 1e9); doOp(o); hs::report().opsDone++; hs::report().curOp++; }
    drain(); sim::armDisk(PID, sim::DiskPlan()); sweep(); errRate = node->errRate = 0; r.s = plan.seed * 5 + 1; if (!mine.empty()) { setTip(grow(node->tip, true, {})); notify(0, 0); while (!inStep() && !mine.empty()) sweep(); uint64_t t = sim::now(); (void)t; close(r.chance(0.8), WalletSaveLevel::SAVE_ALL); open(); if (!mine.empty()) inStep(); } if (!exportPath.empty()) { close(false, WalletSaveLevel::SAVE_ALL); checkExport(); } else close(false, WalletSaveLevel::SAVE_ALL); hs::note("height " + std::to_string(node->tip->height) + ", deaths " + std::to_string(crashes)); }
};

Plan genWallet(uint64_t seed, const std::string& focus) {
  Plan p; sim::Rng r(sim::mix64(seed) ^ hs::fnv(focus + "wallet")); p.seed = seed; p.focus = focus; p.set("h2", 1); p.set("h3", 2); p.set("h4", 3); p.set("h7", 4); p.set("h8", 5);
  bool file = focus == "C16" || r.chance(0.2); p.set("file", file); p.set("base", 16 + r.below(file ? 8 : 24)); p.set("addrs", r.range(1, 3)); p.set("age", r.chance(0.6) ? 1 : r.range(1, 4)); p.set("deposits", r.chance(0.6)); p.set("clocklock", r.chance(0.1)); p.set("maxblocks", r.chance(0.3) ? 1 + r.below(3) : 20); p.set("delayms", r.chance(0.5) ? 5 : r.range(10, 300)); p.set("syncpct", r.chance(0.4) ? 0 : r.below(100));
  p.setr("t_preempt", r.chance(0.6) ? r.below(40) / 100.0 : 0); p.set("t_ncpu", 1); if (r.chance(0.3)) p.setr("t_spurious", 0.2); if (sim::mix64(seed + 77) % 5 == 0) p.set("resetmode", 1); bool errs = r.chance(0.5), dep = p.num("deposits"); bool faults = file ? r.chance(0.8) : r.chance(0.3); int n = r.range(8, 40);
  for (int i = 0; i < n; ++i) { uint64_t k = r.below(100); uint64_t sd = r.next() >> 20;
    if (file && r.chance(0.6)) { k = r.below(100); if (k < 20) p.op("save", {r.below(4), sd}); else if (k < 35) p.op("addr", {0, sd}); else if (k < 45) p.op("passwd", {0, sd}); else if (k < 53) p.op("export", {0, sd}); else if (k < 65) p.op("reload", {r.below(16), sd}); else if (k < 70) p.op("del", {0, sd}); else if (!faults) p.op("settle", {0, sd}); else if (k < 90) p.op("diskcrash", {r.below(r.chance(0.5) ? 6 : 40), sd, r.below(3)}); else if (k < 95) p.op("diskerr", {r.below(25), sd, r.below(6)}); else p.op("kill", {r.chance(0.5) ? 0 : r.below(4000), sd}); continue; }
    if (k < 18) p.op("mine", {r.chance(0.7) ? 0 : r.range(1, 7), sd, r.below(4)}); else if (k < 25) p.op("tx", {0, sd}); else if (k < 32) p.op("reorg", {r.chance(0.7) ? r.below(3) : r.below(8), sd, r.below(2)}); else if (k < 34) p.op("drop", {0, sd}); else if (k < 40) p.op("wait", {r.chance(0.6) ? r.range(1, 60) : r.range(60, 3000), sd}); else if (k < 55) p.op("settle", {0, sd}); else if (k < 65) p.op("transfer", {0, sd}); else if (k < 68) p.op("burst", {r.below(3), sd}); else if (k < 71) p.op("make", {0, sd}); else if (k < 73) p.op("commit", {0, sd}); else if (k < 75) p.op("rollback", {0, sd}); else if (k < 80) { if (dep) p.op("deposit", {0, sd}); } else if (k < 84) { if (dep) p.op("withdraw", {0, sd}); } else if (k < 86) p.op("addr", {0, sd}); else if (k < 87) p.op("del", {0, sd}); else if (k < 90) p.op("save", {r.below(4), sd}); else if (k < 94) p.op("reload", {r.below(16), sd}); else if (k < 96) { if (faults) p.op("kill", {r.chance(0.5) ? 0 : r.below(6000), sd}); } else if (errs) p.op("err", {r.chance(0.4) ? 0 : r.range(5, 60), sd}); }
  return p; }
void runWallet(const Plan& p) { sim::start(p.seed, hs::scratchDir()); hs::setFailureProps("C15,C16,C17,C19", "C15,C16,C17,C19"); WalletSim* s = new WalletSim(p); s->run(); hs::finish(); }
hs::AutoReg rWallet({"wallet", genWallet, runWallet});
}
