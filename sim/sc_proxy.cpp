// A remote node client (NodeRpcProxy over HTTP) against a real daemon: every request is answered exactly once with
// an answer some state of the daemon could give (or an error), the client's view follows the daemon, observers hear
// of changes, and shutting it down always completes.
#include <sys/stat.h>
#include "host.h"
#include "scriptnode.h"
#include <NodeRpcProxy/NodeRpcProxy.h>
#include <System/TcpListener.h>
#include <System/TcpConnection.h>
#include <System/ContextGroup.h>
#include <System/Timer.h>
#include <System/Ipv4Address.h>
#include <System/InterruptedException.h>
#include "CryptoNoteCore/CryptoNoteTools.h"
#include "CryptoNoteCore/VerificationContext.h"
#include <HTTP/HttpParser.h>
namespace w {
using hs::Plan; using hs::Op;
namespace {
Params proxyParams();
const int DAEMON = 1, CLIENT = 2;
struct State { uint64_t from, to; MBP tip; Hashes pool; };
enum Kind { K_BLOCKS, K_QUERY, K_INDEX, K_RANDOM, K_POOL, K_RELAY, K_TX, K_SYNC, KINDS };
const char* kindName[] = {"getNewBlocks", "queryBlocks", "getTransactionOutsGlobalIndices", "getRandomOutsByAmounts", "getPoolSymmetricDifference", "relayTransaction", "getTransaction", "isSynchronized"};
struct Req { Kind kind; uint64_t seed, issued = 0, done = 0; int calls = 0, chain = 0; std::error_code ec; std::vector<Hash> ids; Hash hash; uint64_t ts = 0, n = 0; std::vector<uint64_t> amounts;
  std::vector<block_complete_entry> blocks; uint32_t start = 0; std::vector<uint32_t> idx; std::vector<BlockShortEntry> shorts; std::vector<COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS::outs_for_amount> outs; bool actual = false; std::vector<std::unique_ptr<ITransactionReader>> added; std::vector<Hash> deleted; Transaction tx; bool sync = false; bool sent = false; unsigned life = 0; };
typedef std::shared_ptr<Req> ReqP;

struct ProxySim;
struct CoreObs : ICoreObserver { ProxySim& s; core* c = nullptr; CoreObs(ProxySim& s) : s(s) {} void poolUpdated() override; };
struct Obs : INodeObserver, INodeRpcProxyObserver { ProxySim& s; Obs(ProxySim& s) : s(s) {}
  void localBlockchainUpdated(uint32_t h) override; void lastKnownBlockHeightUpdated(uint32_t h) override; void poolChanged() override; void peerCountUpdated(size_t c) override; void connectionStatusUpdated(bool c) override; };

struct ProxySim {
  const Plan& plan; World w; std::unique_ptr<Host> H; sim::Rng r; MBP tipBase; std::deque<State> states; std::vector<Hash> submitted; Hashes relayTried;
  std::unique_ptr<NodeRpcProxy> proxy; Obs obs; CoreObs coreObs; std::deque<ReqP> reqs; std::vector<uint64_t> lastH, lastKnown; uint64_t pools = 0, poolAtSettle = 0, status = 2, peers = 0; unsigned life = 0; bool up = false, evilUp = false, link = true, faulty = false; uint32_t annLocal = 0, annKnown = 0; uint64_t annLocalN = 0;
  struct Wk { sim::Signal sig; std::deque<std::function<void()>> q; bool busy = false; sim::Tid tid = -1; }; std::vector<std::unique_ptr<Wk>> wk; // client threads
  bool initDone = false; int initCalls = 0; std::error_code initEc; uint64_t initsPending = 0;
  ProxySim(const Plan& p) : plan(p), w(proxyParams(), 4), r(p.seed * 13 + 1), obs(*this), coreObs(*this) {}
  uint32_t ipOf(int i) { return 0x2d000007u + 0x010100u * i; }
  // ---------------------------------------------------------------- the daemon
  MBP cur() { return states.empty() ? tipBase : states.back().tip; }
  void readState(core& c, uint64_t from) { sim::NoSched ns; Hash top; uint32_t n; c.get_blockchain_top(n, top); auto f = w.blocks.find(top); if (f == w.blocks.end()) VIOL("", "harness", "the daemon is on an unknown block"); std::vector<Transaction> add; std::vector<Hash> del; c.getPoolChanges({}, add, del); State s; s.from = from; s.to = UINT64_MAX; s.tip = f->second; for (auto& t : add) s.pool.insert(getObjectHash(t)); if (!states.empty() && states.back().tip == s.tip && states.back().pool == s.pool && states.back().to == UINT64_MAX) return; if (!states.empty() && states.back().to == UINT64_MAX) states.back().to = sim::now(); states.push_back(s); }
  void endState() { if (!states.empty() && states.back().to == UINT64_MAX) states.back().to = sim::now(); }
  bool step(const std::function<void(core&)>& fn) { if (H->st != Host::UP) return false; uint64_t t0 = sim::now(); return H->call([&, t0] { if (fn) fn(*H->c); readState(*H->c, t0); }); }
  void startDaemon() { if (H->st == Host::UP || evilUp) return; uint64_t t0 = sim::now(); bool first = states.empty(); H->onUp = [this, t0, first](Host& h) { coreObs.c = h.c; h.c->addObserver(&coreObs); if (first) for (MB* b : tipBase->path()) { if (!b->height) continue; give(*h.c, b); } readState(*h.c, t0); }; H->start(); if (!H->waitUp(120 * SEC)) VIOL("", "harness", "the daemon does not start: " << H->error); }
  void give(core& c, const MB* b) { for (auto& t : b->txs) { tx_verification_context tv{}; c.handle_incoming_tx(toBinaryArray(t), tv, true); } block_verification_context bv{}; c.handle_incoming_block_blob(toBinaryArray(b->b), bv, false, false); }
  void base() { uint32_t len = plan.num("base", 16); uint64_t ts = sim::wallBase / SEC - (uint64_t)len * 120 - 600; MBP c = w.genesis; sim::Rng q(plan.seed * 31 + 5); for (uint32_t i = 0; i < len; ++i) { World::BlockSpec s; s.parent = c; s.miner = q.below(4); s.outs = 1 + q.below(4); ts += 90 + q.below(60); s.ts = ts; if (c->height > 11 && q.chance(0.5)) { TxInfo t; if (make(c, t)) { w.reg(t); s.txs.push_back(t.id); } } c = w.build(s); if (!c || !c->bad.empty()) VIOL("", "harness", "base block"); ts = c->b.timestamp; } tipBase = c; }
  bool make(const MBP& at, TxInfo& t) { World::TxSpec q; q.at = at; q.from = r.below(4); q.to = r.below(4); q.amount = 1000 + r.below(300000); q.fee = 1000; q.nOuts = 1 + r.below(3); q.pick = r.next(); q.mixin = 0; std::string pr; return w.makeTx(q, t) && t.bad.empty() && w.checkTx(*at->led, t, at->height + 1, pr).empty(); }
  std::vector<std::string> spendsOf(const Transaction& t) { std::vector<std::string> v; for (auto& i : t.inputs) if (i.type() == typeid(KeyInput)) { auto& k = boost::get<KeyInput>(i).keyImage; v.push_back(std::string((const char*)&k, 32)); } return v; }
  MBP grow(const MBP& par, const std::vector<Hash>& prefer) { sim::NoSched ns; World::BlockSpec s; s.parent = par; s.miner = r.below(4); s.outs = 1 + r.below(3); s.ts = std::max<uint64_t>(par->b.timestamp + 1 + r.below(60), sim::wallBase / SEC + sim::now() / SEC - 60); std::set<std::string> used; for (auto& id : prefer) { std::string pr; auto f = w.txs.find(id); if (f == w.txs.end() || !w.checkTx(*par->led, f->second, par->height + 1, pr).empty()) continue; auto v = spendsOf(f->second.tx); bool c = false; for (auto& x : v) c |= used.count(x); if (c) continue; used.insert(v.begin(), v.end()); s.txs.push_back(id); } MBP b = w.build(s); if (!b || !b->bad.empty()) VIOL("", "harness", "cannot build a block"); return b; }
  void mineOn(const MBP& par, const std::vector<Hash>& prefer, MBP& out) { out = grow(par, prefer); MB* b = out.get(); step([this, b](core& c) { for (auto& t : b->txs) { tx_verification_context tv{}; c.handle_incoming_tx(toBinaryArray(t), tv, true); } }); step([this, b](core& c) { block_verification_context bv{}; c.handle_incoming_block_blob(toBinaryArray(b->b), bv, false, false); }); }
  // ---------------------------------------------------------------- a hostile or broken server in the daemon's place
  std::shared_ptr<bool> evilStop; sim::Tid evilTid = -1;
  static std::string evilReply(sim::Rng& q, bool& close, uint64_t& delay) { close = q.chance(0.3); delay = q.chance(0.2) ? q.below(20) * SEC : 0; std::string ok = "HTTP/1.1 200 OK\r\n"; auto body = [](const std::string& b) { return "Content-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b; };
    switch (q.below(12)) { case 0: return ""; case 1: return "garbage\r\n\r\n"; case 2: close = true; return ok + "Content-Length: 5000\r\n\r\nshort"; case 3: return ok + body("{}"); case 4: return ok + body("{\"status\":\"BUSY\"}"); case 5: return ok + body("{\"status\":7,\"result\":[1,2"); case 6: return ok + body(std::string("\x01\x11\x01\x01\x01\x01\x02\x01\x01\x04\x14status\x0a\x10" "BUSY", 24)); case 7: return "HTTP/1.1 500 Internal Server Error\r\n" + body("Core is busy"); case 8: return ok + "Content-Length: 99999999999999999999\r\n\r\n"; case 9: { std::string b; for (int i = q.below(300); i >= 0; --i) b += char(q.below(256)); return ok + body(b); } case 10: return ok + body("{\"jsonrpc\":\"2.0\",\"error\":{\"code\":-9,\"message\":\"x\"}}"); default: close = true; return ok.substr(0, q.below(17)); } }
  void startEvil(uint64_t seed) { if (evilUp || H->st == Host::UP) return; evilUp = true; evilStop = std::make_shared<bool>(false); auto st = evilStop; evilTid = sim::spawn(DAEMON, "evil", [st, seed] { using namespace platform_system; Dispatcher d; auto rng = std::make_shared<sim::Rng>(seed); ContextGroup g(d); 
      g.spawn([&] { try { TcpListener l(d, Ipv4Address("0.0.0.0"), 16600); for (;;) { auto c = std::make_shared<TcpConnection>(l.accept()); g.spawn([&d, c, rng] { try { uint8_t buf[4096]; for (;;) { size_t n = c->read(buf, sizeof buf); if (!n) return; bool cl; uint64_t del; std::string a = evilReply(*rng, cl, del); if (del) { Timer t(d); t.sleep(std::chrono::nanoseconds(del)); } for (size_t o = 0; o < a.size();) o += c->write((const uint8_t*)a.data() + o, a.size() - o); hs::count("evil-answers"); if (cl) return; } } catch (std::exception&) {} }); } } catch (std::exception&) {} });
      Timer t(d); while (!*st) t.sleep(std::chrono::milliseconds(20)); g.interrupt(); g.wait(); }); hs::count("evil-servers"); }
  void stopEvil() { if (!evilUp) return; *evilStop = true; if (!sim::joinFor(evilTid, 60 * SEC)) VIOL("", "harness", "the scripted server does not stop"); evilUp = false; }
  void daemonDown(bool orderly) { if (evilUp) { stopEvil(); return; } if (H->st != Host::UP) return; if (orderly) { step(nullptr); if (!H->stop(300 * SEC)) VIOL("C19,C22", "daemon-hang", "the daemon does not stop while a client is connected " << sim::dumpThreads()); sim::killNode(DAEMON); } else { step(nullptr); sim::killNode(DAEMON); H->kill(); H->sweep(); } endState(); }
  // ---------------------------------------------------------------- client threads
  void post(int t, const std::function<void()>& fn) { while ((int)wk.size() <= t) { wk.emplace_back(new Wk); Wk* k = wk.back().get(); k->tid = sim::spawn(CLIENT, "client", [k] { for (;;) { while (!k->q.empty()) { k->busy = true; auto f = k->q.front(); k->q.pop_front(); f(); k->busy = false; } k->sig.wait(UINT64_MAX); } }); } wk[t]->q.push_back(fn); wk[t]->sig.raise(); }
  bool idle(int t) { return (int)wk.size() <= t || (wk[t]->q.empty() && !wk[t]->busy); }
  void fill(Req& q) { sim::NoSched ns; sim::Rng x(q.seed); MBP T = cur(); auto path = T->path(); switch (q.kind) {
    case K_BLOCKS: case K_QUERY: { MBP at = T; if (x.chance(0.4)) at = randomBlock(x); std::vector<Hash> ids; auto p = at->path(); uint32_t top = at->height - (x.chance(0.5) ? 0 : x.below(at->height)); for (uint32_t h = top; h > 0; h -= std::min<uint32_t>(h, 1 + (x.chance(0.7) ? 0 : x.below(5)))) ids.push_back(p[h]->hash); if (x.chance(0.1)) { Hash z; memset(&z, 0x77, 32); ids.insert(ids.begin(), z); } ids.push_back(w.genesis->hash); q.ids = ids; q.ts = x.chance(0.5) ? 0 : path[x.below(path.size())]->b.timestamp + x.below(2); break; }
    case K_INDEX: case K_TX: { auto b = path[x.below(path.size())]; q.hash = b->txs.empty() || (q.kind == K_INDEX && x.chance(0.4)) ? getObjectHash(b->b.baseTransaction) : b->b.transactionHashes[x.below(b->txs.size())]; if (!submitted.empty() && x.chance(0.3)) q.hash = submitted[x.below(submitted.size())]; if (x.chance(0.1)) memset(&q.hash, 0x55, 32); break; }
    case K_RANDOM: { q.n = 1 + x.below(6); for (auto& k : T->led->key) if (x.chance(0.15) && q.amounts.size() < 5) q.amounts.push_back(k.first); if (q.amounts.empty()) q.amounts.push_back(10); break; }
    case K_POOL: { q.hash = x.chance(0.7) ? T->hash : randomBlock(x)->hash; for (auto& s : submitted) if (x.chance(0.5)) q.ids.push_back(s); break; }
    case K_RELAY: { TxInfo t; if (make(T, t)) { w.reg(t); q.hash = t.id; q.tx = t.tx; submitted.push_back(t.id); relayTried.insert(t.id); } else if (!submitted.empty()) { q.hash = submitted[x.below(submitted.size())]; q.tx = w.txs.at(q.hash).tx; relayTried.insert(q.hash); } else q.kind = K_SYNC; break; }
    default: break; } }
  MBP randomBlock(sim::Rng& x) { auto i = w.blocks.begin(); std::advance(i, x.below(w.blocks.size())); return i->second; }
  void issue(ReqP q) { if (!proxy) return; q->life = life; q->issued = sim::now(); q->sent = true; NodeRpcProxy* p = proxy.get(); auto cb = [this, q](std::error_code ec) { q->calls++; q->ec = ec; q->done = sim::now(); if (q->calls > 1) VIOL("C22", "answered-twice", kindName[q->kind] << " was answered twice"); if (q->chain > 0 && proxy) { ReqP n(new Req); n->kind = Kind((q->seed >> 8) % KINDS); n->seed = q->seed * 7 + 3; n->chain = q->chain - 1; fill(*n); reqs.push_back(n); hs::count("requests-from-callbacks"); issue(n); } };
    switch (q->kind) { case K_BLOCKS: { auto k = q->ids; p->getNewBlocks(std::move(k), q->blocks, q->start, cb); break; } case K_QUERY: { auto k = q->ids; p->queryBlocks(std::move(k), q->ts, q->shorts, q->start, cb); break; }
      case K_INDEX: { Hash h = q->hash; p->getTransactionOutsGlobalIndices(h, q->idx, cb); break; } case K_RANDOM: { auto a = q->amounts; p->getRandomOutsByAmounts(std::move(a), q->n, q->outs, cb); break; }
      case K_POOL: { auto k = q->ids; p->getPoolSymmetricDifference(std::move(k), q->hash, q->actual, q->added, q->deleted, cb); break; } case K_RELAY: { Transaction t = q->tx; p->relayTransaction(t, cb); break; }
      case K_TX: { Hash h = q->hash; static_cast<INode*>(p)->getTransaction(h, q->tx, cb); memset(&h, 0xcc, 32); break; } default: p->isSynchronized(q->sync, cb); } }
  void request(int t, Kind k, uint64_t seed, int chain) { ReqP q(new Req); q->kind = k; q->seed = seed; q->chain = chain; fill(*q); reqs.push_back(q); hs::count("requests"); post(t, [this, q] { issue(q); }); }
  // ---------------------------------------------------------------- what an answer may say
  bool matches(const Req& q, const State& s, std::string& why) { auto path = s.tip->path(); switch (q.kind) {
    case K_BLOCKS: { MBP f; for (auto& h : q.ids) { auto i = w.blocks.find(h); if (i != w.blocks.end() && onChain(i->second, s.tip)) { f = i->second; break; } } if (q.start != f->height) { why = "starts at " + std::to_string(q.start) + " instead of " + std::to_string(f->height); return false; } if (q.start + q.blocks.size() != path.size()) { why = "wrong number of blocks"; return false; } for (size_t i = 0; i < q.blocks.size(); ++i) { auto b = path[q.start + i]; if (q.blocks[i].block != common::asString(toBinaryArray(b->b)) || q.blocks[i].txs.size() != b->txs.size()) { why = "block differs"; return false; } for (size_t k = 0; k < b->txs.size(); ++k) if (q.blocks[i].txs[k] != common::asString(toBinaryArray(b->txs[k]))) { why = "transaction differs"; return false; } } return true; }
    case K_QUERY: { MBP f; for (auto& h : q.ids) { auto i = w.blocks.find(h); if (i != w.blocks.end() && onChain(i->second, s.tip)) { f = i->second; break; } } uint32_t full = 0; while (full < path.size() && path[full]->b.timestamp < q.ts) ++full; if (q.start != f->height) { why = "starts at " + std::to_string(q.start) + " instead of " + std::to_string(f->height); return false; } if (q.start + q.shorts.size() != path.size()) { why = "wrong number of blocks"; return false; } for (size_t i = 0; i < q.shorts.size(); ++i) { auto b = path[q.start + i]; auto& e = q.shorts[i]; if (e.blockHash != b->hash) { why = "block differs"; return false; } if (!e.hasBlock) { if (b->height >= full && b->height > f->height) { why = "block " + std::to_string(b->height) + " is not complete"; return false; } continue; } if (toBinaryArray(e.block) != toBinaryArray(b->b) || e.txsShortInfo.size() != b->txs.size()) { why = "contents differ"; return false; } for (size_t k = 0; k < b->txs.size(); ++k) if (!(e.txsShortInfo[k].txId == b->b.transactionHashes[k]) || toBinaryArray(e.txsShortInfo[k].txPrefix) != toBinaryArray(static_cast<const TransactionPrefix&>(b->txs[k]))) { why = "transaction differs"; return false; } } return true; }
    case K_INDEX: { auto f = s.tip->led->tx.find(q.hash); if (f == s.tip->led->tx.end()) { why = "the transaction is not on the chain"; return false; } auto& g = f->second.g; if (g.size() != q.idx.size() || !std::equal(g.begin(), g.end(), q.idx.begin())) { why = "indexes differ"; return false; } return true; }
    case K_RANDOM: { if (q.outs.size() != q.amounts.size()) { why = "amounts missing"; return false; } for (size_t i = 0; i < q.outs.size(); ++i) { auto& o = q.outs[i]; if (o.amount != q.amounts[i]) { why = "another amount"; return false; } auto f = s.tip->led->key.find(o.amount); if (o.outs.size() > q.n) { why = "too many"; return false; } std::set<uint64_t> seen; for (auto& e : o.outs) { if (f == s.tip->led->key.end() || e.global_amount_index >= f->second.size() || !(f->second[e.global_amount_index].key == e.out_key) || !seen.insert(e.global_amount_index).second) { why = "an output is not one of the chain"; return false; } } } return true; }
    case K_TX: { if (!s.tip->led->tx.count(q.hash) && !s.pool.count(q.hash) && !relayTried.count(q.hash)) { why = "the daemon does not have it"; return false; } return true; }
    default: return true; } }
  void verify(const ReqP& qp) { sim::NoSched ns; Req& q = *qp; const char* pr = "C22"; if (q.ec) { hs::count("answers-error"); return; } if (q.kind == K_SYNC) return; hs::count(std::string("answers:") + kindName[q.kind]); std::vector<const State*> in; for (auto& s : states) if (s.from <= q.done && s.to >= q.issued) in.push_back(&s); if (in.empty()) VIOL(pr, "answer-without-daemon", kindName[q.kind] << " succeeded although no daemon ran");
    if (q.kind == K_TX) { if (!(getObjectHash(q.tx) == q.hash)) VIOL(pr, "wrong-transaction", "getTransaction delivered another transaction"); }
    if (q.kind == K_RELAY) { bool ok = false; for (auto s : in) ok |= s->pool.count(q.hash) || s->tip->led->tx.count(q.hash); for (auto& s : states) if (s.from >= q.issued) ok |= s.pool.count(q.hash) || s.tip->led->tx.count(q.hash); if (!ok) VIOL(pr, "relay-lost", "a transaction reported as relayed never was in the daemon's pool"); return; }
    if (q.kind == K_POOL) { Hashes any, all, known(q.ids.begin(), q.ids.end()); bool first = true, act = false, inact = false; for (auto s : in) { any.insert(s->pool.begin(), s->pool.end()); if (first) all = s->pool; else for (auto i = all.begin(); i != all.end();) if (!s->pool.count(*i)) i = all.erase(i); else ++i; first = false; (s->tip->hash == q.hash ? act : inact) = true; }
      if (q.actual ? !act : !inact) VIOL(pr, "pool-tail", "the pool answer says the asker's last block is " << (q.actual ? "" : "not ") << "the daemon's"); if (!q.actual) return; Hashes add, del; for (auto& t : q.added) if (!add.insert(t->getTransactionHash()).second) VIOL(pr, "pool-twice", "a pool transaction is listed twice"); del.insert(q.deleted.begin(), q.deleted.end());
      for (auto& h : add) if (known.count(h) || (!any.count(h) && !relayTried.count(h))) VIOL(pr, "pool-added", "the pool answer adds a transaction which is " << (known.count(h) ? "known" : "not in the pool")); for (auto& h : all) if (!known.count(h) && !add.count(h)) VIOL(pr, "pool-added", "the pool answer lacks transaction " << hx(h)); for (auto& h : del) if (!known.count(h) || (all.count(h))) VIOL(pr, "pool-deleted", "the pool answer takes away a transaction which is " << (known.count(h) ? "there" : "unknown")); for (auto& h : known) if (!any.count(h) && !relayTried.count(h) && !del.count(h)) VIOL(pr, "pool-deleted", "the pool answer keeps a transaction which is gone"); return; }
    std::string why; for (auto s : in) if (matches(q, *s, why)) return; VIOL(pr, std::string("wrong-answer:") + kindName[q.kind], "the answer of " << kindName[q.kind] << " fits no state the daemon had since it was asked (" << why << "; " << in.size() << " states)"); }
  void collect() { for (auto i = reqs.begin(); i != reqs.end();) if ((*i)->calls) { verify(*i); i = reqs.erase(i); } else ++i; }
  // ---------------------------------------------------------------- life of the client
  void initProxy() { if (!proxy) { proxy.reset(new NodeRpcProxy(ipText(ipOf(DAEMON)), 16600)); proxy->addObserver((INodeObserver*)&obs); proxy->addObserver((INodeRpcProxyObserver*)&obs); hs::count("created"); } ++life; annLocal = annKnown = 0; status = 2; poolAtSettle = pools; auto c = std::make_shared<int>(0); auto e = std::make_shared<std::error_code>(); NodeRpcProxy* p = proxy.get(); ++initsPending; post(0, [this, c, e, p] { p->init([this, c, e](std::error_code ec) { ++*c; *e = ec; if (*c > 1) VIOL("C22", "init-twice", "init was answered twice"); --initsPending; }); }); if (!sim::waitUntil([&] { return *c > 0 && idle(0); }, 60 * SEC, 5 * MS)) VIOL("C22,C19", "init-hang", "init is never answered " << sim::dumpThreads()); if (*e) VIOL("C22", "init-failed", "init of a client which is shut down fails: " << e->message()); up = true; hs::count("inits"); }
  void shutdownProxy(bool destroy, bool twice) { if (!proxy) return; bool done = false, done2 = !twice; post(0, [&] { proxy->shutdown(); done = true; }); if (twice) post(3, [&] { proxy->shutdown(); done2 = true; }); if (!sim::waitUntil([&] { return done && done2; }, 120 * SEC, 5 * MS)) VIOL("C22,C19", "shutdown-hang", "shutdown does not return " << sim::dumpThreads()); up = false; hs::count("shutdowns"); sim::waitUntil([&] { return idle(1) && idle(2); }, 60 * SEC, 5 * MS); sim::sleepNs(SEC); for (auto& q : reqs) if (q->sent && !q->calls) VIOL("C22,C19", "never-answered", kindName[q->kind] << " was never answered although the client has been shut down"); collect(); if (destroy) { bool gone = false; post(0, [&] { proxy->removeObserver((INodeObserver*)&obs); proxy.reset(); gone = true; }); if (!sim::waitUntil([&] { return gone; }, 60 * SEC, 5 * MS)) VIOL("C22,C19", "destroy-hang", "destroying the client does not end " << sim::dumpThreads()); hs::count("destroyed"); } }
  // quiet: the client's view must become the daemon's
  void settle(bool fresh) { sim::setStall(DAEMON, false); sim::setLink(DAEMON, CLIENT, true); sim::setHostDown(DAEMON, false); sim::tune.connectFail = 0; stopEvil(); startDaemon(); if (!up) initProxy(); if (fresh) { MBP b; mineOn(cur(), {}, b); }
    if (!sim::waitUntil([&] { for (int t = 1; t < 3; ++t) if (!idle(t)) return false; for (auto& q : reqs) if (!q->calls) return false; return true; }, 200 * SEC, 20 * MS)) VIOL("C22", "never-answered", "requests are still unanswered although the daemon has been reachable for minutes " << sim::dumpThreads()); collect(); step(nullptr);
    auto same = [&] { MBP T = cur(); return proxy->getLastLocalBlockHeight() == T->height && annLocal == T->height && proxy->getLastLocalBlockTimestamp() == T->b.timestamp && status == 1; };
    if (!sim::waitUntil([&] { return same(); }, 40 * SEC, 100 * MS)) { MBP T = cur(); if (status == 2 && proxy->getLastLocalBlockHeight() == T->height && annLocal == T->height) ; else VIOL("C22", "view-stale", "the daemon has been at height " << T->height << " for 40 seconds, the client says " << proxy->getLastLocalBlockHeight() << ", announced " << annLocal << ", timestamp " << proxy->getLastLocalBlockTimestamp() << " for " << T->b.timestamp << ", connection status " << status); }
    if (proxy->getLastKnownBlockHeight() < cur()->height || annKnown != proxy->getLastKnownBlockHeight()) { sim::sleepNs(12 * SEC); if (proxy->getLastKnownBlockHeight() < cur()->height || annKnown != proxy->getLastKnownBlockHeight()) VIOL("C22", "known-height", "the network is at least at " << cur()->height << ", the client says " << proxy->getLastKnownBlockHeight() << " and announced " << annKnown); }
    // the pool: a change is announced
    { sim::sleepNs(6 * SEC); uint64_t n = pools; TxInfo t; MBP T = cur(); if (make(T, t)) { w.reg(t); submitted.push_back(t.id); bool in = false; Hashes before = states.back().pool; step([&](core& c) { tx_verification_context tv{}; c.handle_incoming_tx(toBinaryArray(t.tx), tv, false); }); in = states.back().pool.count(t.id) && !before.count(t.id); if (in) { hs::count("pool-changes"); if (!sim::waitUntil([&] { return pools > n; }, 12 * SEC, 50 * MS)) VIOL("C22", "pool-silent", "a transaction entered the daemon's pool and the client did not announce it in 12 seconds"); } } }
    // so is a transaction leaving it; and an unchanged pool is no news
    { auto& P = states.back().pool; if (!P.empty()) { sim::sleepNs(6 * SEC); Hashes before = states.back().pool; uint64_t n = pools; MBP b; mineOn(cur(), std::vector<Hash>(before.begin(), before.end()), b); bool left = false; for (auto& x : before) left |= !states.back().pool.count(x); if (left) { hs::count("pool-removals"); if (!sim::waitUntil([&] { return pools > n; }, 12 * SEC, 50 * MS)) VIOL("C22", "pool-silent", "a transaction left the daemon's pool and the client did not announce it in 12 seconds"); } } }
    { sim::sleepNs(12 * SEC); step(nullptr); uint64_t n = pools; size_t k = states.size(); sim::sleepNs(16 * SEC); step(nullptr); if (states.size() == k && pools > n) VIOL("C22", "pool-noise", "the client announced " << pools - n << " changes of a pool which has not changed for 12 seconds"); }
    // questions to a quiet daemon must succeed
    for (int k = 0; k < KINDS; ++k) if (r.chance(0.5)) { ReqP q(new Req); q->kind = Kind(k); q->seed = r.next(); fill(*q); if (q->kind == K_INDEX || q->kind == K_TX) q->hash = getObjectHash(cur()->b.baseTransaction); reqs.push_back(q); post(1, [this, q] { issue(q); }); if (!sim::waitUntil([&] { return q->calls > 0; }, 60 * SEC, 5 * MS)) VIOL("C22", "never-answered", kindName[k] << " is not answered by a reachable daemon"); if (q->kind == K_TX ? false : q->ec && q->kind != K_RELAY) VIOL("C22", "refused", kindName[k] << " fails with a reachable daemon: " << q->ec.message()); step(nullptr); collect(); }
    hs::count("settles"); hs::state(hs::fnv(hx(cur()->hash) + std::to_string(states.back().pool.size()))); faulty = false; }
  void doOp(const Op& o) { r.s = o.arg(1) * 2 + 1; const std::string& n = o.name;
    if (n == "mine") { for (uint64_t i = 0; i <= o.arg(0); ++i) { MBP b; std::vector<Hash> pr; if (!states.empty()) pr.assign(states.back().pool.begin(), states.back().pool.end()); mineOn(cur(), r.chance(0.7) ? pr : std::vector<Hash>(), b); hs::count("mined"); } }
    else if (n == "reorg") { MBP T = cur(); uint32_t d = std::min<uint32_t>(1 + o.arg(0), T->height - std::min<uint32_t>(12, T->height)); MBP f = ancestor(T, T->height - d), c = f; std::vector<Hash> disp; for (auto x = T; x != f; x = x->parent) disp.insert(disp.begin(), x->b.transactionHashes.begin(), x->b.transactionHashes.end()); for (uint32_t i = 0; i <= d; ++i) { MBP b; mineOn(c, i ? std::vector<Hash>() : disp, b); c = b; } if (cur() == c) hs::count("reorgs"); }
    else if (n == "tx") { TxInfo t; if (make(cur(), t)) { w.reg(t); submitted.push_back(t.id); step([&](core& c) { tx_verification_context tv{}; c.handle_incoming_tx(toBinaryArray(t.tx), tv, false); }); } }
    else if (n == "ask") { for (uint64_t i = 0; i <= o.arg(0); ++i) if (proxy) request(1 + r.below(2), Kind(r.below(KINDS)), r.next(), r.chance(0.15) ? 1 + r.below(2) : 0); }
    else if (n == "wait") sim::sleepNs(o.arg(0) * MS);
    else if (n == "settle") settle(r.chance(0.5));
    else if (n == "reset") { sim::resetConnections(DAEMON, CLIENT); hs::count("fault:reset"); }
    else if (n == "link") { link = !link; sim::setLink(DAEMON, CLIENT, link); hs::count("fault:link"); }
    else if (n == "down") { sim::setHostDown(DAEMON, o.arg(0)); hs::count("fault:hostdown"); }
    else if (n == "stall") { sim::setStall(DAEMON, o.arg(0)); hs::count("fault:stall"); }
    else if (n == "confail") { sim::tune.connectFail = o.arg(0) / 100.0; }
    else if (n == "kill") { daemonDown(false); hs::count("fault:kill"); }
    else if (n == "stop") { sim::setStall(DAEMON, false); daemonDown(true); hs::count("fault:stop"); }
    else if (n == "start") startDaemon();
    else if (n == "evil") { if (H->st == Host::UP) daemonDown(false); startEvil(o.arg(1)); }
    else if (n == "shutdown") shutdownProxy(o.arg(0) & 1, o.arg(0) & 2);
    else if (n == "init") { if (!up) initProxy(); else if (o.arg(0) & 1) { int c = 0; std::error_code ec; post(0, [&] { proxy->init([&](std::error_code e) { ++c; ec = e; }); }); if (!sim::waitUntil([&] { return c > 0 && idle(0); }, 60 * SEC, 5 * MS)) VIOL("C22", "init-hang", "a second init is never answered"); if (!ec) VIOL("C22", "init-again", "a client can be initialised twice"); } }
    else if (n == "race") { if (!up) { proxy ? (void)0 : (void)initProxy(); if (up) return; } bool was = up; if (was) shutdownProxy(false, false); bool a = false, b = false; int c = 0; std::error_code ec; ++life; annLocal = annKnown = 0; status = 2; post(0, [&] { proxy->init([&](std::error_code e) { ++c; ec = e; }); a = true; }); uint64_t d = r.chance(0.5) ? 0 : r.below(2 * MS); post(3, [&, d] { if (d) sim::sleepNs(d); proxy->shutdown(); b = true; }); if (!sim::waitUntil([&] { return a && b && idle(0) && idle(3); }, 120 * SEC, 5 * MS)) VIOL("C22,C19", "race-hang", "init and shutdown at the same time do not end " << sim::dumpThreads()); if (!sim::waitUntil([&] { return c > 0; }, 60 * SEC, 5 * MS)) VIOL("C22", "init-hang", "init is never answered"); shutdownProxy(false, false); hs::count("races"); }
    collect(); H->sweep(); }
  void run() { base(); H.reset(new Host(w, DAEMON, ipOf(DAEMON))); H->rpc = true; H->indexes = plan.num("indexes"); sim::setNodeIp(CLIENT, ipOf(CLIENT)); mkdir(H->dir.c_str(), 0755); if (!plan.num("late")) startDaemon(); initProxy();
    for (auto& o : plan.ops) { if (getenv("SIM_DEBUG")) fprintf(stderr, "op %zu %s %llu at %.3f\n", hs::report().curOp, o.name.c_str(), (unsigned long long)o.arg(0), sim::now() / 1e9); doOp(o); hs::report().opsDone++; hs::report().curOp++; }
    r.s = plan.seed * 3 + 1; settle(true); if (r.chance(0.5)) { daemonDown(r.chance(0.5)); if (!sim::waitUntil([&] { return status == 0; }, 30 * SEC, 100 * MS)) VIOL("C22", "status-stale", "the daemon has been gone for 30 seconds and the client still says it is connected"); hs::count("status-checks"); if (r.chance(0.5)) settle(false); } for (int i = r.below(4); i > 0 && up; --i) request(1 + r.below(2), Kind(r.below(KINDS)), r.next(), r.chance(0.3) ? 1 : 0); if (r.chance(0.3)) sim::setStall(DAEMON, true); if (r.chance(0.5)) sim::sleepNs(r.below(100 * MS)); shutdownProxy(true, r.chance(0.3)); sim::setStall(DAEMON, false); daemonDown(true); hs::note("height " + std::to_string(cur()->height) + ", states " + std::to_string(states.size())); }
};
void Obs::localBlockchainUpdated(uint32_t h) { s.annLocal = h; hs::count("announced"); }
void Obs::lastKnownBlockHeightUpdated(uint32_t h) { s.annKnown = h; }
void CoreObs::poolUpdated() { s.readState(*c, sim::now()); }
void Obs::poolChanged() { ++s.pools; }
void Obs::peerCountUpdated(size_t c) { s.peers = c; }
void Obs::connectionStatusUpdated(bool c) { s.status = c; hs::count(c ? "status-up" : "status-down"); }
Params proxyParams() { Params q; q.testnet = true; q.h2 = 1; q.h3 = 2; q.h4 = 3; q.h7 = 4; q.h8 = 5; return q; }
Plan genProxy(uint64_t seed, const std::string& focus) { Plan p; sim::Rng r(sim::mix64(seed) ^ hs::fnv(focus + "proxy")); p.seed = seed; p.focus = focus; p.set("base", 14 + r.below(10)); p.set("late", r.chance(0.1)); p.set("indexes", r.chance(0.5));
  p.setr("t_preempt", r.chance(0.6) ? r.below(30) / 100.0 : 0); p.set("t_ncpu", 1); if (r.chance(0.5)) p.setr("t_frag", r.below(60) / 100.0); if (r.chance(0.5)) p.setr("t_shortread", r.below(60) / 100.0); if (r.chance(0.5)) { p.set("t_lat", 100000 + r.below(50000000)); p.set("t_jitter", r.below(50000000)); } if (r.chance(0.3)) p.set("t_sockbuf", 512 + r.below(20000)); if (r.chance(0.2)) p.setr("t_spurious", 0.2); bool faults = r.chance(0.85); int n = r.range(8, 34);
  for (int i = 0; i < n; ++i) { uint64_t k = r.below(100), sd = r.next() >> 20; if (k < 14) p.op("mine", {r.chance(0.7) ? 0 : r.below(4), sd}); else if (k < 20) p.op("reorg", {r.below(4), sd}); else if (k < 27) p.op("tx", {0, sd}); else if (k < 50) p.op("ask", {r.chance(0.6) ? r.below(3) : r.below(8), sd}); else if (k < 58) p.op("wait", {r.chance(0.6) ? r.below(200) : r.below(12000), sd}); else if (k < 63) p.op("settle", {0, sd}); else if (k < 68) p.op("shutdown", {r.below(4), sd}); else if (k < 72) p.op("init", {r.below(2), sd}); else if (k < 74) p.op("race", {0, sd}); else if (faults) { uint64_t f = r.below(100); if (f < 25) p.op("reset", {0, sd}); else if (f < 40) p.op("link", {0, sd}); else if (f < 48) p.op("down", {r.below(2), sd}); else if (f < 58) p.op("stall", {r.below(2), sd}); else if (f < 68) p.op("kill", {0, sd}); else if (f < 78) p.op("stop", {0, sd}); else if (f < 88) p.op("start", {0, sd}); else if (f < 95) p.op("evil", {0, sd}); else p.op("confail", {r.below(60), sd}); } }
  return p; }
void runProxy(const Plan& p) { sim::start(p.seed, hs::scratchDir()); hs::applyTune(p); hs::setFailureProps("C22,C14,C19", "C22,C19"); ProxySim* s = new ProxySim(p); s->run(); hs::finish(); }
hs::AutoReg rProxy({"proxy", genProxy, runProxy});
}
}
