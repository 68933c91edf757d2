// A scripted node: an INode whose chain, pool, delays, failures and reorganisations the plan decides; and what an
// account owns on that chain, by an independent scan.
#pragma once
#include "world.h"
#include <algorithm>
#include <sstream>
#include <unordered_set>
#include <INode.h>
#include <Common/ObserverManager.h>
#include <Transfers/BlockchainSynchronizer.h>
#include <Transfers/TransfersSynchronizer.h>
#include <Transfers/TransfersConsumer.h>
#include <Transfers/CommonTypes.h>
extern std::unordered_set<crypto::Hash> transactions_hash_seen;
extern std::unordered_set<crypto::PublicKey> public_keys_seen;
namespace w {
using hs::hx;
const uint64_t SEC = 1000000000ull, MS = 1000000ull;
inline bool onChain(const MBP& b, const MBP& t) { const MB* x = t.get(); while (x && x->height > b->height) x = x->parent.get(); return x == b.get(); }
inline MBP ancestor(MBP t, uint32_t h) { while (t && t->height > h) t = t->parent; return t; }
typedef std::set<Hash, HashLess> Hashes;
// ------------------------------------------------------------------ the node
struct ScriptNode : INode {
  World& w; MBP tip; std::vector<Hash> pool; tools::ObserverManager<INodeObserver> obs; sim::Rng r; uint64_t known = 0;
  int pid = 1; std::function<std::error_code(const Transaction&)> accept; double errRate = 0, syncRate = 0.2; uint64_t maxDelay = 20 * MS; uint32_t maxBlocks = 20; uint64_t outstanding = 0; bool losing = false;  // losing: the request is carried out but its answer is an error
  struct Answer { MBP tip; Hashes pool; }; std::vector<Answer> answers; // pool answers since the last completion
  ScriptNode(World& w, uint64_t seed) : w(w), r(seed) {}
  bool addObserver(INodeObserver* o) override { return obs.add(o); }
  bool removeObserver(INodeObserver* o) override { return obs.remove(o); }
  void init(const Callback& cb) override { cb({}); }
  bool shutdown() override { return true; }
  size_t getPeerCount() const override { return 1; }
  uint32_t getLastLocalBlockHeight() const override { return tip->height; }
  uint32_t getLastKnownBlockHeight() const override { return tip->height + known; }
  uint32_t getLocalBlockCount() const override { return tip->height + 1; }
  uint32_t getKnownBlockCount() const override { return tip->height + 1 + known; }
  uint64_t getLastLocalBlockTimestamp() const override { return tip->b.timestamp; }
  // fn answers from the state at the moment it runs; a failing answer may have filled the buffers already
  void post(const std::function<std::error_code()>& fn, const Callback& cb) {
    bool sync = r.chance(syncRate), fail = r.chance(errRate), partial = r.chance(0.5); uint64_t d = r.below(maxDelay) + 1, d2 = r.chance(0.3) ? r.below(maxDelay) + 1 : 0; sim::stat("node_requests");
    auto work = [=] { if (!sync) sim::sleepNs(d); std::error_code ec; if (fail) { sim::stat("node_errors"); if (partial) { losing = true; fn(); losing = false; } ec = std::make_error_code(std::errc::connection_reset); } else ec = fn(); if (!sync && d2) sim::sleepNs(d2); cb(ec); };
    if (sync) { work(); return; }
    ++outstanding; Wk* k = nullptr; for (auto& x : wks) if (!x->job) k = x.get(); if (k) { k->job = work; k->sig.raise(); return; }
    wks.emplace_back(new Wk); k = wks.back().get(); k->job = work; sim::spawn(pid, "node", [this, k] { for (;;) { if (k->job) { k->job(); k->job = nullptr; --outstanding; } else k->sig.wait(100000 * SEC); } }); }
  struct Wk { std::function<void()> job; sim::Signal sig; }; std::vector<std::unique_ptr<Wk>> wks;
  void queryBlocks(std::vector<Hash>&& ids, uint64_t ts, std::vector<BlockShortEntry>& out, uint32_t& start, const Callback& cb) override {
    std::vector<Hash> k = ids; uint32_t lim = 2 + r.below(maxBlocks); auto* o = &out; auto* s = &start;
    post([this, k, ts, lim, o, s]() -> std::error_code { sim::NoSched ns;
      if (k.empty() || !(k.back() == w.genesis->hash)) VIOL("C18", "no-genesis", "the synchroniser's history does not end with the first block");
      MBP f; for (auto& h : k) { auto i = w.blocks.find(h); if (i != w.blocks.end() && onChain(i->second, tip)) { f = i->second; break; } }
      auto p = tip->path(); uint32_t full = 0; while (full < p.size() && p[full]->b.timestamp < ts) ++full; *s = f->height; o->clear();
      uint32_t n = 0; for (uint32_t h = f->height; h < p.size(); ++h) { if (h >= full && n++ >= lim) break; BlockShortEntry e; e.blockHash = p[h]->hash; e.hasBlock = h >= full; if (e.hasBlock) { e.block = p[h]->b; for (size_t i = 0; i < p[h]->txs.size(); ++i) { TransactionShortInfo t; t.txId = p[h]->b.transactionHashes[i]; t.txPrefix = p[h]->txs[i]; e.txsShortInfo.push_back(t); } } o->push_back(e); }
      return {}; }, cb); }
  void getPoolSymmetricDifference(std::vector<Hash>&& ids, Hash known, bool& actual, std::vector<std::unique_ptr<ITransactionReader>>& add, std::vector<Hash>& del, const Callback& cb) override {
    std::vector<Hash> k = ids; auto* a = &actual; auto* n = &add; auto* d = &del;
    post([this, k, known, a, n, d]() -> std::error_code { sim::NoSched ns; *a = known == tip->hash; n->clear(); d->clear(); Hashes ks(k.begin(), k.end()), ps(pool.begin(), pool.end());
      if (*a) answers.push_back({tip, ps});
      for (auto& x : pool) if (!ks.count(x)) n->push_back(createTransactionPrefix(w.txs.at(x).tx, x));
      for (auto& x : k) if (!ps.count(x)) d->push_back(x);
      return {}; }, cb); }
  void getTransactionOutsGlobalIndices(const Hash& tx, std::vector<uint32_t>& g, const Callback& cb) override {
    Hash id = tx; auto* o = &g; post([this, id, o]() -> std::error_code { sim::NoSched ns; auto f = tip->led->tx.find(id); if (f == tip->led->tx.end()) return std::make_error_code(std::errc::invalid_argument); *o = f->second.g; return {}; }, cb); }
#define UNUSED(cb) cb(std::make_error_code(std::errc::function_not_supported))
  void relayTransaction(const Transaction& t, const Callback& cb) override { if (!accept) { UNUSED(cb); return; } Transaction c = t; post([this, c]() -> std::error_code { sim::NoSched ns; return accept(c); }, cb); }
  void getRandomOutsByAmounts(std::vector<uint64_t>&& amounts, uint64_t n, std::vector<COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS::outs_for_amount>& res, const Callback& cb) override {
    auto* o = &res; post([this, amounts, n, o]() -> std::error_code { sim::NoSched ns; o->clear(); for (uint64_t a : amounts) { COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS::outs_for_amount x; x.amount = a; auto f = tip->led->key.find(a); if (f != tip->led->key.end()) { std::vector<uint32_t> c; for (uint32_t i = 0; i < f->second.size(); ++i) { auto& q = f->second[i]; if (q.unlock < 500000000 && q.unlock <= tip->height && q.height + 2 <= tip->height) c.push_back(i); } for (uint64_t k = 0; k < n && !c.empty(); ++k) { size_t i = r.below(c.size()); x.outs.push_back({}); x.outs.back().global_amount_index = c[i]; x.outs.back().out_key = f->second[c[i]].key; c.erase(c.begin() + i); } } o->push_back(x); } return {}; }, cb); }
  void getNewBlocks(std::vector<Hash>&&, std::vector<block_complete_entry>&, uint32_t&, const Callback& cb) override { UNUSED(cb); }
  void getMultisignatureOutputByGlobalIndex(uint64_t, uint32_t, MultisignatureOutput&, const Callback& cb) override { UNUSED(cb); }
  void getTransaction(const Hash& h, Transaction& t, const Callback& cb) override { Hash id = h; auto* o = &t; post([this, id, o]() -> std::error_code { sim::NoSched ns; if (!tip->led->tx.count(id) && std::find(pool.begin(), pool.end(), id) == pool.end()) return std::make_error_code(std::errc::invalid_argument); *o = w.txs.at(id).tx; return {}; }, cb); }
  void getBlocks(const std::vector<uint32_t>&, std::vector<std::vector<BlockDetails>>&, const Callback& cb) override { UNUSED(cb); }
  void getBlocks(const std::vector<Hash>&, std::vector<BlockDetails>&, const Callback& cb) override { UNUSED(cb); }
  void getBlocks(uint64_t, uint64_t, uint32_t, std::vector<BlockDetails>&, uint32_t&, const Callback& cb) override { UNUSED(cb); }
  void getTransactions(const std::vector<Hash>&, std::vector<TransactionDetails>&, const Callback& cb) override { UNUSED(cb); }
  void getTransactionsByPaymentId(const Hash&, std::vector<TransactionDetails>&, const Callback& cb) override { UNUSED(cb); }
  void getPoolTransactions(uint64_t, uint64_t, uint32_t, std::vector<TransactionDetails>&, uint64_t&, const Callback& cb) override { UNUSED(cb); }
  void isSynchronized(bool& s, const Callback& cb) override { s = true; cb({}); }
};

// ------------------------------------------------------------------ what an account owns, by an independent scan
typedef std::pair<Hash, uint32_t> OutKey;
struct OutKeyLess { bool operator()(const OutKey& a, const OutKey& b) const { int c = memcmp(&a.first, &b.first, 32); return c < 0 || (!c && a.second < b.second); } };
struct XO { uint64_t amount = 0; uint32_t g = 0, height = 0, term = 0; bool ms = false; uint64_t unlock = 0; int spent = 0; Hash by; uint32_t spentHeight = 0; uint32_t input = 0; crypto::KeyImage ki; }; // spent: 0 no, 1 chain, 2 pool
struct Exp { std::map<OutKey, XO, OutKeyLess> outs, pendOuts; std::map<Hash, uint32_t, HashLess> txs; Hashes pend; bool conflict = false; };

}
