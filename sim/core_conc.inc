// ---------------------------------------------------------------- queries answered while the chain changes
// Groups of "q" operations run on threads of their own, concurrently with the operation that follows them; every answer
// must be explained by one of the main chains the node had during the group.
struct ConcSim : CoreSim {
  struct Query { Op o; std::function<void(core&)> call; std::function<std::string(const MBP&)> check; std::string what; bool done = false; uint64_t at = 0; };
  std::vector<Hash> poolBefore;
  ConcSim(const Plan& p) : CoreSim(p) {}
  static std::string hs8(const Hash& h) { return hx(h); }
  typedef std::vector<const MB*> Chain;
  static Chain chainOf(const MBP& t) { Chain c; for (MB* b : t->path()) c.push_back(b); return c; }
  MBP anyTip(uint64_t r) { // a tip of a chain the asker may know: current, old, alternative, foreign
    std::vector<MBP> c; for (auto& b : universe) if (b->height + 12 > tip->height) c.push_back(b);
    return r % 3 == 0 || c.empty() ? tip : c[r / 3 % c.size()];
  }
  std::vector<Hash> sparse(const MBP& t, uint64_t r) {
    std::vector<Hash> v; Chain c = chainOf(t); uint64_t step = 1; for (int64_t i = c.size() - 1 - (r % 4); i > 0; i -= step) { v.push_back(c[i]->hash); if (v.size() > 2 + r / 4 % 8) step *= 2; } v.push_back(c[0]->hash); return v;
  }
  static uint32_t common(const std::vector<Hash>& ids, const Chain& c) { for (auto& id : ids) for (size_t i = c.size(); i-- > 0;) if (c[i]->hash == id) return i; return 0; }
  Hash anyTx(uint64_t r) { if (r % 8 == 0) return crypto::cn_fast_hash(&r, 8); std::vector<MBP> c; for (auto& b : universe) if (b->height + 10 > tip->height) c.push_back(b); if (r % 2 && !c.empty()) { MBP b = c[r / 8 % c.size()]; if (b->b.transactionHashes.empty() || r / 4 % 3 == 0) return getObjectHash(b->b.baseTransaction); return b->b.transactionHashes[r / 64 % b->b.transactionHashes.size()]; } return txOrder.empty() ? tip->hash : txOrder[r / 8 % txOrder.size()]; }
  static BinaryArray blob(const std::string& s) { return BinaryArray(s.begin(), s.end()); }
  const Transaction* txOf(const Hash& h) { auto f = w.txs.find(h); return f == w.txs.end() ? nullptr : &f->second.tx; }
  template <class E> std::string blocksAnswer(const Chain& c, uint32_t start, uint32_t total, uint32_t full, const std::vector<Hash>& ids, const std::vector<E>& en, uint64_t ts, Hash E::*idOf, const std::function<std::string(const E&, const MB*, bool)>& content) {
    std::ostringstream m; uint32_t cm = common(ids, c);
    if (total != c.size()) { m << "chain height " << total << " instead of " << c.size(); return m.str(); }
    if (start > cm) { m << "range starts at " << start << ", above the common ancestor " << cm; return m.str(); }
    if (start < cm) { m << "range starts at " << start << ", below the common ancestor " << cm; return m.str(); }
    if (full < start) { m << "full blocks from " << full << " before start " << start; return m.str(); }
    if (start + en.size() > c.size()) { m << en.size() << " entries from " << start << " exceed the chain"; return m.str(); }
    uint32_t want = std::min<uint32_t>(c.size(), full + 128); if (start + en.size() != want) { m << en.size() << " entries from " << start << " (full from " << full << ", chain " << c.size() << ")"; return m.str(); }
    for (size_t i = 0; i < en.size(); ++i) { const MB* b = c[start + i]; if (!(en[i].*idOf == b->hash)) { m << "entry " << i << " is not the block at height " << start + i; return m.str(); }
      std::string s = content(en[i], b, start + i >= full && b->b.timestamp >= ts); if (!s.empty()) { m << "entry " << i << " (height " << start + i << "): " << s; return m.str(); } }
    return "";
  }
  bool spendableOut(const OutInfo& o, const MBP& T, uint64_t t) { if (o.height + w.p.unlock > T->height + 1) return false; if (o.unlock < 500000000) return T->height + 1 >= o.unlock; return t + 120 >= o.unlock; }
  void build(Query& q) {
    const Op& o = q.o; uint64_t r = o.arg(2), r2 = o.arg(3), r3 = o.arg(4); MBP kt = anyTip(r); auto self = this;
    switch (o.arg(1) % 16) {
    case 0: case 1: { auto ids = std::make_shared<std::vector<Hash>>(sparse(kt, r2)); MBP tb = anyTip(r3 / 8); uint64_t ts = r3 % 4 ? 0 : tb->b.timestamp + (r3 / 4 % 2 ? 7200 : 0); auto en = std::make_shared<std::vector<BlockFullInfo>>(); auto n = std::make_shared<std::array<uint32_t, 3>>(); auto ok = std::make_shared<bool>(false);
      q.what = "queryBlocks"; q.call = [=](core& c) { *ok = c.queryBlocks(*ids, ts, (*n)[0], (*n)[1], (*n)[2], *en); };
      q.check = [=](const MBP& T) -> std::string { if (!*ok) return "refused"; return self->blocksAnswer<BlockFullInfo>(chainOf(T), (*n)[0], (*n)[1], (*n)[2], *ids, *en, ts, &BlockFullInfo::block_id, [&](const BlockFullInfo& e, const MB* b, bool full) -> std::string {
        if (e.block.empty()) return full ? "its content is missing" : ""; Block bl; if (!fromBinaryArray(bl, blob(e.block)) || !(get_block_hash(bl) == b->hash)) return "content of another block";
        if (e.txs.size() != b->b.transactionHashes.size()) return "its transactions are incomplete"; for (size_t i = 0; i < e.txs.size(); ++i) { Transaction t; if (!fromBinaryArray(t, blob(e.txs[i])) || !(getObjectHash(t) == b->b.transactionHashes[i])) return "a transaction of another block"; } return ""; }); };
      break; }
    case 2: case 3: { auto ids = std::make_shared<std::vector<Hash>>(sparse(kt, r2)); MBP tb = anyTip(r3 / 8); uint64_t ts = r3 % 4 ? 0 : tb->b.timestamp + (r3 / 4 % 2 ? 7200 : 0); auto en = std::make_shared<std::vector<BlockShortInfo>>(); auto n = std::make_shared<std::array<uint32_t, 3>>(); auto ok = std::make_shared<bool>(false);
      q.what = "queryBlocksLite"; q.call = [=](core& c) { *ok = c.queryBlocksLite(*ids, ts, (*n)[0], (*n)[1], (*n)[2], *en); };
      q.check = [=](const MBP& T) -> std::string { if (!*ok) return "refused"; return self->blocksAnswer<BlockShortInfo>(chainOf(T), (*n)[0], (*n)[1], (*n)[2], *ids, *en, ts, &BlockShortInfo::blockId, [&](const BlockShortInfo& e, const MB* b, bool full) -> std::string {
        if (e.block.empty()) return full ? "its content is missing" : ""; Block bl; if (!fromBinaryArray(bl, blob(e.block)) || !(get_block_hash(bl) == b->hash)) return "content of another block";
        if (e.txPrefixes.size() != b->b.transactionHashes.size()) return "its transactions are incomplete"; for (size_t i = 0; i < e.txPrefixes.size(); ++i) if (!(e.txPrefixes[i].txHash == b->b.transactionHashes[i])) return "a transaction of another block"; return ""; }); };
      break; }
    case 4: { auto ids = std::make_shared<std::vector<Hash>>(sparse(kt, r2)); size_t max = 1 + r3 % 60; auto res = std::make_shared<std::vector<Hash>>(); auto n = std::make_shared<std::array<uint32_t, 2>>();
      q.what = "findBlockchainSupplement"; q.call = [=](core& c) { *res = c.findBlockchainSupplement(*ids, max, (*n)[0], (*n)[1]); };
      q.check = [=](const MBP& T) -> std::string { Chain c = chainOf(T); std::ostringstream m; if ((*n)[0] != c.size()) { m << "total " << (*n)[0] << " instead of " << c.size(); return m.str(); } if ((*n)[1] != common(*ids, c)) { m << "start " << (*n)[1] << " instead of " << common(*ids, c); return m.str(); } if (res->size() != std::min<size_t>(max, c.size() - (*n)[1])) { m << res->size() << " ids"; return m.str(); } for (size_t i = 0; i < res->size(); ++i) if (!((*res)[i] == c[(*n)[1] + i]->hash)) { m << "id " << i << " is not at that height"; return m.str(); } return ""; };
      break; }
    case 5: case 6: case 7: { // pool difference against the asker's set and tail
      auto known = std::make_shared<std::vector<Hash>>(); HSet ks; std::vector<Hash> src(poolBefore); if (!txOrder.empty()) for (int i = 0; i < 6; ++i) src.push_back(txOrder[txOrder.size() - 1 - (r2 / (i + 1)) % std::min<size_t>(txOrder.size(), 24)]);
      for (size_t i = 0; i < src.size(); ++i) if (sim::mix64(r3 + i) % 2 && ks.insert(src[i]).second) known->push_back(src[i]);
      Hash tail = kt->hash; auto add = std::make_shared<std::vector<Hash>>(), del = std::make_shared<std::vector<Hash>>(); auto ok = std::make_shared<bool>(false); bool lite = o.arg(1) % 16 == 6, plain = o.arg(1) % 16 == 7 && r2 % 2; auto t1 = std::make_shared<uint64_t>(0), t2 = std::make_shared<uint64_t>(0);
      q.what = lite ? "getPoolChangesLite" : "getPoolChanges";
      q.call = [=](core& c) { *t1 = time(nullptr); if (lite) { std::vector<TransactionPrefixInfo> v; *ok = c.getPoolChangesLite(tail, *known, v, *del); for (auto& x : v) add->push_back(x.txHash); } else { std::vector<Transaction> v; if (plain) c.getPoolChanges(*known, v, *del); else *ok = c.getPoolChanges(tail, *known, v, *del); for (auto& x : v) add->push_back(getObjectHash(x)); } *t2 = time(nullptr); };
      std::vector<Hash> before = poolBefore; HSet pb(before.begin(), before.end());
      q.check = [=](const MBP& T) -> std::string { std::ostringstream m; HSet res(known->begin(), known->end()), dl;
        for (auto& d : *del) { if (!res.erase(d)) return "a transaction the asker did not list is reported as deleted, or twice"; } for (auto& a : *add) { if (!res.insert(a).second) return "a transaction the asker has is reported as new, or twice"; }
        if (!plain && *ok != (T->hash == tail)) { m << "tail verdict " << *ok; return m.str(); }
        for (auto& x : res) { if (T->led->tx.count(x)) { m << "the resulting set holds " << hx(x) << ", mined on this chain"; return m.str(); } auto f = self->w.txs.find(x); if (f == self->w.txs.end()) return "unknown transaction"; std::string pr, why = self->w.checkTx(*T->led, f->second, T->height + 1, pr); if (!why.empty()) { m << "the resulting set holds " << hx(x) << ", unusable on this chain: " << why; return m.str(); } if (!pb.count(x) && !self->poolAfter.count(x) && !self->opTxs.count(x)) { m << "the resulting set holds " << hx(x) << ", never pending"; return m.str(); } }
        for (auto& x : pb) if (self->poolAfter.count(x) && !res.count(x) && !T->led->tx.count(x)) { auto& ti = self->w.txs[x]; std::string pr; if (!self->w.checkTx(*T->led, ti, T->height + 1, pr).empty() || self->w.timeLock(*T->led, ti.tx) > *t1) continue; m << "the resulting set lacks " << hx(x) << ", pending and usable throughout"; return m.str(); }
        return ""; };
      break; }
    case 8: case 9: { auto req = std::make_shared<COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS::request>(); auto res = std::make_shared<COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS::response>(); auto t = std::make_shared<uint64_t>(0); auto ok = std::make_shared<bool>(false);
      std::vector<uint64_t> am; for (auto& a : tip->led->key) am.push_back(a.first); for (int i = 0, k = 1 + r2 % 4; i < k && !am.empty(); ++i) req->amounts.push_back(am[sim::mix64(r + i) % am.size()]); if (r2 % 7 == 0) req->amounts.push_back(123457); req->outs_count = 1 + r3 % 12;
      q.what = "get_random_outs"; q.call = [=](core& c) { *t = time(nullptr); *ok = c.get_random_outs_for_amounts(*req, *res); };
      q.check = [=](const MBP& T) -> std::string { std::ostringstream m; if (!*ok) return "refused"; if (res->outs.size() != req->amounts.size()) return "not one answer per amount";
        size_t k = 0; for (auto& a : res->outs) { if (a.amount != req->amounts[k++]) return "another amount"; auto f = T->led->key.find(a.amount); size_t avail = 0; if (f != T->led->key.end()) for (auto& x : f->second) if (spendableOut(x, T, *t)) ++avail; std::set<uint64_t> seen;
          for (auto& e : a.outs) { if (!seen.insert(e.global_amount_index).second) return "the same output twice"; if (f == T->led->key.end() || e.global_amount_index >= f->second.size()) return "an output index this chain does not have"; const OutInfo& x = f->second[e.global_amount_index]; if (memcmp(&x.key, &e.out_key, 32)) { m << "output " << e.global_amount_index << " with another output's key"; return m.str(); }
            if (!spendableOut(x, T, *t + 1)) { m << "output " << e.global_amount_index << " (height " << x.height << ", unlock " << x.unlock << ") is not spendable"; return m.str(); } }
          if (a.outs.size() < std::min<size_t>(avail, req->outs_count)) { m << a.outs.size() << " outputs of " << avail << " spendable (asked " << req->outs_count << ")"; return m.str(); } if (a.outs.size() > req->outs_count) return "more outputs than asked"; }
        return ""; };
      break; }
    case 10: { Hash id = anyTx(r); auto g = std::make_shared<std::vector<uint32_t>>(); auto ok = std::make_shared<bool>(false);
      q.what = "get_tx_outputs_gindexs"; q.call = [=](core& c) { *ok = c.get_tx_outputs_gindexs(id, *g); };
      q.check = [=](const MBP& T) -> std::string { auto f = T->led->tx.find(id); if ((f != T->led->tx.end()) != *ok) return *ok ? "indexes of a transaction not on this chain" : "unknown although mined"; if (*ok && f->second.g != *g) return "wrong output indexes"; return ""; };
      break; }
    case 11: { auto ids = std::make_shared<std::vector<Hash>>(); HSet u; for (int i = 0, k = 1 + r % 6; i < k; ++i) { Hash h = anyTx(sim::mix64(r2 + i) >> 20); if (u.insert(h).second) ids->push_back(h); } auto txs = std::make_shared<std::list<Transaction>>(); auto miss = std::make_shared<std::list<Hash>>(); auto gi = std::make_shared<std::vector<std::pair<Transaction, std::vector<uint32_t>>>>(); bool withG = r3 % 2;
      q.what = withG ? "getTransactionsWithOutputGlobalIndexes" : "getTransactions"; q.call = [=](core& c) { if (withG) c.getTransactionsWithOutputGlobalIndexes(*ids, *miss, *gi); else c.getTransactions(*ids, *txs, *miss, false); };
      q.check = [=](const MBP& T) -> std::string { HSet got, mi(miss->begin(), miss->end()); for (auto& t : *txs) got.insert(getObjectHash(t)); for (auto& t : *gi) { Hash h = getObjectHash(t.first); got.insert(h); auto f = T->led->tx.find(h); if (f == T->led->tx.end() || f->second.g != t.second) return "wrong output indexes of " + hx(h); }
        for (auto& id : *ids) { bool on = T->led->tx.count(id); if (on != (bool)got.count(id) || on == (bool)mi.count(id)) return std::string(on ? "mined" : "unmined") + " transaction " + hx(id) + (got.count(id) ? " returned" : " not returned"); } return ""; };
      break; }
    case 12: { NOTIFY_REQUEST_GET_OBJECTS::request rq; HSet ub, ut; for (int i = 0, k = 1 + r % 5; i < k; ++i) { Hash h = anyTip(sim::mix64(r2 + i) >> 20)->hash; if (ub.insert(h).second) rq.blocks.push_back(h); } if (r3 % 2) for (int i = 0, k = 1 + r3 % 4; i < k; ++i) { Hash h = anyTx(sim::mix64(r3 + i) >> 20); if (ut.insert(h).second) rq.txs.push_back(h); }
      auto arg = std::make_shared<NOTIFY_REQUEST_GET_OBJECTS::request>(rq); auto rsp = std::make_shared<NOTIFY_RESPONSE_GET_OBJECTS::request>(); auto ok = std::make_shared<bool>(false);
      q.what = "handle_get_objects"; q.call = [=](core& c) { *ok = c.handle_get_objects(*arg, *rsp); };
      q.check = [=](const MBP& T) -> std::string { if (!*ok) return "refused"; std::ostringstream m; Chain c = chainOf(T); if (rsp->current_blockchain_height != c.size()) { m << "height " << rsp->current_blockchain_height << " instead of " << c.size(); return m.str(); }
        HSet on; for (auto b : c) on.insert(b->hash); HSet mi(rsp->missed_ids.begin(), rsp->missed_ids.end()); auto it = rsp->blocks.begin();
        for (auto& h : arg->blocks) { if (!on.count(h)) { if (!mi.count(h)) return "a block not on this chain is not reported missing"; continue; } if (it == rsp->blocks.end()) return "a block is left out"; Block bl; if (!fromBinaryArray(bl, blob(it->block)) || !(get_block_hash(bl) == h)) return "another block"; if (it->txs.size() != bl.transactionHashes.size()) return "a block with incomplete transactions"; size_t i = 0; for (auto& x : it->txs) { Transaction t; if (!fromBinaryArray(t, blob(x)) || !(getObjectHash(t) == bl.transactionHashes[i++])) return "a block with another transaction"; } ++it; }
        if (it != rsp->blocks.end()) return "blocks nobody asked for"; HSet got; for (auto& x : rsp->txs) { Transaction t; if (!fromBinaryArray(t, blob(x))) return "garbage transaction"; got.insert(getObjectHash(t)); } for (auto& h : arg->txs) if ((bool)T->led->tx.count(h) != (bool)got.count(h)) return "transactions differ"; return ""; };
      break; }
    case 13: { uint32_t h = tip->height + 3 - r % 14; Hash id = kt->hash; auto a = std::make_shared<Hash>(), b = std::make_shared<Hash>(); auto n = std::make_shared<std::array<uint32_t, 3>>(); auto sp = std::make_shared<std::vector<Hash>>(); uint64_t k = r2 % 5; auto ok = std::make_shared<bool>(false); auto bl = std::make_shared<Block>(); Hash tx = anyTx(r3);
      static const char* nm[] = {"getBlockIdByHeight", "get_blockchain_top", "buildSparseChain", "getBlockHeight", "getBlockContainingTx"}; q.what = nm[k];
      q.call = [=](core& c) { switch (k) { case 0: *a = c.getBlockIdByHeight(h); break; case 1: c.get_blockchain_top((*n)[0], *a); break; case 2: *sp = c.buildSparseChain(); break; case 3: *ok = c.getBlockHeight(id, (*n)[0]); break; case 4: *ok = c.getBlockContainingTx(tx, *a, (*n)[0]); } };
      q.check = [=](const MBP& T) -> std::string { Chain c = chainOf(T); std::ostringstream m; if (k == 0) { Hash e = h < c.size() ? c[h]->hash : NULL_HASH; if (!(e == *a)) m << "height " << h << " is " << hx(*a) << " instead of " << hx(e); }
        else if (k == 1) { if ((*n)[0] != T->height || !(*a == T->hash)) m << "top " << (*n)[0] << " " << hx(*a) << " instead of " << T->height << " " << hx(T->hash); }
        else if (k == 2) { if (sp->empty() || !((*sp)[0] == T->hash) || !(sp->back() == c[0]->hash)) return "does not run from the tip to the first block"; uint32_t last = c.size(); for (auto& x : *sp) { uint32_t p = 0; while (p < c.size() && !(c[p]->hash == x)) ++p; if (p >= last) return "not a descending history of this chain"; last = p; } }
        else if (k == 3) { bool on = kt->height < c.size() && c[kt->height]->hash == id; if (on != *ok || (on && (*n)[0] != kt->height)) m << "block height " << *ok << " " << (*n)[0]; }
        else { auto f = T->led->tx.find(tx); if ((f != T->led->tx.end()) != *ok) m << "found " << *ok; else if (*ok && ((*n)[0] != f->second.height || !(*a == c[f->second.height]->hash))) m << "in block " << (*n)[0] << " " << hx(*a) << " instead of " << f->second.height; } return m.str(); };
      break; }
    case 14: { uint32_t h = tip->height + 1 - std::min<uint64_t>(tip->height, r % 12); uint64_t k = r2 % 7; uint32_t th = tip->height + 3 - r % 14; Hash id = kt->hash; auto v = std::make_shared<uint64_t>(0); auto sz = std::make_shared<std::vector<size_t>>(); auto ok = std::make_shared<bool>(false); auto kv = std::make_shared<crypto::KeyImage>(); if (!kis.empty()) *kv = kis[r3 % kis.size()]; else k = 0; 
      static const char* nm[] = {"getBlockDifficulty", "getBackwardBlocksSizes", "is_key_image_spent", "coinsEmittedAtHeight", "depositAmountAtHeight", "fullDepositAmount", "getBlockTimestamp"}; q.what = nm[k]; uint32_t hh = tip->height - std::min<uint64_t>(tip->height - 2, 6 + r % 6);
      q.call = [=](core& c) { switch (k) { case 0: { difficulty_type d = 0; c.getBlockDifficulty(h, d); *v = d; break; } case 1: *ok = c.getBackwardBlocksSizes(hh, *sz, 5); break; case 2: *ok = c.is_key_image_spent(*kv); break; case 3: *v = c.coinsEmittedAtHeight(hh); break; case 4: *v = c.depositAmountAtHeight(hh); break; case 5: *v = c.fullDepositAmount(); break; case 6: *ok = c.getBlockTimestamp(th, *v); } };
      q.check = [=](const MBP& T) -> std::string { Chain c = chainOf(T); std::ostringstream m; uint64_t e = 0; if (k == 0) { e = h < c.size() ? h ? c[h]->diff : 1 : 0; if (h && e != *v) m << "difficulty " << *v << " instead of " << e; }
        else if (k == 1) { if (hh >= c.size()) return ""; if (!*ok) return "refused"; uint32_t s0 = hh + 1 - std::min<uint32_t>(hh + 1, 5); if (sz->size() != hh + 1 - s0) return "number of sizes"; for (size_t i = 0; i < sz->size(); ++i) if (s0 + i > 0 && (*sz)[i] != c[s0 + i]->size) { m << "size of block " << s0 + i << " is " << (*sz)[i] << " instead of " << c[s0 + i]->size; break; } }
        else if (k == 2) { if ((bool)T->led->ki.count(*kv) != *ok) m << "spent " << *ok; }
        else if (k == 3) { if (hh < c.size() && c[hh]->generated != *v) m << "coins " << *v << " instead of " << c[hh]->generated; }
        else if (k == 4) { if (hh < c.size()) { int64_t s = 0; for (uint32_t i = 0; i <= hh; ++i) s += c[i]->depositDelta; if ((uint64_t)s != *v) m << "deposits " << *v << " instead of " << s; } }
        else if (k == 6) { if ((th < c.size()) != *ok) m << "found " << *ok; else if (*ok && *v != c[th]->b.timestamp) m << "timestamp " << *v << " instead of " << c[th]->b.timestamp; }
        else { if ((uint64_t)T->led->deposit != *v) m << "deposits " << *v << " instead of " << T->led->deposit; } return m.str(); };
      break; }
    default: { Hash id = kt->hash; auto bl = std::make_shared<Block>(); auto ib = std::make_shared<std::unique_ptr<IBlock>>(); auto ok = std::make_shared<bool>(false); bool full = r2 % 2; auto n = std::make_shared<uint64_t>(0); auto txs = std::make_shared<std::vector<Hash>>();
      q.what = full ? "getBlock" : "getBlockByHash"; MBP ktp = kt;
      q.call = [=](core& c) { if (full) { *ib = c.getBlock(id); *ok = (bool)*ib; if (*ok) { *bl = (*ib)->getBlock(); for (size_t i = 0; i < (*ib)->getTransactionCount(); ++i) txs->push_back(getObjectHash((*ib)->getTransaction(i))); ib->reset(); } } else *ok = c.getBlockByHash(id, *bl); };
      q.check = [=](const MBP& T) -> std::string { bool on = onChain(ktp, T); if (on && !*ok) return "a main-chain block is not found"; if (*ok && !(get_block_hash(*bl) == id)) return "another block"; if (*ok && full && on) { if (*txs != ktp->b.transactionHashes) return "its transactions differ"; } return ""; };
    } }
  }
  HSet poolAfter, opTxs;
  void group(const std::vector<Op>& qs, const Op* op) {
    { AsNode a; poolBefore = n->pool(); }
    size_t v0 = history.size() - 1, x0 = txOrder.size(); MBP from = tip; std::vector<MBP> pre{tip};
    std::vector<std::unique_ptr<Query>> q; for (auto& o : qs) { q.emplace_back(new Query); q.back()->o = o; build(*q.back()); }
    std::map<uint64_t, std::vector<Query*>> by; for (auto& x : q) by[x->o.arg(0) % 3].push_back(x.get());
    std::vector<sim::Tid> th; core* c = n->c.get(); pub.clear(); pub.push_back(tip);
    for (auto& b : by) { auto v = b.second; th.push_back(sim::spawn(0, "reader", [v, c] { for (auto x : v) { x->call(*c); x->done = true; sim::yieldPoint(); } })); }
    if (op) doOp(*op);
    for (auto t : th) if (!sim::joinFor(t, 3600ull * 1000000000ull)) VIOL("C19,C20", "query-hangs", "a query never returns: " << sim::dumpThreads());
    { AsNode a; auto p = n->pool(); poolAfter = HSet(p.begin(), p.end()); } opTxs.clear(); for (size_t i = x0; i < txOrder.size(); ++i) opTxs.insert(txOrder[i]); for (auto& b : universe) if (b->height + 12 > tip->height) for (auto& h : b->b.transactionHashes) opTxs.insert(h);
    std::vector<MBP> cand{pub[0]}; for (size_t i = 1; i < pub.size(); ++i) { if (onChain(pub[i], pub[i - 1])) for (MBP x = pub[i - 1]->parent; x && x != pub[i]; x = x->parent) cand.push_back(x); cand.push_back(pub[i]); }
    if (cand.size() > 1) hs::count("groups-with-chain-change"); else hs::count("groups-quiet");
    for (auto& x : q) { if (!x->done) VIOL("C20,C10", "query-died", x->what << " did not finish"); std::string first; bool ok = false; for (auto& T : cand) { std::string s = x->check(T); if (s.empty()) { ok = true; break; } if (first.empty() || T == tip) first = s; }
      hs::count("query:" + x->what); if (!ok) VIOL("C20", "query-" + x->what, x->what << " during " << (op ? op->name : std::string("nothing")) << ": no chain the node had explains the answer (" << cand.size() << " considered); last: " << first); }
    sim::traceEvent(0xC0C, q.size(), cand.size());
  }
  void runConc() {
    std::vector<Op> qs; size_t i = 0;
    for (auto& o : plan.ops) { hs::report().curOp = i++; if (o.name == "q") { qs.push_back(o); continue; } if (qs.empty()) doOp(o); else { group(qs, &o); qs.clear(); group({}, nullptr); } hs::report().opsDone++; }
    if (!qs.empty()) group(qs, nullptr);
    hs::report().curOp = i; compare(true, "end", ",C20");
  }
};
Plan genConc(uint64_t seed, const std::string& focus) {
  Plan p; sim::Rng r(sim::mix64(seed) ^ hs::fnv(focus + "conc")); p.focus = focus; p.seed = seed;
  profile(p, r, focus); if (p.num("profile") == 3) p.set("profile", 0), p.set("h2", 1), p.set("h3", 2), p.set("h4", 3), p.set("h7", 4), p.set("h8", 5);
  p.set("forky", r.range(20, 70)); p.set("withhold", r.chance(0.5) ? r.range(5, 50) : 0); p.set("goodtx", r.range(60, 98)); p.set("maxtx", r.range(1, 6)); p.set("burst", r.chance(0.8) ? r.range(20, 80) : 0);
  p.setr("t_preempt", r.chance(0.15) ? 0.0 : r.chance(0.5) ? 0.02 : r.chance(0.5) ? 0.1 : 0.3);
  std::vector<std::pair<std::string, int>> o = {{"mine", 44}, {"tx", 16}, {"bad", 5}, {"template", 4}, {"deliver", 6}, {"rollback", 5}, {"save", 1}, {"wait", 1}, {"idle", 2}, {"again", 1}};
  swarm(p, r, o, r.range(14, 36));
  std::vector<Op> out; for (auto& x : p.ops) { if (r.chance(0.6)) { int k = r.range(1, 9); uint64_t only = r.chance(0.3) ? r.below(16) + 1 : 0; for (int j = 0; j < k; ++j) { Op q; q.name = "q"; for (int z = 0; z < 6; ++z) q.a.push_back(r.next() >> 16); if (only) q.a[1] = only - 1; out.push_back(q); } } out.push_back(x); }
  p.ops = out; return p;
}
void runConc(const Plan& p) {
  sim::start(p.seed, hs::scratchDir()); hs::applyTune(p); hs::setFailureProps("C20,C10", "C19,C20");
  ConcSim* s = new ConcSim(p); s->start(); s->runConc(); { AsNode a; s->n->close(); }
}
hs::AutoReg rConc({"core_conc", genConc, runConc});
