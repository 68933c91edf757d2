#include "lab.h"
int main() {
  Lab L; MBP a = L.chain(L.w.genesis, 26);
  auto dep = [&](const MBP& at, int who, uint64_t pick) { return L.transfer(at, who, who, 1000000, pick, [&](World::TxSpec& s) { s.term = L.w.p.minTermV3; }); };
  TxInfo d0 = dep(a, 0, 0), d1 = dep(a, 1, 0); MBP b = L.on(a, {d0.id, d1.id}, 60); CHECK(b->bad.empty(), "setup: deposits invalid: %s", b->bad.c_str());
  MBP c = L.chain(b, L.w.p.minTermV3 + 2, 60); std::vector<OutInfo> o0, o1;
  for (auto& k : c->led->ms) for (auto& o : k.second) { if (o.tx == d0.id) o0.push_back(o); if (o.tx == d1.id) o1.push_back(o); }
  CHECK(o0.size() == 1 && o1.size() == 1, "setup: outputs");
  TxInfo w0, w1, w0again; CHECK(L.w.makeWithdrawal(c, o0, 0, 0, 1000, w0) && L.w.makeWithdrawal(c, o1, 1, 0, 1000, w1) && L.w.makeWithdrawal(c, o0, 0, 0, 2000, w0again), "setup: withdrawals"); L.w.reg(w0); L.w.reg(w1); L.w.reg(w0again);
  MBP d = L.on(c, {w0.id}, 60); MBP e = L.on(d, {w1.id}, 60); CHECK(d->bad.empty() && e->bad.empty(), "setup: withdrawals invalid %s %s", d->bad.c_str(), e->bad.c_str());
  Node n(L.w, L.dir + "/n"); CHECK(n.open(), "node does not start"); L.feed(n, e); CHECK(n.tip() == e->hash, "setup: chain refused at %u", n.size());
  n.c->rollback_chain_to(d->height); CHECK(n.tip() == d->hash, "setup: rollback");
  auto r = n.submit(w0again.tx); CHECK(r.m_verification_failed || r.m_verification_impossible || !has(n, w0again.id), "a deposit already withdrawn on the main chain is accepted for spending again");
  MBP f = L.on(d, {w0again.id}, 60); n.offer(f); CHECK(!(n.tip() == f->hash), "the same deposit was paid out twice on the main chain");
  return 0;
}
