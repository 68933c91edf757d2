#include "lab.h"
int main() {
  Lab L; MBP a = L.chain(L.w.genesis, 24); Node n(L.w, L.dir + "/n"); CHECK(n.open(), "node does not start"); L.feed(n, a);
  auto sp = L.w.spendable(a, 0, false); CHECK(!sp.empty(), "setup"); OutInfo o = sp[0];
  auto mk = [&](int to, uint64_t amt) { return L.transfer(a, 0, to, amt, 0, [&](World::TxSpec& s) { s.force = {o}; }); };
  TxInfo t1 = mk(1, 1000000), t2 = mk(2, 900000), t3 = mk(3, 800000);
  // two transactions kept from blocks that were not adopted
  n.submit(t1.tx, true); n.submit(t2.tx, true); CHECK(has(n, t1.id) && has(n, t2.id), "setup: kept transactions");
  // a block offers t1 and is refused for another reason, then takes t1 out of the set for good: mined and rolled back
  MBP b = L.on(a, {t1.id}, 60, [](World::BlockSpec& s) { s.rewardDelta = 5000; }); n.offer(b); CHECK(n.tip() == a->hash, "setup: bad block adopted");
  CHECK(has(n, t2.id), "setup: t2 pending");
  // t2 is still pending: nothing else spending its coin may be relayed
  n.submit(t3.tx); bool both = has(n, t2.id) && has(n, t3.id);
  CHECK(!both, "two pending transactions spend the same coin, the second accepted for relay");
  // the same after the first kept one was mined and rolled back
  MBP c = L.on(a, {t1.id}, 60); n.offer(c); CHECK(n.tip() == c->hash, "setup: block refused"); n.c->rollback_chain_to(a->height); n.submit(t3.tx);
  CHECK(!(has(n, t2.id) && has(n, t3.id)), "two pending transactions spend the same coin, the second accepted for relay (after a rollback)");
  return 0;
}
