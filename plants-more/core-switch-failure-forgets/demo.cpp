#include "lab.h"
int main() {
  Lab L; MBP a = L.chain(L.w.genesis, 24); MBP m = L.on(a, {}, 100);
  // a branch of two blocks, the first with a coinbase that claims too much: only found out when the node switches
  MBP x = L.on(a, {}, 60, [](World::BlockSpec& s) { s.rewardDelta = 5000; s.miner = 2; }); MBP y = L.on(x, {}, 60);
  Node n(L.w, L.dir + "/n"); CHECK(n.open(), "node does not start"); L.feed(n, m); CHECK(n.tip() == m->hash, "setup: chain refused");
  n.offer(x); CHECK(n.tip() == m->hash, "setup"); auto r = n.offer(y); CHECK(n.tip() == m->hash, "the invalid branch was adopted");
  Block b; CHECK(!n.c->getBlockByHash(x->hash, b), "the invalid block is still known");
  CHECK(!n.c->getBlockByHash(y->hash, b), "a block above the invalid one is still stored as an alternative");
  return 0;
}
