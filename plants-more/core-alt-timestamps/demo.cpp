#include "lab.h"
int main() {
  Lab L; MBP a = L.chain(L.w.genesis, 44, 120); MBP m = L.chain(a, 2, 120);
  MBP x = L.on(a, {}, 100, [](World::BlockSpec& s) { s.miner = 2; });
  // the second block of the branch is older than most of its ancestors
  MBP y = L.on(x, {}, 0, [&](World::BlockSpec& s) { s.ts = L.path(a)[20]->b.timestamp - 50; });
  Node n(L.w, L.dir + "/n"); CHECK(n.open(), "node does not start"); L.feed(n, m); n.offer(x);
  n.offer(y); Block b; CHECK(!n.c->getBlockByHash(y->hash, b), "a branch block far below the median of its ancestors was accepted");
  return 0;
}
