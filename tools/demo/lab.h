// A small laboratory for demonstrations: a chain builder (world.h) and real nodes on a scratch directory.
#pragma once
#include "world.h"
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <unistd.h>
#include <time.h>
using namespace w;
#define FAIL(...) do { printf("FAIL: " __VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } while (0)
#define CHECK(c, ...) do { if (!(c)) FAIL(__VA_ARGS__); } while (0)
inline Params labParams() { Params p; p.h2 = 1; p.h3 = 2; p.h4 = 3; p.h7 = 4; p.h8 = 5; return p; }
struct Lab {
  World w; std::string dir; MBP tip; uint64_t ts;
  explicit Lab(const Params& p = labParams(), uint64_t secondsBack = 0) : w(p, 4) {
    const char* d = getenv("DEMO_DIR"); dir = d ? d : "."; tip = w.genesis; ts = time(nullptr) - (secondsBack ? secondsBack : 12000);
  }
  MBP on(const MBP& parent, std::vector<Hash> txs = {}, int64_t dt = 120, std::function<void(World::BlockSpec&)> f = nullptr) {
    World::BlockSpec s; s.parent = parent; s.txs = txs; s.ts = parent->height ? parent->b.timestamp + dt : ts; if (f) f(s);
    MBP b = w.build(s); CHECK(b, "setup: block not built"); return b;
  }
  MBP chain(MBP from, int n, int64_t dt = 120) { for (int i = 0; i < n; ++i) from = on(from, {}, dt, [&](World::BlockSpec& s) { s.miner = i % 4; }); return from; }
  TxInfo transfer(const MBP& at, int from, int to, uint64_t amount, uint64_t pick = 0, std::function<void(World::TxSpec&)> f = nullptr) {
    World::TxSpec s; s.at = at; s.from = from; s.to = to; s.amount = amount; s.pick = pick; if (f) f(s); TxInfo t; CHECK(w.makeTx(s, t), "setup: transaction not built"); w.reg(t); return t;
  }
  std::vector<MBP> path(const MBP& to) { std::vector<MBP> r; for (MB* b : to->path()) r.push_back(w.blocks[b->hash]); return r; }
  void feed(Node& n, const MBP& to) { for (auto& b : path(to)) if (b->height) { n.offer(b); } }
};
inline bool has(Node& n, const Hash& id) { auto p = n.pool(); return std::find(p.begin(), p.end(), id) != p.end(); }
