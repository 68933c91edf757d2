// Network scenario: several real daemons (core, protocol handler, p2p server on their own dispatchers) on one
// simulated network, with mining, transactions, partitions, stalls, resets, crashes, restarts, clock changes,
// damaged peer files and hostile peers; then faults stop and the cluster has to converge.
#include "host.h"
#include <algorithm>
#include <array>
#include <fcntl.h>
#include <unistd.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <System/Timer.h>
#include <System/Context.h>
#include <System/ContextGroup.h>
#include <System/InterruptedException.h>
#include <System/TcpConnector.h>
#include <System/TcpConnection.h>
#include <System/TcpListener.h>
#include <System/Ipv4Address.h>
#include <P2p/LevinProtocol.h>
#include <P2p/P2pProtocolDefinitions.h>
#include <P2p/P2pNetworks.h>
#include <P2p/PeerListManager.h>
#include <CryptoNoteProtocol/CryptoNoteProtocolDefinitions.h>
#include <CryptoNoteCore/VerificationContext.h>
using namespace w;
using hs::hx; using hs::Plan; using hs::Op;

// No message of this simulated network is larger than a few megabytes: a huge allocation is a peer's claim believed.
void* operator new(size_t n) { if (n > (600ull << 20) && sim::isActive()) VIOL("C10", "huge-allocation", "a node allocates " << (n >> 20) << " MB at once although no peer ever sent more than a few MB"); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }

namespace {
const uint64_t SEC = 1000000000ull;
const uint16_t PORT = 15500;
std::string blobOf(const BinaryArray& b) { return std::string(b.begin(), b.end()); }
BinaryArray arr(const std::string& s) { return BinaryArray(s.begin(), s.end()); }
bool onChain(const MBP& b, const MBP& t) { const MB* x = t.get(); while (x && x->height > b->height) x = x->parent.get(); return x == b.get(); }
MBP ancestor(const MBP& t, uint32_t h) { MBP x = t; while (x && x->height > h) x = x->parent; return x; }
MBP forkPoint(MBP a, MBP b) { while (a != b) { if (a->height >= b->height) a = a->parent; else b = b->parent; } return a; }
#include "net_evil.inc"

struct NetSim {
  const Plan& plan; World w; std::vector<std::unique_ptr<Host>> H; MBP tipBase; int N; bool quietFaults = true; // no fault so far
  std::set<crypto::KeyImage, HashLess> used, spent; std::vector<Hash> submitted; std::vector<std::unique_ptr<Evil>> E;
  std::vector<uint64_t> skew; uint64_t minedBlocks = 0; bool clockMoved = false; std::set<int> diskFault;
  struct Sent { Hash id; uint64_t at; };
  NetSim(const Plan& p) : plan(p), w(paramsFrom(p), 4), N(p.num("nodes", 3)) {}
  uint32_t ipOf(int i) { return (plan.num("local") ? 0x0a000000u : 0x2d000000u) + 0x010100u * (i + 1) + 7; }
  void base() {
    uint32_t len = plan.num("base", 14); uint64_t ts = sim::wallBase / SEC - (uint64_t)len * 120 - 600; MBP cur = w.genesis; sim::Rng r(plan.seed * 31 + 5);
    for (uint32_t i = 0; i < len; ++i) { World::BlockSpec s; s.parent = cur; s.miner = r.below(w.accs.size()); s.outs = 1 + r.below(4); ts += 90 + r.below(60);
      if (cur->height > 11 && r.chance(0.4)) { TxInfo t; World::TxSpec q; q.at = cur; q.from = r.below(4); q.to = r.below(4); q.amount = 1000 + r.below(300000); q.fee = 1000 + r.below(2000); q.nOuts = 1 + r.below(2); q.pick = r.next(); if (w.makeTx(q, t) && t.bad.empty()) { w.reg(t); s.txs.push_back(t.id); } }
      s.ts = ts; cur = w.build(s); if (!cur || !cur->bad.empty()) VIOL("", "harness", "base block " << i << " " << (cur ? cur->bad : "unbuildable")); ts = cur->b.timestamp; }
    tipBase = cur;
  }
  void feed(core& c, const MBP& to) { Hash top; uint32_t n; c.get_blockchain_top(n, top); auto f = w.blocks.find(top); if (f == w.blocks.end() || !onChain(f->second, to)) return; // restarted on another branch
    for (MB* b : to->path()) { if (!b->height || c.have_block(b->hash)) continue;
      for (auto& t : b->txs) { tx_verification_context tv{}; c.handle_incoming_tx(toBinaryArray(t), tv, true); }
      block_verification_context bv{}; c.handle_incoming_block_blob(toBinaryArray(b->b), bv, false, false);
      if (!bv.m_added_to_main_chain) VIOL("C06,C01", "base-refused", "a node refuses block " << b->height << " of the base chain"); } }
  void makeHosts() {
    uint64_t topo = plan.num("topo");
    for (int i = 0; i < N; ++i) { H.emplace_back(new Host(w, i, ipOf(i))); Host& h = *H.back(); h.cfg.setAllowLocalIp(plan.num("local")); h.cfg.setHideMyPort(plan.num("hide") >> i & 1); h.indexes = plan.num("indexes"); }
    for (int i = 0; i < N; ++i) {
      std::vector<NetworkAddress> a; auto add = [&](int j) { if (j >= 0 && j < N && (j != i || plan.num("self"))) a.push_back({netOrder(ipOf(j)), PORT}); };
      switch (topo) {
      case 0: for (int j = 0; j < i; ++j) add(j); break;                        // full mesh, one way
      case 1: if (i) add(i - 1); break;                                         // line
      case 2: if (i) add(0); break;                                             // star
      case 3: for (int j = 0; j < N; ++j) if (j != i) add(j); break;            // both sides connect
      case 4: case 5: break;                                                    // gossip through the first node
      }
      if (plan.num("self") && topo < 4) add(i);
      for (size_t e = 0; e < plan.num("evils"); ++e) if (plan.num("evil" + std::to_string(e) + "srv") && (plan.num("evil" + std::to_string(e) + "vic") >> i & 1)) a.push_back({netOrder(evilIp(e)), PORT});
      if (topo < 4 && plan.num("exclusive", 1)) { if (a.empty()) a.push_back({netOrder(0x2d7f0101), PORT}); H[i]->cfg.setExclusiveNodes(a); } else H[i]->cfg.setPriorityNodes(a);
      if (topo == 4 && i) H[i]->cfg.setSeedNodes({{netOrder(ipOf(0)), PORT}});
      if (topo == 5) { std::vector<PeerlistEntry> ps; for (int j = 0; j < N; ++j) if (j == (i + 1) % N) { PeerlistEntry e{}; e.adr = {netOrder(ipOf(j)), PORT}; e.id = 1000 + j; ps.push_back(e); } H[i]->cfg.setPeers(ps); }
      uint64_t have = plan.num("have" + std::to_string(i), 1000);
      MBP b = ancestor(tipBase, std::min<uint64_t>(have, tipBase->height)); H[i]->onUp = [this, b](Host& h) { feed(*h.c, b); };
    }
  }
  uint32_t evilIp(int e) { return 0x2e010101u + e * 0x10000u; }
  bool startNode(int i, bool mustWork = true) {
    Host& h = *H[i]; h.sweep(); if (h.st == Host::UP || h.st == Host::STARTING) return true;
    h.start(); if (!h.waitUp(600 * SEC) && mustWork && h.st != Host::OFF) VIOL(diskFault.count(i) ? "C11,C04" : "C11,C04,C19", "start-failed", "node " << i << " does not start: " << h.error); return h.st == Host::UP;
  }
  void learn(int i, const Hash& top) {
    Host& h = *H[i]; std::vector<Block> bs; h.call([&] { Hash x = top; while (!w.blocks.count(x) && bs.size() < 50) { Block b; if (!h.c->getBlockByHash(x, b)) return; bs.push_back(b); x = b.previousBlockHash; } });
    for (; !bs.empty(); bs.pop_back()) { auto p = w.blocks.find(bs.back().previousBlockHash); if (p == w.blocks.end()) return; if (!w.adopt(bs.back(), p->second)) return; hs::count("evil:valid-by-chance"); }
  }
  MBP tipOf(int i, std::vector<Hash>* pool = nullptr) {
    Hash t = NULL_HASH; Host& h = *H[i]; bool ok = h.call([&h, &t, pool] { uint32_t n; h.c->get_blockchain_top(n, t); if (pool) for (auto& x : h.c->getPoolTransactions()) pool->push_back(getObjectHash(x)); });
    if (!ok) { if (h.st == Host::UP) VIOL("C10,C19", "node-stuck", "node " << i << " answers nothing for two minutes: " << sim::dumpThreads()); return nullptr; }
    auto f = w.blocks.find(t); if (f == w.blocks.end() && !E.empty()) { learn(i, t); f = w.blocks.find(t); } // a hostile peer's altered block may happen to be valid
    if (f == w.blocks.end()) VIOL("C10,C09", "unknown-block", "node " << i << " is on a block nobody made: " << hx(t));
    if (!f->second->bad.empty()) VIOL("C10,C09,C06", "invalid-block", "node " << i << " adopted an invalid block: " << f->second->bad);
    return f->second;
  }
  // ---------------------------------------------------------------- operations
  MBP mine(int i, bool must = false) {
    Host& h = *H[i]; MBP res; std::string err; bool added = false; uint64_t n0 = sim::mix64(plan.seed + minedBlocks);
    h.call([&] { Block b; difficulty_type d = 0; uint32_t ht = 0; BinaryArray nonce; nonce.assign(8, 0); memcpy(&nonce[0], &n0, 8);
      if (!h.c->get_block_template(b, w.accs[n0 % 4].address, d, ht, nonce)) { err = "no template"; return; }
      auto pf = w.blocks.find(b.previousBlockHash); if (pf == w.blocks.end()) { err = "template on an unknown block"; return; }
      for (auto& id : b.transactionHashes) if (!w.txs.count(id)) { err = "unknown transaction in template"; return; }
      Hash pow; for (b.nonce = 0;; ++b.nonce) { if (!get_block_longhash(*w.ctx, b, pow)) { err = "no long hash"; return; } if (powOk(pow, d)) break; }
      res = w.adopt(b, pf->second); if (res && !res->bad.empty()) { err = "invalid: " + res->bad; return; }
      uint64_t clk = time(nullptr); if (b.timestamp > clk + w.p.future || res->needTime > clk) { res = nullptr; return; }
      added = h.c->handle_block_found(b); if (!added) { Hash t; uint32_t n; h.c->get_blockchain_top(n, t); if (t == b.previousBlockHash) err = "its own block on its tip was refused"; }
    });
    if (!err.empty()) VIOL("C07,C23", "mine", "node " << i << " mining: " << err);
    if (res && added) { ++minedBlocks; hs::count("mined"); sim::traceEvent(41, i, res->height); return res; }
    return nullptr;
  }
  bool submit(int i, const TxInfo& t, bool relay = true) {
    Host& h = *H[i]; bool ok = false; BinaryArray blob = toBinaryArray(t.tx);
    h.call([&] { tx_verification_context tv{}; if (!h.c->handle_incoming_tx(blob, tv, false) || tv.m_verification_failed || !tv.m_should_be_relayed) return; ok = true;
      if (relay) { NOTIFY_NEW_TRANSACTIONS::request r; r.txs.push_back(blobOf(blob)); h.c->get_protocol()->relay_transactions(r); } });
    return ok;
  }
  bool makeTx(const MBP& at, uint64_t r, TxInfo& t, bool fresh = false) { // fresh: conflicts with no transaction made so far
     World::TxSpec s; s.at = at; s.from = r % 4; s.to = (r >> 8) % 4; s.amount = 1000 + (r >> 16) % 200000; s.fee = (r >> 34) % 10 ? 1000 : 1000 + (r >> 38) % 3000; /* only the standard fee is relayed */ s.nOuts = 1 + (r >> 12) % 3; s.mixin = (r >> 50) % 2 ? (r >> 51) % 3 : 0; s.pick = sim::mix64(r); s.avoid = fresh ? &spent : &used; s.pad = (r >> 54) % 4 == 0 ? 200 + (r >> 56) * 20 : 0; if (fresh) s.fee = 1000; if (!w.makeTx(s, t) || !t.bad.empty()) return false;
    for (auto& in : t.tx.inputs) if (in.type() == typeid(KeyInput)) { auto& k = boost::get<KeyInput>(in).keyImage; spent.insert(k); if (r >> 60 != 3) used.insert(k); }
    w.reg(t); return true; }
  void opTx(const Op& o) { int i = o.arg(0) % N; if (!up(i)) return; MBP tip = tipOf(i); if (!tip) return; TxInfo t; if (!makeTx(tip, sim::mix64(o.arg(1)), t)) return; if (submit(i, t, o.arg(2) % 8 != 0)) { submitted.push_back(t.id); hs::count("txs"); } }
  bool up(int i) { H[i]->sweep(); return H[i]->st == Host::UP; }
  void fault(const char* k) { quietFaults = false; hs::count(std::string("fault:") + k); }
  void doOp(const Op& o) {
    int i = o.arg(0) % N, j = (i + 1 + o.arg(1) % std::max(1, N - 1)) % N; sim::reseedContent(sim::mix64(o.arg(1) ^ plan.seed * 77));
    if (o.name == "mine") { for (uint64_t k = 0, n = 1 + (o.arg(1) % 8 == 0 ? o.arg(2) % 3 : 0); k < n; ++k) if (up(i) && depthOk(i)) mine(i); }
    else if (o.name == "tx") opTx(o);
    else if (o.name == "wait") sim::sleepNs(o.arg(1) * 1000000ull);
    else if (o.name == "cut") { if (i != j) { sim::setLink(i, j, false); fault("cut"); } }
    else if (o.name == "part") { for (int a = 0; a < N; ++a) for (int b = 0; b < a; ++b) sim::setLink(a, b, (o.arg(1) >> a & 1) == (o.arg(1) >> b & 1)); fault("partition"); }
    else if (o.name == "heal") healLinks();
    else if (o.name == "down") { sim::setHostDown(i, o.arg(1) % 3 != 0); fault("hostdown"); }
    else if (o.name == "stall") { sim::setStall(i, o.arg(1) % 3 != 0); fault("stall"); }
    else if (o.name == "reset") { if (i != j) { sim::resetConnections(i, j); fault("reset"); } }
    else if (o.name == "crash") { if (up(i)) { H[i]->kill(); fault("crash"); } }
    else if (o.name == "diskcrash") { if (up(i)) { sim::DiskPlan d; d.crashAt = o.arg(1) % 30; d.crashMode = o.arg(2) % 3; if (o.arg(2) / 3 % 4 == 0) d.only = "p2pstate"; sim::armDisk(i, d); fault("diskcrash"); } }
    else if (o.name == "stop") { if (up(i)) orderlyStop(i); fault("stop"); }
    else if (o.name == "start") { startNode(i); }
    else if (o.name == "clock") { int64_t d = (int64_t)(1 + o.arg(1) % 3300) * (o.arg(2) % 2 ? -1 : 1); sim::setWallOffset(i, d * (int64_t)SEC); clockMoved = true; fault("clock"); }
    else if (o.name == "peerfile") { peerFile(i, o); }
    else if (o.name == "evil") { evilSession(o); }
    else if (o.name == "check") bookkeeping(false);
  }
  bool depthOk(int i) { // keep private branches short enough for the reorganisation limit
    MBP t = tipOf(i); if (!t) return false; MBP b; for (int k = 0; k < N; ++k) if (up(k)) { MBP x = tipOf(k); if (x && (!b || x->cum > b->cum)) b = x; }
    if (!b || !t || t == b) { for (int k = 0; k < N; ++k) if (up(k)) { MBP x = tipOf(k); if (x && t && t->height - forkPoint(t, x)->height > 7 && !onChain(x, t)) return false; } return true; }
    return t->height - forkPoint(t, b)->height <= 7;
  }
  void healLinks() { for (int a = 0; a < N; ++a) { for (int b = 0; b < a; ++b) sim::setLink(a, b, true); sim::setHostDown(a, false); sim::setStall(a, false); } }
  struct Lists { std::map<std::pair<uint32_t, uint32_t>, int> m; size_t white = 0, gray = 0; };
  bool lists(int i, Lists& l) { Host& h = *H[i]; std::list<PeerlistEntry> g, wh; if (!h.call([&] { h.s->getPeerlistManager().get_peerlist_full(g, wh); })) return false; checkLists(i, g, wh); for (auto& x : wh) l.m[{x.adr.ip, x.adr.port}] = 1; for (auto& x : g) l.m[{x.adr.ip, x.adr.port}] = 2; l.white = wh.size(); l.gray = g.size(); return true; }
  void checkLists(int i, const std::list<PeerlistEntry>& g, const std::list<PeerlistEntry>& wh) {
    std::set<std::pair<uint32_t, uint32_t>> a; auto nm = [](const PeerlistEntry& e) { return ipText(netOrder(e.adr.ip)) + ":" + std::to_string(e.adr.port); };
    for (auto* l : {&wh, &g}) for (auto& e : *l) {
      if (!a.insert({e.adr.ip, e.adr.port}).second) VIOL("C11", "peer-twice", "node " << i << " lists " << nm(e) << " twice");
      uint32_t ip = netOrder(e.adr.ip); bool loop = ip >> 24 == 127, priv = ip >> 24 == 10 || ip >> 16 == 0xc0a8 || (ip >> 20 == 0xac1);
      if (loop) VIOL("C11", "peer-loopback", "node " << i << " lists loopback address " << nm(e)); if (priv && !(plan.num("local") && plan2local)) VIOL("C11", "peer-private", "node " << i << " lists private address " << nm(e)); }
    if (wh.size() > 1000 || g.size() > 5000) VIOL("C11", "peer-limit", "node " << i << ": " << wh.size() << " trusted and " << g.size() << " other peers");
    hs::count("peer-lists-checked");
  }
  void orderlyStop(int i) {
    Lists before; bool have = lists(i, before); Host& h = *H[i]; uint64_t t = sim::now();
    if (!h.stop(90 * SEC)) VIOL("C19", "stop-hangs", "node " << i << " does not shut down: " << sim::dumpThreads());
    hs::count("orderly-stops"); (void)t; sim::killNode(i);
    if (have && !sim::diskPlan(i).crashed && !sim::diskPlan(i).errsFired) stored[i] = before; else stored.erase(i);
    if (sim::openSockets(i)) VIOL("C11,C19", "sockets-left", "node " << i << " has stopped with " << sim::openSockets(i) << " sockets");
  }
  std::map<int, Lists> stored;
  void peerFile(int i, const Op& o) { // the file was damaged while the node was down
    if (up(i)) { if (o.arg(1) % 2) H[i]->kill(); else orderlyStop(i); fault("stop"); }
    if (H[i]->st == Host::STARTING) return;
    stored.erase(i); std::string f = H[i]->dir + "/p2pstate.bin"; std::string s; { FILE* p = fopen(f.c_str(), "rb"); if (p) { char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n); fclose(p); } }
    sim::Rng r(o.arg(2)); switch (o.arg(3) % 5) { case 0: s.resize(r.below(s.size() + 1)); break; case 1: for (int k = 0, n = 1 + r.below(20); k < n && !s.empty(); ++k) s[r.below(s.size())] = r.next(); break; case 2: s.clear(); break; case 3: s.assign(r.below(300), 0); for (auto& c : s) c = r.next(); break; case 4: s += std::string(r.below(50), 'x'); break; }
    FILE* p = fopen(f.c_str(), "wb"); if (p) { fwrite(s.data(), 1, s.size(), p); fclose(p); } fault("peerfile");
    bool arbitrary = o.arg(3) % 5 == 1 || o.arg(3) % 5 == 3; // the file may now hold any addresses: only starting and stopping is checked, in isolation
    if (arbitrary) sim::setHostDown(i, true); startNode(i);
    if (up(i)) { Lists l; lists(i, l); }
    if (arbitrary) { sim::sleepNs(3 * SEC); if (up(i)) orderlyStop(i); sim::setHostDown(i, false); stored.erase(i); remove(f.c_str()); startNode(i); }
  }
  // ---------------------------------------------------------------- bookkeeping (C11)
  struct Book { size_t conns = 0, shook = 0, sockets = 0, count = 0; std::vector<std::string> self; std::map<uint32_t, int> peers; std::string dump; };
  bool book(int i, Book& b) {
    Host& h = *H[i]; b = Book(); std::list<PeerlistEntry> g, wh; uint32_t own = netOrder(ipOf(i));
    bool ok = h.call([&] { IP2pEndpoint* e = h.s; std::ostringstream d; e->for_each_connection([&](const CryptoNoteConnectionContext& c, PeerIdType id) { b.conns++; if (c.m_state != CryptoNoteConnectionContext::state_befor_handshake) b.shook++; b.peers[netOrder(c.m_remote_ip)]++; d << (c.m_is_income ? " in " : " out ") << ipText(netOrder(c.m_remote_ip)) << ":" << c.m_remote_port << " " << get_protocol_state_string(c.m_state) << " h" << c.m_remote_blockchain_height; if (c.m_remote_ip == own) b.self.push_back(std::string((const char*)&c.m_connection_id, 16)); });
      b.dump = d.str(); b.count = h.h->getPeerCount(); b.sockets = sim::openSockets(i); h.s->getPeerlistManager().get_peerlist_full(g, wh); });
    if (ok) checkLists(i, g, wh); return ok;
  }
  void bookkeeping(bool quiet) {
    for (int i = 0; i < N; ++i) if (up(i)) {
      Book b; std::string why; for (int t = 0; t < 8; ++t) { // a connection may be half way through a handshake
        if (!up(i) || !book(i, b)) { why.clear(); break; } why.clear(); std::ostringstream m;
        if (b.count != b.shook) { m << "it counts " << b.count << " peers but has " << b.shook << " connections past the handshake"; }
        else if (quiet && (b.sockets < b.conns + 1 || b.sockets > b.conns + 2)) { // at most one address is being dialled
          m << b.sockets << " sockets for " << b.conns << " connections and one listener"; }
        why = m.str(); if (why.empty()) break; sim::sleepNs(3700000000ull + t * 100000000ull); }
      if (!why.empty()) VIOL("C11", "bookkeeping", "node " << i << ": " << why << ";" << b.dump); hs::count("bookkeeping-checked");
      if (!b.self.empty() && (quiet || quietFaults)) { std::set<std::string> s(b.self.begin(), b.self.end()); sim::sleepNs(40 * SEC); if (up(i) && book(i, b)) for (auto& x : b.self) if (s.count(x)) VIOL("C11", "self-connection", "node " << i << " stays connected to itself;" << b.dump); }
    }
  }
  // ---------------------------------------------------------------- hostile peers
#include "net_evil_run.inc"
  // ---------------------------------------------------------------- the end: faults stop
  bool blocked(const MBP& from, const MBP& to) { // the reorganisation limits forbid the switch
    MBP f = forkPoint(from, to); if (from->height - f->height >= 9) return true;
    for (MBP x = from; x != f; x = x->parent) for (auto& t : x->b.transactionHashes) if (!to->led->tx.count(t)) return true;
    return false;
  }
  void repairOverlay() { // gossip may have lost the only address that held the overlay together (lost lists, hidden ports): then nodes are told about the first one
    sim::sleepNs(60 * SEC); std::set<int> seen{0}; std::vector<std::set<int>> adj(N);
    for (int i = 0; i < N; ++i) { Lists l; if (lists(i, l)) for (int j = 0; j < N; ++j) if (j != i && l.m.count({netOrder(ipOf(j)), PORT})) { adj[i].insert(j); adj[j].insert(i); } }
    for (bool ch = true; ch;) { ch = false; for (int a : std::set<int>(seen)) for (int b : adj[a]) if (seen.insert(b).second) ch = true; }
    for (int i = 1; i < N; ++i) if (!seen.count(i)) { hs::count("overlay-repaired"); orderlyStop(i); H[i]->cfg.setPriorityNodes({{netOrder(ipOf(0)), PORT}}); startNode(i); }
  }
  std::vector<MBP> tips() { std::vector<MBP> t; for (int i = 0; i < N; ++i) t.push_back(tipOf(i)); return t; }
  std::string show(const std::vector<MBP>& t) { std::ostringstream o; for (int i = 0; i < N; ++i) { Book b; if (t[i]) o << " node" << i << "=" << t[i]->height << "/" << hx(t[i]->hash, 2) << "/" << t[i]->cum; if (up(i) && book(i, b)) o << " [" << b.dump << " ]"; } return o.str(); }
  bool outside = false;
  bool settle(uint64_t limit, bool tieOk) { // true: all nodes on one tip
    uint64_t dl = sim::now() + limit;
    for (;;) {
      auto t = tips(); for (auto& x : t) if (!x) return false; MBP best = t[0]; for (auto& x : t) if (x->cum > best->cum) best = x; bool eq = true, tie = true; for (auto& x : t) { if (x != best) eq = false; if (x->cum != best->cum) tie = false; }
      if (eq || (tie && tieOk)) return true; if (sim::now() > dl) return false; sim::sleepNs(500000000ull);
    }
  }
  void final() {
    bool stay = plan.num("evilstay"); if (!stay) for (auto& e : E) e->quit(); healLinks(); for (int i = 0; i < N; ++i) { sim::armDisk(i, sim::DiskPlan()); sim::setWallOffset(i, 0); }
    sim::sleepNs(SEC); for (int i = 0; i < N; ++i) { H[i]->sweep(); startNode(i); if (!up(i)) { sim::sleepNs(SEC); startNode(i); } if (!up(i)) VIOL("C04,C11,C19", "start-failed", "node " << i << " does not come up: " << H[i]->error); }
    if (plan.num("topo") >= 4) repairOverlay();
    uint64_t t0 = sim::now(); bool fork = false;
    for (auto& a : tips()) for (auto& b : tips()) if (a != b && !onChain(a, b) && !onChain(b, a)) fork = true; if (fork) hs::count("forked-before-heal");
    const uint64_t limit = 15 * 60 * SEC;
    if (!settle(limit, true)) notConverged("C09", "the nodes have not converged 15 minutes after the last fault:");
    if (outside) return;
    for (int k = 0; k < 3; ++k) { auto t = tips(); bool same = true; for (auto& x : t) if (x != t[0]) same = false; if (same) break; if (k == 2) VIOL("C09", "tie-forever", "the tie persists"); int i = 0; if (!mine(i)) { sim::sleepNs(61 * SEC); mine(i); } if (!settle(limit, false)) notConverged("C09", "a block mined on one of two equal branches does not bring the nodes together:"); if (outside) return; }
    hs::count("converged"); hs::count("converge-seconds", (sim::now() - t0) / SEC); if (fork) hs::count("converged-after-fork");
    // everything is connected and fault-free now: spreading (C12)
    sim::sleepNs(2 * SEC); waitConnected(); spread(); if (stay) { for (auto& e : E) e->quit(); hs::count("spread-among-hostile"); sim::sleepNs(5 * SEC); } quiet();
    bookkeeping(true);
    for (int i = 0; i < N; ++i) { Book b; if (book(i, b)) { sim::traceEvent(47, i, b.conns); } }
    for (int i = 0; i < N; ++i) orderlyStop(i);
    for (int i = 0; i < N; ++i) if (plan.num("reopen") >> i & 1) { startNode(i); Lists l; if (stored.count(i) && lists(i, l)) for (auto& x : stored[i].m) if (!l.m.count(x.first)) VIOL("C11", "peer-lost", "node " << i << " forgot a peer over an orderly restart"); hs::count("lists-after-restart"); orderlyStop(i);
      if (plan.num("local") && plan.num("reopen") >> 5 & 1) { plan2local = false; H[i]->cfg.setAllowLocalIp(false); startNode(i); Lists k; lists(i, k); hs::count("local-now-forbidden"); orderlyStop(i); plan2local = true; } }
  }
  bool plan2local = true; // false: private addresses are not allowed any more
  void notConverged(const char* props, const char* what) {
    if (getenv("SIM_DEBUG")) for (int i = 0; i < N; ++i) { std::list<PeerlistEntry> g, wh; uint64_t me = 0; H[i]->call([&] { H[i]->s->getPeerlistManager().get_peerlist_full(g, wh); me = H[i]->s->get_connections_count(); }); for (auto* q : {&wh, &g}) for (auto& e : *q) fprintf(stderr, "node%d %s list: %s id %llx\n", i, q == &wh ? "white" : "gray", ipText(netOrder(e.adr.ip)).c_str(), (unsigned long long)e.id); }
    auto t = tips(); MBP best = t[0]; for (auto& x : t) if (x && x->cum > best->cum) best = x;
    for (auto& x : t) if (x && x != best && blocked(x, best)) { outside = true; hs::count("outside-envelope"); return; }
    VIOL(props, "not-converged", what << show(t));
  }
  void waitConnected() { // until the overlay is connected in the sense every node has a peer past the handshake
    uint64_t dl = sim::now() + 300 * SEC;
    for (;;) { std::set<int> seen{0}; std::vector<std::set<int>> adj(N); for (int i = 0; i < N; ++i) { Book b; if (book(i, b)) for (int j = 0; j < N; ++j) if (j != i && b.peers.count(ipOf(j))) { adj[i].insert(j); adj[j].insert(i); } }
      for (bool ch = true; ch;) { ch = false; for (int a : std::set<int>(seen)) for (int b : adj[a]) if (seen.insert(b).second) ch = true; }
      if ((int)seen.size() == N) return; if (sim::now() > dl) { VIOL("C09,C11", "disconnected", "the nodes do not reconnect:" << show(tips())); } sim::sleepNs(2 * SEC); }
  }
  void allNormal() { uint64_t dl = sim::now() + 200 * SEC; for (;;) { bool ok = true; for (int i = 0; i < N; ++i) { Host& h = *H[i]; h.call([&] { ((IP2pEndpoint*)h.s)->for_each_connection([&](const CryptoNoteConnectionContext& c, PeerIdType) { if (c.m_state != CryptoNoteConnectionContext::state_normal && !fromEvil(netOrder(c.m_remote_ip))) ok = false; }); }); } if (ok) return; if (sim::now() > dl) VIOL("C09,C12", "not-normal", "connections of converged, quiet nodes never leave the synchronising state:" << show(tips())); sim::sleepNs(SEC); } }
  void spread() {
    bool settled = plan.num("settled"); if (settled) allNormal();
    uint64_t limit = (settled ? 20 : 130) * SEC; sim::Rng r(plan.seed ^ 0x51);
    for (int round = 0; round < 2; ++round) {
      int i = r.below(N); MBP tip = tipOf(i); TxInfo t; bool sent = false; for (int k = 0; k < 6 && !sent; ++k) if (makeTx(tip, r.next(), t, true) && submit(i, t)) sent = true;
      if (sent) { uint64_t dl = sim::now() + limit; for (;;) { int miss = -1; for (int j = 0; j < N; ++j) { std::vector<Hash> p; tipOf(j, &p); if (std::find(p.begin(), p.end(), t.id) == p.end()) miss = j; } if (miss < 0) { hs::count("tx-spread"); break; } if (sim::now() > dl) VIOL("C12", "tx-not-spread", "a transaction given to node " << i << " has not reached node " << miss << " after " << limit / SEC << " s:" << show(tips())); sim::sleepNs(250000000ull); } submitted.push_back(t.id); }
      i = r.below(N); MBP m = mine(i); if (m) { uint64_t dl = sim::now() + limit; for (;;) { auto t2 = tips(); bool eq = true; for (auto& x : t2) if (x != m) eq = false; if (eq) { hs::count("block-spread"); break; } if (sim::now() > dl) VIOL("C12,C09", "block-not-spread", "a block mined by node " << i << " has not reached every node after " << limit / SEC << " s:" << show(t2)); sim::sleepNs(250000000ull); } }
    }
  }
  void quiet() { uint64_t b0 = stat("net.bytes"), s0 = stat("net.sends"); if (plan.num("self")) return; /* a node told to connect to itself keeps trying */ sim::sleepNs(100 * SEC); uint64_t b = stat("net.bytes") - b0, s = stat("net.sends") - s0; if (s > (uint64_t)N * N * 60) VIOL("C12", "never-quiet", "the idle network carries " << s << " messages (" << b << " bytes) in 100 s"); hs::count("quiet-sends", s); }
  static uint64_t stat(const char* k) { auto& m = sim::stats(); auto f = m.find(k); return f == m.end() ? 0 : f->second; }
  void run() {
    base(); makeHosts(); makeEvils();
    for (int i = 0; i < N; ++i) if (plan.num("startmask", 255) >> i & 1) startNode(i);
    sim::sleepNs(plan.num("warm", 5) * SEC);
    size_t k = 0; for (auto& o : plan.ops) { hs::report().curOp = k++; doOp(o); hs::report().opsDone++; sim::sleepNs(o.arg(5) % plan.num("gap", 4000) * 1000000ull);
      uint64_t st = 0; for (int i = 0; i < N; ++i) if (up(i)) { MBP t = tipOf(i); if (t) st = sim::mix64(st ^ t->cum * 31 + t->height * 7 + i); } hs::state(st); }
    hs::report().curOp = k; final();
  }
};

Plan genNet(uint64_t seed, const std::string& focus) {
  Plan p; sim::Rng r(sim::mix64(seed) ^ hs::fnv(focus)); p.focus = focus; p.seed = seed;
  int N = r.range(2, 5); if (focus == "C10") N = r.range(2, 3); p.set("nodes", N); p.set("topo", focus == "C11" ? r.range(3, 5) : r.below(6)); p.set("local", r.chance(0.3)); p.set("self", r.chance(focus == "C11" ? 0.5 : 0.15)); p.set("exclusive", r.chance(0.6));
  p.set("base", r.chance(0.06) ? r.range(140, 200) : r.range(13, 22)); p.set("hide", r.chance(0.2) ? r.below(32) : 0); p.set("indexes", r.chance(0.3)); p.set("settled", r.chance(0.6)); p.set("reopen", r.chance(0.5) ? r.below(64) : 0);
  for (int i = 0; i < N; ++i) if (r.chance(0.15)) p.set("have" + std::to_string(i), r.chance(0.5) ? 0 : r.range(1, 20));
  p.set("startmask", r.chance(0.25) ? r.below(1 << N) | 1 : 255); p.set("warm", r.chance(0.5) ? r.range(1, 8) : r.range(8, 70)); p.set("gap", r.chance(0.3) ? 150 : r.chance(0.5) ? 3000 : 20000);
  p.set("h2", 1); p.set("h3", 2); p.set("h4", 3); p.set("h7", 4); p.set("h8", 5);
  if (r.chance(0.5)) p.set("t_lat", r.range(100000, 200000000)); if (r.chance(0.5)) p.set("t_jitter", r.range(1000, 300000000)); if (r.chance(0.3)) p.set("t_sockbuf", r.range(600, 20000)); if (r.chance(0.4)) { p.setr("t_frag", 0.1 + 0.01 * r.below(60)); p.setr("t_shortread", 0.01 * r.below(70)); }
  if (r.chance(0.3)) p.setr("t_shuffle", 0.3);
  std::vector<std::pair<std::string, int>> ops = {{"mine", 30}, {"tx", 24}, {"wait", 10}, {"check", 3}}; bool faults = !(focus == "C12" ? r.chance(0.7) : focus == "C10" ? r.chance(0.55) : r.chance(0.12));
  if (faults) for (auto& x : std::vector<std::pair<std::string, int>>{{"cut", 6}, {"part", 6}, {"heal", 7}, {"down", 3}, {"stall", 3}, {"reset", 4}, {"crash", 4}, {"diskcrash", 2}, {"stop", 3}, {"start", 8}, {"clock", 2}, {"peerfile", 2}}) if (r.chance(0.6)) ops.push_back({x.first, x.second * (r.chance(0.3) ? 3 : 1)});
  if (focus == "C11") { ops.push_back({"reset", 8}); ops.push_back({"stop", 5}); ops.push_back({"start", 10}); ops.push_back({"peerfile", 6}); ops.push_back({"check", 8}); }
  if (focus == "C10" || focus == "C11" || r.chance(0.2)) { genEvil(p, r, N); ops.push_back({"evil", focus == "C10" ? 90 : 14}); if (!faults && p.num("topo") < 4) p.set("evilstay", r.chance(0.6)); }
  uint64_t sum = 0; for (auto& x : ops) sum += x.second; int n = r.range(10, focus == "C09" ? 34 : 26);
  for (int k = 0; k < n; ++k) { uint64_t v = r.below(sum); for (auto& x : ops) { if (v < (uint64_t)x.second) { uint64_t a1 = r.next() >> 16; if (x.first == "wait") a1 = r.chance(0.3) ? r.range(60000, 200000) : r.range(100, 20000); p.op(x.first, {r.next() >> 16, a1, r.next() >> 16, r.next() >> 16, r.next() >> 16, r.next() >> 16}); break; } v -= x.second; } }
  return p;
}
void runNet(const Plan& p) {
  sim::start(p.seed, hs::scratchDir()); hs::applyTune(p); sim::setMaxSteps(80000000); hs::setFailureProps("C10,C09", "C19,C09");
  NetSim s(p); s.run();
}
hs::AutoReg reg({"net", genNet, runNet});
}
