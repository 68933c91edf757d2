#include "host.h"
#include <System/Timer.h>
struct UPNPDev; struct UPNPUrls; struct IGDdatas;
extern "C" {
UPNPDev* upnpDiscover(int, const char*, const char*, int, int, unsigned char, int* e) { if (e) *e = -1; return nullptr; }
int UPNP_GetValidIGD(UPNPDev*, UPNPUrls*, IGDdatas*, char*, int) { return 0; }
int UPNP_AddPortMapping(const char*, const char*, const char*, const char*, const char*, const char*, const char*, const char*, const char*) { return -1; }
void freeUPNPDevlist(UPNPDev*) {}
void FreeUPNPUrls(UPNPUrls*) {}
}
namespace w {
uint32_t netOrder(uint32_t x) { return __builtin_bswap32(x); }
std::string ipText(uint32_t x) { std::ostringstream o; o << (x >> 24) << '.' << (x >> 16 & 255) << '.' << (x >> 8 & 255) << '.' << (x & 255); return o.str(); }
Host::Host(World& w, int id, uint32_t ip) : w(w), id(id), ip(ip) {
  char b[32]; snprintf(b, sizeof b, "/n%02d", id); dir = hs::scratchDir() + b;
  sim::setNodeIp(id, ip);
  cfg.setTestnet(w.p.testnet); cfg.setBindIp("0.0.0.0"); cfg.setBindPort(15500); cfg.setConfigFolder(dir); cfg.setP2pStateFilename("p2pstate.bin");
}
void Host::body(unsigned myGen) {
  try {
    platform_system::Dispatcher dispatcher;
    core ccore(*w.cur, nullptr, nolog, indexes, false);
    if (!cps.empty()) { Checkpoints cp(nolog); for (auto& x : cps) cp.add_checkpoint(x.first, common::podToHex(x.second)); ccore.set_checkpoints(std::move(cp)); }
    CryptoNoteProtocolHandler protocol(*w.cur, dispatcher, ccore, nullptr, nolog);
    NodeServer p2p(dispatcher, protocol, nolog);
    RpcServer rpcServer(dispatcher, nolog, ccore, p2p, protocol);
    protocol.set_p2p_endpoint(&p2p); ccore.set_cryptonote_protocol(&protocol);
    if (!p2p.init(cfg)) { error = "p2p init failed"; st = FAILED; return; }
    CoreConfig cc; cc.configFolder = dir; cc.configFolderDefaulted = false; cc.testnet = w.p.testnet;
    MinerConfig mc; mc.miningThreads = miningThreads; mc.startMining = miningAddr;
    if (!ccore.init(cc, mc, true)) { error = "core init failed"; st = FAILED; return; }
    if (rpc) { rpcServer.start("0.0.0.0", 16600); }
    d = &dispatcher; c = &ccore; h = &protocol; s = &p2p; r = &rpcServer; st = UP;
    if (onUp) onUp(*this);
    p2p.run();
    st = STOPPING;
    if (rpc) rpcServer.stop();
    ccore.deinit(); p2p.deinit();
    ccore.set_cryptonote_protocol(nullptr); protocol.set_p2p_endpoint(nullptr);
  } catch (std::exception& e) { if (gen == myGen) { error = e.what(); st = FAILED; d = nullptr; c = nullptr; h = nullptr; s = nullptr; r = nullptr; } return; }
  st = OFF; d = nullptr; c = nullptr; h = nullptr; s = nullptr; r = nullptr;
}
void Host::start() { unsigned g = ++gen; st = STARTING; error.clear(); cl = std::make_shared<Client>(); auto c = cl;
  tid = sim::spawn(id, "daemon", [this, g] { body(g); });
  sim::spawn(id, "client", [c] { for (;;) { while (!c->q.empty()) { auto f = c->q.front(); c->q.pop_front(); f(); } c->sig.wait(UINT64_MAX); } });
}
void Host::sweep() { if ((st == UP || st == STARTING || st == STOPPING) && tid >= 0 && sim::threadDied(tid)) { st = OFF; error = "killed"; d = nullptr; c = nullptr; h = nullptr; s = nullptr; r = nullptr; } }
bool Host::waitUp(uint64_t t) { sim::waitUntil([&] { sweep(); return st != STARTING; }, t); return st == UP; }
void Host::kill() { if (st == OFF || st == FAILED) return; sim::killNode(id); st = OFF; d = nullptr; c = nullptr; h = nullptr; s = nullptr; r = nullptr; }
bool Host::stop(uint64_t t) {
  if (st != UP) return true;
  NodeServer* srv = s; client([srv] { srv->sendStopSignal(); });
  return sim::waitUntil([&] { sweep(); return st == OFF || st == FAILED; }, t) && (sim::joinFor(tid, 10000000000ull) || sim::threadDied(tid));
}
void Host::client(std::function<void()> fn) {
  auto c = cl; c->q.push_back(std::move(fn)); c->sig.raise();
}
bool Host::call(const std::function<void()>& fn, uint64_t t) {
  sweep(); if (st != UP) return false;
  auto done = std::make_shared<bool>(false); auto f = std::make_shared<std::function<void()>>(fn); platform_system::Dispatcher* disp = d; unsigned g = gen;
  auto err = std::make_shared<std::string>();
  auto back = std::make_shared<sim::Signal>(); // the caller waits on it; the process may die meanwhile
  client([disp, done, f, err, back] { disp->remoteSpawn([done, f, err, back] { try { (*f)(); } catch (std::exception& e) { *err = e.what(); } *done = true; back->raise(); }); });
  uint64_t dl = sim::now() + t;
  while (!*done && st == UP && gen == g && sim::now() < dl) { back->wait(std::min<uint64_t>(dl - sim::now(), 1000000000ull)); sweep(); }
  if (!err->empty()) VIOL("C10,C19", "call-threw", "an operation on a node threw: " << *err);
  return *done;
}
}
