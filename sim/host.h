// A daemon process of the simulation: the real core, protocol handler, p2p server and (optionally) RPC
// server on one dispatcher, wired as Daemon.cpp wires them, on its own simulated node (threads, files, IP).
#pragma once
#include "world.h"
#include <deque>
#include <System/Dispatcher.h>
#include <P2p/NetNode.h>
#include <P2p/NetNodeConfig.h>
#include <CryptoNoteProtocol/CryptoNoteProtocolHandler.h>
#include <Rpc/RpcServer.h>
#include <CryptoNoteCore/Miner.h>
#include <CryptoNoteCore/CoreConfig.h>

namespace w {
struct Host {
  World& w; int id; std::string dir; NetNodeConfig cfg; uint32_t ip; // host order
  bool rpc = false, indexes = false; std::map<uint32_t, Hash> cps; int miningThreads = 0; std::string miningAddr;
  sim::Tid tid = -1; enum St { OFF, STARTING, UP, STOPPING, FAILED } st = OFF; std::string error; unsigned gen = 0;
  platform_system::Dispatcher* d = nullptr; core* c = nullptr; CryptoNoteProtocolHandler* h = nullptr; NodeServer* s = nullptr; RpcServer* r = nullptr;
  std::function<void(Host&)> onUp;      // on the node's thread, before the net loop starts
  Host(World& w, int id, uint32_t ip);
  void start();                          // new process on the files in dir
  bool waitUp(uint64_t timeoutNs);       // false: failed, died or still starting
  bool alive() const { return st == UP; }
  bool stop(uint64_t timeoutNs);         // orderly shutdown; false if it does not end in time
  void kill();                           // the process dies now
  bool call(const std::function<void()>& fn, uint64_t timeoutNs = 120ull * 1000000000); // runs fn on the node's dispatcher
  void sweep();                          // notices that the process died
 private:
  struct Client { sim::Signal sig; std::deque<std::function<void()>> q; }; std::shared_ptr<Client> cl;
  void body(unsigned myGen); void client(std::function<void()> fn);
};
std::string ipText(uint32_t hostOrder);
uint32_t netOrder(uint32_t hostOrder);
}
