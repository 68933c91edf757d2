#include <System/Dispatcher.h>
#include <System/Event.h>
#include <System/Timer.h>
#include <System/ContextGroup.h>
#include <System/TcpListener.h>
#include <System/TcpConnector.h>
#include <System/TcpConnection.h>
#include <System/TcpStream.h>
#include <System/Ipv4Address.h>
#include <System/InterruptedException.h>
#include <iostream>
#include <thread>
#include <atomic>
#include <vector>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/syscall.h>
using namespace platform_system;
#define CHECK(c, m) do { if (!(c)) { printf("FAIL %s\n", m); fflush(stdout); _exit(1); } } while (0)
static void nap(Dispatcher& d, int ms) { Timer t(d); t.sleep(std::chrono::milliseconds(ms)); }
struct Pair { std::unique_ptr<TcpConnection> a, b; };
static Pair link(Dispatcher& d) { Pair p; for (int port = 20000 + getpid() % 20000;; ++port) { try { TcpListener l(d, Ipv4Address("127.0.0.1"), port); ContextGroup g(d); g.spawn([&] { p.b.reset(new TcpConnection(l.accept())); }); p.a.reset(new TcpConnection(TcpConnector(d).connect(Ipv4Address("127.0.0.1"), port))); g.wait(); return p; } catch (std::exception&) { if (port > 60000) throw; } } }

int main() {
  std::atomic<Dispatcher*> dp{nullptr}; std::atomic<bool> quit{false}; std::atomic<uint64_t> ran{0}; std::atomic<bool> gone{false};
  std::thread t([&] { { Dispatcher d; Event stop(d); dp = &d; while (!quit) { d.dispatch(); } } gone = true; });
  (void)gone; while (!dp) usleep(100); unsigned r = 12345; uint64_t posted = 0;
  Event* never = nullptr; (void)never;
  for (int i = 0; i < 400000; ++i) {
    dp.load()->remoteSpawn([&] { ++ran; }); ++posted;
    r = r * 1664525 + 1013904223; for (volatile unsigned k = 0; k < (r >> 16) % 6000; ++k) {}
    dp.load()->remoteSpawn([&] { ++ran; }); ++posted;
    uint64_t spins = 0; while (ran != posted) { if (++spins > 100000) { usleep(1000); CHECK(spins < 103000, "a remotely spawned procedure never ran"); } }
  }
  _exit(0);
}