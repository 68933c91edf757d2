#include <System/Dispatcher.h>
#include <System/Event.h>
#include <System/Timer.h>
#include <System/ContextGroup.h>
#include <System/TcpListener.h>
#include <System/TcpConnector.h>
#include <System/TcpConnection.h>
#include <System/TcpStream.h>
#include <System/Ipv4Address.h>
#include <System/InterruptedException.h>
#include <iostream>
#include <thread>
#include <atomic>
#include <vector>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/syscall.h>
using namespace platform_system;
#define CHECK(c, m) do { if (!(c)) { printf("FAIL %s\n", m); fflush(stdout); _exit(1); } } while (0)
static void nap(Dispatcher& d, int ms) { Timer t(d); t.sleep(std::chrono::milliseconds(ms)); }
struct Pair { std::unique_ptr<TcpConnection> a, b; };
static Pair link(Dispatcher& d) { Pair p; for (int port = 20000 + getpid() % 20000;; ++port) { try { TcpListener l(d, Ipv4Address("127.0.0.1"), port); ContextGroup g(d); g.spawn([&] { p.b.reset(new TcpConnection(l.accept())); }); p.a.reset(new TcpConnection(TcpConnector(d).connect(Ipv4Address("127.0.0.1"), port))); g.wait(); return p; } catch (std::exception&) { if (port > 60000) throw; } } }
#include <HTTP/HttpParser.h>
#include <HTTP/HttpResponse.h>
#include <sstream>
int main() {
  for (size_t cut = 1; cut < 40; cut += 3) {
    std::string full = "HTTP/1.1 200 OK\r\nContent-Length: 40\r\n\r\n0123456789012345678901234567890123456789";
    std::stringstream s(full.substr(0, full.size() - cut)); cn::HttpResponse r; cn::HttpParser p; bool ok = true;
    try { p.receiveResponse(s, r); } catch (std::exception&) { ok = false; }
    CHECK(!ok, "a cut answer was accepted as complete");
  }
  std::stringstream s("HTTP/1.1 200 OK\r\nContent-Length: 10\r\n\r\n0123456789"); cn::HttpResponse r; cn::HttpParser p; p.receiveResponse(s, r); CHECK(r.getBody() == "0123456789", "body");
  _exit(0);
}