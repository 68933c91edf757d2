// C14: what one side writes is what the other side reads.
#include <P2p/LevinProtocol.h>
#include <Rpc/HttpServer.h>
#include <Rpc/HttpClient.h>
#include <Logging/LoggerGroup.h>
#include <iostream>
namespace {
const uint32_t IP0 = 0x0a000001, IP1 = 0x0a000002; const uint16_t PORT = 7000;

struct Stop : std::exception {};
struct Net { // shared between the two nodes' threads (one runs at a time)
  const Plan& plan; bool cut = false; uint64_t lastFault = 0; bool serverUp = false; int done = 0;
  uint64_t faultCount = 0;
  explicit Net(const Plan& p) : plan(p) {}
  void fault() { cut = true; lastFault = sim::now(); ++faultCount; }
};
void pause(Dispatcher& d, uint64_t ns) { if (!ns) return; Timer t(d); t.sleep(std::chrono::nanoseconds(ns)); }

// ---- raw byte streams; one connection, both directions at once
struct RawSide { uint64_t sent = 0, acked = 0, got = 0; bool sendDone = false, eof = false, failed = false; };
struct Raw {
  Net& net; const Plan& plan; RawSide side[2]; bool finished[2] = {false, false}; bool interrupted[2] = {false, false}; bool shutSent[2] = {false, false};
  explicit Raw(Net& n) : net(n), plan(n.plan) {}
  std::vector<const Op*> ops(const char* n, uint64_t s) { std::vector<const Op*> r; for (auto& o : plan.ops) if (o.name == n && o.arg(0) == s) r.push_back(&o); return r; }
  void sender(int s, Dispatcher& d, TcpConnection& c) {
    bool ok = true; bool buffered = plan.num(s ? "buf1" : "buf0");
    { std::unique_ptr<TcpStreambuf> sb; std::unique_ptr<std::ostream> os; if (buffered) { sb.reset(new TcpStreambuf(c)); os.reset(new std::ostream(sb.get())); }
      for (auto o : ops("send", s)) {
        try { pause(d, o->arg(2)); } catch (InterruptedException&) { ok = false; break; }
        std::vector<uint8_t> b(o->arg(1)); for (size_t i = 0; i < b.size(); ++i) b[i] = pat(100 + s, side[s].sent + i);
        if (buffered) { side[s].sent += b.size(); os->write((char*)b.data(), b.size()); if (o->arg(3)) os->flush(); if (!*os) { ok = false; break; } }
        else {
          size_t off = 0; int bad = 0;
          while (off < b.size()) { size_t n = 0; try { n = c.write(&b[off], b.size() - off); } catch (InterruptedException&) { bad = 1; } catch (std::exception& e) { bad = 2; if (!net.cut && !interrupted[1 - s]) VIOL("C14", "write-error", "writing to an intact connection failed: " << e.what()); } if (bad) break; off += n; side[s].sent += n; }
          if (bad) { ok = false; break; }
        }
      }
      if (buffered && ok) { os->flush(); if (!*os) { ok = false; if (!net.cut && !interrupted[s] && !interrupted[1 - s]) VIOL("C14", "write-error", "flushing to an intact connection failed"); } }
    }
    if (ok) { side[s].sendDone = true; try { c.write(nullptr, 0); } catch (std::exception&) { if (!net.cut && !interrupted[s] && !interrupted[1 - s]) VIOL("C14", "write-error", "closing an intact connection failed"); } }
  }
  void take(int s, const uint8_t* b, size_t n) {
    int from = 1 - s;
    for (size_t i = 0; i < n; ++i) if (b[i] != pat(100 + from, side[s].got + i)) VIOL("C14", "bytes", "byte " << side[s].got + i << " read differs from the one written (" << side[from].sent << " written so far)");
    side[s].got += n;
    if (side[s].got > side[from].sent) VIOL("C14", "bytes", "more bytes read (" << side[s].got << ") than written (" << side[from].sent << ")");
  }
  void receiver(int s, Dispatcher& d, TcpConnection& c) {
    sim::Rng r(plan.seed * 3 + s); uint64_t slow = plan.num("slow"); int from = 1 - s; bool buffered = plan.num(s ? "rbuf1" : "rbuf0"); bool err = false;
    TcpStreambuf sb(c); std::istream is(&sb);
    try {
      for (;;) {
        std::vector<uint8_t> b(1 + r.below(plan.num("rchunk", 3000))); size_t n = 0;
        if (buffered) { is.read((char*)b.data(), b.size()); n = is.gcount(); take(s, b.data(), n); if (!is) break; }
        else { n = c.read(b.data(), b.size()); if (!n) break; take(s, b.data(), n); }
        if (slow && r.chance(0.2)) pause(d, r.below(slow));
      }
    } catch (InterruptedException&) { err = true; } catch (std::exception& e) { err = true; if (!net.cut && !interrupted[from] && !interrupted[s]) VIOL("C14", "read-error", "reading from an intact connection failed: " << e.what()); }
    if (!err && !net.cut && !interrupted[from] && !interrupted[s] && side[s].got != side[from].sent) VIOL("C14", "lost-bytes", "end of stream after " << side[s].got << " of " << side[from].sent << " bytes");
    if (!err && side[s].got == side[from].sent) side[s].eof = true;
  }
  void work(int s, Dispatcher& d, TcpConnection& c) {
    { ContextGroup g(d);
      g.spawn([&, s] { sender(s, d, c); });
      g.spawn([&, s] { receiver(s, d, c); });
      if (plan.num(s ? "int1" : "int0")) { // a side that gives up in the middle
        ContextGroup k(d); k.spawn([&, s] { try { pause(d, plan.num(s ? "int1" : "int0")); interrupted[s] = true; g.interrupt(); } catch (InterruptedException&) {} });
        g.wait();
      } else g.wait(); }
    finished[s] = true;
  }
};

// ---- peer messages
struct Msg { uint32_t cmd; size_t len; bool notify; };
struct Levin {
  Net& net; const Plan& plan; std::vector<Msg> q[2]; size_t sent[2] = {0, 0}, got[2] = {0, 0}; bool finished[2] = {false, false}; bool allSent[2] = {false, false};
  explicit Levin(Net& n) : net(n), plan(n.plan) { for (auto& o : plan.ops) if (o.name == "msg") q[o.arg(0) & 1].push_back({(uint32_t)(1000 + o.arg(3) % 17), (size_t)o.arg(1), (bool)o.arg(4)}); }
  cn::BinaryArray body(int s, size_t i) { cn::BinaryArray b(q[s][i].len); for (size_t k = 0; k < b.size(); ++k) b[k] = pat(500 + s * 4096 + i, k); return b; }
  void sender(int s, Dispatcher& d, TcpConnection& c) {
    cn::LevinProtocol p(c); std::vector<const Op*> ops; for (auto& o : plan.ops) if (o.name == "msg" && (int)(o.arg(0) & 1) == s) ops.push_back(&o);
    bool ok = true;
    for (size_t i = 0; i < ops.size() && ok; ++i) {
      std::string err;
      try { pause(d, ops[i]->arg(2)); sent[s] = i + 1; if (ops[i]->arg(5)) p.sendReply(q[s][i].cmd, body(s, i), (int32_t)i); else p.sendMessage(q[s][i].cmd, body(s, i), !q[s][i].notify); }
      catch (std::exception& e) { ok = false; err = e.what(); }
      if (!ok && !net.cut) VIOL("C14", "write-error", "sending a message on an intact connection failed: " << err);
    }
    if (ok) { allSent[s] = true; try { c.write(nullptr, 0); } catch (std::exception&) {} }
  }
  void receiver(int s, Dispatcher& d, TcpConnection& c) {
    cn::LevinProtocol p(c); int from = 1 - s; std::vector<const Op*> ops; for (auto& o : plan.ops) if (o.name == "msg" && (int)(o.arg(0) & 1) == from) ops.push_back(&o);
    uint64_t slow = plan.num("slow"); sim::Rng r(plan.seed * 5 + s); bool err = false; std::string what;
    try {
      for (;;) {
        cn::LevinProtocol::Command cmd; cmd.command = 0; cmd.isNotify = cmd.isResponse = false;
        if (!p.readCommand(cmd)) break;
        size_t i = got[s]; if (i >= sent[from]) VIOL("C14", "message", "message " << i << " read, only " << sent[from] << " were sent");
        bool reply = ops[i]->arg(5);
        if (cmd.command != q[from][i].cmd || cmd.buf != body(from, i)) VIOL("C14", "message", "message " << i << " (" << q[from][i].len << " bytes, command " << q[from][i].cmd << ") arrived as command " << cmd.command << " with " << cmd.buf.size() << " bytes or other content");
        if (cmd.isResponse != reply || (!reply && cmd.isNotify != q[from][i].notify)) VIOL("C14", "message", "message " << i << " arrived as another kind");
        ++got[s]; hs::count("messages");
        if (slow && r.chance(0.3)) pause(d, r.below(slow));
      }
    } catch (InterruptedException&) { err = true; } catch (std::exception& e) { err = true; what = e.what(); }
    if (!net.cut && err) VIOL("C14", "read-error", "reading messages from an intact connection failed: " << what);
    if (!net.cut && got[s] != q[from].size()) VIOL("C14", "lost-message", "the stream ended after " << got[s] << " of " << q[from].size() << " messages");
  }
  void work(int s, Dispatcher& d, TcpConnection& c) { { ContextGroup g(d); g.spawn([&, s] { sender(s, d, c); }); g.spawn([&, s] { receiver(s, d, c); }); g.wait(); } finished[s] = true; }
};

// ---- HTTP
struct Echo : cn::HttpServer {
  Net& net; std::map<std::string, int>& processed;
  Echo(Dispatcher& d, logging::ILogger& l, Net& n, std::map<std::string, int>& pr) : cn::HttpServer(d, l), net(n), processed(pr) {}
  static std::string answer(const std::string& url, const std::string& hdr, const std::string& body, size_t len) { std::string r = url + "|" + hdr + "|" + std::to_string(body.size()) + "|" + std::to_string(hs::fnv(body)) + "|"; sim::Rng g(hs::fnv(url)); while (r.size() < len) r += (char)g.below(256); return r; }
  static size_t want(const std::string& url) { size_t p = url.rfind('/'); return p == std::string::npos ? 0 : std::stoul(url.substr(p + 1)); }
  void processRequest(const cn::HttpRequest& q, cn::HttpResponse& a) override {
    ++processed[q.getUrl()]; hs::count("http-processed");
    auto h = q.getHeaders().find("x-test"); std::string hv = h == q.getHeaders().end() ? "<none>" : h->second;
    auto w = q.getHeaders().find("x-wait"); if (w != q.getHeaders().end()) { try { pause(m_dispatcher, std::stoull(w->second)); } catch (InterruptedException&) { m_dispatcher.interrupt(); } }
    size_t len = want(q.getUrl()); if (q.getUrl().find("/e404/") != std::string::npos) a.setStatus(cn::HttpResponse::STATUS_404); else if (q.getUrl().find("/e500/") != std::string::npos) a.setStatus(cn::HttpResponse::STATUS_500);
    a.addHeader("X-Echo", hv); a.setBody(answer(q.getUrl(), hv, q.getBody(), len));
  }
};
struct Http {
  Net& net; const Plan& plan; std::map<std::string, int> processed; bool stopServer = false; uint64_t clientsLive = 0; int clientErrors = 0;
  logging::LoggerGroup log;
  explicit Http(Net& n) : net(n), plan(n.plan) {}
  void server() {
    Dispatcher d; bool creds = plan.num("creds"); std::vector<const Op*> ev; for (auto& o : plan.ops) if (o.name == "server") ev.push_back(&o);
    size_t next = 0; uint64_t t0 = sim::now();
    while (!stopServer) {
      Echo e(d, log, net, processed); e.start("10.0.0.1", PORT, creds ? "user" : "", creds ? "pa:ss" : ""); net.serverUp = true;
      ContextGroup noise(d); bool go = true; // other work on the same dispatcher, as in the daemons
      if (plan.num("noise")) for (int i = 0; i < 2; ++i) noise.spawn([&, i] { try { while (go) { d.yield(); if (plan.num("busy") && i) sim::sleepNs(plan.num("busy")); pause(d, plan.num("noise") + i * 333); } } catch (InterruptedException&) {} });
      uint64_t until = next < ev.size() ? ev[next]->arg(0) + t0 : UINT64_MAX;
      while (!stopServer && sim::now() < until) pause(d, std::min<uint64_t>(5 * MS, until - sim::now()));
      net.serverUp = false; if (!stopServer) net.fault();
      uint64_t s0 = sim::now(); sim::traceEvent(0x570F);
      stopping = s0; e.stop(); stopping = 0; hs::count("http-stops");
      go = false; noise.interrupt(); noise.wait();
      if (!stopServer) { pause(d, ev[next]->arg(1)); net.fault(); ++next; }
    }
  }
  uint64_t stopping = 0;
  void client(int id, Dispatcher& d) {
    std::unique_ptr<cn::HttpClient> c(new cn::HttpClient(d, "10.0.0.1", PORT)); int n = 0; uint64_t errsAfter = 0;
    for (auto& o : plan.ops) {
      if (o.name != "req" || (int)o.arg(0) != id) continue;
      pause(d, o.arg(3)); ++n;
      if (o.arg(6) == 1) { c.reset(); c.reset(new cn::HttpClient(d, "10.0.0.1", PORT)); }
      cn::HttpRequest q; cn::HttpResponse a; std::string url = std::string(o.arg(5) == 1 ? "/e404" : o.arg(5) == 2 ? "/e500" : "") + "/" + std::to_string(id) + "/" + std::to_string(n) + "/" + std::to_string(o.arg(2));
      q.setUrl(url); std::string body(o.arg(1), 0); for (size_t i = 0; i < body.size(); ++i) body[i] = (char)pat(900 + id * 64 + n, i);
      static const char* hv[] = {"plain", "a:b", "a: b", "with  two", "x: y: z", ":", "http://host:80/x", "ends:"};
      std::string h = hv[o.arg(4) % 8]; q.addHeader("X-Test", h); if (o.arg(7)) q.addHeader("X-Wait", std::to_string(o.arg(7)));
      bool creds = plan.num("creds"), wrong = creds && o.arg(8) == 1;
      if (creds) q.addHeader("Authorization", wrong ? "Basic dXNlcjpub3Q=" : "Basic dXNlcjpwYTpzcw=="); // user:pa:ss
      if (!body.empty()) q.setBody(body);
      uint64_t started = sim::now(); bool ok = false; std::string err; uint64_t faultsBefore = net.faultCount; bool upBefore = net.serverUp;
      try { c->request(q, a); ok = true; } catch (std::exception& e) { err = e.what(); }
      int cnt = processed.count(url) ? processed[url] : 0;
      hs::count(ok ? "http-answers" : "http-errors"); sim::traceEvent(0x477, id * 1000 + n, ok);
      if (cnt > 1) VIOL("C14,C22", "http-twice", "request " << url << " was processed " << cnt << " times");
      if (ok) {
        errsAfter = 0;
        if (wrong) { if (cnt || a.getStatus() != cn::HttpResponse::STATUS_401) VIOL("C14,C22", "http-auth", "a request with wrong credentials was served"); continue; }
        if (cnt != 1) VIOL("C14,C22", "http-answer", "an answer to " << url << " arrived though the request was processed " << cnt << " times");
        std::string want = Echo::answer(url, h, body, o.arg(2));
        if (a.getBody() != want) { size_t k = 0; while (k < want.size() && k < a.getBody().size() && want[k] == a.getBody()[k]) ++k; VIOL("C14,C22", "http-answer", "request " << url << " (" << body.size() << " bytes, X-Test '" << h << "') got another answer: " << a.getBody().size() << " bytes instead of " << want.size() << ", first difference at " << k << ", starts " << a.getBody().substr(0, 60)); }
        auto x = a.getHeaders().find("x-echo"); if (x == a.getHeaders().end() || x->second != h) VIOL("C14", "http-header", "header value '" << h << "' came back as '" << (x == a.getHeaders().end() ? "<none>" : x->second) << "'");
        int st = a.getStatus(), ws = o.arg(5) == 1 ? cn::HttpResponse::STATUS_404 : o.arg(5) == 2 ? cn::HttpResponse::STATUS_500 : cn::HttpResponse::STATUS_200; if (st != ws) VIOL("C14", "http-status", "status " << st << " instead of " << ws);
      } else {
        ++errsAfter;
        bool excused = net.faultCount != faultsBefore || !upBefore || !net.serverUp || sim::tune.connectFail > 0 || sim::tune.acceptFail > 0 || (net.faultCount && errsAfter <= 1);
        if (!excused) VIOL("C14,C22", "http-lost", "request " << url << " failed though nothing is wrong with the network and the server: " << err << " (started " << started / MS << " ms, " << errsAfter << " failures in a row)");
      }
    }
    c.reset(); // a client may always be destroyed
    --clientsLive;
  }
  void clients() {
    Dispatcher d; size_t n = 1 + plan.num("clients", 1); clientsLive = n;
    { ContextGroup g(d); for (size_t i = 0; i < n; ++i) g.spawn([&, i] { client(i, d); }); g.wait(); }
    if (clientsLive) VIOL("C14", "http-client", "a client task ended early");
  }
};

void runStream(const Plan& p) {
  hs::setFailureProps("C14,C13", "C14,C13");
  sim::start(p.seed, hs::scratchDir()); sim::setMaxSteps(6000000); sim::setNodeIp(0, IP0); sim::setNodeIp(1, IP1);
  sim::onSigpipe = [] { VIOL("C14,C13", "sigpipe", "a write to a broken connection raised SIGPIPE, which ends a process that does not ignore it"); };
  Net net(p); std::string mode = p.str("mode", "raw");
  for (auto& o : p.ops) {
    uint64_t t = sim::now() + o.arg(0);
    if (o.name == "cut") sim::at(t, [&net] { net.fault(); sim::resetConnections(0, 1); hs::count("cuts"); });
    else if (o.name == "stall") { int n = o.arg(1) & 1; sim::at(t, [n] { sim::setStall(n, true); }); sim::at(t + o.arg(2), [n] { sim::setStall(n, false); }); hs::count("stalls"); }
    else if (o.name == "partition") { sim::at(t, [] { sim::setLink(0, 1, false); }); sim::at(t + o.arg(2), [] { sim::setLink(0, 1, true); }); hs::count("partitions"); }
  }
  const uint64_t LIMIT = 600 * SEC;
  if (mode == "http") {
    Http h(net);
    auto s = sim::spawn(0, "server", [&] { h.server(); });
    sim::waitUntil([&] { return net.serverUp; }, 10 * SEC);
    auto c = sim::spawn(1, "client", [&] { h.clients(); });
    uint64_t t0 = sim::now();
    while (!sim::joinFor(c, 100 * MS)) {
      if (h.stopping && sim::now() > h.stopping + 5 * SEC) VIOL("C14,C19", "server-stop", "stopping the HTTP server takes longer than 5 s");
      if (sim::now() > t0 + LIMIT) VIOL("C14", "http-hang", "the clients never finish: " << sim::dumpThreads());
    }
    h.stopServer = true; if (!sim::joinFor(s, 30 * SEC)) VIOL("C14,C19", "server-stop", "the HTTP server never stops: " << sim::dumpThreads());
    return;
  }
  Raw raw(net); Levin lev(net); bool listening = false;
  auto s = sim::spawn(0, "server", [&] { Dispatcher d; TcpListener l(d, Ipv4Address(IP0), PORT); listening = true; std::unique_ptr<TcpConnection> c; try { c.reset(new TcpConnection(l.accept())); } catch (std::exception&) { if (!net.cut) VIOL("C14", "accept", "accepting failed"); raw.finished[0] = lev.finished[0] = true; return; } if (mode == "raw") raw.work(0, d, *c); else lev.work(0, d, *c); });
  sim::waitUntil([&] { return listening; }, 10 * SEC, 100000);
  auto c = sim::spawn(1, "client", [&] { Dispatcher d; std::unique_ptr<TcpConnection> c; try { c.reset(new TcpConnection(TcpConnector(d).connect(Ipv4Address(IP0), PORT))); } catch (std::exception& e) { if (!net.cut) VIOL("C14", "connect", "connecting failed: " << e.what()); raw.finished[1] = lev.finished[1] = true; return; } if (mode == "raw") raw.work(1, d, *c); else lev.work(1, d, *c); });
  if (!sim::joinFor(c, LIMIT) || !sim::joinFor(s, LIMIT)) VIOL("C14,C13", "stream-hang", "a side of the connection never finishes: " << sim::dumpThreads() << " sent " << raw.side[0].sent << "/" << raw.side[1].sent << " got " << raw.side[1].got << "/" << raw.side[0].got << " messages " << lev.got[0] << "/" << lev.got[1]);
  if (mode == "raw" && !net.cut && !raw.interrupted[0] && !raw.interrupted[1]) for (int k = 0; k < 2; ++k) if (!raw.side[k].eof || !raw.side[1 - k].sendDone) VIOL("C14", "lost-bytes", "side " << k << " read " << raw.side[k].got << " of " << raw.side[1 - k].sent << " bytes");
  hs::count("bytes", raw.side[0].got + raw.side[1].got);
}
Plan genStream(uint64_t seed, const std::string&) {
  Plan p; sim::Rng r(sim::mix64(seed * 104729 + 3));
  if (r.chance(0.4)) p.setr("t_preempt", 0.02 * r.below(10));
  p.setr("t_frag", r.chance(0.7) ? 0.1 * (1 + r.below(6)) : 0); p.setr("t_shortread", r.chance(0.6) ? 0.1 * (1 + r.below(6)) : 0); if (r.chance(0.3)) p.setr("t_eintr", 0.1); p.setr("t_shuffle", r.chance(0.4) ? 0.4 : 0);
  p.set("t_lat", 1000 + r.below(5000000)); p.set("t_jitter", r.chance(0.5) ? r.below(20000000) : 0); p.set("t_sockbuf", r.chance(0.6) ? 200 + r.below(6000) : 262144);
  int m = r.below(3); p.params["mode"] = m == 0 ? "raw" : m == 1 ? "levin" : "http";
  auto tm = [&]() -> uint64_t { return r.chance(0.5) ? 0 : r.chance(0.5) ? r.below(3 * MS) : r.below(60 * MS); };
  bool faults = r.chance(0.6);
  if (r.chance(0.5)) p.set("slow", r.below(20 * MS));
  if (m == 0) {
    for (const char* k : {"buf0", "buf1", "rbuf0", "rbuf1"}) p.set(k, r.below(2)); p.set("rchunk", r.chance(0.5) ? 40 : 5000);
    if (faults && r.chance(0.4)) p.set(r.chance(0.5) ? "int0" : "int1", 1 + r.below(200 * MS));
    size_t n = 1 + r.below(14); for (size_t i = 0; i < n; ++i) p.op("send", {r.below(2), r.chance(0.3) ? r.below(40) : r.chance(0.7) ? r.below(6000) : r.below(60000), tm(), r.below(2)});
  } else if (m == 1) {
    size_t n = 1 + r.below(20); for (size_t i = 0; i < n; ++i) { bool rep = r.chance(0.3); p.op("msg", {r.below(2), r.chance(0.2) ? 0 : r.chance(0.6) ? r.below(600) : r.below(50000), tm(), r.below(17), r.below(2), (uint64_t)rep}); }
  } else {
    p.set("clients", r.below(4)); p.set("creds", r.chance(0.3)); if (r.chance(0.6)) p.set("noise", 30000 + r.below(r.chance(0.5) ? 300000 : 5 * MS));
    if (r.chance(0.5)) p.set("busy", 100000 + r.below(4 * MS)); bool churn = r.chance(0.4);
    size_t n = 2 + r.below(24); for (size_t i = 0; i < n; ++i) p.op("req", {r.below(4), r.chance(0.4) ? 0 : r.chance(0.6) ? r.below(500) : r.below(9000), r.chance(0.6) ? r.below(500) : r.below(9000), tm(), r.below(8), r.chance(0.8) ? 0 : r.below(3), (uint64_t)(churn || r.chance(0.15)), r.chance(0.2) ? r.below(30 * MS) : 0, r.chance(0.15)});
    if (faults) { uint64_t t = 0; size_t k = r.below(r.chance(0.5) ? 3 : 9); for (size_t i = 0; i < k; ++i) { t += 1 + r.below(r.chance(0.5) ? 150 * MS : 20 * MS); p.op("server", {t, r.below(40 * MS)}); } }
  }
  if (faults) { size_t k = r.below(3); for (size_t i = 0; i < k; ++i) { int w = r.below(3); uint64_t t = r.below(200 * MS); if (w == 0) p.op("cut", {t}); else if (w == 1) p.op("stall", {t, r.below(2), r.below(m == 2 ? 3 * SEC : 300 * MS)}); else p.op("partition", {t, 0, r.below(200 * MS)}); } }
  return p;
}
hs::AutoReg rStream({"sys_stream", genStream, runStream});
}
