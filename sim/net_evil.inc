// Hostile peers: scripted participants with plain sockets on their own simulated machines. A session is a list of
// prepared byte strings plus a way of answering what the node asks for (honestly, with lies, or not at all).
std::string rawFrame(uint32_t cmd, const std::string& body, bool wantReply, uint32_t flags = 1, int32_t rc = 0, uint64_t sig = 0x0101010101012101ull, uint64_t cb = UINT64_MAX) {
  std::string s; auto put = [&](const void* p, size_t n) { s.append((const char*)p, n); }; uint64_t n = cb == UINT64_MAX ? body.size() : cb; uint32_t ver = 1; uint8_t w = wantReply;
  put(&sig, 8); put(&n, 8); put(&w, 1); put(&cmd, 4); put(&rc, 4); put(&flags, 4); put(&ver, 4); return s + body;
}
template <class T> std::string enc(const T& t) { BinaryArray b = LevinProtocol::encode(t); return std::string(b.begin(), b.end()); }
template <class T> bool decodes(const std::string& s) { T t = boost::value_initialized<T>(); return LevinProtocol::decode(arr(s), t); }
bool interpretable(uint32_t cmd, const std::string& body, bool isResponse) { // can the node make sense of this message at all
  if (cmd == COMMAND_TIMED_SYNC::ID && isResponse) return decodes<COMMAND_TIMED_SYNC::response>(body);
  switch (cmd) {
  case COMMAND_HANDSHAKE::ID: return decodes<COMMAND_HANDSHAKE::request>(body); case COMMAND_TIMED_SYNC::ID: return decodes<COMMAND_TIMED_SYNC::request>(body); case COMMAND_PING::ID: return decodes<COMMAND_PING::request>(body);
  case 2001: return decodes<NOTIFY_NEW_BLOCK::request>(body); case 2002: return decodes<NOTIFY_NEW_TRANSACTIONS::request>(body); case 2003: return decodes<NOTIFY_REQUEST_GET_OBJECTS::request>(body); case 2004: return decodes<NOTIFY_RESPONSE_GET_OBJECTS::request>(body);
  case 2006: return decodes<NOTIFY_REQUEST_CHAIN::request>(body); case 2007: return decodes<NOTIFY_RESPONSE_CHAIN_ENTRY::request>(body); case 2008: return decodes<NOTIFY_REQUEST_TX_POOL::request>(body); case 2009: return decodes<NOTIFY_NEW_LITE_BLOCK::request>(body); case 2010: return decodes<NOTIFY_MISSING_TXS::request>(body); }
  return true;
}
struct Act { uint64_t delay = 0; enum K { SEND, HALF, CLOSE, RESET, MUTE, HEAR } k = SEND; std::string bytes, what; bool fatal = false; }; // fatal: the node has to end the connection
struct Script {
  int victim = 0; bool handshake = true, fatalShake = false; std::vector<Act> acts; std::string shakeReq, shakeRsp, syncRsp, what; bool badShake = false; /* raw frames */ bool silent = false; // connects and says nothing
  enum Mode { HONEST, LYING, DEAF } mode = HONEST; MBP tip; uint64_t seed = 1; uint64_t linger = 20 * SEC, patience = 60; bool pingOk = true;
};
struct Evil {
  int idx, node; uint32_t ip; bool srv; World& w; std::deque<Script> todo, serve; bool stop = false, idle = true; sim::Tid tid = -1; std::function<uint32_t(int)> ipOf; std::function<bool(uint32_t, int&)> who; uint64_t peerId = 0; std::function<void(const std::string&)> trouble; std::function<bool(int)> upQuiet; bool freeze = false;
  struct Conn { int fd; bool client; Script s; std::string in, out; size_t pos = 0; uint64_t next = 0, born = 0, fatalAt = 0, doneAt = 0; bool connected = false, shook = false, deaf = false, half = false, dead = false, fatal = false; std::string fatalWhat; sim::Rng r{1}; unsigned gen = 0; size_t answers = 0; };
  std::vector<std::unique_ptr<Conn>> cs; int lfd = -1;
  Evil(int i, uint32_t ip, bool srv, World& w) : idx(i), node(20 + i), ip(ip), srv(srv), w(w) { peerId = sim::mix64(0xE71 + i) | 1; }
  void quit() { if (stop || tid < 0) return; stop = true; sim::joinFor(tid, 60 * SEC); }
  void start() { sim::setNodeIp(node, ip); tid = sim::spawn(node, "evil" + std::to_string(idx), [this] { body(); }); }
  void nb(int fd) { fcntl(fd, F_SETFL, fcntl(fd, F_GETFL, 0) | O_NONBLOCK); }
  void body() {
    if (srv) { lfd = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0); int one = 1; setsockopt(lfd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(PORT); a.sin_addr.s_addr = INADDR_ANY; if (bind(lfd, (sockaddr*)&a, sizeof a) || listen(lfd, 64)) VIOL("", "harness", "evil cannot listen"); }
    while (!stop) { step(); sim::sleepNs(cs.empty() && todo.empty() ? 40000000ull : 12000000ull); }
    for (auto& c : cs) close(c->fd); if (lfd >= 0) close(lfd);
  }
  void step() {
    while (!todo.empty()) { Script s = std::move(todo.front()); todo.pop_front(); int fd = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(PORT); a.sin_addr.s_addr = htonl(ipOf(s.victim));
      int rc = connect(fd, (sockaddr*)&a, sizeof a); if (rc < 0 && errno != EINPROGRESS) { close(fd); continue; } add(fd, true, std::move(s)); }
    if (lfd >= 0 && !freeze) for (;;) { sockaddr_in a{}; socklen_t l = sizeof a; int fd = accept(lfd, (sockaddr*)&a, &l); if (fd < 0) break; nb(fd); int v; if (!who(ntohl(a.sin_addr.s_addr), v)) { close(fd); continue; } Script s; if (!serve.empty()) { s = std::move(serve.front()); serve.pop_front(); } else { s = fallback; s.seed = sim::mix64(s.seed + cs.size()); } s.victim = v; add(fd, false, std::move(s)); hs::count("evil:accepted"); }
    for (size_t i = 0; i < cs.size();) { pump(*cs[i]); if (cs[i]->dead) { close(cs[i]->fd); cs.erase(cs.begin() + i); } else ++i; }
    idle = todo.empty() && cs.empty();
  }
  Script fallback;
  void add(int fd, bool client, Script s) { cs.emplace_back(new Conn{fd, client, std::move(s)}); Conn& c = *cs.back(); c.born = sim::now(); c.r = sim::Rng(c.s.seed); c.gen = sim::nodeGeneration(c.s.victim); c.connected = !client; if (client && c.s.handshake) { c.out += c.s.shakeReq; c.fatal = c.s.fatalShake; c.fatalWhat = c.s.what; } }
  void judge(Conn& c, bool closed) {
    if (!c.fatal || !c.fatalAt) return;
    if (closed) { hs::count("evil:dropped"); c.fatal = false; return; }
    if (sim::now() - c.fatalAt > c.s.patience * SEC) { if (upQuiet(c.s.victim) && c.gen == sim::nodeGeneration(c.s.victim)) trouble("node " + std::to_string(c.s.victim) + " keeps the connection open " + std::to_string(c.s.patience) + " s after " + c.fatalWhat); c.fatal = false; }
  }
  void pump(Conn& c) {
    uint64_t t = sim::now();
    if (!c.connected) { sockaddr_in a{}; socklen_t l = sizeof a; int e = 0; socklen_t el = sizeof e; if (getsockopt(c.fd, SOL_SOCKET, SO_ERROR, &e, &el) || e) { c.dead = true; return; } if (getpeername(c.fd, (sockaddr*)&a, &l) == 0) { c.connected = true; c.next = t; if (c.s.silent) { c.fatal = true; c.fatalAt = t; c.fatalWhat = "it was opened without a handshake"; } hs::count("evil:connected"); } else { if (t - c.born > 30 * SEC) c.dead = true; return; } }
    while (!c.out.empty()) { ssize_t n = send(c.fd, c.out.data(), c.out.size(), MSG_NOSIGNAL); if (n > 0) { c.out.erase(0, n); hs::count("evil:bytes", n); } else if (n < 0 && (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR)) break; else { judge(c, true); c.dead = true; return; } }
    if (c.out.empty() && c.fatal && !c.fatalAt) c.fatalAt = t;
    bool eof = false; if (!c.deaf || c.fatalAt) for (;;) { char b[65536]; ssize_t n = recv(c.fd, b, sizeof b, 0); if (n > 0) { if (!c.deaf && c.in.size() < 40000000) c.in.append(b, n); continue; } if (n < 0 && (errno == EAGAIN || errno == EWOULDBLOCK)) break; if (n < 0 && errno == EINTR) continue; eof = true; break; }
    if (eof) { judge(c, true); c.dead = true; return; }
    judge(c, false);
    while (c.in.size() >= 33) { uint64_t cb; memcpy(&cb, c.in.data() + 8, 8); if (c.in.size() < 33 + cb) break; uint8_t want = c.in[16]; uint32_t cmd, flags; memcpy(&cmd, c.in.data() + 17, 4); memcpy(&flags, c.in.data() + 25, 4); std::string body = c.in.substr(33, cb); c.in.erase(0, 33 + cb); message(c, cmd, body, want, flags); }
    if (t < c.next) return;
    if (c.pos < c.s.acts.size()) {
      if (c.s.handshake && !c.shook && t - c.born < 20 * SEC && c.pos == 0 && !c.s.badShake) return; // wait for the handshake
      if (c.out.size() > 1000000) return;
      Act& a = c.s.acts[c.pos++]; c.next = t + a.delay; sim::traceEvent(51, idx, c.pos);
      if (getenv("SIM_LOG")) fprintf(stderr, "[%.3f] evil%d -> node%d %s%s\n", t / 1e9, idx, c.s.victim, a.what.c_str(), a.fatal ? " (fatal)" : "");
      hs::count("evil:" + a.what.substr(0, a.what.find(' ')));
      switch (a.k) { case Act::SEND: c.out += a.bytes; if (a.fatal && !c.fatal) { c.fatal = true; c.fatalAt = 0; c.fatalWhat = a.what; c.pos = c.s.acts.size(); } break; case Act::HALF: shutdown(c.fd, SHUT_WR); c.half = true; break; case Act::CLOSE: c.dead = true; break; case Act::RESET: { linger lg{1, 0}; setsockopt(c.fd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg); c.dead = true; break; } case Act::MUTE: c.deaf = true; break; case Act::HEAR: c.deaf = false; break; }
    } else if (!c.doneAt) c.doneAt = t; else if (t - c.doneAt > c.s.linger && !c.fatal) c.dead = true;
  }
  // ---- answers ----
  CORE_SYNC_DATA sync(const Script& s) { CORE_SYNC_DATA d; d.current_height = s.tip->height + 1; d.top_id = s.tip->hash; return d; }
  block_complete_entry complete(const MBP& b) { block_complete_entry e; e.block = blobOf(toBinaryArray(b->b)); for (auto& t : b->txs) e.txs.push_back(blobOf(toBinaryArray(t))); return e; }
  void message(Conn& c, uint32_t cmd, const std::string& body, bool want, uint32_t flags) {
    Script& s = c.s; bool response = flags & 2; auto reply = [&](uint32_t id, const std::string& b) { c.out += rawFrame(id, b, false, 2, 1); }; auto note = [&](uint32_t id, const std::string& b) { c.out += rawFrame(id, b, false); };
    if (cmd == COMMAND_HANDSHAKE::ID) { if (response) { c.shook = true; hs::count("evil:handshaken"); } else { c.out += s.shakeRsp; c.shook = !s.badShake; if (s.fatalShake) { c.fatal = true; c.fatalAt = 0; c.fatalWhat = s.what; } } c.next = sim::now(); return; }
    if (c.answers++ > 400) return; // enough
    if (s.mode == Script::DEAF) return; bool lie = s.mode == Script::LYING && c.r.chance(0.7);
    if (cmd == COMMAND_PING::ID && want) { COMMAND_PING::response p; p.status = s.pingOk ? PING_OK_RESPONSE_STATUS_TEXT : "NO"; p.peer_id = s.pingOk ? peerId : c.r.next(); reply(cmd, enc(p)); return; }
    if (cmd == COMMAND_TIMED_SYNC::ID && want) { if (lie && !s.syncRsp.empty()) c.out += s.syncRsp; else { COMMAND_TIMED_SYNC::response r; r.local_time = time(nullptr); r.payload_data = sync(s); reply(cmd, enc(r)); } return; }
    MBP t = s.tip; sim::NoSched ns;
    if (cmd == NOTIFY_REQUEST_CHAIN::ID) { NOTIFY_REQUEST_CHAIN::request q; if (!LevinProtocol::decode(arr(body), q)) return; MBP from = w.genesis; for (auto& h : q.block_ids) { auto f = w.blocks.find(h); if (f != w.blocks.end() && onChain(f->second, t)) { from = f->second; break; } }
      NOTIFY_RESPONSE_CHAIN_ENTRY::request r; r.start_height = from->height; r.total_height = t->height + 1; for (MB* b : t->path()) if (b->height >= from->height) r.m_block_ids.push_back(b->hash);
      if (lie) switch (c.r.below(11)) { case 0: r.m_block_ids.clear(); break; case 1: r.m_block_ids[0].data[3] ^= 1; break; case 2: r.start_height = c.r.next(); break; case 3: r.total_height = c.r.next(); break; case 4: for (int i = 0; i < 5; ++i) { Hash h; for (auto& x : h.data) x = c.r.next(); r.m_block_ids.push_back(h); } break; case 5: std::reverse(r.m_block_ids.begin(), r.m_block_ids.end()); break; case 6: r.m_block_ids.push_back(r.m_block_ids.back()); break; case 7: r.total_height = 0; r.start_height = 0; r.m_block_ids.resize(1); break; case 8: r.m_block_ids.resize(1); break; case 9: r.m_block_ids.insert(r.m_block_ids.begin(), w.genesis->hash); break; case 10: { Hash x = r.m_block_ids.back(); r.m_block_ids.insert(r.m_block_ids.end(), 12000, x); break; } }
      note(NOTIFY_RESPONSE_CHAIN_ENTRY::ID, enc(r)); hs::count("evil:chain-entry"); return; }
    if (cmd == NOTIFY_REQUEST_GET_OBJECTS::ID) { NOTIFY_REQUEST_GET_OBJECTS::request q; if (!LevinProtocol::decode(arr(body), q)) return; NOTIFY_RESPONSE_GET_OBJECTS::request r; r.current_blockchain_height = t->height + 1;
      for (auto& h : q.blocks) { auto f = w.blocks.find(h); if (f != w.blocks.end()) r.blocks.push_back(complete(f->second)); else r.missed_ids.push_back(h); }
      if (lie && !r.blocks.empty()) { auto& b = r.blocks[c.r.below(r.blocks.size())]; switch (c.r.below(12)) { case 0: r.blocks.clear(); break; case 1: r.blocks.pop_back(); break; case 2: std::swap(r.blocks.front(), r.blocks.back()); break; case 3: b.txs.clear(); break; case 4: b.txs.push_back(b.block); break; case 5: b.block[c.r.below(b.block.size())] ^= 1 + c.r.below(255); break; case 6: b.block.resize(c.r.below(b.block.size())); break; case 7: b.block += std::string(600000, 'x'); break; case 8: r.current_blockchain_height = c.r.below(4) ? c.r.next() : 0; break; case 9: r.blocks.push_back(b); break; case 10: r.blocks.push_back(complete(w.genesis)); break; case 11: if (!b.txs.empty()) b.txs[0][c.r.below(b.txs[0].size())] ^= 1; else b.txs.push_back(""); break; } }
      note(NOTIFY_RESPONSE_GET_OBJECTS::ID, enc(r)); hs::count("evil:objects"); return; }
    if (cmd == NOTIFY_MISSING_TXS::ID && !lie) { NOTIFY_MISSING_TXS::request q; if (!LevinProtocol::decode(arr(body), q)) return; NOTIFY_NEW_TRANSACTIONS::request r; for (auto& h : q.missing_txs) if (w.txs.count(h)) r.txs.push_back(blobOf(toBinaryArray(w.txs[h].tx))); note(NOTIFY_NEW_TRANSACTIONS::ID, enc(r)); return; }
  }
};
void genEvil(Plan& p, sim::Rng& r, int N) { int n = 1 + r.below(2); p.set("evils", n); for (int e = 0; e < n; ++e) { p.set("evil" + std::to_string(e) + "srv", r.chance(0.6)); p.set("evil" + std::to_string(e) + "vic", 1 + r.below((1 << N) - 1)); } }
