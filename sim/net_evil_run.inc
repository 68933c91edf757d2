  bool fromEvil(uint32_t ipHost) { for (auto& e : E) if (e->ip == ipHost) return true; return false; }
  MBP bestTip(int v) { MBP b; for (int i = 0; i < N; ++i) if (up(i)) { MBP x = tipOf(i); if (x && (!b || x->cum > b->cum)) b = x; } MBP m = up(v) ? tipOf(v) : nullptr; return m ? m : b ? b : tipBase; }
  MBP evilBlock(const MBP& parent, sim::Rng& r, bool good) { // a block a hostile peer made up: valid, or wrong in one way
    World::BlockSpec s; s.parent = parent; s.miner = r.below(4); s.ts = std::max<uint64_t>(parent->b.timestamp + 30 + r.below(90), time(nullptr) - r.below(60)); if (s.ts > (uint64_t)time(nullptr) + 3000) return nullptr; s.outs = 1 + r.below(3); s.nonce.assign(8, 0); for (auto& x : s.nonce) x = r.next();
    if (!good) switch (r.below(9)) { case 0: s.rewardDelta = 1 + r.below(1000000); break; case 1: s.rewardDelta = -(int64_t)(1 + r.below(100)); break; case 2: s.unlockDelta = r.below(2) ? 1 : -1; break; case 3: s.heightDelta = r.below(2) ? 1 : -1; break; case 4: s.weakPow = true; break; case 5: s.versionDelta = r.below(2) ? 1 : -1; break;
      case 6: case 7: { TxInfo t; World::TxSpec q; q.at = parent; q.from = r.below(4); q.to = r.below(4); q.amount = 1000 + r.below(100000); q.pick = r.next(); q.avoid = &spent; bool two = r.below(2); if (two) q.overspend = 1 + r.below(1000000); else q.badSig = true; if (!w.makeTx(q, t)) return nullptr; taint(t); w.reg(t); s.txs.push_back(t.id); break; }
      case 8: { TxInfo t; World::TxSpec q; q.at = parent; q.from = r.below(4); q.to = r.below(4); q.amount = 1000 + r.below(100000); q.pick = r.next(); q.avoid = &spent; if (!w.makeTx(q, t) || !t.bad.empty()) return nullptr; taint(t); w.reg(t); s.txs.push_back(t.id); s.txs.push_back(t.id); break; } }
    MBP b = w.build(s); if (b && good == !b->bad.empty()) { if (good) return nullptr; } return b;
  }
  void taint(const TxInfo& t) { for (auto& in : t.tx.inputs) if (in.type() == typeid(KeyInput)) { auto& k = boost::get<KeyInput>(in).keyImage; spent.insert(k); used.insert(k); } }
  PeerlistEntry pe(uint32_t ipHost, uint32_t port, uint64_t id, uint64_t seen) { PeerlistEntry e{}; e.adr.ip = netOrder(ipHost); e.adr.port = port; e.id = id; e.last_seen = seen; return e; }
  std::list<PeerlistEntry> evilPeers(sim::Rng& r, bool& strange) {
    std::list<PeerlistEntry> l; uint64_t t = time(nullptr); bool gossip = plan.num("topo") >= 4; size_t n = r.below(6);
    for (size_t i = 0; i < n; ++i) switch (r.below(gossip ? 4 : 8)) { case 0: l.push_back(pe(0x7f000001 + r.below(3), PORT, r.next(), t)); break; case 1: l.push_back(pe(plan.num("local") ? 0x7f000005 : 0x0a000000 + r.below(70000), PORT, r.next(), t - r.below(1000))); break; case 2: l.push_back(pe(0xc0a80000 + r.below(70), PORT, r.next(), t)); if (plan.num("local")) l.pop_back(); break; case 3: l.push_back(pe(ipOf(r.below(N)), PORT, 1 + r.next() % 1000, t)); break;
      case 4: l.push_back(pe(0x2d800000 + r.below(500), 1 + r.below(65535), r.next(), t)); break; case 5: if (!l.empty()) l.push_back(l.back()); break; case 6: l.push_back(pe(0x2d800000 + r.below(500), r.below(3) ? 0 : 70000 + r.below(100000), r.next(), 0)); break; case 7: l.push_back(pe(r.below(2) ? 0 : 0xffffffff, PORT, 0, t)); break; }
    if (!gossip && r.chance(0.1)) for (int i = 0; i < 5200; ++i) l.push_back(pe(0x2e800000 + i, PORT, r.next(), t - i));
    if (r.chance(0.08) && !gossip) { l.push_back(pe(0x2d800001, PORT, r.next(), t + 7200 + r.below(100000))); strange = true; }
    return l;
  }
  template <class T> void mutated(Script& s, sim::Rng& r, uint32_t cmd, const T& t, bool wantReply) {
    std::string b = enc(t); Act a; bool rsp = r.chance(0.1);
    switch (r.below(7)) { case 0: b.resize(r.below(b.size())); break; case 1: for (int k = 0, n = 1 + r.below(4); k < n; ++k) b[r.below(b.size())] = r.next(); break; case 2: b[r.below(b.size())] ^= 1 << r.below(8); break; case 3: b += std::string(1 + r.below(2000), 'z'); break; case 4: b.insert(r.below(b.size()), std::string(1 + r.below(40), (char)r.next())); break; case 5: { size_t p = r.below(b.size()), n = r.below(std::min<size_t>(b.size() - p, 60)); b.erase(p, n); break; } case 6: { size_t p = r.below(b.size()), q = r.below(b.size()); std::swap(b[p], b[q]); break; } }
    a.fatal = !interpretable(cmd, b, rsp); a.what = "mutated command " + std::to_string(cmd) + " body " + std::to_string(b.size()); a.bytes = rawFrame(cmd, b, wantReply, rsp ? 2 : 1); a.delay = r.below(3000) * 1000000ull; s.acts.push_back(a);
  }
  static std::string nest(sim::Rng& r) { // sections or arrays inside one another
    std::string b = std::string("\x01\x11\x01\x01\x01\x01\x02\x01\x01", 9); int n = 50 + r.below(12) * r.below(4000); if (r.below(2)) { b += '\x04'; b += std::string("\x01" "a\x8d", 3); for (int i = 0; i < n; ++i) b += '\x04'; b += std::string(1, '\0'); } else { for (int i = 0; i < n; ++i) b += std::string("\x04\x01" "a\x0c", 4); b += std::string(1, '\0'); } return b;
  }
  static std::string greedyTx(sim::Rng& r) { std::string t("\x01\x00", 2); auto vi = [&](uint64_t v) { while (v >= 128) { t += (char)(v | 128); v >>= 7; } t += (char)v; }; if (r.below(2)) { vi(100000000 + r.below(30000000)); t += "\x02"; } else { vi(1); t += "\x02"; vi(1000); vi(100000000 + r.below(30000000)); t += "\x01"; } return t; }
  Script evilScript(int e, int v, sim::Rng& r, bool server) {
    Script s; s.victim = v; s.seed = r.next(); Evil& ev = *E[e]; MBP tip = bestTip(v); if (!tip) tip = tipBase; MBP par = r.chance(0.75) ? tip : ancestor(tip, tip->height > 4 ? tip->height - 1 - r.below(3) : 0);
    s.mode = r.chance(0.35) ? Script::HONEST : r.chance(0.7) ? Script::LYING : Script::DEAF; s.pingOk = r.chance(0.7);
    std::vector<MBP> forged; MBP cur = par; for (int k = 0, n = r.below(4); k < n && cur; ++k) { MBP b = evilBlock(cur, r, r.chance(0.35)); if (!b) break; forged.push_back(b); cur = b; if (r.chance(0.3)) cur = par; }
    s.tip = forged.empty() || r.chance(0.25) ? (r.chance(0.8) ? tip : par) : forged.back();
    // the handshake
    COMMAND_HANDSHAKE::request q = boost::value_initialized<COMMAND_HANDSHAKE::request>(); q.node_data.network_id = CRYPTONOTE_NETWORK; q.node_data.network_id.data[0] += 1; q.node_data.version = P2P_CURRENT_VERSION + (r.chance(0.1) ? r.below(4) : 0); q.node_data.local_time = time(nullptr); q.node_data.my_port = ev.srv && r.chance(0.7) ? PORT : r.chance(0.3) ? 1 + r.below(100000) : 0; q.node_data.peer_id = ev.peerId; q.payload_data = ev.sync(s);
    COMMAND_HANDSHAKE::response p = boost::value_initialized<COMMAND_HANDSHAKE::response>(); uint64_t kind = r.below(20); bool strange = false;
    if (kind == 0) { q.node_data.network_id.data[r.below(16)] ^= 1 + r.below(255); s.fatalShake = s.badShake = true; s.what = "a handshake of another network"; }
    else if (kind == 1) { q.node_data.version = 0; s.fatalShake = s.badShake = true; s.what = "a handshake of an unsupported version"; }
    else if (kind == 2) { q.payload_data.current_height = r.below(2) ? r.next() : 0; }
    else if (kind == 3) { for (auto& x : q.payload_data.top_id.data) x = r.next(); q.payload_data.current_height = r.below(3) ? tip->height + r.below(100) : 0xffffffff; }
    else if (kind == 4) { q.node_data.local_time = r.next(); if (server) s.badShake = false; }
    else if (kind == 5) { q.node_data.peer_id = r.below(2) ? 0 : r.next(); }
    p.node_data = q.node_data; p.payload_data = q.payload_data; p.local_peerlist = evilPeers(r, strange);
    s.shakeReq = rawFrame(1001, enc(q), true); s.shakeRsp = rawFrame(1001, enc(p), false, 2, 1);
    if (kind == 6) { std::string b = server ? enc(p) : enc(q); b[r.below(9)] ^= 1; s.shakeReq = rawFrame(1001, b, true); s.shakeRsp = rawFrame(1001, b, false, 2, 1); s.badShake = s.fatalShake = true; s.what = "an unreadable handshake"; }
    if (kind == 7) { s.shakeReq = s.shakeReq.substr(0, r.below(s.shakeReq.size())); s.shakeRsp = s.shakeRsp.substr(0, r.below(s.shakeRsp.size())); s.badShake = true; if (server) { s.fatalShake = true; s.what = "a handshake answer which never ends"; } if (!server) { s.fatalShake = false; s.acts.push_back(Act()); s.acts.back().k = r.below(2) ? Act::CLOSE : Act::HALF; s.acts.back().what = "cut"; return s; } }
    if (kind == 8 && server) { s.shakeRsp = rawFrame(1001, enc(p), false, 1, 1); s.badShake = s.fatalShake = true; s.what = "a handshake answer which is no answer"; }
    if (kind == 9 && server) { s.shakeRsp.clear(); s.badShake = s.fatalShake = true; s.what = "no answer to the handshake"; s.mode = Script::DEAF; }
    if (kind == 10) { s.handshake = false; }
    { COMMAND_TIMED_SYNC::response t; t.local_time = time(nullptr); t.payload_data = ev.sync(s); bool st2 = false; t.local_peerlist = evilPeers(r, st2); if (r.below(3) == 0) t.payload_data.current_height = r.next(); std::string b = enc(t); if (r.chance(0.2)) b.resize(r.below(b.size())); s.syncRsp = rawFrame(1002, b, false, 2, 1); }
    if (s.badShake) return s;
    // what it says afterwards
    int n = r.below(9);
    for (int k = 0; k < n; ++k) {
      Act a; a.delay = r.chance(0.5) ? r.below(200) * 1000000ull : r.below(9000) * 1000000ull; uint64_t c = r.below(100);
      auto someBlock = [&]() -> MBP { if (!forged.empty() && r.chance(0.75)) return forged[r.below(forged.size())]; MBP b = evilBlock(tip, r, r.chance(0.4)); if (b) forged.push_back(b); return b ? b : tip; };
      auto lieHeight = [&](uint32_t h) -> uint32_t { return r.chance(0.7) ? h : r.chance(0.5) ? r.below(3) : (uint32_t)r.next(); };
      auto someTx = [&](bool& bad) -> std::string { TxInfo t; World::TxSpec x; x.at = tip; x.from = r.below(4); x.to = r.below(4); x.amount = 1000 + r.below(100000); x.pick = r.next(); x.avoid = &spent; bad = r.chance(0.5); if (bad) { if (r.below(2)) x.badSig = true; else x.overspend = 1 + r.below(100000); } x.fee = r.chance(0.8) ? 1000 : r.below(3000); if (!w.makeTx(x, t)) return std::string(r.below(60), 'q'); taint(t); w.reg(t); std::string b = blobOf(toBinaryArray(t.tx)); if (r.chance(0.25)) b.resize(r.below(b.size())); else if (r.chance(0.2)) b[r.below(b.size())] ^= 1 << r.below(8); else if (r.chance(0.1)) b = greedyTx(r); return b; };
      auto randomHashes = [&](std::vector<Hash>& v, size_t m) { for (size_t i = 0; i < m; ++i) { Hash h; for (auto& x : h.data) x = r.next(); v.push_back(h); } };
      if (c < 16) { NOTIFY_NEW_BLOCK::request m; MBP b = someBlock(); m.b = ev.complete(b); m.hop = r.below(5); m.current_blockchain_height = lieHeight(b->height + 1); if (r.chance(0.15)) { bool bad; m.b.txs.push_back(someTx(bad)); } if (r.chance(0.15)) m.b.block.resize(r.below(m.b.block.size())); else if (r.chance(0.1)) m.b.block[r.below(m.b.block.size())] ^= 1 << r.below(8); else if (r.chance(0.05)) m.b.block += std::string(2000000, 'b'); a.what = "new-block " + b->bad; a.bytes = rawFrame(2001, enc(m), false); }
      else if (c < 28) { NOTIFY_NEW_TRANSACTIONS::request m; int cnt = r.below(4); for (int i = 0; i < cnt; ++i) { bool bad; m.txs.push_back(someTx(bad)); } if (r.chance(0.1)) for (int i = 0; i < 3000; ++i) m.txs.push_back("x"); a.what = "new-txs"; a.bytes = rawFrame(2002, enc(m), false); }
      else if (c < 34) { NOTIFY_REQUEST_CHAIN::request m; switch (r.below(5)) { case 0: break; case 1: randomHashes(m.block_ids, 5); break; case 2: randomHashes(m.block_ids, 5); m.block_ids.push_back(w.genesis->hash); break; case 3: for (int i = 0; i < 20000; ++i) m.block_ids.push_back(w.genesis->hash); break; case 4: for (auto b : tip->path()) m.block_ids.insert(m.block_ids.begin(), b->hash); break; } a.what = "request-chain"; a.bytes = rawFrame(2006, enc(m), r.chance(0.1)); }
      else if (c < 42) { NOTIFY_RESPONSE_CHAIN_ENTRY::request m; m.start_height = lieHeight(0); m.total_height = lieHeight(tip->height + 1); for (auto b : s.tip->path()) m.m_block_ids.push_back(b->hash); if (r.chance(0.3)) randomHashes(m.m_block_ids, r.below(2000)); if (r.chance(0.1)) m.m_block_ids.clear(); a.what = "chain-entry"; a.bytes = rawFrame(2007, enc(m), false); }
      else if (c < 50) { NOTIFY_RESPONSE_GET_OBJECTS::request m; for (int i = 0, cnt = r.below(4); i < cnt; ++i) m.blocks.push_back(ev.complete(someBlock())); if (r.chance(0.3) && !m.blocks.empty()) m.blocks.push_back(m.blocks[0]); m.current_blockchain_height = lieHeight(tip->height + 1); if (r.chance(0.2)) { bool bad; m.txs.push_back(someTx(bad)); } a.what = "objects-unasked"; a.bytes = rawFrame(2004, enc(m), false); }
      else if (c < 56) { NOTIFY_REQUEST_GET_OBJECTS::request m; switch (r.below(4)) { case 0: for (auto b : tip->path()) { m.blocks.push_back(b->hash); if (r.chance(0.3)) m.blocks.push_back(b->hash); } break; case 1: randomHashes(m.blocks, 1 + r.below(900)); break; case 2: randomHashes(m.blocks, 1500); break; case 3: for (auto b : tip->path()) for (auto& t : b->b.transactionHashes) m.txs.push_back(t); randomHashes(m.txs, r.below(3)); break; } a.what = "get-objects"; a.bytes = rawFrame(2003, enc(m), false); }
      else if (c < 60) { NOTIFY_REQUEST_TX_POOL::request m; if (r.below(2)) randomHashes(m.txs, r.below(5000)); a.what = "request-pool"; a.bytes = rawFrame(2008, enc(m), false); }
      else if (c < 66) { NOTIFY_NEW_LITE_BLOCK::request m; MBP b = someBlock(); m.block = blobOf(toBinaryArray(b->b)); m.hop = r.below(3); m.current_blockchain_height = lieHeight(b->height + 1); if (r.chance(0.2)) m.block.resize(r.below(m.block.size())); a.what = "lite-block " + b->bad; a.bytes = rawFrame(2009, enc(m), false); }
      else if (c < 69) { NOTIFY_MISSING_TXS::request m; m.blockHash = tip->hash; m.current_blockchain_height = lieHeight(3); if (r.below(2)) randomHashes(m.missing_txs, 1 + r.below(20)); else for (auto b : tip->path()) for (auto& t : b->b.transactionHashes) m.missing_txs.push_back(t); a.what = "missing-txs"; a.bytes = rawFrame(2010, enc(m), false); }
      else if (c < 72) { a.what = "ping"; a.bytes = rawFrame(1003, enc(COMMAND_PING::request()), r.chance(0.9)); }
      else if (c < 75) { COMMAND_TIMED_SYNC::request m; m.payload_data = ev.sync(s); if (r.below(2)) m.payload_data.current_height = r.next(); if (r.below(2)) m.payload_data.top_id.data[1] ^= 1; a.what = "timed-sync"; a.bytes = rawFrame(1002, enc(m), true); }
      else if (c < 77) { a.what = "sync-answer"; a.bytes = s.syncRsp; }
      else if (c < 79) { a.what = "handshake-again"; a.bytes = s.shakeReq; if (!server && s.handshake && r.below(2)) { /* closed: the peer has an id already, unless it said 0 */ } }
      else if (c < 82) { uint32_t cmd = r.chance(0.5) ? 1000 + r.below(20) + 7 : (uint32_t)r.next(); a.what = "unknown command"; std::string b(r.below(500), 'u'); a.fatal = false; if (interpretable(cmd, b, false) && cmd > 1003 && (cmd < 2001 || cmd > 2010)) a.bytes = rawFrame(cmd, b, r.chance(0.5)); else a.bytes = rawFrame(1003, enc(COMMAND_PING::request()), true); }
      else if (c < 84) { a.what = "junk bytes"; a.bytes.resize(33 + r.below(400)); for (auto& x : a.bytes) x = r.next(); a.bytes[0] = 0x77; a.fatal = true; }
      else if (c < 85) { a.what = "oversized announcement"; a.bytes = rawFrame(2002, "", false, 1, 0, 0x0101010101012101ull, 100000001 + (r.next() >> r.below(40))); a.fatal = true; }
      else if (c < 86) { a.what = "nested values"; std::string b = nest(r); uint32_t cmd = r.below(2) ? 2001 + r.below(4) : 1001 + r.below(3); a.fatal = false; a.bytes = rawFrame(cmd, b, false); }
      else if (c < 87) { a.what = "flood"; std::string one = r.below(2) ? rawFrame(1003, enc(COMMAND_PING::request()), true) : [&] { NOTIFY_REQUEST_CHAIN::request m; m.block_ids.push_back(w.genesis->hash); return rawFrame(2006, enc(m), false); }(); for (int i = 0, cnt = 50 + r.below(600); i < cnt; ++i) a.bytes += one; }
      else if (c < 89) { a.k = Act::MUTE; a.what = "stops-reading"; } else if (c < 90) { a.k = Act::HEAR; a.what = "reads-again"; }
      else if (c < 91) { a.k = Act::HALF; a.what = "half-close"; } else if (c < 92) { a.k = Act::RESET; a.what = "reset"; } else if (c < 93) { a.k = Act::CLOSE; a.what = "close"; }
      else { switch (r.below(11)) { case 0: { NOTIFY_NEW_BLOCK::request m; m.b = ev.complete(someBlock()); m.hop = 1; m.current_blockchain_height = 5; mutated(s, r, 2001, m, false); break; } case 1: { NOTIFY_NEW_TRANSACTIONS::request m; bool bad; m.txs.push_back(someTx(bad)); mutated(s, r, 2002, m, false); break; } case 2: { NOTIFY_REQUEST_GET_OBJECTS::request m; randomHashes(m.blocks, 3); mutated(s, r, 2003, m, false); break; } case 3: { NOTIFY_RESPONSE_GET_OBJECTS::request m; m.blocks.push_back(ev.complete(tip)); m.current_blockchain_height = 9; mutated(s, r, 2004, m, false); break; } case 4: { NOTIFY_REQUEST_CHAIN::request m; m.block_ids.push_back(w.genesis->hash); mutated(s, r, 2006, m, false); break; } case 5: { NOTIFY_RESPONSE_CHAIN_ENTRY::request m; m.start_height = 0; m.total_height = 3; m.m_block_ids.push_back(w.genesis->hash); mutated(s, r, 2007, m, false); break; } case 6: { NOTIFY_REQUEST_TX_POOL::request m; randomHashes(m.txs, 2); mutated(s, r, 2008, m, false); break; } case 7: { NOTIFY_NEW_LITE_BLOCK::request m; m.block = blobOf(toBinaryArray(someBlock()->b)); m.hop = 0; m.current_blockchain_height = 7; mutated(s, r, 2009, m, false); break; } case 8: { NOTIFY_MISSING_TXS::request m; m.blockHash = tip->hash; m.current_blockchain_height = 3; randomHashes(m.missing_txs, 2); mutated(s, r, 2010, m, false); break; } case 9: { COMMAND_TIMED_SYNC::request m; m.payload_data = ev.sync(s); mutated(s, r, 1002, m, true); break; } case 10: mutated(s, r, 1001, q, true); break; } continue; }
      s.acts.push_back(a);
    }
    if (!s.handshake && !server) { bool fatal = false; for (auto& a : s.acts) if (a.fatal || a.k != Act::SEND || a.what.find(" 1001") != std::string::npos) fatal = true; if (!fatal) { s.silent = true; s.patience = 170; for (auto& a : s.acts) if (a.what == "handshake-again") a.bytes.clear(); } }
    if (!s.handshake && r.chance(0.3)) s.linger = 200 * SEC; else s.linger = r.chance(0.5) ? r.below(5) * SEC : r.below(150) * SEC;
    return s;
  }
  void evilSession(const Op& o) { if (E.empty()) return; int e = o.arg(0) % E.size(), v = o.arg(2) % N; sim::Rng r(o.arg(1)); Evil& ev = *E[e]; bool server = ev.srv && o.arg(3) % 3 == 0; if (ev.cs.size() + ev.todo.size() > 12 || ev.serve.size() > 4) return; Script s = evilScript(e, v, r, server); hs::count("evil-sessions"); sim::traceEvent(50, e, v); if (server) ev.serve.push_back(std::move(s)); else ev.todo.push_back(std::move(s)); }
  void makeEvils() {
    for (size_t e = 0; e < plan.num("evils"); ++e) { E.emplace_back(new Evil(e, evilIp(e), plan.num("evil" + std::to_string(e) + "srv"), w)); Evil& v = *E.back(); v.ipOf = [this](int i) { return ipOf(i); }; v.who = [this](uint32_t ip, int& n) { for (int i = 0; i < N; ++i) if (ipOf(i) == ip) { n = i; return true; } return false; };
      v.trouble = [](const std::string& m) { VIOL("C10,C11", "not-dropped", m); }; v.upQuiet = [this](int i) { return quietFaults && H[i]->st == Host::UP; };
      sim::Rng r(plan.seed * 5 + e); v.fallback = evilScript(e, 0, r, true); v.fallback.tip = tipBase; v.start(); }
  }
