#include "world.h"
#include <cmath>
#include <CryptoNoteConfig.h>
#include <crypto/crypto.h>
#include <CryptoNoteProtocol/CryptoNoteProtocolDefinitions.h>
#include <CryptoNoteCore/VerificationContext.h>
#include <CryptoNoteCore/CryptoNoteBasicImpl.h>

namespace w {
using hs::hx;
void NullLog::operator()(const std::string& category, logging::Level level, boost::posix_time::ptime, const std::string& body) {
  static int on = -1; if (on < 0) on = getenv("SIM_LOG") ? atoi(getenv("SIM_LOG")) : 0;
  if (on && (int)level < on) fprintf(stderr, "%.3f n%d [%s] %s", sim::now() / 1e9, sim::currentNode(), category.c_str(), body.c_str());
}
NullLog nolog;

Params paramsFrom(const hs::Plan& p) {
  Params r; r.profile = p.num("profile");
  r.h2 = p.num("h2", r.h2); r.h3 = p.num("h3", r.h3); r.h4 = p.num("h4", r.h4); r.h7 = p.num("h7", r.h7); r.h8 = p.num("h8", r.h8);
  r.minTermV3 = p.num("minTermV3", r.minTermV3); r.maxTermV3 = p.num("maxTermV3", r.maxTermV3); r.minTerm = p.num("minTerm", r.minTerm); r.maxTermV1 = p.num("maxTermV1", r.maxTermV1);
  r.hV3 = p.num("hV3", r.hV3); r.hV4 = p.num("hV4", r.hV4);
  r.rewardZone = p.num("rewardZone", r.rewardZone); r.maxBlock0 = p.num("maxBlock0", r.maxBlock0);
  r.poolLife = p.num("poolLife", r.poolLife); r.altPoolLife = p.num("altPoolLife", r.altPoolLife);
  return r;
}
std::unique_ptr<Currency> makeCurrency(const Params& p) {
  CurrencyBuilder b(nolog);
  b.testnet(p.testnet);
  b.upgradeHeightV2(p.h2); b.upgradeHeightV3(p.h3); b.upgradeHeightV6(p.h4); b.upgradeHeightV7(p.h7); b.upgradeHeightV8(p.h8);
  b.depositMinTermV3(p.minTermV3); b.depositMaxTermV3(p.maxTermV3); b.depositMinTerm(p.minTerm); b.depositMaxTermV1(p.maxTermV1); b.depositMaxTerm(p.maxTermV1);
  b.depositHeightV3(p.hV3); b.depositHeightV4(p.hV4);
  b.blockGrantedFullRewardZone(p.rewardZone); b.maxBlockSizeInitial(p.maxBlock0);
  b.mempoolTxLiveTime(p.poolLife); b.mempoolTxFromAltBlockLiveTime(p.altPoolLife);
  return std::unique_ptr<Currency>(new Currency(b.currency()));
}
uint64_t medianOf(std::vector<uint64_t> v) {
  if (v.empty()) return 0;
  std::sort(v.begin(), v.end()); size_t n = v.size();
  return n % 2 ? v[n / 2] : (v[n / 2 - 1] + v[n / 2]) / 2;
}
bool powOk(const Hash& h, uint64_t diff) { // little-endian 256 bit value times diff must fit in 256 bits
  if (!diff) return false;
  uint64_t wd[4]; memcpy(wd, &h, 32);
  unsigned __int128 carry = 0;
  for (int i = 0; i < 4; ++i) { unsigned __int128 v = (unsigned __int128)wd[i] * diff + carry; carry = v >> 64; }
  return carry == 0;
}
bool isBaseTx(const Transaction& t) { return t.inputs.size() == 1 && t.inputs[0].type() == typeid(BaseInput); }
void addTtl(std::vector<uint8_t>& extra, uint64_t ttl) { appendTTLToExtra(extra, ttl); }
static bool pidOf(const Transaction& tx, Hash& pid) { return getPaymentIdFromTxExtra(tx.extra, pid); }

std::vector<MB*> MB::path() const {
  std::vector<MB*> r; const MB* b = this;
  while (b) { r.push_back(const_cast<MB*>(b)); b = b->parent.get(); }
  std::reverse(r.begin(), r.end()); return r;
}

World::World(const Params& pp, int accounts) : p(pp) {
  cur = makeCurrency(p);
  ctx = new crypto::cn_context();
  for (int i = 0; i < accounts; ++i) {
    AccountKeys k;
    crypto::generate_keys(k.address.spendPublicKey, k.spendSecretKey);
    crypto::generate_keys(k.address.viewPublicKey, k.viewSecretKey);
    accs.push_back(k);
  }
  Block g = cur->genesisBlock();
  MBP m = std::make_shared<MB>();
  m->b = g; m->hash = get_block_hash(g); m->height = 0; m->led = std::make_shared<Ledger>();
  m->diff = 1; m->cum = 1; // one block, difficulty one
  uint64_t is = 0; int64_t dep = 0;
  Hash th = getObjectHash(g.baseTransaction);
  apply(*m->led, g.baseTransaction, th, 0, 0, is, dep);
  m->size = getObjectBinarySize(g.baseTransaction);
  m->generated = baseReward(0, 0); m->led->generated = m->generated;
  genesis = m; blocks[m->hash] = m;
}
World::~World() { delete ctx; }

uint8_t World::version(uint64_t h) const { return h > p.h8 ? 8 : h > p.h7 ? 7 : h > p.h4 ? 4 : h > p.h3 ? 3 : h > p.h2 ? 2 : 1; }

uint64_t World::nextDiff(const MBP& parent) const {
  uint64_t idx = parent->height + 1;
  size_t want = version(idx) >= 4 ? 61 : p.diffWindow + p.diffLag;
  std::vector<uint64_t> ts, cd;
  for (const MB* b = parent.get(); b && b->height > 0 && ts.size() < want; b = b->parent.get()) { ts.push_back(b->b.timestamp); cd.push_back(b->cum); }
  std::reverse(ts.begin(), ts.end()); std::reverse(cd.begin(), cd.end());
  uint8_t v = version(idx + 1);
  const uint64_t T = 120;
  if (v >= 8) {
    const uint64_t N = 60;
    if (idx >= p.h8 && idx < p.h8 + N) return p.testnet ? 10 : 7200000;
    if (ts.size() < N + 1) return 0; // outside the simulated envelope
    uint64_t L = 0, prev = ts[0] - T;
    for (uint64_t i = 1; i <= N; ++i) { uint64_t t = ts[i] > prev ? ts[i] : prev + 1; L += i * std::min(6 * T, t - prev); prev = t; }
    L = std::max(L, N * N * T / 20);
    uint64_t avg = (cd[N] - cd[0]) / N, d;
    if (avg > 2000000 * N * N * T) d = (avg / (200 * L)) * (N * (N + 1) * T * 99); else d = avg * N * (N + 1) * T * 99 / (200 * L);
    for (uint64_t u = 1000000000; u > 1; u /= 10) if (d > u * 100) { d = (d + u / 2) / u * u; break; }
    return d;
  }
  if (v >= 4) {
    if (ts.size() <= 10) return 100;
    uint64_t N = std::min<uint64_t>(60, ts.size() - 1), L = 0, last3 = 0, prev = ts[0];
    for (uint64_t i = 1; i <= N; ++i) { uint64_t t = ts[i] > prev ? ts[i] : prev + 1, st = std::min(6 * T, t - prev); prev = t; L += st * i; if (i + 3 > N) last3 += st; }
    uint64_t d = (cd[N] - cd[0]) * T * (N + 1) * 99 / (200 * L), pd = cd[N] - cd[N - 1];
    d = std::max(pd * 67 / 100, std::min(d, pd * 150 / 100));
    if (last3 < 8 * T / 10) d = std::max(d, pd * 108 / 100);
    return d;
  }
  if (ts.size() > p.diffWindow) { ts.resize(p.diffWindow); cd.resize(p.diffWindow); }
  if (ts.size() <= 1) return 1;
  std::sort(ts.begin(), ts.end());
  size_t n = ts.size(), keep = p.diffWindow - 2 * p.diffCut, lo = 0, hi = n;
  if (n > keep) { lo = (n - keep + 1) / 2; hi = lo + keep; }
  uint64_t span = std::max<uint64_t>(1, ts[hi - 1] - ts[lo]), work = cd[hi - 1] - cd[lo];
  return v >= 2 ? work * T / span : (work * T + span - 1) / span;
}
uint64_t World::baseReward(uint64_t generated, uint32_t height) const {
  const uint64_t C = 1000000;
  if (height == 1) return 12000000ull * C;
  uint64_t r = height > p.h8 ? 6 * C : START_BLOCK_REWARD + 250000ull * (height / 21900);
  r = std::min<uint64_t>(r, 15 * C);
  return std::min<uint64_t>(r, 200000000ull * C - generated);
}
static uint64_t penal(uint64_t a, uint64_t med, uint64_t sz) {
  if (!a || sz <= med) return a;
  unsigned __int128 v = (unsigned __int128)a * (sz * (2 * med - sz));
  return (uint64_t)(v / med / med);
}
bool World::reward(const MBP& parent, size_t size, uint64_t fee, uint32_t height, uint64_t& rew, int64_t& em) const {
  std::vector<uint64_t> sz;
  for (const MB* b = parent.get(); b && sz.size() < p.rewardWindow; b = b->parent.get()) sz.push_back(b->size);
  uint64_t med = std::max<uint64_t>(medianOf(sz), p.rewardZone);
  if (size > 2 * med) return false;
  uint64_t base = penal(baseReward(parent->generated, height), med, size), pf = penal(fee, med, size);
  em = (int64_t)base - (int64_t)(fee - pf); rew = base + pf; return true;
}
uint64_t World::interest(uint64_t amount, uint32_t term, uint32_t height) const {
  if (term == 0 || term > p.maxTermV1) return 0;
  uint32_t lock = height - term;
  if (term % p.minTermV3 == 0 && lock > p.hV3) {
    uint64_t coins = amount / 1000000;
    float base = coins >= 20000 ? (float)0.049 : coins >= 10000 ? (float)0.039 : (float)0.029;
    float months = (float)(term / p.minTermV3); if (months > 12) months = 12;
    float ear = base + (months - 1) * 0.001f, eir = (ear / 12) * months;
    return (uint64_t)((float)amount * eir);
  }
  if (term % 5040 == 0) return 0; // not reachable with the simulated terms
  unsigned __int128 v = (unsigned __int128)amount * ((uint64_t)term * 4) / (100ull * p.maxTermV1);
  if (lock <= 12750) v *= 100;
  return (uint64_t)v;
}
uint64_t World::inputAmount(const TransactionInput& in, uint32_t height) const {
  if (in.type() == typeid(KeyInput)) return boost::get<KeyInput>(in).amount;
  if (in.type() == typeid(MultisignatureInput)) { auto& m = boost::get<MultisignatureInput>(in); return m.amount + (m.term ? interest(m.amount, m.term, height) : 0); }
  return 0;
}
size_t World::maxSize(uint64_t h) const { return p.maxBlock0 + h * parameters::MAX_BLOCK_SIZE_GROWTH_SPEED_NUMERATOR / parameters::MAX_BLOCK_SIZE_GROWTH_SPEED_DENOMINATOR; }
bool World::outputOk(const TransactionOutput& o, uint32_t h) const {
  if (o.target.type() == typeid(KeyOutput)) return o.amount > 0;
  auto& m = boost::get<MultisignatureOutput>(o.target);
  if (m.requiredSignatureCount > m.keys.size()) return false;
  if (m.term) {
    if (h > p.hV4) { if (m.term < p.minTermV3 || m.term > p.maxTermV3 || m.term % p.minTermV3) return false; }
    else if (m.term < p.minTerm || m.term > p.maxTermV1) return false;
    if (o.amount < 1000000) return false;
  }
  return true;
}
bool World::medianOk(const MBP& parent, uint64_t t, bool alt) const {
  // the check looks at the last 30 blocks; as an alternative block the genesis block is not counted
  std::vector<uint64_t> ts;
  for (const MB* b = parent.get(); b && ts.size() < p.tsWindow; b = b->parent.get()) { if (alt && b->height == 0) break; ts.push_back(b->b.timestamp); }
  return ts.size() < p.tsWindow || t >= medianOf(ts);
}
static std::vector<uint32_t> absOffsets(const std::vector<uint32_t>& o) { std::vector<uint32_t> r = o; for (size_t i = 1; i < r.size(); ++i) r[i] += r[i - 1]; return r; }

std::string World::checkTx(const Ledger& l, const TxInfo& t, uint32_t h, std::string& props) const {
  const Transaction& tx = t.tx;
  auto bad = [&](const char* why, const char* pr) { props = pr; return std::string(why); };
  if (tx.inputs.empty()) return bad("no-inputs", "C03");
  if (l.tx.count(t.id)) return bad("already-mined", "C02");
  std::set<crypto::KeyImage, HashLess> kis; std::set<std::pair<uint64_t, uint32_t>> mss;
  auto unlocked = [&](uint64_t u) { return u >= 500000000 ? true : h >= u; };
  uint64_t ins = 0, outs = 0;
  for (auto& in : tx.inputs) {
    if (in.type() == typeid(KeyInput)) {
      auto& k = boost::get<KeyInput>(in);
      auto f = l.key.find(k.amount);
      if (k.outputIndexes.empty()) return bad("empty-ring", "C02");
      size_t ii = &in - &tx.inputs[0], ri = 0;
      for (uint32_t a : absOffsets(k.outputIndexes)) {
        if (f == l.key.end() || a >= f->second.size()) return bad("unknown-output", "C02");
        const OutInfo& o = f->second[a];
        if (ii < t.signedFor.size() && (ri >= t.signedFor[ii].size() || !(t.signedFor[ii][ri++] == o.key))) return bad("signed-for-other-outputs", "C02");
        if (o.height >= h) return bad("same-block-output", "C02");
        if (!unlocked(o.unlock)) return bad("locked-output", "C02");
      }
      if (l.ki.count(k.keyImage)) return bad("double-spend", "C02");
      if (!kis.insert(k.keyImage).second) return bad("double-spend-inside", "C02");
    } else if (in.type() == typeid(MultisignatureInput)) {
      auto& m = boost::get<MultisignatureInput>(in);
      auto f = l.ms.find(m.amount);
      if (f == l.ms.end() || m.outputIndex >= f->second.size()) return bad("unknown-deposit", "C02");
      const OutInfo& o = f->second[m.outputIndex];
      size_t ii = &in - &tx.inputs[0];
      if (ii < t.signedFor.size() && !(t.signedFor[ii] == o.keys)) return bad("signed-for-other-deposit", "C02,C03");
      if (o.height >= h) return bad("same-block-deposit", "C02");
      if (o.used) return bad("deposit-double-spend", "C02,C03");
      if (!mss.insert({m.amount, m.outputIndex}).second) return bad("deposit-double-spend-inside", "C02,C03");
      if (!unlocked(o.unlock)) return bad("locked-deposit", "C02");
      if (m.signatureCount != o.req) return bad("wrong-signature-count", "C02,C03");
      if (m.term != o.term) return bad("wrong-term", "C03");
      if (o.term && (uint64_t)o.height + o.term > h) return bad("immature-deposit", "C03");
    } else return bad("coinbase-input", "C03");
    ins += inputAmount(in, h);
  }
  for (auto& o : tx.outputs) { if (!outputOk(o, h)) return bad("bad-output", "C03"); outs += o.amount; }
  if (outs > ins) return bad("overspend", "C03");
  if (!t.bad.empty()) { props = t.badProps; return t.bad; }
  return "";
}
uint64_t World::timeLock(const Ledger& l, const Transaction& tx) const {
  uint64_t need = 0;
  auto use = [&](uint64_t u) { if (u >= 500000000 && u > need + 120) need = u - 120; };
  for (auto& in : tx.inputs) {
    if (in.type() == typeid(KeyInput)) { auto& k = boost::get<KeyInput>(in); auto f = l.key.find(k.amount); if (f != l.key.end()) for (uint32_t a : absOffsets(k.outputIndexes)) if (a < f->second.size()) use(f->second[a].unlock); }
    else if (in.type() == typeid(MultisignatureInput)) { auto& m = boost::get<MultisignatureInput>(in); auto f = l.ms.find(m.amount); if (f != l.ms.end() && m.outputIndex < f->second.size()) use(f->second[m.outputIndex].unlock); }
  }
  return need;
}
void World::apply(Ledger& l, const Transaction& tx, const Hash& id, uint32_t height, uint32_t idx, uint64_t& is, int64_t& dep) {
  TxPos pos{height, idx, {}};
  for (auto& in : tx.inputs) {
    if (in.type() == typeid(KeyInput)) l.ki[boost::get<KeyInput>(in).keyImage] = height;
    else if (in.type() == typeid(MultisignatureInput)) {
      auto& m = boost::get<MultisignatureInput>(in);
      auto f = l.ms.find(m.amount);
      if (f != l.ms.end() && m.outputIndex < f->second.size()) f->second[m.outputIndex].used = true;
      if (m.term) { is += interest(m.amount, m.term, height); dep -= (int64_t)m.amount; }
    }
  }
  crypto::PublicKey txPub = getTransactionPublicKeyFromExtra(tx.extra);
  for (size_t i = 0; i < tx.outputs.size(); ++i) {
    auto& o = tx.outputs[i];
    OutInfo oi{}; oi.tx = id; oi.txPub = txPub; oi.height = height; oi.txIdx = idx; oi.idx = i; oi.amount = o.amount; oi.unlock = tx.unlockTime; oi.owner = -1;
    if (o.target.type() == typeid(KeyOutput)) {
      oi.key = boost::get<KeyOutput>(o.target).key;
      auto f = ownerOf.find(oi.key); if (f != ownerOf.end()) oi.owner = f->second;
      pos.g.push_back(l.key[o.amount].size()); l.key[o.amount].push_back(oi);
    } else {
      auto& m = boost::get<MultisignatureOutput>(o.target);
      oi.keys = m.keys; oi.req = m.requiredSignatureCount; oi.term = m.term;
      if (!m.keys.empty()) { auto f = ownerOf.find(m.keys[0]); if (f != ownerOf.end()) oi.owner = f->second; }
      if (m.term) dep += (int64_t)o.amount;
      pos.g.push_back(l.ms[o.amount].size()); l.ms[o.amount].push_back(oi);
    }
  }
  Hash pid; if (pidOf(tx, pid)) l.byPid.insert({pid, id});
  l.tx[id] = pos; l.txCount++;
}
MBP World::evaluate(const Block& b, const std::vector<Transaction>& txs, const MBP& parent) {
  MBP m = std::make_shared<MB>();
  m->b = b; m->txs = txs; m->hash = get_block_hash(b); m->parent = parent; m->height = parent->height + 1;
  m->diff = nextDiff(parent); m->cum = parent->cum + m->diff;
  auto bad = [&](const std::string& why, const std::string& pr, bool header) { if (m->bad.empty()) { m->bad = why; m->badProps = pr; } if (header && m->headerBad.empty()) m->headerBad = why; };
  const Transaction& cb = b.baseTransaction;
  uint32_t h = m->height;
  if (b.majorVersion != version(get_block_height(b))) bad("wrong-version", "C06", true);
  if (!parent->bad.empty()) bad("invalid-parent", "C06", false);
  if (get_block_height(b) != h || !isBaseTx(cb)) bad("wrong-coinbase-height", "C03,C06", true);
  if (cb.unlockTime != h + p.unlock) bad("wrong-coinbase-unlock", "C03", true);
  if (cb.signatures.size() > 1) bad("coinbase-signatures", "C06", true);
  for (auto& o : cb.outputs) {
    if (!outputOk(o, h)) bad("bad-coinbase-output", "C03", true);
    if (o.target.type() == typeid(MultisignatureOutput) && cb.version < 2) bad("coinbase-multisignature-version", "C03,C10", true);
  }
  Hash pow; if (!get_block_longhash(*ctx, b, pow) || !powOk(pow, m->diff)) bad("weak-work", "C06,C21", true);
  m->size = getObjectBinarySize(cb);
  uint64_t known = m->size;
  uint64_t fee = 0, is = 0; int64_t dep = 0;
  auto led = std::make_shared<Ledger>(*parent->led);
  apply(*led, cb, getObjectHash(cb), h, 0, is, dep);
  for (size_t i = 0; i < txs.size(); ++i) {
    TxInfo ti; auto f = txs.size() ? this->txs.find(b.transactionHashes[i]) : this->txs.end();
    if (f != this->txs.end()) ti = f->second; else { ti = info(txs[i]); }
    std::string pr, why = checkTx(*led, ti, h, pr);
    if (!why.empty()) bad("tx-" + why, pr, false);
    if (b.majorVersion == 1 && txs[i].version > 1) bad("tx-version", "C06", false);
    m->needTime = std::max(m->needTime, timeLock(*led, txs[i]));
    size_t sz = ti.size; m->size += sz; known += sz;
    uint64_t ins = 0, outs = 0; for (auto& in : txs[i].inputs) ins += inputAmount(in, h); for (auto& o : txs[i].outputs) outs += o.amount;
    fee += ins >= outs ? ins - outs : 0;
    apply(*led, txs[i], ti.id, h, i + 1, is, dep);
  }
  if (m->size > maxSize(h)) bad("block-too-big", "C06", true);
  uint64_t rew = 0; int64_t em = 0;
  if (!reward(parent, m->size, fee, h, rew, em)) bad("block-over-median", "C03", false);
  else {
    uint64_t got = 0; for (auto& o : cb.outputs) got += o.amount;
    if (got < rew || got > rew + 10) bad("wrong-reward", "C03", false);
  }
  m->interest = is; m->depositDelta = dep;
  m->generated = parent->generated + em + is;
  led->generated = m->generated; led->deposit = parent->led->deposit + dep; led->interest = parent->led->interest + is;
  m->led = led;
  return m;
}
MBP World::adopt(const Block& b, const MBP& parent) {
  learnOwners(b.baseTransaction);
  std::vector<Transaction> t;
  for (auto& h : b.transactionHashes) { auto f = txs.find(h); if (f == txs.end()) return MBP(); t.push_back(f->second.tx); }
  MBP m = evaluate(b, t, parent); blocks[m->hash] = m; return m;
}
void World::learnOwners(const Transaction& tx) {
  crypto::PublicKey pub = getTransactionPublicKeyFromExtra(tx.extra);
  for (size_t a = 0; a < accs.size(); ++a) {
    crypto::KeyDerivation d; if (!crypto::generate_key_derivation(pub, accs[a].viewSecretKey, d)) continue;
    for (size_t i = 0; i < tx.outputs.size(); ++i) {
      crypto::PublicKey k; if (!crypto::derive_public_key(d, i, accs[a].address.spendPublicKey, k)) continue;
      if (tx.outputs[i].target.type() == typeid(KeyOutput)) { if (boost::get<KeyOutput>(tx.outputs[i].target).key == k) ownerOf[k] = a; }
      else for (auto& kk : boost::get<MultisignatureOutput>(tx.outputs[i].target).keys) if (kk == k) ownerOf[k] = a;
    }
  }
}
TxInfo World::info(const Transaction& tx) const {
  TxInfo t; t.tx = tx; t.id = getObjectHash(tx); t.size = getObjectBinarySize(tx); return t;
}
TxInfo& World::reg(const TxInfo& t) { sim::NoSched ns; learnOwners(t.tx); return txs[t.id] = t; }

// ---------------------------------------------------------------- builder
static crypto::PublicKey outKey(const AccountPublicAddress& to, const KeyPair& txk, size_t i) {
  crypto::KeyDerivation d; crypto::PublicKey k{};
  crypto::generate_key_derivation(to.viewPublicKey, txk.secretKey, d); crypto::derive_public_key(d, i, to.spendPublicKey, k); return k;
}
static KeyPair ephemeral(const AccountKeys& a, const OutInfo& o) {
  crypto::KeyDerivation d; KeyPair k;
  crypto::generate_key_derivation(o.txPub, a.viewSecretKey, d);
  crypto::derive_public_key(d, o.idx, a.address.spendPublicKey, k.publicKey);
  crypto::derive_secret_key(d, o.idx, a.spendSecretKey, k.secretKey); return k;
}
crypto::KeyImage World::keyImage(const OutInfo& o) const {
  crypto::KeyImage ki{}; if (o.owner < 0) return ki;
  auto c = kiCache.find(o.key); if (c != kiCache.end()) return c->second;
  KeyPair k = ephemeral(accs[o.owner], o); crypto::generate_key_image(k.publicKey, k.secretKey, ki); kiCache[o.key] = ki; return ki;
}
std::vector<OutInfo> World::spendable(const MBP& at, int owner, bool ignoreLock) const {
  std::vector<OutInfo> r; uint32_t h = at->height + 1;
  for (auto& a : at->led->key) for (auto& o : a.second) {
    if (o.owner != owner || a.first == 0) continue;
    if (!ignoreLock && o.unlock < 500000000 && h < o.unlock) continue;
    if (at->led->ki.count(keyImage(o))) continue;
    r.push_back(o);
  }
  return r;
}
int World::outIndexGlobal(const Ledger& l, const OutInfo& o) const {
  auto& m = o.keys.empty() ? l.key : l.ms;
  auto f = m.find(o.amount); if (f == m.end()) return -1;
  for (size_t i = 0; i < f->second.size(); ++i) if (f->second[i].tx == o.tx && f->second[i].idx == o.idx) return i;
  return -1;
}
static KeyPair newKeys() { KeyPair k; crypto::generate_keys(k.publicKey, k.secretKey); return k; }

bool World::makeTx(const TxSpec& s, TxInfo& out) {
  sim::NoSched ns;
  const AccountKeys& a = accs[s.from];
  std::vector<OutInfo> in = s.force;
  const Ledger& l = *s.at->led; uint32_t h = s.at->height + 1;
  uint64_t need = s.amount + s.fee, have = 0;
  if (in.empty()) {
    auto c = spendable(s.at, s.from, s.ignoreLock);
    if (c.empty()) return false;
    size_t start = s.pick % c.size();
    for (size_t i = 0; i < c.size() && have < need && in.size() < 8; ++i) {
      const OutInfo& o = c[(start + i) % c.size()];
      if (s.avoid && s.avoid->count(keyImage(o))) continue;
      in.push_back(o); have += o.amount;
    }
  } else for (auto& o : in) have += o.amount;
  if (in.empty()) return false;
  uint64_t amount = s.amount;
  if (have < need) { if (have <= s.fee + 10) return false; amount = have - s.fee; }
  Transaction t; t.version = s.term || s.msOut ? 2 : 1; t.unlockTime = s.unlock;
  KeyPair txk = newKeys();
  addTransactionPublicKeyToExtra(t.extra, txk.publicKey);
  if (!(s.pid == NULL_HASH)) { BinaryArray n; setPaymentIdToTransactionExtraNonce(n, s.pid); addExtraNonceToTransactionExtra(t.extra, n); }
  for (size_t left = s.pad; left;) { size_t n = std::min<size_t>(left, 255); BinaryArray z(n, 0x11); addExtraNonceToTransactionExtra(t.extra, z); left -= n; }
  if (s.ttl) addTtl(t.extra, s.ttl);
  // outputs
  uint64_t total = amount + s.overspend;
  if (s.term || s.msOut) {
    MultisignatureOutput m; m.term = s.term; m.requiredSignatureCount = s.term ? 1 : (uint8_t)s.msSigners;
    std::vector<int> who{s.to}; if (!s.term) for (int i = 1; i < s.msSigners; ++i) who.push_back((s.to + i) % accs.size());
    for (int x : who) m.keys.push_back(outKey(accs[x].address, txk, 0));
    t.outputs.push_back({total, m});
  } else {
    int n = std::max(1, s.nOuts); uint64_t left = total;
    for (int i = 0; i < n; ++i) {
      uint64_t v = i + 1 == n ? left : std::max<uint64_t>(1, left / (n - i) / 1000 * 1000);
      if (v > left || !v) break;
      KeyOutput k; k.key = outKey(accs[s.to].address, txk, t.outputs.size()); t.outputs.push_back({v, k}); left -= v;
      if (!left) break;
    }
  }
  uint64_t change = have - amount - s.fee;
  if (change) { KeyOutput k; k.key = outKey(a.address, txk, t.outputs.size()); t.outputs.push_back({change, k}); }
  // inputs
  struct R { std::vector<crypto::PublicKey> keys; size_t real; KeyPair eph; crypto::KeyImage ki; };
  std::vector<R> rs;
  if (s.dupInput) in.push_back(in[0]);
  for (auto& o : in) {
    int g = outIndexGlobal(l, o); if (g < 0) return false;
    std::vector<uint32_t> ring{(uint32_t)g};
    auto& cand = l.key.at(o.amount);
    for (size_t i = 0, k = s.pick; i < cand.size() && (int)ring.size() <= s.mixin; ++i, ++k) {
      uint32_t x = k % cand.size(); const OutInfo& c = cand[x];
      if ((int)x == g || (c.unlock < 500000000 && h < c.unlock)) continue;
      ring.push_back(x);
    }
    if (s.wrongRing) ring.back() = cand.size() + 5;
    std::sort(ring.begin(), ring.end());
    R r; r.real = 0;
    for (size_t i = 0; i < ring.size(); ++i) { r.keys.push_back(ring[i] < cand.size() ? cand[ring[i]].key : o.key); if ((int)ring[i] == g) r.real = i; }
    r.eph = ephemeral(a, o); crypto::generate_key_image(r.eph.publicKey, r.eph.secretKey, r.ki);
    KeyInput k; k.amount = o.amount; k.keyImage = r.ki; k.outputIndexes = ring;
    for (size_t i = ring.size() - 1; i > 0; --i) k.outputIndexes[i] -= k.outputIndexes[i - 1];
    t.inputs.push_back(k); rs.push_back(r);
  }
  Hash ph = getObjectHash(*static_cast<TransactionPrefix*>(&t));
  for (auto& r : rs) {
    std::vector<const crypto::PublicKey*> ks; for (auto& k : r.keys) ks.push_back(&k);
    std::vector<crypto::Signature> sig(ks.size());
    crypto::generate_ring_signature(ph, r.ki, ks, r.eph.secretKey, r.real, sig.data());
    if (s.badSig) ((uint8_t*)&sig[0])[3] ^= 0x10;
    t.signatures.push_back(sig);
  }
  out = info(t); out.fee = s.fee; out.deposit = s.term != 0; out.ttl = s.ttl; for (auto& r : rs) out.signedFor.push_back(r.keys);
  if (s.badSig) { out.bad = "bad-signature"; out.badProps = "C02,C03"; }
  return true;
}
bool World::makeWithdrawal(const MBP& at, const std::vector<OutInfo>& deps, int to, int64_t extra, uint64_t fee, TxInfo& out, bool badSig) {
  sim::NoSched ns;
  if (deps.empty()) return false;
  uint32_t h = at->height + 1; Transaction t; t.version = 2; t.unlockTime = 0;
  KeyPair txk = newKeys(); addTransactionPublicKeyToExtra(t.extra, txk.publicKey);
  uint64_t total = 0;
  for (auto& o : deps) {
    int g = outIndexGlobal(*at->led, o); if (g < 0) return false;
    MultisignatureInput m; m.amount = o.amount; m.outputIndex = g; m.signatureCount = o.req; m.term = o.term; t.inputs.push_back(m);
    total += inputAmount(t.inputs.back(), h);
  }
  uint64_t v = total - fee + extra;
  uint64_t p1 = v / 1000000 * 1000000; // round part, then the rest
  if (p1) { KeyOutput k; k.key = outKey(accs[to].address, txk, t.outputs.size()); t.outputs.push_back({p1, k}); }
  if (v - p1) { KeyOutput k; k.key = outKey(accs[to].address, txk, t.outputs.size()); t.outputs.push_back({v - p1, k}); }
  Hash ph = getObjectHash(*static_cast<TransactionPrefix*>(&t));
  for (auto& o : deps) {
    std::vector<crypto::Signature> sig;
    for (size_t i = 0; i < o.keys.size() && sig.size() < o.req; ++i) {
      auto f = ownerOf.find(o.keys[i]); if (f == ownerOf.end()) continue;
      OutInfo oo = o; KeyPair e = ephemeral(accs[f->second], oo);
      crypto::Signature sg; crypto::generate_signature(ph, e.publicKey, e.secretKey, sg);
      if (badSig) ((uint8_t*)&sg)[5] ^= 1;
      sig.push_back(sg);
    }
    if (sig.size() != o.req) return false;
    t.signatures.push_back(sig);
  }
  out = info(t); out.fee = fee; out.withdrawal = true; for (auto& o : deps) out.signedFor.push_back(o.keys);
  if (badSig) { out.bad = "bad-multisignature"; out.badProps = "C02,C03"; }
  return true;
}
MBP World::build(const BlockSpec& s) {
  sim::NoSched ns;
  const MBP& par = s.parent; uint32_t h = par->height + 1;
  Block b; b.majorVersion = version(h) + s.versionDelta; b.minorVersion = 0; b.nonce = 0; b.timestamp = s.ts; b.previousBlockHash = par->hash; b.transactionHashes = s.txs;
  std::vector<Transaction> t; size_t txSize = 0; uint64_t fee = 0;
  for (auto& id : s.txs) {
    auto f = txs.find(id); if (f == txs.end()) return MBP();
    t.push_back(f->second.tx); txSize += f->second.size;
    uint64_t ins = 0, outs = 0; for (auto& in : t.back().inputs) ins += inputAmount(in, h); for (auto& o : t.back().outputs) outs += o.amount;
    fee += ins >= outs ? ins - outs : 0;
  }
  KeyPair txk = newKeys(); size_t size = txSize + 150 + s.extraPad;
  for (int round = 0; round < 12; ++round) {
    Transaction c; c.version = s.coinbaseVersion ? s.coinbaseVersion : s.coinbaseDeposit ? 2 : 1; c.unlockTime = h + p.unlock + s.unlockDelta;
    BaseInput bi; bi.blockIndex = h + s.heightDelta; c.inputs.push_back(bi);
    addTransactionPublicKeyToExtra(c.extra, txk.publicKey);
    if (!s.nonce.empty()) addExtraNonceToTransactionExtra(c.extra, s.nonce);
    if (s.mmTag) { TransactionExtraMergeMiningTag tg; tg.depth = 0; tg.merkleRoot = NULL_HASH; appendMergeMiningTagToExtra(c.extra, tg); }
    for (size_t left = s.extraPad; left;) { size_t n = std::min<size_t>(left, 255); BinaryArray z(n, 0x22); addExtraNonceToTransactionExtra(c.extra, z); left -= n; }
    uint64_t rew; int64_t em;
    if (!reward(par, size, fee, h, rew, em)) rew = baseReward(par->generated, h);
    uint64_t amt = rew + s.rewardDelta;
    int n = s.outs ? s.outs : 1;
    for (int i = 0; i < n; ++i) {
      uint64_t v = i + 1 == n ? amt : amt / n / 1000 * 1000; amt -= v;
      if (s.coinbaseDeposit && i == 0) { MultisignatureOutput m; m.term = s.coinbaseTerm; m.requiredSignatureCount = 1; m.keys.push_back(outKey(accs[s.miner].address, txk, 0)); c.outputs.push_back({v, m}); }
      else { KeyOutput k; k.key = outKey(accs[s.miner].address, txk, i); c.outputs.push_back({v, k}); }
    }
    b.baseTransaction = c;
    size_t now = getObjectBinarySize(c) + txSize;
    if (now == size) break;
    size = now;
  }
  learnOwners(b.baseTransaction);
  uint64_t d = nextDiff(par); Hash pow;
  if (d == 0 || d > 20000) return MBP();
  for (;; ++b.nonce) { if (s.versionDelta) break; get_block_longhash(*ctx, b, pow); if (powOk(pow, d) != s.weakPow) break; if (s.weakPow && d <= 1) return MBP(); }
  MBP m = evaluate(b, t, par);
  if (blocks.count(m->hash)) return blocks[m->hash];
  blocks[m->hash] = m; return m;
}

// ---------------------------------------------------------------- node
void ProtoStub::relay_block(NOTIFY_NEW_BLOCK_request& arg) { (void)arg; relayedBlocks.push_back(NULL_HASH); }
void ProtoStub::relay_transactions(NOTIFY_NEW_TRANSACTIONS_request& arg) { relayedTxs += arg.txs.size(); }

bool Node::open(const std::map<uint32_t, Hash>& cps) {
  c.reset(new core(*w.cur, &proto, nolog, indexes, autosave));
  if (!cps.empty()) {
    Checkpoints cp(nolog);
    for (auto& x : cps) cp.add_checkpoint(x.first, common::podToHex(x.second));
    c->set_checkpoints(std::move(cp));
  }
  CoreConfig cc; cc.configFolder = dir; cc.configFolderDefaulted = false; cc.testnet = w.p.testnet;
  MinerConfig mc; mc.miningThreads = 0;
  return c->init(cc, mc, true);
}
void Node::close() { c->deinit(); c.reset(); }
void Node::abandon() { c.release(); }
Node::Res Node::offer(const MBP& b, bool control, bool relay) {
  Res r; r.bvc = block_verification_context{};
  for (auto& t : b->txs) {
    tx_verification_context v{}; c->handle_incoming_tx(toBinaryArray(t), v, true); r.tv.push_back(v);
    if (v.m_verification_failed) { r.txRefused = true; return r; }
  }
  r.ret = c->handle_incoming_block_blob(toBinaryArray(b->b), r.bvc, control, relay);
  return r;
}
tx_verification_context Node::submit(const Transaction& tx, bool kept, bool* ret) {
  tx_verification_context v{}; bool r = c->handle_incoming_tx(toBinaryArray(tx), v, kept); if (ret) *ret = r; return v;
}
Hash Node::tip() { return c->get_tail_id(); }
uint32_t Node::size() { return c->get_current_blockchain_height(); }
std::vector<Hash> Node::pool() {
  std::vector<Hash> r; for (auto& d : c->getMemoryPool()) r.push_back(d.id);
  std::sort(r.begin(), r.end(), HashLess()); return r;
}
template <class T> static std::string S(const T& v) { std::ostringstream o; o << v; return o.str(); }
static std::string HS(const Hash& h) { return hs::hex(&h, 32); }
static const size_t LIGHT_BACK = 12;

std::map<std::string, std::string> Node::facts(const std::vector<MBP>& universe, const std::vector<crypto::KeyImage>& kis, bool heavy) {
  std::map<std::string, std::string> f;
  uint32_t th; Hash tip; c->get_blockchain_top(th, tip);
  uint32_t n = size();
  f["size"] = S(n); f["top"] = S(th) + ":" + HS(tip); f["tail"] = HS(c->get_tail_id());
  f["next-difficulty"] = S(c->getNextBlockDifficulty());
  f["coins"] = S(c->getTotalGeneratedAmount());
  f["deposits"] = S(c->fullDepositAmount());
  f["tx-count"] = S(c->get_blockchain_total_transactions());
  uint32_t from = heavy ? 0 : (n > LIGHT_BACK ? n - LIGHT_BACK : 0);
  for (uint32_t h = from; h < n; ++h) {
    std::string p = "h" + S(h) + "-";
    Hash id = c->getBlockIdByHeight(h); f[p + "id"] = HS(id);
    difficulty_type d = 0; c->getBlockDifficulty(h, d); f[p + "difficulty"] = S(d);
    uint64_t ts = 0; c->getBlockTimestamp(h, ts); f[p + "time"] = S(ts);
    uint64_t g = 0; c->getAlreadyGeneratedCoins(id, g); f[p + "coins"] = S(g); f[p + "emitted"] = S(c->coinsEmittedAtHeight(h));
    size_t sz = 0; c->getBlockSize(id, sz); f[p + "size"] = S(sz);
    f[p + "deposit"] = S(c->depositAmountAtHeight(h)); f[p + "interest"] = S(c->depositInterestAtHeight(h));
    uint32_t bh = 0; bool ok = c->getBlockHeight(id, bh); f[p + "height"] = ok ? S(bh) : "none";
    Block b; f[p + "block"] = c->getBlockByHash(id, b) ? HS(get_block_hash(b)) : "none";
    std::list<Block> bl; std::list<Transaction> txs; c->get_blocks(h, 1, bl, txs);
    std::string tl; for (auto& t : txs) tl += HS(getObjectHash(t)).substr(0, 16) + ","; f[p + "txs"] = tl;
    if (indexes) { uint64_t gt = 0; f[p + "generated-txs"] = c->getGeneratedTransactionsNumber(h, gt) ? S(gt) : "none"; }
  }
  std::set<Hash, HashLess> seenTx;
  for (auto& m : universe) {
    if (!heavy && m->height + LIGHT_BACK < n) continue;
    uint32_t bh = 0; bool ok = c->getBlockHeight(m->hash, bh);
    f["b" + HS(m->hash).substr(0, 16) + "-main"] = ok ? S(bh) : "none";
    std::vector<Hash> ids = m->b.transactionHashes; ids.push_back(getObjectHash(m->b.baseTransaction));
    for (auto& id : ids) {
      if (!seenTx.insert(id).second) continue;
      std::string p = "t" + HS(id).substr(0, 16) + "-";
      Hash blk; uint32_t h2 = 0; f[p + "at"] = c->getBlockContainingTx(id, blk, h2) ? S(h2) + ":" + HS(blk).substr(0, 16) : "none";
      std::vector<uint32_t> gi; std::string gs = "none"; if (c->get_tx_outputs_gindexs(id, gi)) { gs = ""; for (auto x : gi) gs += S(x) + ","; }
      f[p + "outs"] = gs;
      Transaction tx; f[p + "tx"] = c->getTransaction(id, tx, false) ? HS(getObjectHash(tx)).substr(0, 16) : "none";
      Hash pid; const Transaction* src = nullptr; auto it = w.txs.find(id); if (it != w.txs.end()) src = &it->second.tx;
      if (indexes && src && pidOf(*src, pid)) {
        std::vector<Transaction> ts; c->getTransactionsByPaymentId(pid, ts);
        std::multiset<std::string> s; for (auto& t : ts) { Hash hh = getObjectHash(t); Hash bb; uint32_t z; if (c->getBlockContainingTx(hh, bb, z)) s.insert(HS(hh).substr(0, 16)); }
        std::string v; for (auto& x : s) v += x + ","; f["pid" + HS(pid).substr(0, 16)] = v;
      }
    }
    if (indexes && ok) {
      std::vector<Block> bs; uint32_t cnt = 0; c->getBlocksByTimestamp(m->b.timestamp, m->b.timestamp, 100, bs, cnt);
      std::multiset<std::string> s; for (auto& b : bs) s.insert(HS(get_block_hash(b)).substr(0, 16));
      std::string v; for (auto& x : s) v += x + ","; f["ts" + S(m->b.timestamp)] = v;
    }
  }
  for (auto& k : kis) f["k" + hs::hex(&k, 8)] = c->is_key_image_spent(k) ? "spent" : "free";
  return f;
}
std::map<std::string, std::string> modelFacts(World& w, const MBP& tip, const std::vector<MBP>& universe, const std::vector<crypto::KeyImage>& kis, bool heavy, bool indexes) {
  std::map<std::string, std::string> f;
  auto path = tip->path(); uint32_t n = path.size(); const Ledger& l = *tip->led;
  f["size"] = S(n); f["top"] = S(tip->height) + ":" + HS(tip->hash); f["tail"] = HS(tip->hash);
  f["next-difficulty"] = S(w.nextDiff(tip)); f["coins"] = S(tip->generated); f["deposits"] = S(l.deposit); f["tx-count"] = S(l.txCount);
  uint32_t from = heavy ? 0 : (n > LIGHT_BACK ? n - LIGHT_BACK : 0);
  uint64_t gt = 0; std::map<uint64_t, std::set<std::string>> byTs;
  std::set<Hash, HashLess> mainIds;
  for (uint32_t h = 0; h < n; ++h) {
    MB* m = path[h]; gt += 1 + m->b.transactionHashes.size(); byTs[m->b.timestamp].insert(HS(m->hash).substr(0, 16)); mainIds.insert(m->hash);
    if (h < from) continue;
    std::string p = "h" + S(h) + "-";
    f[p + "id"] = HS(m->hash); f[p + "difficulty"] = S(m->diff); f[p + "time"] = S(m->b.timestamp); f[p + "coins"] = S(m->generated); f[p + "emitted"] = S(m->generated);
    f[p + "size"] = S(m->size); f[p + "deposit"] = S(m->led->deposit); f[p + "interest"] = S(m->led->interest); f[p + "height"] = S(h); f[p + "block"] = HS(m->hash);
    std::string tl; for (auto& t : m->b.transactionHashes) tl += HS(t).substr(0, 16) + ","; f[p + "txs"] = tl;
    if (indexes) f[p + "generated-txs"] = S(gt);
  }
  std::set<Hash, HashLess> seenTx;
  for (auto& m : universe) {
    if (!heavy && m->height + LIGHT_BACK < n) continue;
    bool on = mainIds.count(m->hash);
    f["b" + HS(m->hash).substr(0, 16) + "-main"] = on ? S(m->height) : "none";
    std::vector<Hash> ids = m->b.transactionHashes; ids.push_back(getObjectHash(m->b.baseTransaction));
    for (auto& id : ids) {
      if (!seenTx.insert(id).second) continue;
      std::string p = "t" + HS(id).substr(0, 16) + "-";
      auto it = l.tx.find(id);
      f[p + "at"] = it == l.tx.end() ? "none" : S(it->second.height) + ":" + HS(path[it->second.height]->hash).substr(0, 16);
      std::string gs = "none"; if (it != l.tx.end()) { gs = ""; for (auto x : it->second.g) gs += S(x) + ","; }
      f[p + "outs"] = gs; f[p + "tx"] = it == l.tx.end() ? "none" : HS(id).substr(0, 16);
      auto ti = w.txs.find(id); Hash pid;
      if (indexes && ti != w.txs.end() && pidOf(ti->second.tx, pid)) {
        std::set<std::string> s; auto r = l.byPid.equal_range(pid); for (auto q = r.first; q != r.second; ++q) s.insert(HS(q->second).substr(0, 16));
        std::string v; for (auto& x : s) v += x + ","; f["pid" + HS(pid).substr(0, 16)] = v;
      }
    }
    if (indexes && on) { std::string v; for (auto& x : byTs[m->b.timestamp]) v += x + ","; f["ts" + S(m->b.timestamp)] = v; }
  }
  for (auto& k : kis) f["k" + hs::hex(&k, 8)] = l.ki.count(k) ? "spent" : "free";
  return f;
}
std::string diffFacts(const std::map<std::string, std::string>& a, const std::map<std::string, std::string>& b, const std::string& na, const std::string& nb, std::string& firstKey) {
  std::string r; int n = 0; firstKey = "";
  auto kind = [](const std::string& k) { // stable kind of a fact: digits and ids removed
    if (k[0] == 'h' && isdigit(k[1])) return "block-" + k.substr(k.find('-') + 1);
    if (k[0] == 'b' && k.size() > 17) return std::string("block-membership");
    if (k[0] == 't' && k.size() > 17 && k.find('-') == 17) return "transaction-" + k.substr(18);
    if (k[0] == 'k') return std::string("spent-marker");
    if (k.substr(0, 3) == "pid") return std::string("payment-id-index");
    if (k.substr(0, 2) == "ts" && isdigit(k[2])) return std::string("timestamp-index");
    return k; };
  auto add = [&](const std::string& k, const std::string& x, const std::string& y) { if (!n) firstKey = kind(k); if (n++ < 6) r += k + ": " + na + "=" + x + " " + nb + "=" + y + "; "; };
  for (auto& x : a) { auto y = b.find(x.first); if (y == b.end()) add(x.first, x.second, "(absent)"); else if (y->second != x.second) add(x.first, x.second, y->second); }
  for (auto& y : b) if (!a.count(y.first)) add(y.first, "(absent)", y.second);
  if (n > 6) r += "(" + S(n) + " differences)";
  return r;
}
}
