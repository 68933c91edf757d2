// Shared world of the ledger scenarios: currency profile, accounts, block/transaction builder and an
// independent reference model of the ledger rules (written from the protocol, not from Blockchain.cpp).
#pragma once
#include "harness.h"
#include <memory>
#include <CryptoNoteCore/Currency.h>
#include <CryptoNoteCore/Core.h>
#include <CryptoNoteCore/CoreConfig.h>
#include <CryptoNoteCore/MinerConfig.h>
#include <CryptoNoteCore/Account.h>
#include <CryptoNoteCore/CryptoNoteTools.h>
#include <CryptoNoteCore/CryptoNoteFormatUtils.h>
#include <CryptoNoteCore/TransactionApi.h>
#include <CryptoNoteCore/TransactionExtra.h>
#include <CryptoNoteCore/Checkpoints.h>
#include <Logging/ILogger.h>

namespace w {
using namespace cn;
typedef crypto::Hash Hash;

struct NullLog : logging::ILogger { void operator()(const std::string& category, logging::Level level, boost::posix_time::ptime time, const std::string& body) override; };
extern NullLog nolog;

struct HashLess { template <class T> bool operator()(const T& a, const T& b) const { return memcmp(&a, &b, sizeof(T)) < 0; } };

// Network parameters of a run (the model reads these, the product gets them through CurrencyBuilder)
struct Params {
  int profile = 0;
  uint64_t h2 = 1, h3 = 2, h4 = 3, h7 = 4, h8 = 5;       // last height of the previous version
  uint32_t minTermV3 = 6, maxTermV3 = 72, minTerm = 4, maxTermV1 = 400, hV3 = 0, hV4 = 0;
  size_t rewardZone = 100000, rewardWindow = 100, maxBlock0 = 100000;
  size_t tsWindow = 30; uint64_t future = 7200;
  uint64_t poolLife = 60 * 60 * 12, altPoolLife = 60 * 60 * 12;
  size_t diffWindow = 720, diffCut = 60, diffLag = 15;
  uint64_t unlock = 10;
  bool testnet = true;
  size_t txMaxSize = 0; // 0: default
};
struct World;
std::unique_ptr<Currency> makeCurrency(const Params& p);
Params paramsFrom(const hs::Plan& p);

struct OutInfo { Hash tx; crypto::PublicKey txPub; uint32_t height; uint32_t txIdx; uint16_t idx; uint64_t amount, unlock; crypto::PublicKey key; std::vector<crypto::PublicKey> keys; uint8_t req = 0; uint32_t term = 0; int owner = -1; bool used = false; };
struct TxPos { uint32_t height, idx; std::vector<uint32_t> g; };

struct MB; typedef std::shared_ptr<MB> MBP;
struct Ledger {
  std::map<uint64_t, std::vector<OutInfo>> key, ms;
  std::map<crypto::KeyImage, uint32_t, HashLess> ki;
  std::map<Hash, TxPos, HashLess> tx;
  std::multimap<Hash, Hash, HashLess> byPid;
  uint64_t generated = 0;
  int64_t deposit = 0; uint64_t interest = 0; uint64_t txCount = 0;
};
struct MB { // model block
  Block b; std::vector<Transaction> txs; Hash hash; MBP parent; uint32_t height = 0;
  uint64_t diff = 0, cum = 0, size = 0, generated = 0, interest = 0; int64_t depositDelta = 0;
  std::string bad;       // why this block is invalid on its parent (empty: valid), time rule excluded
  std::string badProps;  // properties its acceptance would contradict
  std::string headerBad; // set when the block is refused already when offered as an alternative block
  bool forged = false;   // deliberately invalid
  uint64_t needTime = 0; // earliest clock value at which its time-locked inputs are spendable
  std::shared_ptr<Ledger> led; // after this block
  std::vector<MB*> path() const; // genesis..this
};
struct TxInfo { Transaction tx; Hash id; size_t size = 0; std::string bad; std::string badProps; uint64_t fee = 0; bool deposit = false, withdrawal = false; uint64_t ttl = 0; std::vector<std::vector<crypto::PublicKey>> signedFor; }; // signedFor: keys each input was signed against

struct World {
  Params p;
  std::unique_ptr<Currency> cur;
  std::vector<AccountKeys> accs;
  std::map<crypto::PublicKey, int, HashLess> ownerOf; // output key -> account
  mutable std::map<crypto::PublicKey, crypto::KeyImage, HashLess> kiCache;
  std::map<Hash, MBP, HashLess> blocks;
  std::map<Hash, TxInfo, HashLess> txs;
  MBP genesis;
  crypto::cn_context* ctx = nullptr;
  explicit World(const Params& p, int accounts);
  ~World();
  // ---- rules (independent implementation) ----
  uint8_t version(uint64_t height) const;
  uint64_t nextDiff(const MBP& parent) const;
  uint64_t baseReward(uint64_t generated, uint32_t height) const;
  bool reward(const MBP& parent, size_t size, uint64_t fee, uint32_t height, uint64_t& reward, int64_t& emission) const;
  uint64_t interest(uint64_t amount, uint32_t term, uint32_t height) const;
  uint64_t inputAmount(const TransactionInput& in, uint32_t height) const;
  size_t maxSize(uint64_t height) const;
  bool outputOk(const TransactionOutput& o, uint32_t height) const;
  std::string checkTx(const Ledger& l, const TxInfo& t, uint32_t height, std::string& props) const; // empty: valid in a block at this height
  bool medianOk(const MBP& parent, uint64_t ts, bool alt) const;
  uint64_t timeLock(const Ledger& l, const Transaction& tx) const; // clock value from which its inputs are unlocked
  // evaluates block b on its parent (fills everything of MB)
  MBP evaluate(const Block& b, const std::vector<Transaction>& txs, const MBP& parent);
  MBP adopt(const Block& b, const MBP& parent); // a block made by a node: its transactions must be registered
  void apply(Ledger& l, const Transaction& tx, const Hash& id, uint32_t height, uint32_t idx, uint64_t& interestSum, int64_t& dep);
  // ---- builder ----
  struct BlockSpec {
    MBP parent; std::vector<Hash> txs; uint64_t ts = 0; int miner = 0; size_t extraPad = 0;
    int64_t rewardDelta = 0; int unlockDelta = 0; int heightDelta = 0; int versionDelta = 0; bool weakPow = false; uint32_t outs = 1; BinaryArray nonce;
    bool coinbaseDeposit = false; uint32_t coinbaseTerm = 0; int coinbaseVersion = 0; bool msNullVersion = false; bool mmTag = false;
  };
  MBP build(const BlockSpec& s);
  struct TxSpec {
    MBP at;                 // branch whose outputs are spendable
    int from = 0, to = 1; uint64_t amount = 0; uint64_t fee = 1000; int mixin = 0; int nOuts = 1;
    uint32_t term = 0; bool msOut = false; int msSigners = 2; uint64_t ttl = 0; Hash pid = NULL_HASH; uint64_t unlock = 0;
    std::vector<OutInfo> force;  // inputs to use exactly
    bool ignoreLock = false;     // allow not yet spendable inputs
    uint64_t pick = 0;           // selects among candidates
    size_t pad = 0;
    int64_t overspend = 0;
    bool badSig = false; bool dupInput = false; bool wrongRing = false;
    std::set<crypto::KeyImage, HashLess>* avoid = nullptr;
  };
  bool makeTx(const TxSpec& s, TxInfo& out);
  bool makeWithdrawal(const MBP& at, const std::vector<OutInfo>& deps, int to, int64_t extra, uint64_t fee, TxInfo& out, bool badSig = false);
  crypto::KeyImage keyImage(const OutInfo& o) const;
  std::vector<OutInfo> spendable(const MBP& at, int owner, bool ignoreLock) const;
  int outIndexGlobal(const Ledger& l, const OutInfo& o) const;
  TxInfo& reg(const TxInfo& t);
  TxInfo info(const Transaction& tx) const;
  void learnOwners(const Transaction& tx);
};
void addTtl(std::vector<uint8_t>& extra, uint64_t ttl);
bool isBaseTx(const Transaction& t);
bool powOk(const Hash& h, uint64_t diff);
uint64_t medianOf(std::vector<uint64_t> v);

// ---- a node running the real core ----
struct ProtoStub : i_cryptonote_protocol {
  std::vector<Hash> relayedBlocks; uint64_t relayedTxs = 0;
  void relay_block(NOTIFY_NEW_BLOCK_request& arg) override;
  void relay_transactions(NOTIFY_NEW_TRANSACTIONS_request& arg) override;
};
struct Node {
  World& w; std::string dir; bool indexes, autosave;
  ProtoStub proto; std::unique_ptr<core> c;
  Node(World& w, const std::string& dir, bool indexes = false, bool autosave = false) : w(w), dir(dir), indexes(indexes), autosave(autosave) {}
  bool open(const std::map<uint32_t, Hash>& checkpoints = {});  // construct + init (load existing)
  void close();                                     // deinit + destroy
  void abandon();                                   // after a crash: leak the instance
  // what a peer does: transactions first, then the block
  struct Res { bool txRefused = false; block_verification_context bvc{}; bool ret = false; std::vector<tx_verification_context> tv; };
  Res offer(const MBP& b, bool control = true, bool relay = true);
  tx_verification_context submit(const Transaction& tx, bool kept = false, bool* ret = nullptr);
  Hash tip(); uint32_t size();
  std::vector<Hash> pool();
  std::map<std::string, std::string> facts(const std::vector<MBP>& universe, const std::vector<crypto::KeyImage>& kis, bool heavy);
};
std::map<std::string, std::string> modelFacts(World& w, const MBP& tip, const std::vector<MBP>& universe, const std::vector<crypto::KeyImage>& kis, bool heavy, bool indexes);
std::string diffFacts(const std::map<std::string, std::string>& a, const std::map<std::string, std::string>& b, const std::string& na, const std::string& nb, std::string& firstKey);
}
