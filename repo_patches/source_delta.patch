From f2cf9074b3bdebfdc3e9194c31b15ef6f8a4c4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:58 +0000
Subject: [PATCH 01/91] fix: find transactions by payment id when only the
 chain or only the pool has them

---
 src/CryptoNoteCore/Core.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CryptoNoteCore/Core.cpp b/src/CryptoNoteCore/Core.cpp
index 99c3eb6..f2f7170 100644
--- a/src/CryptoNoteCore/Core.cpp
+++ b/src/CryptoNoteCore/Core.cpp
@@ -1019,12 +1019,12 @@ bool core::getPoolTransactionsByTimestamp(uint64_t timestampBegin, uint64_t time
 
 bool core::getTransactionsByPaymentId(const crypto::Hash& paymentId, std::vector<Transaction>& transactions) {
   std::vector<crypto::Hash> blockchainTransactionHashes;
-  if (!m_blockchain.getTransactionIdsByPaymentId(paymentId, blockchainTransactionHashes)) {
-    return false;
-  }
+  bool foundInBlockchain = m_blockchain.getTransactionIdsByPaymentId(paymentId, blockchainTransactionHashes);
 
   std::vector<crypto::Hash> poolTransactionHashes;
-  if (!m_mempool.getTransactionIdsByPaymentId(paymentId, poolTransactionHashes)) {
+  bool foundInPool = m_mempool.getTransactionIdsByPaymentId(paymentId, poolTransactionHashes);
+
+  if (!foundInBlockchain && !foundInPool) {
     return false;
   }
 
-- 
2.43.0


From afc6f19d7752562304b231305f6d1dd67b3d2415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:58 +0000
Subject: [PATCH 02/91] fix: do not expire pending transactions when the clock
 moves back

---
 src/CryptoNoteCore/TransactionPool.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/CryptoNoteCore/TransactionPool.cpp b/src/CryptoNoteCore/TransactionPool.cpp
index c8ffa06..7bd38c9 100644
--- a/src/CryptoNoteCore/TransactionPool.cpp
+++ b/src/CryptoNoteCore/TransactionPool.cpp
@@ -641,7 +641,8 @@ namespace cn
 
       for (auto it = m_recentlyDeletedTransactions.begin(); it != m_recentlyDeletedTransactions.end();)
       {
-        uint64_t elapsedTimeSinceDeletion = now - it->second;
+        uint64_t deletionTime = static_cast<uint64_t>(it->second);
+        uint64_t elapsedTimeSinceDeletion = now > deletionTime ? now - deletionTime : 0;
         if (elapsedTimeSinceDeletion > m_currency.numberOfPeriodsToForgetTxDeletedFromPool() * m_currency.mempoolTxLiveTime())
         {
           it = m_recentlyDeletedTransactions.erase(it);
@@ -654,7 +655,8 @@ namespace cn
 
       for (auto it = m_transactions.begin(); it != m_transactions.end();)
       {
-        uint64_t txAge = now - it->receiveTime;
+        uint64_t receiveTime = static_cast<uint64_t>(it->receiveTime);
+        uint64_t txAge = now > receiveTime ? now - receiveTime : 0;
         bool remove = txAge > (it->keptByBlock ? m_currency.mempoolTxFromAltBlockLiveTime() : m_currency.mempoolTxLiveTime());
 
         auto ttlIt = m_ttlIndex.find(it->id);
-- 
2.43.0


From 490aaa58dad290da3288aebc5cc3398daacfa85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:58 +0000
Subject: [PATCH 03/91] fix: keep the deposit index in step when the chain is
 rolled back

---
 src/CryptoNoteCore/Blockchain.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 4d88c20..eac3782 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -3284,6 +3284,7 @@ namespace cn
     m_timestampIndex.remove(m_blocks.back().bl.timestamp, blockHash);
     m_generatedTransactionsIndex.remove(m_blocks.back().bl);
 
+    m_depositIndex.popBlock();
     m_blocks.pop_back();
     m_blockIndex.pop();
 
-- 
2.43.0


From 7fddd9840bf2d7efce15077d2e0d57d9d1fb3f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 04/91] fix: no null dereference for a coinbase with a
 multisignature output and an old version

---
 src/CryptoNoteCore/CryptoNoteFormatUtils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp b/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp
index 4bcf6ea..bdf678b 100644
--- a/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp
+++ b/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp
@@ -317,7 +317,9 @@ bool check_outs_valid(const TransactionPrefix& tx, std::string* error) {
       }
     } else if (out.target.type() == typeid(MultisignatureOutput)) {
       if (tx.version < TRANSACTION_VERSION_2) {
-        *error = "Transaction contains multisignature output but its version is less than 2";
+        if (error) {
+          *error = "Transaction contains multisignature output but its version is less than 2";
+        }
         return false;
       }
 
-- 
2.43.0


From 2738b5823d3451e2db9856aa7a908daefa4b6ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 05/91] fix: undo the transactions of a block refused for its
 size

---
 src/CryptoNoteCore/Blockchain.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index eac3782..24c7db3 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -2764,6 +2764,7 @@ namespace cn
     if (!checkCumulativeBlockSize(blockHash, cumulative_block_size, block.height))
     {
       bvc.m_verification_failed = true;
+      popTransactions(block, minerTransactionHash);
       return false;
     }
 
-- 
2.43.0


From 6dfa7c9ea981c8a560ce6104cc0b896127e4a00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 06/91] fix: undo the transactions of a block that spends an
 output it creates

---
 src/CryptoNoteCore/Blockchain.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 24c7db3..2ba92ee 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -2731,10 +2731,19 @@ namespace cn
         logger(INFO, BRIGHT_WHITE) << "Block " << blockHash << " can't contain transaction " << tx_id << " because it has invalid version " << transactions[i].version;
       }
 
-      if (!checkTransactionInputs(transactions[i]))
+      try
+      {
+        if (!checkTransactionInputs(transactions[i]))
+        {
+          isTransactionValid = false;
+          logger(INFO, BRIGHT_WHITE) << "Block " << blockHash << " has at least one transaction with wrong inputs: " << tx_id;
+        }
+      }
+      catch (const std::exception &e)
       {
+        // e.g. an input refers to an output of this very block, which is not in m_blocks yet
         isTransactionValid = false;
-        logger(INFO, BRIGHT_WHITE) << "Block " << blockHash << " has at least one transaction with wrong inputs: " << tx_id;
+        logger(INFO, BRIGHT_WHITE) << "Block " << blockHash << " has a transaction whose inputs cannot be checked: " << tx_id << ", " << e.what();
       }
 
       if (!check_tx_outputs(transactions[i], block.height))
-- 
2.43.0


From 361230c000c6e657b5530b2077c1b21aeada77ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:12 +0000
Subject: [PATCH 07/91] fix: index pending transactions by payment id

---
 src/CryptoNoteCore/TransactionPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/TransactionPool.cpp b/src/CryptoNoteCore/TransactionPool.cpp
index 7bd38c9..79fde3c 100644
--- a/src/CryptoNoteCore/TransactionPool.cpp
+++ b/src/CryptoNoteCore/TransactionPool.cpp
@@ -257,7 +257,7 @@ namespace cn
         logger(WARNING, BRIGHT_YELLOW) << " Transaction already exists at inserting in memory pool";
         return false;
       }
-      m_paymentIdIndex.add(txd.tx);
+      m_paymentIdIndex.add(tx); // txd has been moved from
       m_timestampIndex.add(txd.receiveTime, txd.id);
 
       if (ttl.ttl != 0)
-- 
2.43.0


From 66e6bf905626c497441a73c74ffcf194a017f36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:12 +0000
Subject: [PATCH 08/91] fix: forget alternative blocks when the chain is rolled
 back

---
 src/CryptoNoteCore/Blockchain.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 2ba92ee..ad26648 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -3268,6 +3268,11 @@ namespace cn
           return false;
         }
       }
+
+      // Alternative blocks may hang off the removed ones; keeping them would refuse their branch for good
+      m_alternative_chains.clear();
+      m_orthanBlocksIndex.clear();
+      update_next_comulative_size_limit();
       
       logger(INFO, BRIGHT_GREEN) << "Blockchain successfully rolled back to height: " << height << "Synchronization will resume";
       return true;
-- 
2.43.0


From ebc36f7b171ef427e72af44bdc2f844bb4d7a52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:06 +0000
Subject: [PATCH 09/91] fix: re-check deposits and locks of pending
 transactions offered for mining

---
 src/CryptoNoteCore/Blockchain.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index ad26648..485a6e0 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -428,6 +428,31 @@ namespace cn
           return false;
         }
       }
+      else
+      {
+        // The signatures were checked on this branch, but deposits may have been spent and outputs may be locked again since
+        struct unlock_visitor
+        {
+          Blockchain &m_bch;
+          explicit unlock_visitor(Blockchain &bch) : m_bch(bch) {}
+          bool handle_output(const Transaction &source, const TransactionOutput &, size_t) { return m_bch.is_tx_spendtime_unlocked(source.unlockTime); }
+        };
+
+        unlock_visitor visitor(*this);
+        for (const auto &in : tx.inputs)
+        {
+          if (in.type() == typeid(MultisignatureInput))
+          {
+            uint32_t height = 0;
+            return checkTransactionInputs(tx, &height);
+          }
+
+          if (in.type() == typeid(KeyInput) && !scanOutputKeysForIndexes(boost::get<KeyInput>(in), visitor))
+          {
+            return false;
+          }
+        }
+      }
     }
 
     return true;
-- 
2.43.0


From 83b77e9d6fa8c83e24e5c5104bb5cc74bbea64a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:06 +0000
Subject: [PATCH 10/91] fix: keep expiring pending transactions after the clock
 moved back

---
 src/CryptoNoteCore/TransactionPool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/TransactionPool.h b/src/CryptoNoteCore/TransactionPool.h
index 88c4a90..c9eb2ed 100644
--- a/src/CryptoNoteCore/TransactionPool.h
+++ b/src/CryptoNoteCore/TransactionPool.h
@@ -51,7 +51,7 @@ namespace cn {
     bool call(functor_t functr) {
       time_t now = m_timeProvider.now();
 
-      if (now - m_lastWorkedTime > m_interval) {
+      if (now < m_lastWorkedTime || now - m_lastWorkedTime > m_interval) {
         bool res = functr();
         m_lastWorkedTime = m_timeProvider.now();
         return res;
-- 
2.43.0


From 4e26a850a8926dc771a92846559454762ac0fc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 11/91] fix: deposits used by pending transactions kept from
 blocks count as spent in the pool

---
 src/CryptoNoteCore/TransactionPool.cpp     | 18 ++++++------------
 src/CryptoNoteCore/TransactionPool.h       |  2 +-
 src/Serialization/SerializationOverloads.h |  6 ++++++
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/CryptoNoteCore/TransactionPool.cpp b/src/CryptoNoteCore/TransactionPool.cpp
index 79fde3c..64a5d96 100644
--- a/src/CryptoNoteCore/TransactionPool.cpp
+++ b/src/CryptoNoteCore/TransactionPool.cpp
@@ -739,12 +739,11 @@ namespace cn
       }
       else if (in.type() == typeid(MultisignatureInput))
       {
-        if (!keptByBlock)
+        const auto &msig = boost::get<MultisignatureInput>(in);
+        auto it = m_spentOutputs.find(GlobalOutput(msig.amount, msig.outputIndex));
+        if (it != m_spentOutputs.end())
         {
-          const auto &msig = boost::get<MultisignatureInput>(in);
-          auto output = GlobalOutput(msig.amount, msig.outputIndex);
-          assert(m_spentOutputs.count(output));
-          m_spentOutputs.erase(output);
+          m_spentOutputs.erase(it);
         }
       }
     }
@@ -779,13 +778,8 @@ namespace cn
       }
       else if (in.type() == typeid(MultisignatureInput))
       {
-        if (!keptByBlock)
-        {
-          const auto &msig = boost::get<MultisignatureInput>(in);
-          auto r = m_spentOutputs.insert(GlobalOutput(msig.amount, msig.outputIndex));
-          (void)r;
-          assert(r.second);
-        }
+        const auto &msig = boost::get<MultisignatureInput>(in);
+        m_spentOutputs.insert(GlobalOutput(msig.amount, msig.outputIndex));
       }
     }
 
diff --git a/src/CryptoNoteCore/TransactionPool.h b/src/CryptoNoteCore/TransactionPool.h
index c9eb2ed..92ab740 100644
--- a/src/CryptoNoteCore/TransactionPool.h
+++ b/src/CryptoNoteCore/TransactionPool.h
@@ -175,7 +175,7 @@ namespace cn {
     > tx_container_t;
 
     typedef std::pair<uint64_t, uint64_t> GlobalOutput;
-    typedef std::set<GlobalOutput> GlobalOutputsContainer;
+    typedef std::multiset<GlobalOutput> GlobalOutputsContainer; // one entry per pending transaction using the output
     typedef std::unordered_map<crypto::KeyImage, std::unordered_set<crypto::Hash> > key_images_container;
 
 
diff --git a/src/Serialization/SerializationOverloads.h b/src/Serialization/SerializationOverloads.h
index 205de35..e775bbd 100644
--- a/src/Serialization/SerializationOverloads.h
+++ b/src/Serialization/SerializationOverloads.h
@@ -241,6 +241,12 @@ bool serialize(std::set<K, Cmp> &value, common::StringView name, cn::ISerializer
   return serializeSet(value, name, serializer);
 }
 
+template <typename K, typename Cmp>
+bool serialize(std::multiset<K, Cmp> &value, common::StringView name, cn::ISerializer &serializer)
+{
+  return serializeSet(value, name, serializer);
+}
+
 template <typename K, typename V, typename Hash>
 bool serialize(std::unordered_map<K, V, Hash> &value, common::StringView name, cn::ISerializer &serializer)
 {
-- 
2.43.0


From 43dd397d66aa159e47452a59c129b50800429ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 12/91] fix: count deposit interest of blocks whose deposits
 and withdrawals cancel out

---
 src/CryptoNoteCore/DepositIndex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/DepositIndex.cpp b/src/CryptoNoteCore/DepositIndex.cpp
index 29979c0..923e439 100644
--- a/src/CryptoNoteCore/DepositIndex.cpp
+++ b/src/CryptoNoteCore/DepositIndex.cpp
@@ -71,7 +71,7 @@ void DepositIndex::pushBlock(DepositAmount amount, DepositInterest interest) {
   assert(!sumWillOverflow(amount, lastAmount));
   assert(!sumWillOverflow(interest, lastInterest));
   assert(amount + lastAmount >= 0);
-  if (amount != 0) {
+  if (amount != 0 || interest != 0) {
     index.push_back({blockCount, amount + lastAmount, interest + lastInterest});
   }
 
-- 
2.43.0


From 181646353ff52bdd196d92f9b646ed669f19ae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:31 +0000
Subject: [PATCH 13/91] fix: work out the difficulty of an alternative block
 from its own height

---
 src/CryptoNoteCore/Blockchain.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 485a6e0..eee3fa5 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -1348,7 +1348,7 @@ namespace cn
   {
     std::vector<uint64_t> timestamps;
     std::vector<difficulty_type> commulative_difficulties;
-    uint8_t BlockMajorVersion = getBlockMajorVersionForHeight(static_cast<uint32_t>(m_blocks.size()));
+    uint8_t BlockMajorVersion = getBlockMajorVersionForHeight(bei.height);
 
     if (alt_chain.size() < m_currency.difficultyBlocksCountByBlockVersion(BlockMajorVersion))
     {
@@ -1402,7 +1402,7 @@ namespace cn
       }
     }
 
-    uint64_t block_index = m_blocks.size();
+    uint64_t block_index = bei.height;
     uint8_t block_major_version = get_block_major_version_for_height(block_index + 1);
 
     if (block_major_version >= 8)
-- 
2.43.0


From a6e55c3e37176b1dbde4c34a2ca223e093b8a41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:26 +0000
Subject: [PATCH 14/91] fix: forget pending transactions found in the
 blockchain when the node starts

---
 src/CryptoNoteCore/Core.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/CryptoNoteCore/Core.cpp b/src/CryptoNoteCore/Core.cpp
index f2f7170..3ba340d 100644
--- a/src/CryptoNoteCore/Core.cpp
+++ b/src/CryptoNoteCore/Core.cpp
@@ -167,6 +167,19 @@ bool core::init(const CoreConfig& config, const MinerConfig& minerConfig, bool l
     return false;
   }
 
+  // The saved pool is older than the blockchain if the node was not shut down properly
+  std::list<Transaction> poolTransactions;
+  m_mempool.get_transactions(poolTransactions);
+  for (const Transaction& poolTransaction : poolTransactions) {
+    crypto::Hash transactionHash = getObjectHash(poolTransaction);
+    if (m_blockchain.haveTransaction(transactionHash)) {
+      Transaction transaction;
+      size_t blobSize;
+      uint64_t fee;
+      m_mempool.take_tx(transactionHash, transaction, blobSize, fee);
+    }
+  }
+
   r = m_miner->init(minerConfig);
   if (!(r)) {
     logger(ERROR, BRIGHT_RED) << "Failed to initialize blockchain storage";
-- 
2.43.0


From 11ff5f4324b1c45546c5d1187064932a38710be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:27 +0000
Subject: [PATCH 15/91] fix: do not accept a block cache whose map files are
 incomplete

---
 src/CryptoNoteCore/Blockchain.cpp | 65 ++++++++++++++++++++++++++++---
 1 file changed, 59 insertions(+), 6 deletions(-)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index eee3fa5..d13ee1b 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -105,6 +105,51 @@ namespace cn
     s(value.transaction, "tx");
   }
 
+  // Archives for the hash maps stored beside the block cache. A map that was not written or read in full
+  // throws, so that the cache is not taken for a complete one.
+  class CacheMapWriter
+  {
+  public:
+    explicit CacheMapWriter(const std::string &path) : m_file(path, std::ios::out | std::ios::trunc | std::ios::binary) {}
+
+    bool saveBinary(const void *data, size_t size)
+    {
+      m_file.write(static_cast<const char *>(data), size);
+      return true;
+    }
+
+    void finish()
+    {
+      m_file.close();
+      if (!m_file)
+      {
+        throw std::runtime_error("failed to write a cache file");
+      }
+    }
+
+  private:
+    std::ofstream m_file;
+  };
+
+  class CacheMapReader
+  {
+  public:
+    explicit CacheMapReader(const std::string &path) : m_file(path, std::ios::in | std::ios::binary) {}
+
+    bool loadBinary(void *data, size_t size)
+    {
+      m_file.read(static_cast<char *>(data), size);
+      if (!m_file)
+      {
+        throw std::runtime_error("failed to read a cache file");
+      }
+      return true;
+    }
+
+  private:
+    std::ifstream m_file;
+  };
+
   class BlockCacheSerializer
   {
 
@@ -204,25 +249,33 @@ namespace cn
       logger(INFO) << operation << "transaction map";
       if (s.type() == ISerializer::INPUT)
       {
-        phmap::BinaryInputArchive ar_in(appendPath(m_bs.m_config_folder, "transactionsmap.dat").c_str());
-        m_bs.m_transactionMap.phmap_load(ar_in);
+        CacheMapReader ar_in(appendPath(m_bs.m_config_folder, "transactionsmap.dat"));
+        if (!m_bs.m_transactionMap.phmap_load(ar_in))
+        {
+          throw std::runtime_error("failed to load transactionsmap.dat");
+        }
       }
       else
       {
-        phmap::BinaryOutputArchive ar_out(appendPath(m_bs.m_config_folder, "transactionsmap.dat").c_str());
+        CacheMapWriter ar_out(appendPath(m_bs.m_config_folder, "transactionsmap.dat"));
         m_bs.m_transactionMap.phmap_dump(ar_out);
+        ar_out.finish();
       }
 
       logger(INFO) << operation << "spent keys";
       if (s.type() == ISerializer::INPUT)
       {
-        phmap::BinaryInputArchive ar_in(appendPath(m_bs.m_config_folder, "spentkeys.dat").c_str());
-        m_bs.m_spent_keys.phmap_load(ar_in);
+        CacheMapReader ar_in(appendPath(m_bs.m_config_folder, "spentkeys.dat"));
+        if (!m_bs.m_spent_keys.phmap_load(ar_in))
+        {
+          throw std::runtime_error("failed to load spentkeys.dat");
+        }
       }
       else
       {
-        phmap::BinaryOutputArchive ar_out(appendPath(m_bs.m_config_folder, "spentkeys.dat").c_str());
+        CacheMapWriter ar_out(appendPath(m_bs.m_config_folder, "spentkeys.dat"));
         m_bs.m_spent_keys.phmap_dump(ar_out);
+        ar_out.finish();
       }
 
       logger(INFO) << operation << "outputs";
-- 
2.43.0


From 25bcbab49fe1c5b18719bb9f09998da96578bd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:46 +0000
Subject: [PATCH 16/91] fix: store each block before its index entry and each
 removal before the space is used again

---
 src/CryptoNoteCore/SwappedVector.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/CryptoNoteCore/SwappedVector.h b/src/CryptoNoteCore/SwappedVector.h
index 54356d4..c18d072 100644
--- a/src/CryptoNoteCore/SwappedVector.h
+++ b/src/CryptoNoteCore/SwappedVector.h
@@ -241,14 +241,14 @@ template<class T> bool SwappedVector<T>::open(const std::string& itemFileName, c
 }
 
 template<class T> void SwappedVector<T>::close() {
-  if (m_indexesFile.is_open())
-  {
-    m_indexesFile.close();
-  }
   if (m_itemsFile.is_open())
   {
     m_itemsFile.close();
   }
+  if (m_indexesFile.is_open())
+  {
+    m_indexesFile.close();
+  }
   std::cout << "SwappedVector cache hits: " << m_cacheHits << ", misses: " << m_cacheMisses << " (" << std::fixed << std::setprecision(2) << static_cast<double>(m_cacheMisses) / (m_cacheHits + m_cacheMisses) * 100 << "%)" << std::endl;
 }
 
@@ -316,6 +316,7 @@ template<class T> void SwappedVector<T>::clear() {
   m_indexesFile.seekp(0);
   uint64_t count = 0;
   m_indexesFile.write(reinterpret_cast<char*>(&count), sizeof count);
+  m_indexesFile.flush(); // the items may be overwritten from now on
   if (!m_indexesFile) {
     throw std::runtime_error("SwappedVector::clear");
   }
@@ -334,6 +335,7 @@ template<class T> void SwappedVector<T>::pop_back() {
   m_indexesFile.seekp(0);
   uint64_t count = m_offsets.size() - 1;
   m_indexesFile.write(reinterpret_cast<char*>(&count), sizeof count);
+  m_indexesFile.flush(); // the item may be overwritten from now on
   if (!m_indexesFile) {
     throw std::runtime_error("SwappedVector::pop_back");
   }
@@ -362,6 +364,10 @@ template<class T> void SwappedVector<T>::push_back(const T& item) {
     serialize(const_cast<T&>(item), archive);
 
     itemsFileSize = m_itemsFile.tellp();
+    m_itemsFile.flush(); // the item must be stored before the index counts it
+    if (!m_itemsFile) {
+      throw std::runtime_error("SwappedVector::push_back");
+    }
   }
 
   {
-- 
2.43.0


From ed0d80d0a75cf95c29f886c4b47f87b8d98cb2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:02 +0000
Subject: [PATCH 17/91] fix: replace the map files of the block cache only once
 fully written

---
 src/CryptoNoteCore/Blockchain.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index d13ee1b..9f38692 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -110,7 +110,8 @@ namespace cn
   class CacheMapWriter
   {
   public:
-    explicit CacheMapWriter(const std::string &path) : m_file(path, std::ios::out | std::ios::trunc | std::ios::binary) {}
+    explicit CacheMapWriter(const std::string &path) : m_path(path), m_tempPath(path + ".tmp"),
+      m_file(m_tempPath, std::ios::out | std::ios::trunc | std::ios::binary) {}
 
     bool saveBinary(const void *data, size_t size)
     {
@@ -121,13 +122,15 @@ namespace cn
     void finish()
     {
       m_file.close();
-      if (!m_file)
+      if (!m_file || std::rename(m_tempPath.c_str(), m_path.c_str()) != 0)
       {
         throw std::runtime_error("failed to write a cache file");
       }
     }
 
   private:
+    std::string m_path;
+    std::string m_tempPath;
     std::ofstream m_file;
   };
 
-- 
2.43.0


From c7390fce564e3e8fdcd42cd97f1d663a74c635bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:11 +0000
Subject: [PATCH 18/91] fix: start the deposit index afresh when the block
 cache is rebuilt

---
 src/CryptoNoteCore/Blockchain.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 9f38692..2564c97 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -771,6 +771,7 @@ namespace cn
       m_spent_keys.clear();
       m_outputs.clear();
       m_multisignatureOutputs.clear();
+      m_depositIndex = DepositIndex();
       for (uint32_t b = 0; b < m_blocks.size(); ++b)
       {
         if (b % 1000 == 0)
-- 
2.43.0


From f6d24a6f518beecb38490b9981bc5f71f34c1944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 19/91] fix: put the old chain back after a failed switch
 whatever the clock says

rollback_blockchain_switching pushes the disconnected blocks again through the
full block checks. When the clock has been set back since they were accepted, the
future-timestamp rule (or a clock-locked input) refuses one of them and the node is
left on a truncated chain. Blocks that are put back do not depend on the clock.
---
 src/CryptoNoteCore/Blockchain.cpp | 8 +++++++-
 src/CryptoNoteCore/Blockchain.h   | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 2564c97..1148554 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -15,6 +15,7 @@
 #include <boost/foreach.hpp>
 #include "Common/Math.h"
 #include "Common/int-util.h"
+#include "Common/ScopeExit.h"
 #include "Common/ShuffleGenerator.h"
 #include "Common/StdInputStream.h"
 #include "Common/StdOutputStream.h"
@@ -1214,6 +1215,8 @@ namespace cn
       auto height = static_cast<uint32_t>(rollback_height - 1);
 
       // return back original chain
+      m_restoringChain = true;
+      tools::ScopeExit restored([this]() { m_restoringChain = false; });
       for (const auto &bl : original_chain)
       {
         block_verification_context bvc = boost::value_initialized<block_verification_context>();
@@ -2383,6 +2386,9 @@ namespace cn
     }
     else
     {
+      if (m_restoringChain)
+        return true;
+
       //interpret as time
       auto current_time = static_cast<uint64_t>(time(nullptr));
       if (current_time + m_currency.lockedTxAllowedDeltaSeconds() >= unlock_time)
@@ -2490,7 +2496,7 @@ namespace cn
 
   bool Blockchain::check_block_timestamp_main(const Block &b)
   {
-    if (b.timestamp > get_adjusted_time() + m_currency.blockFutureTimeLimit())
+    if (!m_restoringChain && b.timestamp > get_adjusted_time() + m_currency.blockFutureTimeLimit())
     {
       logger(INFO, BRIGHT_WHITE) << "Timestamp of block with id: " << get_block_hash(b) << ", " << b.timestamp << ", bigger than adjusted time + 2 hours";
       return false;
diff --git a/src/CryptoNoteCore/Blockchain.h b/src/CryptoNoteCore/Blockchain.h
index 79506dc..16af6bb 100644
--- a/src/CryptoNoteCore/Blockchain.h
+++ b/src/CryptoNoteCore/Blockchain.h
@@ -308,6 +308,7 @@ namespace cn
 
     bool m_blockchainIndexesEnabled;
     bool m_blockchainAutosaveEnabled;
+    bool m_restoringChain = false; // blocks that were already accepted are being put back: the clock has no say
     PaymentIdIndex m_paymentIdIndex;
     TimestampBlocksIndex m_timestampIndex;
     GeneratedTransactionsIndex m_generatedTransactionsIndex;
-- 
2.43.0


From 8f87a59cfcbf8ce0ed23677c40bc658bbdf44678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 20/91] fix: judge a pending transaction against the present
 chain, not an old verdict

---
 src/CryptoNoteCore/Blockchain.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 1148554..2b782ca 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -452,9 +452,9 @@ namespace cn
     if (maxUsedBlock.empty())
     {
       //not checked, lets try to check
-      if (!lastFailed.empty() && getCurrentBlockchainHeight() > lastFailed.height && getBlockIdByHeight(lastFailed.height) == lastFailed.id)
+      if (!lastFailed.empty() && getTailId() == lastFailed.id)
       {
-        return false; //we already sure that this tx is broken for this height
+        return false; //we already sure that this tx is broken on top of this block
       }
 
       if (!checkTransactionInputs(tx, maxUsedBlock.height, maxUsedBlock.id, &tail))
@@ -465,15 +465,10 @@ namespace cn
     }
     else
     {
-      if (maxUsedBlock.height >= getCurrentBlockchainHeight())
+      if (maxUsedBlock.height >= getCurrentBlockchainHeight() || getBlockIdByHeight(maxUsedBlock.height) != maxUsedBlock.id)
       {
-        return false;
-      }
-
-      if (getBlockIdByHeight(maxUsedBlock.height) != maxUsedBlock.id)
-      {
-        //if we already failed on this height and id, skip actual ring signature check
-        if (lastFailed.id == getBlockIdByHeight(lastFailed.height))
+        //if we already failed on top of this block, skip actual ring signature check
+        if (!lastFailed.empty() && getTailId() == lastFailed.id)
         {
           return false;
         }
-- 
2.43.0


From bc68ad4acd5f8952574ebffc44de6e8706c34510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 21/91] fix: look up a block timestamp under the chain lock and
 within the chain

---
 src/CryptoNoteCore/Core.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/Core.cpp b/src/CryptoNoteCore/Core.cpp
index 3ba340d..c9df540 100644
--- a/src/CryptoNoteCore/Core.cpp
+++ b/src/CryptoNoteCore/Core.cpp
@@ -960,7 +960,8 @@ bool core::getBlockDifficulty(uint32_t height, difficulty_type& difficulty) {
 
 bool core::getBlockTimestamp(uint32_t height, uint64_t &timestamp)
 {
-  if (height > get_current_blockchain_height())
+  LockedBlockchainStorage lbs(m_blockchain);
+  if (height >= m_blockchain.getCurrentBlockchainHeight())
   {
     return false;
   }
-- 
2.43.0


From e877b63428d6c63c1bdc0ab9043b7b24fd7f1ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 22/91] fix: report pool changes and the tail verdict from one
 chain state

---
 src/CryptoNoteCore/Core.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CryptoNoteCore/Core.cpp b/src/CryptoNoteCore/Core.cpp
index c9df540..54a326b 100644
--- a/src/CryptoNoteCore/Core.cpp
+++ b/src/CryptoNoteCore/Core.cpp
@@ -545,6 +545,8 @@ void core::on_synchronized() {
 bool core::getPoolChanges(const crypto::Hash& tailBlockId, const std::vector<crypto::Hash>& knownTxsIds,
                           std::vector<Transaction>& addedTxs, std::vector<crypto::Hash>& deletedTxsIds) {
 
+  auto guard = m_mempool.obtainGuard();
+  LockedBlockchainStorage lbs(m_blockchain);
   getPoolChanges(knownTxsIds, addedTxs, deletedTxsIds);
   return tailBlockId == m_blockchain.getTailId();
 }
@@ -571,6 +573,7 @@ void core::getPoolChanges(const std::vector<crypto::Hash>& knownTxsIds, std::vec
 
   std::vector<crypto::Hash> addedTxsIds;
   auto guard = m_mempool.obtainGuard();
+  LockedBlockchainStorage lbs(m_blockchain);
   m_mempool.get_difference(knownTxsIds, addedTxsIds, deletedTxsIds);
   std::vector<crypto::Hash> misses;
   m_mempool.getTransactions(addedTxsIds, addedTxs, misses);
-- 
2.43.0


From 99bdbe458a73b0e0f6611115bc370539cb018c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 23/91] fix: a transaction that cannot go back to the pool no
 longer takes the others with it

---
 src/CryptoNoteCore/Blockchain.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 2b782ca..7657536 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -3629,7 +3629,8 @@ namespace cn
     {
       if (!m_tx_pool.add_tx(transactions[transactions.size() - 1 - i], context, true, height))
       {
-        throw std::runtime_error("Blockchain::saveTransactions, failed to add transaction to pool");
+        // the others still belong in the pool
+        logger(WARNING, BRIGHT_YELLOW) << "Failed to return transaction " << getObjectHash(transactions[transactions.size() - 1 - i]) << " to the pool";
       }
     }
   }
-- 
2.43.0


From 5ab0b4f9ad926678dcaf171654ce36e813a039ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:35 +0000
Subject: [PATCH 24/91] fix: a timer that has just expired must not swallow an
 interrupt

---
 src/Platform/Linux/System/Timer.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/Platform/Linux/System/Timer.cpp b/src/Platform/Linux/System/Timer.cpp
index 68243c6..ff24e50 100644
--- a/src/Platform/Linux/System/Timer.cpp
+++ b/src/Platform/Linux/System/Timer.cpp
@@ -101,18 +101,14 @@ void Timer::sleep(std::chrono::nanoseconds duration) {
         OperationContext* timerContext = static_cast<OperationContext*>(context);
         if (!timerContext->interrupted) {
           uint64_t value = 0;
-          if(::read(timer, &value, sizeof value) == -1 ){
-            if(errno == EAGAIN or EWOULDBLOCK) {
-              timerContext->interrupted = true;
-              dispatcher->pushContext(timerContext->context);
-            } else {
-              throw std::runtime_error("Timer::interrupt, read failed, "  + lastErrorMessage());
-            }
-          } else {
-            assert(value>0);
-            dispatcher->pushContext(timerContext->context);
+          if(::read(timer, &value, sizeof value) == -1 && errno != EAGAIN && errno != EWOULDBLOCK) {
+            throw std::runtime_error("Timer::interrupt, read failed, "  + lastErrorMessage());
           }
 
+          // the interrupt must be observed even when the timer has just expired
+          timerContext->interrupted = true;
+          dispatcher->pushContext(timerContext->context);
+
           epoll_event timerEvent;
           timerEvent.events = 0;
           timerEvent.data.ptr = nullptr;
-- 
2.43.0


From ec9b262612b2cad312a0ab6ebb4a64a4aaaf55c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:35 +0000
Subject: [PATCH 25/91] fix: a reset idle connection must not throw into an
 unrelated yielding context

---
 src/Platform/Linux/System/Dispatcher.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Platform/Linux/System/Dispatcher.cpp b/src/Platform/Linux/System/Dispatcher.cpp
index 18b62be..309f565 100644
--- a/src/Platform/Linux/System/Dispatcher.cpp
+++ b/src/Platform/Linux/System/Dispatcher.cpp
@@ -363,9 +363,8 @@ void Dispatcher::yield() {
           }
           pushContext(contextPair->readContext->context);
           contextPair->readContext->events = events[i].events;
-        } else if ((events[i].events & (EPOLLERR | EPOLLHUP)) != 0) {
-          throw std::runtime_error("Dispatcher::dispatch, events & (EPOLLERR | EPOLLHUP) != 0");
         } else {
+          // an error or hang-up of a connection nobody waits for is not the yielding context's problem
           continue;
         }
       }
-- 
2.43.0


From 3f80239831509b48ad259700fe95f545c06cb6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:35 +0000
Subject: [PATCH 26/91] fix: a hang-up must not hide bytes that were received
 before it

---
 src/Platform/Linux/System/TcpConnection.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/Platform/Linux/System/TcpConnection.cpp b/src/Platform/Linux/System/TcpConnection.cpp
index 578f333..8f2b611 100644
--- a/src/Platform/Linux/System/TcpConnection.cpp
+++ b/src/Platform/Linux/System/TcpConnection.cpp
@@ -138,10 +138,6 @@ size_t TcpConnection::read(uint8_t* data, size_t size) {
           }
         }
 
-        if((operationContext.events & (EPOLLERR | EPOLLHUP)) != 0) {
-          throw std::runtime_error("TcpConnection::read");
-        }
-
         ssize_t transferred = ::recv(connection, (void *)data, size, 0);
         if (transferred == -1) {
           message = "recv failed, " + lastErrorMessage();
-- 
2.43.0


From 7a3cff9fd13d8387bf086ada35db1f04b57ee839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 27/91] fix: ContextGroup::wait must not erase tasks spawned
 after the group became empty

---
 src/System/ContextGroup.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/System/ContextGroup.cpp b/src/System/ContextGroup.cpp
index 0154ea6..116a4da 100644
--- a/src/System/ContextGroup.cpp
+++ b/src/System/ContextGroup.cpp
@@ -84,11 +84,6 @@ void ContextGroup::wait() {
     dispatcher->dispatch();
     assert(context == dispatcher->getCurrentContext());
   }
-  
-  for (NativeContext* context = contextGroup.firstContext; context != nullptr; context = context->groupNext) {
-    context->procedure = nullptr;
-    context->interruptProcedure = nullptr;
-  }
 }
 
 }
-- 
2.43.0


From d9e3d65a32ed6ad57169461e95e2d6f3977820a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:35 +0000
Subject: [PATCH 28/91] fix: interrupting one direction of a connection must
 not disarm the other

---
 src/Platform/Linux/System/TcpConnection.cpp | 74 ++++++++++-----------
 1 file changed, 34 insertions(+), 40 deletions(-)

diff --git a/src/Platform/Linux/System/TcpConnection.cpp b/src/Platform/Linux/System/TcpConnection.cpp
index 8f2b611..5108388 100644
--- a/src/Platform/Linux/System/TcpConnection.cpp
+++ b/src/Platform/Linux/System/TcpConnection.cpp
@@ -28,6 +28,30 @@
 
 namespace platform_system {
 
+namespace {
+
+bool isWaiting(const OperationContext* operation) {
+  return operation != nullptr && !operation->interrupted && operation->events == 0;
+}
+
+// Arms the socket for exactly those directions that have a context still waiting to be resumed.
+int arm(int epoll, int connection, ContextPair& contextPair) {
+  epoll_event connectionEvent;
+  connectionEvent.events = EPOLLONESHOT;
+  if (isWaiting(contextPair.readContext)) {
+    connectionEvent.events |= EPOLLIN;
+  }
+
+  if (isWaiting(contextPair.writeContext)) {
+    connectionEvent.events |= EPOLLOUT;
+  }
+
+  connectionEvent.data.ptr = &contextPair;
+  return epoll_ctl(epoll, EPOLL_CTL_MOD, connection, &connectionEvent);
+}
+
+}
+
 TcpConnection::TcpConnection() : dispatcher(nullptr) {
 }
 
@@ -84,34 +108,23 @@ size_t TcpConnection::read(uint8_t* data, size_t size) {
     if (errno != EAGAIN) {
       message = "recv failed, " + lastErrorMessage();
     } else {
-      epoll_event connectionEvent;
       OperationContext operationContext;
       operationContext.interrupted = false;
+      operationContext.events = 0;
       operationContext.context = dispatcher->getCurrentContext();
       contextPair.readContext = &operationContext;
-      connectionEvent.data.ptr = &contextPair;
 
-      if(contextPair.writeContext != nullptr) {
-        connectionEvent.events = EPOLLIN | EPOLLOUT | EPOLLONESHOT;
-      } else {
-        connectionEvent.events = EPOLLIN | EPOLLONESHOT;
-      }
-
-      if (epoll_ctl(dispatcher->getEpoll(), EPOLL_CTL_MOD, connection, &connectionEvent) == -1) {
+      if (arm(dispatcher->getEpoll(), connection, contextPair) == -1) {
         message = "epoll_ctl failed, " + lastErrorMessage();
       } else {
         dispatcher->getCurrentContext()->interruptProcedure = [&]() {
             assert(dispatcher != nullptr);
             assert(contextPair.readContext != nullptr);
-            epoll_event connectionEvent;
-            connectionEvent.events = 0;
-            connectionEvent.data.ptr = nullptr;
-
-            if (epoll_ctl(dispatcher->getEpoll(), EPOLL_CTL_MOD, connection, &connectionEvent) == -1) {
+            contextPair.readContext->interrupted = true;
+            if (arm(dispatcher->getEpoll(), connection, contextPair) == -1) {
               throw std::runtime_error("TcpConnection::stop, epoll_ctl failed, " + lastErrorMessage());
             }
 
-            contextPair.readContext->interrupted = true;
             dispatcher->pushContext(contextPair.readContext->context);
         };
 
@@ -128,11 +141,7 @@ size_t TcpConnection::read(uint8_t* data, size_t size) {
 
         contextPair.readContext = nullptr;
         if(contextPair.writeContext != nullptr) { //write is presented, rearm
-          epoll_event connectionEvent;
-          connectionEvent.events = EPOLLOUT | EPOLLONESHOT;
-          connectionEvent.data.ptr = &contextPair;
-
-          if (epoll_ctl(dispatcher->getEpoll(), EPOLL_CTL_MOD, connection, &connectionEvent) == -1) {
+          if (arm(dispatcher->getEpoll(), connection, contextPair) == -1) {
             message = "epoll_ctl failed, " + lastErrorMessage();
             throw std::runtime_error("TcpConnection::read");
           }
@@ -176,34 +185,23 @@ std::size_t TcpConnection::write(const uint8_t* data, size_t size) {
     if (errno != EAGAIN) {
       message = "send failed, " + lastErrorMessage();
     } else {
-      epoll_event connectionEvent;
       OperationContext operationContext;
       operationContext.interrupted = false;
+      operationContext.events = 0;
       operationContext.context = dispatcher->getCurrentContext();
       contextPair.writeContext = &operationContext;
-      connectionEvent.data.ptr = &contextPair;
 
-      if(contextPair.readContext != nullptr) {
-        connectionEvent.events = EPOLLIN | EPOLLOUT | EPOLLONESHOT;
-      } else {
-        connectionEvent.events = EPOLLOUT | EPOLLONESHOT;
-      }
-
-      if (epoll_ctl(dispatcher->getEpoll(), EPOLL_CTL_MOD, connection, &connectionEvent) == -1) {
+      if (arm(dispatcher->getEpoll(), connection, contextPair) == -1) {
         message = "epoll_ctl failed, " + lastErrorMessage();
       } else {
         dispatcher->getCurrentContext()->interruptProcedure = [&]() {
             assert(dispatcher != nullptr);
             assert(contextPair.writeContext != nullptr);
-            epoll_event connectionEvent;
-            connectionEvent.events = 0;
-            connectionEvent.data.ptr = nullptr;
-
-            if (epoll_ctl(dispatcher->getEpoll(), EPOLL_CTL_MOD, connection, &connectionEvent) == -1) {
+            contextPair.writeContext->interrupted = true;
+            if (arm(dispatcher->getEpoll(), connection, contextPair) == -1) {
               throw std::runtime_error("TcpConnection::stop, epoll_ctl failed, " + lastErrorMessage());
             }
 
-            contextPair.writeContext->interrupted = true;
             dispatcher->pushContext(contextPair.writeContext->context);
         };
 
@@ -220,11 +218,7 @@ std::size_t TcpConnection::write(const uint8_t* data, size_t size) {
 
         contextPair.writeContext = nullptr;
         if(contextPair.readContext != nullptr) { //read is presented, rearm
-          epoll_event connectionEvent;
-          connectionEvent.events = EPOLLIN | EPOLLONESHOT;
-          connectionEvent.data.ptr = &contextPair;
-
-          if (epoll_ctl(dispatcher->getEpoll(), EPOLL_CTL_MOD, connection, &connectionEvent) == -1) {
+          if (arm(dispatcher->getEpoll(), connection, contextPair) == -1) {
             message = "epoll_ctl failed, " + lastErrorMessage();
             throw std::runtime_error("TcpConnection::write, " + message);
           }
-- 
2.43.0


From 3588ce1b335d2c9bbe5929b015415b9a24446b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:15 +0000
Subject: [PATCH 29/91] fix: HTTP header values containing ': ' lost the colon

---
 src/HTTP/HttpParser.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/HTTP/HttpParser.cpp b/src/HTTP/HttpParser.cpp
index 50c7fe0..2aab631 100644
--- a/src/HTTP/HttpParser.cpp
+++ b/src/HTTP/HttpParser.cpp
@@ -157,7 +157,7 @@ bool HttpParser::readHeader(std::istream& stream, std::string& name, std::string
 
   stream.get(c);
   while (stream.good() && c != '\r') {
-    if (c == ':') {
+    if (isName && c == ':') {
       if (stream.peek() == ' ') {
         stream.get(c);
       }
@@ -166,11 +166,9 @@ bool HttpParser::readHeader(std::istream& stream, std::string& name, std::string
         throw std::system_error(make_error_code(cn::error::HttpParserErrorCodes::EMPTY_HEADER));
       }
 
-      if (isName) {
-        isName = false;
-        stream.get(c);
-        continue;
-      }
+      isName = false;
+      stream.get(c);
+      continue;
     }
 
     if (isName) {
-- 
2.43.0


From a0cf1827bc255310296a24973a5ddd2f67da5c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:09 +0000
Subject: [PATCH 30/91] fix: an interrupted flush must not send the buffered
 bytes again

---
 src/System/TcpStream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/System/TcpStream.cpp b/src/System/TcpStream.cpp
index e02e0bf..433e693 100644
--- a/src/System/TcpStream.cpp
+++ b/src/System/TcpStream.cpp
@@ -87,6 +87,8 @@ bool TcpStreambuf::dumpBuffer(bool finalize) {
       }
     }
   } catch (std::exception&) {
+    // part of the buffer may be on its way already: never send it a second time
+    setp(pbase(), epptr());
     return false;
   }
 
-- 
2.43.0


From bcad28e54258c0138659baefb9dd9f3c282b0223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:06 +0000
Subject: [PATCH 31/91] fix: destroying an HTTP client whose connection was
 reset must not end the process

---
 src/Rpc/HttpClient.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Rpc/HttpClient.cpp b/src/Rpc/HttpClient.cpp
index 066720f..2bfc2c4 100644
--- a/src/Rpc/HttpClient.cpp
+++ b/src/Rpc/HttpClient.cpp
@@ -30,7 +30,11 @@ HttpClient::HttpClient(platform_system::Dispatcher& dispatcher, const std::strin
 
 HttpClient::~HttpClient() {
   if (m_connected) {
-    disconnect();
+    try {
+      disconnect();
+    } catch (const std::exception&) {
+      // the server may have dropped the connection already
+    }
   }
 }
 
-- 
2.43.0


From 201c3c8ce5cd2896abd5a9599430edceeb007d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:47 +0000
Subject: [PATCH 32/91] fix: HttpServer::stop could hang when a connection was
 accepted at the same moment

---
 src/Rpc/HttpServer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Rpc/HttpServer.cpp b/src/Rpc/HttpServer.cpp
index f6608bf..d3b86b5 100644
--- a/src/Rpc/HttpServer.cpp
+++ b/src/Rpc/HttpServer.cpp
@@ -74,6 +74,11 @@ void HttpServer::acceptLoop() {
       }
     }
 
+    // a stop that came while this context was about to resume must not be answered with a new accept loop
+    if (m_dispatcher.interrupted()) {
+      throw platform_system::InterruptedException();
+    }
+
     m_connections.insert(&connection);
     BOOST_SCOPE_EXIT_ALL(this, &connection) { 
       m_connections.erase(&connection); };
-- 
2.43.0


From c93363380be44759860cd348a0c2de2d36e8cc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:20 +0000
Subject: [PATCH 33/91] fix: a resumed write to a broken connection must not
 raise SIGPIPE

---
 src/Platform/Linux/System/TcpConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Platform/Linux/System/TcpConnection.cpp b/src/Platform/Linux/System/TcpConnection.cpp
index 5108388..e5b2686 100644
--- a/src/Platform/Linux/System/TcpConnection.cpp
+++ b/src/Platform/Linux/System/TcpConnection.cpp
@@ -228,7 +228,7 @@ std::size_t TcpConnection::write(const uint8_t* data, size_t size) {
           throw std::runtime_error("TcpConnection::write, events & (EPOLLERR | EPOLLHUP) != 0");
         }
 
-        ssize_t transferred = ::send(connection, (void *)data, size, 0);
+        ssize_t transferred = ::send(connection, (void *)data, size, MSG_NOSIGNAL);
         if (transferred == -1) {
           message = "send failed, "  + lastErrorMessage();
         } else {
-- 
2.43.0


From 1e7bfe72ae0b73c839d5cc77033a2dc59cd54119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:18 +0000
Subject: [PATCH 34/91] fix: count a connection as a peer once, and forget it
 exactly when it was counted

Peers whose handshake failed after they had been counted were never
subtracted, and connections closed in another state than
state_befor_handshake without having been counted were subtracted.
---
 src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp |  6 ++++--
 src/P2p/ConnectionContext.h                          |  1 +
 src/P2p/NetNode.cpp                                  | 11 ++++++-----
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp b/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp
index 9c9ae7a..c422ffa 100644
--- a/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp
+++ b/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp
@@ -97,8 +97,9 @@ void CryptoNoteProtocolHandler::onConnectionClosed(CryptoNoteConnectionContext &
     m_observerManager.notify(&ICryptoNoteProtocolObserver::lastKnownBlockHeightUpdated, m_observedHeight);
   }
 
-  if (context.m_state != CryptoNoteConnectionContext::state_befor_handshake)
+  if (context.m_is_counted_peer)
   {
+    context.m_is_counted_peer = false;
     m_peersCount--;
     m_observerManager.notify(&ICryptoNoteProtocolObserver::peerCountUpdated, m_peersCount.load());
   }
@@ -210,8 +211,9 @@ bool CryptoNoteProtocolHandler::process_payload_sync_data(const CORE_SYNC_DATA &
   updateObservedHeight(hshd.current_height, context);
   context.m_remote_blockchain_height = hshd.current_height;
 
-  if (is_inital)
+  if (is_inital && !context.m_is_counted_peer)
   {
+    context.m_is_counted_peer = true;
     m_peersCount++;
     m_observerManager.notify(&ICryptoNoteProtocolObserver::peerCountUpdated, m_peersCount.load());
   }
diff --git a/src/P2p/ConnectionContext.h b/src/P2p/ConnectionContext.h
index 7ac24e2..20b5ef2 100644
--- a/src/P2p/ConnectionContext.h
+++ b/src/P2p/ConnectionContext.h
@@ -44,6 +44,7 @@ struct CryptoNoteConnectionContext {
   std::unordered_set<crypto::Hash> m_requested_objects;
   uint32_t m_remote_blockchain_height = 0;
   uint32_t m_last_response_height = 0;
+  bool m_is_counted_peer = false; // this connection is included in the handler's peer count
 };
 
 inline std::string get_protocol_state_string(CryptoNoteConnectionContext::state s) {
diff --git a/src/P2p/NetNode.cpp b/src/P2p/NetNode.cpp
index 35ec0eb..f46d5fa 100644
--- a/src/P2p/NetNode.cpp
+++ b/src/P2p/NetNode.cpp
@@ -674,11 +674,6 @@ namespace cn
       return true;
     }
 
-    if (!m_payload_handler.process_payload_sync_data(rsp.payload_data, context, true)) {
-      logger(logging::DEBUGGING) << context << "COMMAND_HANDSHAKE invoked, but process_payload_sync_data returned false, dropping connection.";
-      return false;
-    }
-
     context.peerId = rsp.node_data.peer_id;
     m_peerlist.set_peer_just_seen(rsp.node_data.peer_id, context.m_remote_ip, context.m_remote_port);
 
@@ -687,6 +682,12 @@ namespace cn
       return false;
     }
 
+    // the connection becomes a peer only when nothing can fail any more: it is forgotten when it closes
+    if (!m_payload_handler.process_payload_sync_data(rsp.payload_data, context, true)) {
+      logger(logging::DEBUGGING) << context << "COMMAND_HANDSHAKE invoked, but process_payload_sync_data returned false, dropping connection.";
+      return false;
+    }
+
     logger(logging::DEBUGGING) << context << "COMMAND_HANDSHAKE INVOKED OK";
     return true;
   }
-- 
2.43.0


From 5aadcf4d0d14c3e5f7a88521093ca9a767558076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:18 +0000
Subject: [PATCH 35/91] fix: do not take an interruption of the server for a
 timeout of its own

try_ping and try_to_connect_and_handshake_with_new_peer swallowed the
interruption that stops the server, so that stopping hung until the remote
side closed the connection.
---
 src/P2p/NetNode.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/P2p/NetNode.cpp b/src/P2p/NetNode.cpp
index f46d5fa..e8671fa 100644
--- a/src/P2p/NetNode.cpp
+++ b/src/P2p/NetNode.cpp
@@ -780,6 +780,7 @@ namespace cn
 
     try {
       platform_system::TcpConnection connection;
+      bool timedOut = false; // tells our own timeout from the interruption of this context
 
       try {
         platform_system::Context<platform_system::TcpConnection> connectionContext(m_dispatcher, [&] {
@@ -787,14 +788,19 @@ namespace cn
           return connector.connect(platform_system::Ipv4Address(common::ipAddressToString(na.ip)), static_cast<uint16_t>(na.port));
         });
 
-        platform_system::Context<> timeoutContext(m_dispatcher, [this, &na, &connectionContext] {
+        platform_system::Context<> timeoutContext(m_dispatcher, [this, &na, &connectionContext, &timedOut] {
           platform_system::Timer(m_dispatcher).sleep(std::chrono::milliseconds(m_config.m_net_config.connection_timeout));
           logger(DEBUGGING) << "Connection to " << na <<" timed out, interrupting it";
+          timedOut = true;
           safeInterrupt(connectionContext);
         });
 
         connection = std::move(connectionContext.get());
       } catch (const platform_system::InterruptedException&) {
+        if (!timedOut) {
+          throw;
+        }
+
         logger(DEBUGGING) << "Connection timed out";
         return false;
       }
@@ -814,10 +820,11 @@ namespace cn
           return handshake(proto, ctx, just_take_peerlist);
         });
 
-        platform_system::Context<> timeoutContext(m_dispatcher, [this, &na, &handshakeContext] {
+        platform_system::Context<> timeoutContext(m_dispatcher, [this, &na, &handshakeContext, &timedOut] {
           // Here we use connection_timeout * 3, one for this handshake, and two for back ping from peer.
           platform_system::Timer(m_dispatcher).sleep(std::chrono::milliseconds(m_config.m_net_config.connection_timeout * 3));
           logger(DEBUGGING) << "Handshake with " << na << " timed out, interrupt it";
+          timedOut = true;
           safeInterrupt(handshakeContext);
         });
 
@@ -826,6 +833,10 @@ namespace cn
           return false;
         }
       } catch (const platform_system::InterruptedException&) {
+        if (!timedOut) {
+          throw;
+        }
+
         logger(DEBUGGING) << "Handshake timed out";
         return false;
       }
@@ -1235,6 +1246,7 @@ namespace cn
     auto ip = common::ipAddressToString(actual_ip);
     auto port = node_data.my_port;
     auto peerId = node_data.peer_id;
+    bool timedOut = false; // tells our own timeout from the interruption of this context
 
     try {
       COMMAND_PING::request req;
@@ -1245,9 +1257,10 @@ namespace cn
         LevinProtocol(connection).invoke(COMMAND_PING::ID, req, rsp);
       });
 
-      platform_system::Context<> timeoutContext(m_dispatcher, [this, &context, &ip, &port, &pingContext] {
+      platform_system::Context<> timeoutContext(m_dispatcher, [this, &context, &ip, &port, &pingContext, &timedOut] {
         platform_system::Timer(m_dispatcher).sleep(std::chrono::milliseconds(m_config.m_net_config.connection_timeout * 2));
         logger(DEBUGGING) << context << "Back ping timed out" << ip << ":" << port;
+        timedOut = true;
         safeInterrupt(pingContext);
       });
 
@@ -1258,6 +1271,13 @@ namespace cn
                                    << ":" << port << ", hsh_peer_id=" << peerId << ", rsp.peer_id=" << rsp.peer_id;
         return false;
       }
+    } catch (const platform_system::InterruptedException&) {
+      if (!timedOut) {
+        throw; // the connection being served is being closed
+      }
+
+      logger(DEBUGGING) << context << "Back ping connection to " << ip << ":" << port << " timed out";
+      return false;
     } catch (const std::exception& e) {
       logger(DEBUGGING) << context << "Back ping connection to " << ip << ":" << port << " failed: " << e.what();
       return false;
@@ -1544,7 +1564,7 @@ namespace cn
         LevinProtocol proto(ctx.connection);
         LevinProtocol::Command cmd;
 
-        for (;;) {
+        while (!m_stop) {
           if (ctx.m_state == CryptoNoteConnectionContext::state_sync_required) {
             ctx.m_state = CryptoNoteConnectionContext::state_synchronizing;
             m_payload_handler.start_sync(ctx);
-- 
2.43.0


From 6c2452a76a4ca1df0ab57778fc4fe479d4d502b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:18 +0000
Subject: [PATCH 36/91] fix: start with a default configuration when the p2p
 state has another version

The state was taken as loaded although nothing was read, the node ran with
peer id 0, and its peers never sent it anything.
---
 src/P2p/NetNode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/P2p/NetNode.cpp b/src/P2p/NetNode.cpp
index e8671fa..6466d3e 100644
--- a/src/P2p/NetNode.cpp
+++ b/src/P2p/NetNode.cpp
@@ -217,7 +217,7 @@ namespace cn
     s(version, "version");
 
     if (version != 1) {
-      return;
+      throw std::runtime_error("unsupported p2p state version");
     }
 
     s(m_peerlist, "peerlist");
-- 
2.43.0


From 7b0e0ea87a7735145ab49d24d18d9a3e4b800cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:18 +0000
Subject: [PATCH 37/91] fix: keep talking to a node whose clock was set back

One peer list entry from the remote node's own future made every handshake
and timed sync with it fail until its clock had caught up.
---
 src/P2p/NetNode.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/P2p/NetNode.cpp b/src/P2p/NetNode.cpp
index 6466d3e..cf52e06 100644
--- a/src/P2p/NetNode.cpp
+++ b/src/P2p/NetNode.cpp
@@ -1089,8 +1089,9 @@ namespace cn
     {
       if(be.last_seen > uint64_t(local_time))
       {
+        // the clock of the remote node was set back after it had seen this peer
         logger(DEBUGGING) << "FOUND FUTURE peerlist for entry " << be.adr << " last_seen: " << be.last_seen << ", local_time(on remote node):" << local_time;
-        return false;
+        be.last_seen = local_time;
       }
       be.last_seen += delta;
     }
-- 
2.43.0


From ebd5355885158e90d7f925a5cf2d7300dae2eec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:18 +0000
Subject: [PATCH 38/91] fix: keep calling periodic work after the clock was set
 back

---
 src/CryptoNoteCore/OnceInInterval.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/OnceInInterval.h b/src/CryptoNoteCore/OnceInInterval.h
index 784c291..5bcc046 100644
--- a/src/CryptoNoteCore/OnceInInterval.h
+++ b/src/CryptoNoteCore/OnceInInterval.h
@@ -25,7 +25,7 @@ public:
   bool call(F func) {
     time_t currentTime = time(nullptr);
 
-    if (currentTime - m_lastCalled > m_interval) {
+    if (currentTime < m_lastCalled || currentTime - m_lastCalled > m_interval) { // the clock may be set back
       bool res = func();
       time(&m_lastCalled);
       return res;
-- 
2.43.0


From 8fb715ea9099a45e7d26df2ae31159ae3db42c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 39/91] fix: keep the peer lists sound when they are loaded
 from a damaged or foreign file

An address could be in both lists, and addresses that are not allowed (any
more) stayed in them.
---
 src/P2p/PeerListManager.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/P2p/PeerListManager.cpp b/src/P2p/PeerListManager.cpp
index b23603d..6c1b407 100644
--- a/src/P2p/PeerListManager.cpp
+++ b/src/P2p/PeerListManager.cpp
@@ -98,6 +98,22 @@ PeerlistManager::PeerlistManager() :
 bool PeerlistManager::init(bool allow_local_ip)
 {
   m_allow_local_ip = allow_local_ip;
+
+  // the lists may have been loaded from a file that is damaged or was written with other settings
+  for (auto it = m_peers_white.begin(); it != m_peers_white.end();) {
+    it = is_ip_allowed(it->adr.ip) ? std::next(it) : m_peers_white.erase(it);
+  }
+
+  for (auto it = m_peers_gray.begin(); it != m_peers_gray.end();) {
+    it = is_ip_allowed(it->adr.ip) && m_peers_white.count(it->adr) == 0 ? std::next(it) : m_peers_gray.erase(it);
+  }
+
+  for (auto it = m_peers_anchor.begin(); it != m_peers_anchor.end();) {
+    it = is_ip_allowed(it->adr.ip) ? std::next(it) : m_peers_anchor.erase(it);
+  }
+
+  trim_white_peerlist();
+  trim_gray_peerlist();
   return true;
 }
 
-- 
2.43.0


From 9b022e1766a112ceec79552dc79c3e3252f10ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 40/91] fix: let a peer on a stale branch reach the main chain

A node that is far ahead asked such a peer for its branch, refused it as too
deep a reorganization and closed the connection, each time before the peer
had fetched the main chain.
---
 src/CryptoNoteCore/Blockchain.cpp                    | 1 +
 src/CryptoNoteCore/VerificationContext.h             | 1 +
 src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp | 9 +++++++++
 3 files changed, 11 insertions(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 7657536..8b913c8 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -1667,6 +1667,7 @@ namespace cn
                           << " blockchain height: " << getCurrentBlockchainHeight();
 
         bvc.m_verification_failed = true;
+        bvc.m_reorganization_too_deep = !m_checkpoints.is_in_checkpoint_zone(block_height);
         return false;
       }
 
diff --git a/src/CryptoNoteCore/VerificationContext.h b/src/CryptoNoteCore/VerificationContext.h
index 26134a0..028411b 100644
--- a/src/CryptoNoteCore/VerificationContext.h
+++ b/src/CryptoNoteCore/VerificationContext.h
@@ -27,5 +27,6 @@ namespace cn
     bool m_marked_as_orphaned;
     bool m_already_exists;
     bool m_switched_to_alt_chain;
+    bool m_reorganization_too_deep; //refused only because it branches off too far below the top of the main chain
   };
 }
diff --git a/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp b/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp
index c422ffa..55ab604 100644
--- a/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp
+++ b/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp
@@ -587,6 +587,15 @@ int CryptoNoteProtocolHandler::processObjects(CryptoNoteConnectionContext& conte
     block_verification_context bvc = boost::value_initialized<block_verification_context>();
     m_core.handle_incoming_block(block_entry.block, bvc, false, false);
 
+    if (bvc.m_reorganization_too_deep) {
+      // the peer has to switch to our chain, which it can only get while it is connected
+      logger(DEBUGGING) << context << "The chain of the peer branches off too deep to be followed";
+      context.m_state = CryptoNoteConnectionContext::state_normal;
+      context.m_needed_objects.clear();
+      context.m_requested_objects.clear();
+      return 1;
+    }
+
     if (bvc.m_verification_failed) {
       logger(DEBUGGING) << context << "Block verification failed, dropping connection";
       context.m_state = CryptoNoteConnectionContext::state_shutdown;
-- 
2.43.0


From f89123036521d96a66e30df0106081af7f582bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:24 +0000
Subject: [PATCH 41/91] fix: limit the nesting of peer messages, a deeply
 nested one exhausted the stack

---
 .../KVBinaryInputStreamSerializer.cpp         | 43 ++++++++++++-------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/Serialization/KVBinaryInputStreamSerializer.cpp b/src/Serialization/KVBinaryInputStreamSerializer.cpp
index f39c903..1510836 100644
--- a/src/Serialization/KVBinaryInputStreamSerializer.cpp
+++ b/src/Serialization/KVBinaryInputStreamSerializer.cpp
@@ -95,26 +95,37 @@ void readName(common::IInputStream& s, std::string& name) {
   }
 }
 
-JsonValue loadValue(common::IInputStream& stream, uint8_t type);
-JsonValue loadSection(common::IInputStream& stream);
-JsonValue loadEntry(common::IInputStream& stream);
-JsonValue loadArray(common::IInputStream& stream, uint8_t itemType);
+// the data comes from other nodes: nested values must not exhaust the stack
+const size_t MAX_NESTING_DEPTH = 100;
 
+JsonValue loadValue(common::IInputStream& stream, uint8_t type, size_t depth);
+JsonValue loadSection(common::IInputStream& stream, size_t depth);
+JsonValue loadEntry(common::IInputStream& stream, size_t depth);
+JsonValue loadArray(common::IInputStream& stream, uint8_t itemType, size_t depth);
+
+
+void checkDepth(size_t depth) {
+  if (depth > MAX_NESTING_DEPTH) {
+    throw std::runtime_error("values are nested too deep");
+  }
+}
+
+JsonValue loadSection(common::IInputStream& stream, size_t depth) {
+  checkDepth(depth);
 
-JsonValue loadSection(common::IInputStream& stream) {
   JsonValue sec(JsonValue::OBJECT);
   size_t count = readVarint(stream);
   std::string name;
 
   while (count--) {
     readName(stream, name);
-    sec.insert(name, loadEntry(stream));
+    sec.insert(name, loadEntry(stream, depth));
   }
 
   return sec;
 }
 
-JsonValue loadValue(common::IInputStream& stream, uint8_t type) {
+JsonValue loadValue(common::IInputStream& stream, uint8_t type, size_t depth) {
   switch (type) {
   case BIN_KV_SERIALIZE_TYPE_INT64:  return readIntegerJson<int64_t>(stream);
   case BIN_KV_SERIALIZE_TYPE_INT32:  return readIntegerJson<int32_t>(stream);
@@ -127,30 +138,32 @@ JsonValue loadValue(common::IInputStream& stream, uint8_t type) {
   case BIN_KV_SERIALIZE_TYPE_DOUBLE: return readPodJson<double>(stream);
   case BIN_KV_SERIALIZE_TYPE_BOOL:   return JsonValue(read<uint8_t>(stream) != 0);
   case BIN_KV_SERIALIZE_TYPE_STRING: return readStringJson(stream);
-  case BIN_KV_SERIALIZE_TYPE_OBJECT: return loadSection(stream);
-  case BIN_KV_SERIALIZE_TYPE_ARRAY:  return loadArray(stream, type);
+  case BIN_KV_SERIALIZE_TYPE_OBJECT: return loadSection(stream, depth + 1);
+  case BIN_KV_SERIALIZE_TYPE_ARRAY:  return loadArray(stream, type, depth + 1);
   default:
     throw std::runtime_error("Unknown data type");
   }
 }
 
-JsonValue loadEntry(common::IInputStream& stream) {
+JsonValue loadEntry(common::IInputStream& stream, size_t depth) {
   uint8_t type = readPod<uint8_t>(stream);
 
   if (type & BIN_KV_SERIALIZE_FLAG_ARRAY) {
     type &= ~BIN_KV_SERIALIZE_FLAG_ARRAY;
-    return loadArray(stream, type);
+    return loadArray(stream, type, depth + 1);
   }
 
-  return loadValue(stream, type);
+  return loadValue(stream, type, depth);
 }
 
-JsonValue loadArray(common::IInputStream& stream, uint8_t itemType) {
+JsonValue loadArray(common::IInputStream& stream, uint8_t itemType, size_t depth) {
+  checkDepth(depth);
+
   JsonValue arr(JsonValue::ARRAY);
   size_t count = readVarint(stream);
 
   while (count--) {
-    arr.pushBack(loadValue(stream, itemType));
+    arr.pushBack(loadValue(stream, itemType, depth));
   }
 
   return arr;
@@ -170,7 +183,7 @@ JsonValue parseBinary(common::IInputStream& stream) {
     throw std::runtime_error("Unknown binary storage format version");
   }
 
-  return loadSection(stream);
+  return loadSection(stream, 0);
 }
 
 }
-- 
2.43.0


From 35c4674c663bd12cad33bee5a00a4966c332f85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:24 +0000
Subject: [PATCH 42/91] fix: do not allocate memory for items an encoded
 transaction only claims to have

---
 .../CryptoNoteSerialization.cpp               | 15 +++++++++++----
 src/Serialization/SerializationOverloads.h    | 19 +++++++++++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/CryptoNoteCore/CryptoNoteSerialization.cpp b/src/CryptoNoteCore/CryptoNoteSerialization.cpp
index d54df16..984a489 100644
--- a/src/CryptoNoteCore/CryptoNoteSerialization.cpp
+++ b/src/CryptoNoteCore/CryptoNoteSerialization.cpp
@@ -129,10 +129,17 @@ bool serializeVarintVector(std::vector<uint32_t>& vector, cn::ISerializer& seria
     return false;
   }
 
-  vector.resize(size);
-
-  for (size_t i = 0; i < size; ++i) {
-    serializer(vector[i], "");
+  if (serializer.type() == cn::ISerializer::INPUT) {
+    // the size may come from another node: memory is only spent on items which are really there
+    vector.clear();
+    for (size_t i = 0; i < size; ++i) {
+      vector.emplace_back();
+      serializer(vector.back(), "");
+    }
+  } else {
+    for (size_t i = 0; i < size; ++i) {
+      serializer(vector[i], "");
+    }
   }
 
   serializer.endArray();
diff --git a/src/Serialization/SerializationOverloads.h b/src/Serialization/SerializationOverloads.h
index e775bbd..324ed35 100644
--- a/src/Serialization/SerializationOverloads.h
+++ b/src/Serialization/SerializationOverloads.h
@@ -109,11 +109,22 @@ bool serializeContainer(Cont &value, common::StringView name, cn::ISerializer &s
     return false;
   }
 
-  value.resize(size);
-
-  for (auto &item : value)
+  if (serializer.type() == ISerializer::INPUT)
   {
-    serializer(const_cast<typename Cont::value_type &>(item), "");
+    // the size may come from another node: memory is only spent on items which are really there
+    value.clear();
+    for (size_t i = 0; i < size; ++i)
+    {
+      value.emplace_back();
+      serializer(value.back(), "");
+    }
+  }
+  else
+  {
+    for (auto &item : value)
+    {
+      serializer(const_cast<typename Cont::value_type &>(item), "");
+    }
   }
 
   serializer.endArray();
-- 
2.43.0


From ad4f06793f5b6f79a5ffb0d1243324c321ce02d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:24 +0000
Subject: [PATCH 43/91] fix: close incoming connections which never complete
 the handshake

---
 src/P2p/NetNode.cpp | 7 +++++++
 src/P2p/NetNode.h   | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/src/P2p/NetNode.cpp b/src/P2p/NetNode.cpp
index cf52e06..43998c3 100644
--- a/src/P2p/NetNode.cpp
+++ b/src/P2p/NetNode.cpp
@@ -174,6 +174,10 @@ namespace cn
     return writeOperationStartTime == TimePoint() ? 0 : std::chrono::duration_cast<std::chrono::milliseconds>(now - writeOperationStartTime).count();
   }
 
+  uint64_t P2pConnectionContext::lifeDuration(TimePoint now) const { // in milliseconds
+    return std::chrono::duration_cast<std::chrono::milliseconds>(now - creationTime).count();
+  }
+
   void P2pConnectionContext::interrupt() {
     logger(DEBUGGING) << *this << "P2pConnectionContext::interrupt()";
     assert(context != nullptr);
@@ -1529,6 +1533,9 @@ namespace cn
           if (ctx.writeDuration(now) > P2P_DEFAULT_INVOKE_TIMEOUT) {
             logger(DEBUGGING) << ctx << "write operation timed out, stopping connection";
             safeInterrupt(ctx);
+          } else if (ctx.m_is_income && ctx.m_state == CryptoNoteConnectionContext::state_befor_handshake && ctx.lifeDuration(now) > P2P_DEFAULT_INVOKE_TIMEOUT) {
+            logger(DEBUGGING) << ctx << "no handshake in time, stopping connection";
+            safeInterrupt(ctx);
           }
         }
       }
diff --git a/src/P2p/NetNode.h b/src/P2p/NetNode.h
index 3af8a09..1d1c992 100644
--- a/src/P2p/NetNode.h
+++ b/src/P2p/NetNode.h
@@ -87,9 +87,11 @@ namespace cn
     void interrupt();
 
     uint64_t writeDuration(TimePoint now) const;
+    uint64_t lifeDuration(TimePoint now) const;
 
   private:
     logging::LoggerRef logger;
+    TimePoint creationTime = Clock::now();
     TimePoint writeOperationStartTime;
     platform_system::Event queueEvent;
     std::vector<P2pMessage> writeQueue;
-- 
2.43.0


From 1e9ac4a5a3429becdc6723f8b7e76e5c5fffafb2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 44/91] fix: start mining on a fresh template for the given
 address

---
 src/CryptoNoteCore/Miner.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/CryptoNoteCore/Miner.cpp b/src/CryptoNoteCore/Miner.cpp
index b41ae58..a0999a3 100644
--- a/src/CryptoNoteCore/Miner.cpp
+++ b/src/CryptoNoteCore/Miner.cpp
@@ -208,9 +208,8 @@ namespace cn
     m_threads_total = static_cast<uint32_t>(threads_count);
     m_starter_nonce = crypto::rand<uint32_t>();
 
-    if (!m_template_no) {
-      request_block_template(); //lets update block template
-    }
+    m_template_no = 0; // the last template may be outdated or pay another address
+    request_block_template(); //lets update block template
 
     m_stop = false;
 
-- 
2.43.0


From 855ca710dbf48f711b6b9b2dbbf4d32db06f3eb6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 45/91] fix: stopping the miner while it is being started must
 not wait forever

---
 src/CryptoNoteCore/Miner.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CryptoNoteCore/Miner.cpp b/src/CryptoNoteCore/Miner.cpp
index a0999a3..2af110b 100644
--- a/src/CryptoNoteCore/Miner.cpp
+++ b/src/CryptoNoteCore/Miner.cpp
@@ -241,6 +241,7 @@ namespace cn
   {
     send_stop_signal();
     std::lock_guard<std::mutex> lk(m_threads_lock);
+    send_stop_signal(); // a start which was under way has cleared it
 
     for (auto& th : m_threads) {
       th.join();
-- 
2.43.0


From 17a724ef193d14aecefc6fac682b1a3e78f28231 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 46/91] fix: miner threads must not take an old template for
 the current one

---
 src/CryptoNoteCore/Miner.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/CryptoNoteCore/Miner.cpp b/src/CryptoNoteCore/Miner.cpp
index 2af110b..905bdb3 100644
--- a/src/CryptoNoteCore/Miner.cpp
+++ b/src/CryptoNoteCore/Miner.cpp
@@ -359,8 +359,6 @@ namespace cn
         std::unique_lock<std::mutex> lk(m_template_lock);
         b = m_template;
         local_diff = m_diffic;
-        lk.unlock();
-
         local_template_ver = m_template_no;
         nonce = m_starter_nonce + th_local_index;
       }
-- 
2.43.0


From 9b15129e7599858697585692d7c2d68887168a9d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 47/91] fix: an outdated block template must not replace a
 newer one

---
 src/CryptoNoteCore/Miner.cpp | 1 +
 src/CryptoNoteCore/Miner.h   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/CryptoNoteCore/Miner.cpp b/src/CryptoNoteCore/Miner.cpp
index 905bdb3..0b715f0 100644
--- a/src/CryptoNoteCore/Miner.cpp
+++ b/src/CryptoNoteCore/Miner.cpp
@@ -76,6 +76,7 @@ namespace cn
   }
   //-----------------------------------------------------------------------------------------------------
   bool Miner::request_block_template() {
+    std::lock_guard<std::mutex> request(m_template_request_lock); // a slower request must not replace a newer template
     Block bl = boost::value_initialized<Block>();
     difficulty_type di = 0;
     uint32_t height;
diff --git a/src/CryptoNoteCore/Miner.h b/src/CryptoNoteCore/Miner.h
index 2e85efa..9683a1d 100644
--- a/src/CryptoNoteCore/Miner.h
+++ b/src/CryptoNoteCore/Miner.h
@@ -62,6 +62,7 @@ namespace cn {
     logging::LoggerRef logger;
 
     std::atomic<bool> m_stop;
+    std::mutex m_template_request_lock;
     std::mutex m_template_lock;
     Block m_template;
     std::atomic<uint32_t> m_template_no;
-- 
2.43.0


From aa64403f6a4bf7d629a8a182dd97dc563b1d041f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 48/91] fix: report a spent transfer from the spent transfers,
 not from the end of another list

---
 src/Transfers/TransfersContainer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Transfers/TransfersContainer.cpp b/src/Transfers/TransfersContainer.cpp
index 635d499..5ee3cc9 100644
--- a/src/Transfers/TransfersContainer.cpp
+++ b/src/Transfers/TransfersContainer.cpp
@@ -845,7 +845,7 @@ bool TransfersContainer::getTransfer(const crypto::Hash& transactionHash, uint32
 
   auto spentIt = spentIndex.find(transferId);
   if (spentIt != spentIndex.end()) {
-    transfer = *unconfirmedIt;
+    transfer = *spentIt;
     transferState = TransferState::TransferSpent;
     return true;
   }
-- 
2.43.0


From c8f03fe453195f13e3b0c1cc507bededb141a749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 49/91] fix: a failed scan of new blocks must not leave the
 pushing thread waiting forever

---
 src/Transfers/TransfersConsumer.cpp | 32 ++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/Transfers/TransfersConsumer.cpp b/src/Transfers/TransfersConsumer.cpp
index 12854a1..3fa9549 100644
--- a/src/Transfers/TransfersConsumer.cpp
+++ b/src/Transfers/TransfersConsumer.cpp
@@ -243,19 +243,31 @@ bool TransfersConsumer::onNewBlocks(const CompleteBlock* blocks, uint32_t startH
   auto processingFunction = [&] {
     Tx item;
     std::error_code ec;
-    while (!stopProcessing && inputQueue.pop(item)) {
-      PreprocessedTx output;
-      static_cast<Tx&>(output) = item;
-
-      ec = preprocessOutputs(item.blockInfo, *item.tx, output);
-      if (ec) {
-        stopProcessing = true;
-        break;
+    try {
+      while (!stopProcessing && inputQueue.pop(item)) {
+        PreprocessedTx output;
+        static_cast<Tx&>(output) = item;
+
+        ec = preprocessOutputs(item.blockInfo, *item.tx, output);
+        if (ec) {
+          break;
+        }
+
+        std::lock_guard<std::mutex> lk(preprocessedTransactionsMutex);
+        preprocessedTransactions.push_back(std::move(output));
       }
+    } catch (const std::system_error& e) {
+      ec = e.code();
+    } catch (const std::exception&) {
+      ec = std::make_error_code(std::errc::operation_canceled);
+    }
 
-      std::lock_guard<std::mutex> lk(preprocessedTransactionsMutex);
-      preprocessedTransactions.push_back(std::move(output));
+    if (ec) {
+      // nobody may be left to take further items, the pushing thread must not wait for space
+      stopProcessing = true;
+      inputQueue.close();
     }
+
     return ec;
   };
 
-- 
2.43.0


From 06dec906a5bc105bb0313f10d28ed3be3379ce76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 50/91] fix: synchronization must not be reported complete
 after a consumer failed to take the blocks

---
 src/Transfers/BlockchainSynchronizer.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/Transfers/BlockchainSynchronizer.cpp b/src/Transfers/BlockchainSynchronizer.cpp
index 6ef5884..91252c7 100644
--- a/src/Transfers/BlockchainSynchronizer.cpp
+++ b/src/Transfers/BlockchainSynchronizer.cpp
@@ -34,6 +34,7 @@ namespace cn {
 BlockchainSynchronizer::BlockchainSynchronizer(INode& node, const Hash& genesisBlockHash) :
   m_node(node),
   m_genesisBlockHash(genesisBlockHash),
+  lastBlockId(NULL_HASH),
   m_currentState(State::stopped),
   m_futureState(State::stopped) {
 }
@@ -259,6 +260,7 @@ void BlockchainSynchronizer::start() {
     throw std::runtime_error("BlockchainSynchronizer already started");
   }
 
+  lastBlockId = NULL_HASH; // nothing is known of the consumers added or loaded since the last run
   workingThread.reset(new std::thread([this] { workingProcedure(); }));
 }
 
@@ -403,10 +405,17 @@ void BlockchainSynchronizer::processBlocks(GetBlocksResponse& response) {
   uint32_t processedBlockCount = response.startHeight + static_cast<uint32_t>(response.newBlocks.size());
   if (!checkIfShouldStop()) {
     response.newBlocks.clear();
+    // until all the consumers have got the blocks, the pool must not be synchronized
+    Hash previousBlockId = lastBlockId;
+    lastBlockId = NULL_HASH;
     std::unique_lock<std::mutex> lk(m_consumersMutex);
     auto result = updateConsumers(interval, blocks);
     lk.unlock();
 
+    if (result != UpdateConsumersResult::errorOccurred) {
+      lastBlockId = blocks.empty() ? previousBlockId : blocks.back().blockHash;
+    }
+
     switch (result) {
     case UpdateConsumersResult::errorOccurred:
       if (setFutureStateIf(State::idle, [this] { return m_futureState != State::stopped; })) {
@@ -429,10 +438,6 @@ void BlockchainSynchronizer::processBlocks(GetBlocksResponse& response) {
         std::max(m_node.getKnownBlockCount(), m_node.getLocalBlockCount()));
       break;
     }
-
-    if (!blocks.empty()) {
-      lastBlockId = blocks.back().blockHash;
-    }
   }
 
   if (checkIfShouldStop()) { //Sic!
-- 
2.43.0


From 1749772bd3298abe09ed847ce920b7e622bc6d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 51/91] fix: an exception while the pool is synchronized must
 not end the process

---
 src/Transfers/BlockchainSynchronizer.cpp | 9 +++++++++
 src/Transfers/BlockchainSynchronizer.h   | 1 +
 2 files changed, 10 insertions(+)

diff --git a/src/Transfers/BlockchainSynchronizer.cpp b/src/Transfers/BlockchainSynchronizer.cpp
index 91252c7..603b647 100644
--- a/src/Transfers/BlockchainSynchronizer.cpp
+++ b/src/Transfers/BlockchainSynchronizer.cpp
@@ -474,6 +474,15 @@ BlockchainSynchronizer::UpdateConsumersResult BlockchainSynchronizer::updateCons
 }
 
 void BlockchainSynchronizer::startPoolSync() {
+  try {
+    doPoolSync();
+  } catch (std::exception&) {
+    setFutureStateIf(State::idle, [this] { return m_futureState != State::stopped; });
+    m_observerManager.notify(&IBlockchainSynchronizerObserver::synchronizationCompleted, std::make_error_code(std::errc::invalid_argument));
+  }
+}
+
+void BlockchainSynchronizer::doPoolSync() {
   std::unordered_set<crypto::Hash> unionPoolHistory;
   std::unordered_set<crypto::Hash> intersectedPoolHistory;
   getPoolUnionAndIntersection(unionPoolHistory, intersectedPoolHistory);
diff --git a/src/Transfers/BlockchainSynchronizer.h b/src/Transfers/BlockchainSynchronizer.h
index 8d17a25..2425314 100644
--- a/src/Transfers/BlockchainSynchronizer.h
+++ b/src/Transfers/BlockchainSynchronizer.h
@@ -91,6 +91,7 @@ private:
 
   //void startSync();
   void startPoolSync();
+  void doPoolSync();
   void startBlockchainSync();
 
   void processBlocks(GetBlocksResponse& response);
-- 
2.43.0


From 8ed9135a60ad68043f041b2d0837d198aabd2feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 52/91] fix: an observer must not be notified after its removal
 has returned

---
 src/Common/ObserverManager.h             | 83 +++++++++++++++++++++---
 src/Transfers/BlockchainSynchronizer.cpp |  2 +
 2 files changed, 77 insertions(+), 8 deletions(-)

diff --git a/src/Common/ObserverManager.h b/src/Common/ObserverManager.h
index cac3908..e4b5a75 100644
--- a/src/Common/ObserverManager.h
+++ b/src/Common/ObserverManager.h
@@ -8,7 +8,10 @@
 #pragma once
 
 #include <algorithm>
+#include <condition_variable>
 #include <mutex>
+#include <thread>
+#include <utility>
 #include <vector>
 
 namespace tools {
@@ -35,6 +38,14 @@ public:
       return false;
     } else {
       m_observers.erase(it);
+
+      // the caller may destroy the observer now: wait for the notifications other threads are delivering to it
+      m_callFinished.wait(lock, [this, observer] {
+        return std::none_of(m_calls.begin(), m_calls.end(), [observer](const std::pair<T*, std::thread::id>& call) {
+          return call.first == observer && call.second != std::this_thread::get_id();
+        });
+      });
+
       return true;
     }
   }
@@ -54,7 +65,10 @@ public:
     }
 
     for (T* observer : observersCopy) {
-      (observer->*notification)();
+      Call call(*this, observer);
+      if (call.allowed()) {
+        (observer->*notification)();
+      }
     }
   }
 
@@ -67,7 +81,10 @@ public:
     }
 
     for (T* observer : observersCopy) {
-      (observer->*notification)(arg0);
+      Call call(*this, observer);
+      if (call.allowed()) {
+        (observer->*notification)(arg0);
+      }
     }
   }
 
@@ -80,7 +97,10 @@ public:
     }
 
     for (T* observer : observersCopy) {
-      (observer->*notification)(arg0, arg1);
+      Call call(*this, observer);
+      if (call.allowed()) {
+        (observer->*notification)(arg0, arg1);
+      }
     }
   }
 
@@ -93,7 +113,10 @@ public:
     }
 
     for (T* observer : observersCopy) {
-      (observer->*notification)(arg0, arg1, arg2);
+      Call call(*this, observer);
+      if (call.allowed()) {
+        (observer->*notification)(arg0, arg1, arg2);
+      }
     }
   }
 
@@ -106,7 +129,10 @@ public:
     }
 
     for (T* observer : observersCopy) {
-      (observer->*notification)(arg0, arg1, arg2, arg3);
+      Call call(*this, observer);
+      if (call.allowed()) {
+        (observer->*notification)(arg0, arg1, arg2, arg3);
+      }
     }
   }
 
@@ -119,7 +145,10 @@ public:
     }
 
     for (T* observer : observersCopy) {
-      (observer->*notification)(arg0, arg1, arg2, arg3, arg4);
+      Call call(*this, observer);
+      if (call.allowed()) {
+        (observer->*notification)(arg0, arg1, arg2, arg3, arg4);
+      }
     }
   }
 
@@ -132,7 +161,10 @@ public:
     }
 
     for (T* observer : observersCopy) {
-      (observer->*notification)(arg0, arg1, arg2, arg3, arg4, arg5);
+      Call call(*this, observer);
+      if (call.allowed()) {
+        (observer->*notification)(arg0, arg1, arg2, arg3, arg4, arg5);
+      }
     }
   }
 
@@ -147,14 +179,49 @@ public:
     }
 
     for (T* observer : observersCopy) {
-      (observer->*notification)(args...);
+      Call call(*this, observer);
+      if (call.allowed()) {
+        (observer->*notification)(args...);
+      }
     }
   }
 #endif
 
 private:
+  // a notification in progress
+  class Call {
+  public:
+    Call(ObserverManager& manager, T* observer) : m_manager(manager), m_call(observer, std::this_thread::get_id()), m_allowed(false) {
+      std::unique_lock<std::mutex> lock(m_manager.m_observersMutex);
+      auto& observers = m_manager.m_observers;
+      if (std::find(observers.begin(), observers.end(), observer) != observers.end()) {
+        m_manager.m_calls.push_back(m_call);
+        m_allowed = true;
+      }
+    }
+
+    ~Call() {
+      if (m_allowed) {
+        std::unique_lock<std::mutex> lock(m_manager.m_observersMutex);
+        m_manager.m_calls.erase(std::find(m_manager.m_calls.begin(), m_manager.m_calls.end(), m_call));
+        m_manager.m_callFinished.notify_all();
+      }
+    }
+
+    bool allowed() const {
+      return m_allowed;
+    }
+
+  private:
+    ObserverManager& m_manager;
+    std::pair<T*, std::thread::id> m_call;
+    bool m_allowed;
+  };
+
   std::vector<T*> m_observers;
+  std::vector<std::pair<T*, std::thread::id>> m_calls;
   std::mutex m_observersMutex;
+  std::condition_variable m_callFinished;
 };
 
 }
diff --git a/src/Transfers/BlockchainSynchronizer.cpp b/src/Transfers/BlockchainSynchronizer.cpp
index 603b647..152a0b3 100644
--- a/src/Transfers/BlockchainSynchronizer.cpp
+++ b/src/Transfers/BlockchainSynchronizer.cpp
@@ -176,7 +176,9 @@ void BlockchainSynchronizer::actualizeFutureState() {
   }
 
   if (m_futureState == State::stopped && m_currentState != State::stopped) { // stop(), immediately detach observer
+    lk.unlock(); // a notification being delivered may wait for the lock
     m_node.removeObserver(this);
+    lk.lock();
   }
 
   while (!m_removeTransactionTasks.empty()) {
-- 
2.43.0


From b4b8f99600a075e3c21710fe8f2b79203dda97a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:56 +0000
Subject: [PATCH 53/91] fix: pool transactions in conflict with the chain must
 not stop wallet synchronization

---
 src/Transfers/TransfersConsumer.cpp     | 29 +++++++++++++++++++-
 src/Transfers/TransfersConsumer.h       |  2 ++
 src/Transfers/TransfersContainer.cpp    | 35 +++++++++++++++++++++++++
 src/Transfers/TransfersContainer.h      |  2 ++
 src/Transfers/TransfersSubscription.cpp |  5 ++++
 src/Transfers/TransfersSubscription.h   |  1 +
 6 files changed, 73 insertions(+), 1 deletion(-)

diff --git a/src/Transfers/TransfersConsumer.cpp b/src/Transfers/TransfersConsumer.cpp
index 3fa9549..804c95b 100644
--- a/src/Transfers/TransfersConsumer.cpp
+++ b/src/Transfers/TransfersConsumer.cpp
@@ -325,8 +325,15 @@ std::error_code TransfersConsumer::onPoolUpdated(const std::vector<std::unique_p
 
   std::error_code processingError;
   for (auto& cryptonoteTransaction : addedTransactions) {
+    try {
+      processingError = processTransaction(unconfirmedBlockInfo, *cryptonoteTransaction.get());
+    } catch (const std::exception& e) {
+      // the pool may contain transactions which can't be confirmed any more
+      m_logger(WARNING, BRIGHT_YELLOW) << "Skipped pool transaction " << common::podToHex(cryptonoteTransaction->getTransactionHash()) << ": " << e.what();
+      continue;
+    }
+
     m_poolTxs.emplace(cryptonoteTransaction->getTransactionHash());
-    processingError = processTransaction(unconfirmedBlockInfo, *cryptonoteTransaction.get());
     if (processingError) {
       for (auto& sub : m_subscriptions) {
         sub.second->onError(processingError, WALLET_UNCONFIRMED_TRANSACTION_HEIGHT);
@@ -542,7 +549,27 @@ std::error_code TransfersConsumer::processTransaction(const TransactionBlockInfo
   return std::error_code();
 }
 
+void TransfersConsumer::dropConflictingTransactions(const TransactionBlockInfo& blockInfo, const ITransactionReader& tx) {
+  std::vector<Hash> unconfirmed;
+  std::vector<Hash> confirmed;
+  forEachSubscription([&](const TransfersSubscription& sub) {
+    sub.getConflictingTransactions(tx, unconfirmed, confirmed);
+  });
+
+  if (!confirmed.empty() || (blockInfo.height == WALLET_UNCONFIRMED_TRANSACTION_HEIGHT && !unconfirmed.empty())) {
+    throw std::runtime_error("Spending already spent transfer");
+  }
+
+  // a transaction in a block supersedes the ones waiting in the pool
+  for (const auto& hash : unconfirmed) {
+    removeUnconfirmedTransaction(hash);
+    m_poolTxs.erase(hash);
+  }
+}
+
 void TransfersConsumer::processTransaction(const TransactionBlockInfo& blockInfo, const ITransactionReader& tx, const PreprocessInfo& info) {
+  dropConflictingTransactions(blockInfo, tx);
+
   std::vector<TransactionOutputInformationIn> emptyOutputs;
   std::vector<ITransfersContainer*> transactionContainers;
   bool someContainerUpdated = false;
diff --git a/src/Transfers/TransfersConsumer.h b/src/Transfers/TransfersConsumer.h
index 0929abc..1e0cf07 100644
--- a/src/Transfers/TransfersConsumer.h
+++ b/src/Transfers/TransfersConsumer.h
@@ -69,6 +69,8 @@ private:
 
   std::error_code getGlobalIndices(const crypto::Hash& transactionHash, std::vector<uint32_t>& outsGlobalIndices);
 
+  void dropConflictingTransactions(const TransactionBlockInfo& blockInfo, const ITransactionReader& tx);
+
   void updateSyncStart();
 
   SynchronizationStart m_syncStart;
diff --git a/src/Transfers/TransfersContainer.cpp b/src/Transfers/TransfersContainer.cpp
index 5ee3cc9..5593a6c 100644
--- a/src/Transfers/TransfersContainer.cpp
+++ b/src/Transfers/TransfersContainer.cpp
@@ -391,6 +391,41 @@ bool TransfersContainer::deleteUnconfirmedTransaction(const crypto::Hash& transa
   }
 }
 
+void TransfersContainer::getConflictingTransactions(const ITransactionReader& tx, std::vector<crypto::Hash>& unconfirmed,
+                                                    std::vector<crypto::Hash>& confirmed) const {
+  std::unique_lock<std::mutex> lock(m_mutex);
+
+  auto& spentIndex = m_spentTransfers.get<SpentOutputDescriptorIndex>();
+  auto txHash = tx.getTransactionHash();
+  for (size_t i = 0; i < tx.getInputCount(); ++i) {
+    SpentOutputDescriptor descriptor;
+    KeyInput keyInput;
+    MultisignatureInput multisignatureInput;
+    auto inputType = tx.getInputType(i);
+    if (inputType == transaction_types::InputType::Key) {
+      tx.getInput(i, keyInput);
+      descriptor.assign(&keyInput.keyImage);
+    } else if (inputType == transaction_types::InputType::Multisignature) {
+      tx.getInput(i, multisignatureInput);
+      descriptor.assign(multisignatureInput.amount, multisignatureInput.outputIndex);
+    } else {
+      continue;
+    }
+
+    auto range = spentIndex.equal_range(descriptor);
+    for (auto it = range.first; it != range.second; ++it) {
+      if (it->spendingTransactionHash == txHash) {
+        continue;
+      }
+
+      auto& conflicting = it->spendingBlock.height == WALLET_LEGACY_UNCONFIRMED_TRANSACTION_HEIGHT ? unconfirmed : confirmed;
+      if (std::find(conflicting.begin(), conflicting.end(), it->spendingTransactionHash) == conflicting.end()) {
+        conflicting.push_back(it->spendingTransactionHash);
+      }
+    }
+  }
+}
+
 bool TransfersContainer::markTransactionConfirmed(const TransactionBlockInfo& block, const crypto::Hash& transactionHash,
                                                   const std::vector<uint32_t>& globalIndices) {
   if (block.height == WALLET_LEGACY_UNCONFIRMED_TRANSACTION_HEIGHT) {
diff --git a/src/Transfers/TransfersContainer.h b/src/Transfers/TransfersContainer.h
index ec9765b..7199519 100644
--- a/src/Transfers/TransfersContainer.h
+++ b/src/Transfers/TransfersContainer.h
@@ -192,6 +192,8 @@ public:
                       const std::vector<TransactionOutputInformationIn>& transfers,
                       std::vector<std::string>&& messages, std::vector<TransactionOutputInformation>* unlockingTransfers = nullptr);
   bool deleteUnconfirmedTransaction(const crypto::Hash& transactionHash);
+  // returns the other transactions which already spend outputs the given transaction spends
+  void getConflictingTransactions(const ITransactionReader& tx, std::vector<crypto::Hash>& unconfirmed, std::vector<crypto::Hash>& confirmed) const;
   bool markTransactionConfirmed(const TransactionBlockInfo& block, const crypto::Hash& transactionHash, const std::vector<uint32_t>& globalIndices);
 
   void detach(uint32_t height, std::vector<crypto::Hash>& deletedTransactions, std::vector<TransactionOutputInformation>& lockedTransfers);
diff --git a/src/Transfers/TransfersSubscription.cpp b/src/Transfers/TransfersSubscription.cpp
index fc1ca70..960725b 100644
--- a/src/Transfers/TransfersSubscription.cpp
+++ b/src/Transfers/TransfersSubscription.cpp
@@ -86,6 +86,11 @@ void TransfersSubscription::deleteUnconfirmedTransaction(const Hash& transaction
   }
 }
 
+void TransfersSubscription::getConflictingTransactions(const ITransactionReader& tx, std::vector<crypto::Hash>& unconfirmed,
+                                                       std::vector<crypto::Hash>& confirmed) const {
+  transfers.getConflictingTransactions(tx, unconfirmed, confirmed);
+}
+
 void TransfersSubscription::markTransactionConfirmed(const TransactionBlockInfo& block, const Hash& transactionHash,
                                                      const std::vector<uint32_t>& globalIndices) {
   transfers.markTransactionConfirmed(block, transactionHash, globalIndices);
diff --git a/src/Transfers/TransfersSubscription.h b/src/Transfers/TransfersSubscription.h
index 3511791..93ccfbd 100644
--- a/src/Transfers/TransfersSubscription.h
+++ b/src/Transfers/TransfersSubscription.h
@@ -26,6 +26,7 @@ public:
                       const std::vector<TransactionOutputInformationIn>& transfers, std::vector<std::string>&& messages);
 
   void deleteUnconfirmedTransaction(const crypto::Hash& transactionHash);
+  void getConflictingTransactions(const ITransactionReader& tx, std::vector<crypto::Hash>& unconfirmed, std::vector<crypto::Hash>& confirmed) const;
   void markTransactionConfirmed(const TransactionBlockInfo& block, const crypto::Hash& transactionHash, const std::vector<uint32_t>& globalIndices);
 
   // ITransfersSubscription
-- 
2.43.0


From 4374bfd7cfefeaa9a430d26d5176e54aca08142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:56 +0000
Subject: [PATCH 54/91] fix: forget the blocks whose processing failed halfway

---
 src/Transfers/TransfersConsumer.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/Transfers/TransfersConsumer.cpp b/src/Transfers/TransfersConsumer.cpp
index 804c95b..fa3c917 100644
--- a/src/Transfers/TransfersConsumer.cpp
+++ b/src/Transfers/TransfersConsumer.cpp
@@ -299,10 +299,19 @@ bool TransfersConsumer::onNewBlocks(const CompleteBlock* blocks, uint32_t startH
       return std::tie(a.blockInfo.height, a.blockInfo.transactionIndex) < std::tie(b.blockInfo.height, b.blockInfo.transactionIndex);
     });
 
-    for (const auto& tx : preprocessedTransactions) {
-      processTransaction(tx.blockInfo, *tx.tx, tx);
+    try {
+      for (const auto& tx : preprocessedTransactions) {
+        processTransaction(tx.blockInfo, *tx.tx, tx);
+      }
+    } catch (const std::exception& e) {
+      m_logger(ERROR, BRIGHT_RED) << "Failed to process blocks from " << startHeight << ": " << e.what();
+      processingError = std::make_error_code(std::errc::invalid_argument);
+      // the observers know of the blocks already
+      m_observerManager.notify(&IBlockchainConsumerObserver::onBlockchainDetach, this, startHeight);
     }
-  } else {
+  }
+
+  if (processingError) {
     forEachSubscription([&](TransfersSubscription& sub) {
       sub.onError(processingError, startHeight);
     });
-- 
2.43.0


From a5f2179430426acfb56d7891d2b10406cbd47c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 55/91] fix: pool transactions forgotten together with detached
 blocks must be requested again

---
 src/Transfers/TransfersConsumer.cpp | 41 ++++++++++++++++++++++++++---
 src/Transfers/TransfersConsumer.h   |  3 +++
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/src/Transfers/TransfersConsumer.cpp b/src/Transfers/TransfersConsumer.cpp
index fa3c917..385cbc9 100644
--- a/src/Transfers/TransfersConsumer.cpp
+++ b/src/Transfers/TransfersConsumer.cpp
@@ -178,8 +178,43 @@ SynchronizationStart TransfersConsumer::getSyncStart() {
 void TransfersConsumer::onBlockchainDetach(uint32_t height) {
   m_observerManager.notify(&IBlockchainConsumerObserver::onBlockchainDetach, this, height);
 
-  for (const auto& kv : m_subscriptions) {
-    kv.second->onBlockchainDetach(height);
+  detachSubscriptions([height](TransfersSubscription& sub) {
+    sub.onBlockchainDetach(height);
+  });
+}
+
+void TransfersConsumer::detachSubscriptions(const std::function<void(TransfersSubscription&)>& detach) {
+  std::unordered_set<Hash> known;
+  std::unordered_set<Hash> forgotten;
+
+  forEachSubscription([&](TransfersSubscription& sub) {
+    std::vector<Hash> before;
+    std::vector<Hash> after;
+    sub.getContainer().getUnconfirmedTransactions(before);
+    detach(sub);
+    sub.getContainer().getUnconfirmedTransactions(after);
+
+    std::unordered_set<Hash> left(after.begin(), after.end());
+    known.insert(after.begin(), after.end());
+    for (const auto& hash : before) {
+      if (left.count(hash) == 0) {
+        forgotten.insert(hash);
+      }
+    }
+  });
+
+  for (const auto& hash : forgotten) {
+    removeUnconfirmedTransaction(hash);
+    known.erase(hash);
+  }
+
+  // a transaction which left a subscription together with the blocks may be in the pool, the node has to report it again
+  for (auto it = m_poolTxs.begin(); it != m_poolTxs.end();) {
+    if (known.count(*it) == 0) {
+      it = m_poolTxs.erase(it);
+    } else {
+      ++it;
+    }
   }
 }
 
@@ -312,7 +347,7 @@ bool TransfersConsumer::onNewBlocks(const CompleteBlock* blocks, uint32_t startH
   }
 
   if (processingError) {
-    forEachSubscription([&](TransfersSubscription& sub) {
+    detachSubscriptions([&](TransfersSubscription& sub) {
       sub.onError(processingError, startHeight);
     });
 
diff --git a/src/Transfers/TransfersConsumer.h b/src/Transfers/TransfersConsumer.h
index 1e0cf07..af246a9 100644
--- a/src/Transfers/TransfersConsumer.h
+++ b/src/Transfers/TransfersConsumer.h
@@ -17,6 +17,7 @@
 
 #include "IObservableImpl.h"
 
+#include <functional>
 #include <unordered_set>
 
 namespace cn {
@@ -71,6 +72,8 @@ private:
 
   void dropConflictingTransactions(const TransactionBlockInfo& blockInfo, const ITransactionReader& tx);
 
+  void detachSubscriptions(const std::function<void(TransfersSubscription&)>& detach);
+
   void updateSyncStart();
 
   SynchronizationStart m_syncStart;
-- 
2.43.0


From 60a7e773d21fa681185e8dd81992083fdc7b5d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:36 +0000
Subject: [PATCH 56/91] fix: forget deleted pool transactions before the ones
 which replace them are added

---
 src/Transfers/TransfersConsumer.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/Transfers/TransfersConsumer.cpp b/src/Transfers/TransfersConsumer.cpp
index 385cbc9..a7f7d4c 100644
--- a/src/Transfers/TransfersConsumer.cpp
+++ b/src/Transfers/TransfersConsumer.cpp
@@ -367,6 +367,18 @@ std::error_code TransfersConsumer::onPoolUpdated(const std::vector<std::unique_p
   unconfirmedBlockInfo.timestamp = 0; 
   unconfirmedBlockInfo.height = WALLET_UNCONFIRMED_TRANSACTION_HEIGHT;
 
+  // deleted transactions go first, their inputs may be spent again by the added ones
+  for (auto& deletedTxHash : deletedTransactions) {
+    m_poolTxs.erase(deletedTxHash);
+
+    m_observerManager.notify(&IBlockchainConsumerObserver::onTransactionDeleteBegin, this, deletedTxHash);
+    for (auto& sub : m_subscriptions) {
+      sub.second->deleteUnconfirmedTransaction(*reinterpret_cast<const Hash*>(&deletedTxHash));
+    }
+
+    m_observerManager.notify(&IBlockchainConsumerObserver::onTransactionDeleteEnd, this, deletedTxHash);
+  }
+
   std::error_code processingError;
   for (auto& cryptonoteTransaction : addedTransactions) {
     try {
@@ -386,17 +398,6 @@ std::error_code TransfersConsumer::onPoolUpdated(const std::vector<std::unique_p
       return processingError;
     }
   }
-  
-  for (auto& deletedTxHash : deletedTransactions) {
-    m_poolTxs.erase(deletedTxHash);
-
-    m_observerManager.notify(&IBlockchainConsumerObserver::onTransactionDeleteBegin, this, deletedTxHash);
-    for (auto& sub : m_subscriptions) {
-      sub.second->deleteUnconfirmedTransaction(*reinterpret_cast<const Hash*>(&deletedTxHash));
-    }
-
-    m_observerManager.notify(&IBlockchainConsumerObserver::onTransactionDeleteEnd, this, deletedTxHash);
-  }
 
   return std::error_code();
 }
-- 
2.43.0


From 98da6594ce5c1a9b55eafd34da4a07550b778e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:34 +0000
Subject: [PATCH 57/91] fix: a transaction one consumer refuses must not stay
 with the others

---
 src/Transfers/BlockchainSynchronizer.cpp | 25 ++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/Transfers/BlockchainSynchronizer.cpp b/src/Transfers/BlockchainSynchronizer.cpp
index 152a0b3..38e9f70 100644
--- a/src/Transfers/BlockchainSynchronizer.cpp
+++ b/src/Transfers/BlockchainSynchronizer.cpp
@@ -115,18 +115,27 @@ std::error_code BlockchainSynchronizer::doAddUnconfirmedTransaction(const ITrans
 
   std::error_code ec;
   auto addIt = m_consumers.begin();
-  for (; addIt != m_consumers.end(); ++addIt) {
-    ec = addIt->first->addUnconfirmedTransaction(transaction);
-    if (ec) {
-      break;
-    }
-  }
-
-  if (ec) {
+  auto rollback = [&] {
     auto transactionHash = transaction.getTransactionHash();
     for (auto rollbackIt = m_consumers.begin(); rollbackIt != addIt; ++rollbackIt) {
       rollbackIt->first->removeUnconfirmedTransaction(transactionHash);
     }
+  };
+
+  try {
+    for (; addIt != m_consumers.end(); ++addIt) {
+      ec = addIt->first->addUnconfirmedTransaction(transaction);
+      if (ec) {
+        break;
+      }
+    }
+  } catch (...) {
+    rollback();
+    throw;
+  }
+
+  if (ec) {
+    rollback();
   }
 
   return ec;
-- 
2.43.0


From bce93bd0c1b24bbd93abc1dcd26e1f71fa7c70f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:23 +0000
Subject: [PATCH 58/91] fix: look a new wallet transaction up before asking
 whether it is a fusion

---
 src/Wallet/WalletGreen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index 0ee8379..a525bdb 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -3833,7 +3833,7 @@ namespace cn
     {
       isNew = true;
       transactionId = insertBlockchainTransaction(transactionInfo, totalAmount);
-      m_fusionTxsCache.emplace(transactionId, isFusionTransaction(*it));
+      m_fusionTxsCache.emplace(transactionId, isFusionTransaction(m_transactions.get<RandomAccessIndex>()[transactionId]));
     }
 
     for (const auto& containerAmounts : containerAmountsList)
-- 
2.43.0


From d1dc7165c14327f56f744016669435d4e76993b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:23 +0000
Subject: [PATCH 59/91] fix: open a wallet whose last update stopped between
 its two renames

---
 src/Wallet/WalletGreen.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index a525bdb..90d0c97 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -1257,6 +1257,12 @@ namespace cn
     crypto::cn_context cnContext;
     generate_chacha8_key(cnContext, password, m_key);
 
+    /* The file may still carry the name it has between the two renames of an interrupted update */
+    if (!boost::filesystem::exists(path) && boost::filesystem::exists(path + ".bak"))
+    {
+      boost::filesystem::rename(path + ".bak", path);
+    }
+
     std::ifstream walletFileStream(path, std::ios_base::binary);
     int version = walletFileStream.peek();
     if (version == EOF)
-- 
2.43.0


From 4e2d71c3a3bd8c48b5425fc6b68a9dd3f581e1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:14 +0000
Subject: [PATCH 60/91] fix: wallet updates queued for a deleted address must
 not touch its container

---
 src/Wallet/WalletGreen.cpp | 19 +++++++++++++++----
 src/Wallet/WalletGreen.h   |  4 ++--
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index 90d0c97..f23a393 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -3809,7 +3809,7 @@ namespace cn
   /* Process transactions, this covers both new transactions AND confirmed transactions */
   void WalletGreen::transactionUpdated(
       TransactionInformation transactionInfo,
-      const std::vector<ContainerAmounts> &containerAmountsList)
+      std::vector<ContainerAmounts> containerAmountsList)
   {
     platform_system::EventLock lk(m_readyEvent);
 
@@ -3818,6 +3818,16 @@ namespace cn
       return;
     }
 
+    /* The address may have been deleted, and its container with it, since this update was queued */
+    auto &containerIndex = m_walletsContainer.get<TransfersContainerIndex>();
+    containerAmountsList.erase(std::remove_if(containerAmountsList.begin(), containerAmountsList.end(), [&containerIndex](const ContainerAmounts &containerAmounts) {
+      return containerIndex.count(containerAmounts.container) == 0;
+    }), containerAmountsList.end());
+    if (containerAmountsList.empty())
+    {
+      return;
+    }
+
     size_t firstDepositId = WALLET_INVALID_DEPOSIT_ID;
     size_t depositCount = 0;
 
@@ -3958,10 +3968,12 @@ namespace cn
 
   void WalletGreen::onTransactionDeleted(ITransfersSubscription *object, const Hash &transactionHash)
   {
-    m_dispatcher.remoteSpawn([object, transactionHash, this]() { this->transactionDeleted(object, transactionHash); });
+    /* The subscription may be gone when the dispatcher gets to it, so take what is needed of it now */
+    ITransfersContainer *container = &object->getContainer();
+    m_dispatcher.remoteSpawn([container, transactionHash, this]() { this->transactionDeleted(container, transactionHash); });
   }
 
-  void WalletGreen::transactionDeleted(ITransfersSubscription *object, const Hash &transactionHash)
+  void WalletGreen::transactionDeleted(ITransfersContainer *container, const Hash &transactionHash)
   {
     platform_system::EventLock lk(m_readyEvent);
 
@@ -3976,7 +3988,6 @@ namespace cn
       return;
     }
 
-    cn::ITransfersContainer *container = &object->getContainer();
     updateBalance(container);
     deleteUnlockTransactionJob(transactionHash);
 
diff --git a/src/Wallet/WalletGreen.h b/src/Wallet/WalletGreen.h
index ff377ea..d2b0664 100644
--- a/src/Wallet/WalletGreen.h
+++ b/src/Wallet/WalletGreen.h
@@ -217,10 +217,10 @@ protected:
   void onTransactionUpdated(ITransfersSubscription *object, const crypto::Hash &transactionHash) override;
   void onTransactionUpdated(const crypto::PublicKey &viewPublicKey, const crypto::Hash &transactionHash,
                                     const std::vector<ITransfersContainer *> &containers) override;
-  void transactionUpdated(TransactionInformation transactionInfo, const std::vector<ContainerAmounts> &containerAmountsList);
+  void transactionUpdated(TransactionInformation transactionInfo, std::vector<ContainerAmounts> containerAmountsList);
 
   void onTransactionDeleted(ITransfersSubscription *object, const crypto::Hash &transactionHash) override;
-  void transactionDeleted(ITransfersSubscription *object, const crypto::Hash &transactionHash);
+  void transactionDeleted(ITransfersContainer *container, const crypto::Hash &transactionHash);
 
   void synchronizationProgressUpdated(uint32_t processedBlockCount, uint32_t totalBlockCount) override;
   void synchronizationCompleted(std::error_code result) override;
-- 
2.43.0


From aa2d6485c50f7b0867f318237be32729bc25d6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:14 +0000
Subject: [PATCH 61/91] fix: the deposits of a deleted address leave the
 wallet's deposit balances

---
 src/Wallet/WalletGreen.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index f23a393..a0b7e84 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -1802,6 +1802,8 @@ namespace cn
 
     m_actualBalance -= it->actualBalance;
     m_pendingBalance -= it->pendingBalance;
+    m_lockedDepositBalance -= it->lockedDepositBalance;
+    m_unlockedDepositBalance -= it->unlockedDepositBalance;
 
     m_synchronizer.removeSubscription(pubAddr);
 
-- 
2.43.0


From f3dd986cbb61aa6c12c7603ae4bf2989907c9590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:14 +0000
Subject: [PATCH 62/91] fix: a failure to delete an address leaves the wallet
 as it was

---
 src/Wallet/WalletGreen.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index a0b7e84..f224907 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -1800,6 +1800,18 @@ namespace cn
 
     stopBlockchainSynchronizer();
 
+    // The file is what may fail: change it first, so that a failure leaves the wallet as it was
+    try
+    {
+      m_containerStorage.erase(std::next(m_containerStorage.begin(), addressIndex));
+    }
+    catch (const std::exception &e)
+    {
+      m_logger(ERROR, BRIGHT_RED) << "Failed to delete an address: " << e.what();
+      startBlockchainSynchronizer();
+      throw;
+    }
+
     m_actualBalance -= it->actualBalance;
     m_pendingBalance -= it->pendingBalance;
     m_lockedDepositBalance -= it->lockedDepositBalance;
@@ -1814,8 +1826,6 @@ namespace cn
 
     m_walletsContainer.get<KeysIndex>().erase(it);
 
-    m_containerStorage.erase(std::next(m_containerStorage.begin(), addressIndex));
-
     if (m_walletsContainer.get<RandomAccessIndex>().size() != 0)
     {
       startBlockchainSynchronizer();
-- 
2.43.0


From 4efb61cac39af1060f2d1e1e68af3a87138a565e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:14 +0000
Subject: [PATCH 63/91] fix: an element whose addition to a mapped vector fails
 is not counted

---
 src/Common/FileMappedVector.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Common/FileMappedVector.h b/src/Common/FileMappedVector.h
index ca4d433..ef9ca80 100644
--- a/src/Common/FileMappedVector.h
+++ b/src/Common/FileMappedVector.h
@@ -650,7 +650,12 @@ void FileMappedVector<T>::push_back(const T& val) {
   flushElement(size());
 
   ++(*sizePtr());
-  flushSize();
+  try {
+    flushSize();
+  } catch (...) {
+    --(*sizePtr());
+    throw;
+  }
 }
 
 template<class T>
-- 
2.43.0


From d1676624b793f30ba194f95d17ac36d441e12d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:14 +0000
Subject: [PATCH 64/91] fix: a cancelled transaction does not stay among the
 delayed ones

---
 src/Wallet/WalletGreen.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index f224907..783e23c 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -4018,9 +4018,11 @@ namespace cn
       }
     });
 
+    auto transactionId = getTransactionId(transactionHash);
+    m_uncommitedTransactions.erase(transactionId); // it can be neither sent nor rolled back any more
+
     if (updated)
     {
-      auto transactionId = getTransactionId(transactionHash);
       pushEvent(makeTransactionUpdatedEvent(transactionId));
     }
   }
-- 
2.43.0


From ba43ce479e6e60b80dc93e336971fd27b5704367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:15 +0000
Subject: [PATCH 65/91] fix: a deposit is withdrawn by the address which owns
 it

---
 src/Wallet/WalletGreen.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index 783e23c..f802199 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -308,9 +308,6 @@ namespace cn
 
     /* Get the details of the deposit, and the address */
     Deposit deposit = getDeposit(depositId);
-    WalletTransfer firstTransfer = getTransactionTransfer(deposit.creatingTransactionId, 0);
-    std::string address = firstTransfer.address;
-
     uint64_t blockCount = getBlockCount();
 
     /* Is the deposit unlocked */
@@ -324,18 +321,25 @@ namespace cn
 
     std::vector<TransactionOutputInformation> selectedTransfers;
 
-    const auto &wallet = getWalletRecord(address);
-    const ITransfersContainer *container = wallet.container;
-    AccountKeys account = makeAccountKeys(wallet);
     ITransfersContainer::TransferState state;
     TransactionOutputInformation transfer;
 
+    /* The deposit belongs to the address whose container holds its output */
+    const auto &walletsIndex = m_walletsContainer.get<RandomAccessIndex>();
+    auto walletIt = std::find_if(walletsIndex.begin(), walletsIndex.end(), [&deposit, &transfer, &state](const WalletRecord &record) {
+      return record.container->getTransfer(deposit.transactionHash, deposit.outputInTransaction, transfer, state);
+    });
+    if (walletIt == walletsIndex.end())
+    {
+      throw std::system_error(make_error_code(cn::error::DEPOSIT_DOESNOT_EXIST));
+    }
+
+    AccountKeys account = makeAccountKeys(*walletIt);
+
     uint64_t foundMoney = 0;
     foundMoney += deposit.amount + deposit.interest;
     m_logger(DEBUGGING, WHITE) << "found money " << foundMoney;
 
-    container->getTransfer(deposit.transactionHash, deposit.outputInTransaction, transfer, state);
-
     if (state != ITransfersContainer::TransferState::TransferAvailable) 
     {
       throw std::system_error(make_error_code(cn::error::DEPOSIT_LOCKED));
-- 
2.43.0


From 3f0f34e15ec608f04da32d65cc148858207a9972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:15 +0000
Subject: [PATCH 66/91] fix: several deposits made by one transaction are told
 apart

---
 src/Wallet/WalletGreen.cpp | 11 +++++++----
 src/Wallet/WalletGreen.h   |  2 +-
 src/Wallet/WalletIndices.h |  2 +-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index f802199..406b194 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -3891,7 +3891,7 @@ namespace cn
       /* Now check for any deposit withdrawals in the transactions */
       for (const auto& depositOutput: spentDepositOutputs)
       {
-        auto depositId = getDepositId(depositOutput.transactionHash);
+        auto depositId = getDepositId(depositOutput.transactionHash, depositOutput.outputInTransaction);
         assert(depositId != WALLET_INVALID_DEPOSIT_ID);
         if (depositId == WALLET_INVALID_DEPOSIT_ID)
         {
@@ -3967,11 +3967,14 @@ namespace cn
     return txId;
   }
 
-  size_t WalletGreen::getDepositId(const Hash &transactionHash) const
+  size_t WalletGreen::getDepositId(const Hash &transactionHash, uint32_t outputInTransaction) const
   {
-    auto it = m_deposits.get<TransactionIndex>().find(transactionHash);
+    auto range = m_deposits.get<TransactionIndex>().equal_range(transactionHash);
+    auto it = std::find_if(range.first, range.second, [outputInTransaction](const Deposit &deposit) {
+      return deposit.outputInTransaction == outputInTransaction;
+    });
 
-    if (it == m_deposits.get<TransactionIndex>().end())
+    if (it == range.second)
     {
       return WALLET_INVALID_DEPOSIT_ID;
     }
diff --git a/src/Wallet/WalletGreen.h b/src/Wallet/WalletGreen.h
index d2b0664..dd02bce 100644
--- a/src/Wallet/WalletGreen.h
+++ b/src/Wallet/WalletGreen.h
@@ -256,7 +256,7 @@ protected:
   std::string addWallet(const crypto::PublicKey &spendPublicKey, const crypto::SecretKey &spendSecretKey, uint64_t creationTimestamp);
   AccountKeys makeAccountKeys(const WalletRecord &wallet) const;
   size_t getTransactionId(const crypto::Hash &transactionHash) const;
-  size_t getDepositId(const crypto::Hash &transactionHash) const;
+  size_t getDepositId(const crypto::Hash &transactionHash, uint32_t outputInTransaction) const;
   void pushEvent(const WalletEvent &event);
   bool isFusionTransaction(const WalletTransaction &walletTx) const;
 
diff --git a/src/Wallet/WalletIndices.h b/src/Wallet/WalletIndices.h
index 789eec7..07b211a 100644
--- a/src/Wallet/WalletIndices.h
+++ b/src/Wallet/WalletIndices.h
@@ -109,7 +109,7 @@ struct EncryptedWalletRecord {
         cn::Deposit,
         boost::multi_index::indexed_by<
             boost::multi_index::random_access<boost::multi_index::tag<RandomAccessIndex>>,
-            boost::multi_index::hashed_unique<boost::multi_index::tag<TransactionIndex>,
+            boost::multi_index::hashed_non_unique<boost::multi_index::tag<TransactionIndex>,
                                               boost::multi_index::member<cn::Deposit, crypto::Hash, &cn::Deposit::transactionHash>>,
             boost::multi_index::ordered_non_unique<boost::multi_index::tag<BlockHeightIndex>,
                                                    boost::multi_index::member<cn::Deposit, uint64_t, &cn::Deposit::height>>>>
-- 
2.43.0


From e2e4a565ad229942576d95d9d048efbe849b8ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:15 +0000
Subject: [PATCH 67/91] fix: a deposit confirmed again in another block is
 shown with that block's height

---
 src/Wallet/WalletGreen.cpp | 26 +++++++++++++++++++++++++-
 src/Wallet/WalletGreen.h   |  1 +
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index 406b194..5776014 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -3610,6 +3610,21 @@ namespace cn
     return id;
   }
 
+  void WalletGreen::confirmDeposit(DepositId depositId, TransactionId creatingTransactionId, uint32_t height, cn::ITransfersContainer *container)
+  {
+    auto &index = m_deposits.get<RandomAccessIndex>();
+    auto it = std::next(index.begin(), depositId);
+    index.modify(it, [this, creatingTransactionId, height](Deposit &deposit) {
+      deposit.creatingTransactionId = creatingTransactionId;
+      deposit.height = height;
+      deposit.unlockHeight = height + deposit.term;
+      deposit.interest = m_currency.calculateInterest(deposit.amount, deposit.term, height);
+      deposit.locked = true;
+    });
+
+    insertUnlockTransactionJob(it->transactionHash, static_cast<uint32_t>(it->unlockHeight), container);
+  }
+
   DepositId WalletGreen::insertDeposit(
       const Deposit &deposit,
       size_t depositIndexInTransaction,
@@ -3884,7 +3899,16 @@ namespace cn
         {
           continue;
         }
-        auto id = insertNewDeposit(depositOutput, transactionId, m_currency, transactionInfo.blockHeight, containerAmounts.container);
+        auto id = getDepositId(depositOutput.transactionHash, depositOutput.outputInTransaction);
+        if (id == WALLET_INVALID_DEPOSIT_ID)
+        {
+          id = insertNewDeposit(depositOutput, transactionId, m_currency, transactionInfo.blockHeight, containerAmounts.container);
+        }
+        else
+        {
+          /* The transaction has been confirmed before, now it is in another block */
+          confirmDeposit(id, transactionId, transactionInfo.blockHeight, containerAmounts.container);
+        }
         updatedDepositIds.push_back(id);
       }
 
diff --git a/src/Wallet/WalletGreen.h b/src/Wallet/WalletGreen.h
index dd02bce..5ee93ac 100644
--- a/src/Wallet/WalletGreen.h
+++ b/src/Wallet/WalletGreen.h
@@ -116,6 +116,7 @@ public:
   IFusionManager::EstimateResult estimate(uint64_t threshold, const std::vector<std::string> &sourceAddresses = {}) const override;
 
   DepositId insertDeposit(const Deposit &deposit, size_t depositIndexInTransaction, const crypto::Hash &transactionHash);
+  void confirmDeposit(DepositId depositId, TransactionId creatingTransactionId, uint32_t height, cn::ITransfersContainer *container);
   DepositId insertNewDeposit(const TransactionOutputInformation &depositOutput,
                              TransactionId creatingTransactionId,
                              const Currency &currency, uint32_t height,
-- 
2.43.0


From 17491a422915a5d0dbe0a8a4217c014c0ac010b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:15 +0000
Subject: [PATCH 68/91] fix: a deposit whose withdrawal vanishes is not shown
 as withdrawn

---
 src/Wallet/WalletGreen.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index 5776014..1d1f28f 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -4052,6 +4052,17 @@ namespace cn
     auto transactionId = getTransactionId(transactionHash);
     m_uncommitedTransactions.erase(transactionId); // it can be neither sent nor rolled back any more
 
+    /* The deposits it withdrew are there again */
+    auto &deposits = m_deposits.get<RandomAccessIndex>();
+    for (auto depositIt = deposits.begin(); depositIt != deposits.end(); ++depositIt)
+    {
+      if (depositIt->spendingTransactionId == transactionId)
+      {
+        deposits.modify(depositIt, [](Deposit &deposit) { deposit.spendingTransactionId = WALLET_INVALID_TRANSACTION_ID; });
+        updated = true;
+      }
+    }
+
     if (updated)
     {
       pushEvent(makeTransactionUpdatedEvent(transactionId));
-- 
2.43.0


From 38b51bdd60cdc9b864fde3de29ae3d39bf0a275b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:15 +0000
Subject: [PATCH 69/91] fix: the wallet's balances count coins as unlocked at
 the height they can be spent

---
 src/Wallet/WalletGreen.cpp | 17 ++++++++++++-----
 src/Wallet/WalletGreen.h   |  1 +
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index 1d1f28f..c6cc820 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -3529,7 +3529,7 @@ namespace cn
       try
       {
         const std::string address = getTransactionTransfer(deposit.creatingTransactionId, 0).address;
-        insertUnlockTransactionJob(deposit.transactionHash, static_cast<uint32_t>(deposit.unlockHeight), getWalletRecord(address).container);
+        insertUnlockTransactionJob(deposit.transactionHash, static_cast<uint32_t>(deposit.unlockHeight) - 1, getWalletRecord(address).container);
       }
       catch (const std::exception &)
       {
@@ -3605,7 +3605,7 @@ namespace cn
     /* Ordinary unlock jobs only cover the transaction's own unlockTime/soft-lock;
        schedule one for deposit-term maturity too so unlockBalances() refreshes
        the cached withdrawable balance the moment this deposit matures. */
-    insertUnlockTransactionJob(depositOutput.transactionHash, static_cast<uint32_t>(deposit.unlockHeight), container);
+    insertUnlockTransactionJob(depositOutput.transactionHash, static_cast<uint32_t>(deposit.unlockHeight) - 1, container);
 
     return id;
   }
@@ -3622,7 +3622,7 @@ namespace cn
       deposit.locked = true;
     });
 
-    insertUnlockTransactionJob(it->transactionHash, static_cast<uint32_t>(it->unlockHeight), container);
+    insertUnlockTransactionJob(it->transactionHash, static_cast<uint32_t>(it->unlockHeight) - 1, container);
   }
 
   DepositId WalletGreen::insertDeposit(
@@ -3952,8 +3952,7 @@ namespace cn
 
       if (transactionInfo.blockHeight != cn::WALLET_UNCONFIRMED_TRANSACTION_HEIGHT)
       {
-        uint32_t unlockHeight = std::max(transactionInfo.blockHeight + m_transactionSoftLockTime, static_cast<uint32_t>(transactionInfo.unlockTime));
-        insertUnlockTransactionJob(transactionInfo.transactionHash, unlockHeight, containerAmounts.container);
+        insertUnlockTransactionJob(transactionInfo.transactionHash, getUnlockHeight(transactionInfo), containerAmounts.container);
       }
     }
 
@@ -4069,6 +4068,14 @@ namespace cn
     }
   }
 
+  /* The height of the block with which the outputs of a transaction become spendable: those locked
+     until block N can be spent in block N, so they are unlocked as soon as block N - 1 is there. */
+  uint32_t WalletGreen::getUnlockHeight(const TransactionInformation &transactionInfo) const
+  {
+    uint32_t unlockHeight = static_cast<uint32_t>(transactionInfo.unlockTime);
+    return std::max(transactionInfo.blockHeight + m_transactionSoftLockTime, unlockHeight == 0 ? 0 : unlockHeight - 1);
+  }
+
   void WalletGreen::insertUnlockTransactionJob(const Hash &transactionHash, uint32_t blockHeight, cn::ITransfersContainer *container)
   {
     auto &index = m_unlockTransactionsJob.get<BlockHeightIndex>();
diff --git a/src/Wallet/WalletGreen.h b/src/Wallet/WalletGreen.h
index 5ee93ac..9497ee3 100644
--- a/src/Wallet/WalletGreen.h
+++ b/src/Wallet/WalletGreen.h
@@ -333,6 +333,7 @@ protected:
   bool eraseTransfersByAddress(size_t transactionId, size_t firstTransferIdx, const std::string &address, bool eraseOutputTransfers);
   bool eraseForeignTransfers(size_t transactionId, size_t firstTransferIdx, const std::unordered_set<std::string> &knownAddresses, bool eraseOutputTransfers);
   void pushBackOutgoingTransfers(size_t txId, const std::vector<WalletTransfer> &destinations);
+  uint32_t getUnlockHeight(const TransactionInformation &transactionInfo) const;
   void insertUnlockTransactionJob(const crypto::Hash &transactionHash, uint32_t blockHeight, cn::ITransfersContainer *container);
   void deleteUnlockTransactionJob(const crypto::Hash &transactionHash);
   void startBlockchainSynchronizer();
-- 
2.43.0


From bf4afa129cf0783ae99fc93e026ea8f204eeba0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:35 +0000
Subject: [PATCH 70/91] fix: coins locked again by a reorganization are
 unlocked in the balances when they mature

---
 src/Wallet/WalletGreen.cpp | 63 +++++++++++++++++++++-----------------
 src/Wallet/WalletGreen.h   |  2 +-
 2 files changed, 36 insertions(+), 29 deletions(-)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index c6cc820..98a3fe7 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -1380,9 +1380,8 @@ namespace cn
 
     m_state = WalletState::INITIALIZED;
 
-    /* Backfill unlock jobs for deposits saved before one was scheduled at their term
-       (or migrated from an older wallet file), then drain anything already past due. */
-    scheduleDepositUnlockJobs();
+    /* Backfill missing unlock jobs and reflect what was unlocked while the wallet was closed */
+    scheduleUnlockJobs();
 
     m_logger(INFO, BRIGHT_WHITE) << "Container loaded, view public key " << common::podToHex(m_viewPublicKey) << ", wallet count " << m_walletsContainer.size() << ", actual balance " << m_currency.formatAmount(m_actualBalance) << ", pending balance " << m_currency.formatAmount(m_pendingBalance);
     m_observerManager.notify(&IWalletObserver::initCompleted, std::error_code());
@@ -3472,6 +3471,8 @@ namespace cn
 
     auto &blockHeightIndex = m_blockchain.get<BlockHeightIndex>();
     blockHeightIndex.erase(std::next(blockHeightIndex.begin(), blockIndex), blockHeightIndex.end());
+
+    scheduleUnlockJobs();
   }
 
   void WalletGreen::onTransactionDeleteBegin(const crypto::PublicKey &viewPublicKey, const crypto::Hash &transactionHash)
@@ -3511,35 +3512,33 @@ namespace cn
     }
   }
 
-  /* Ordinary unlock jobs cover a transaction's own unlockTime/soft-lock, not deposit-term
-     maturity, so deposits saved before an unlock job existed for their term (or migrated
-     from an older wallet file) would never get updateBalance() re-run when they matured.
-     Schedule the missing job per unspent deposit, then drain anything already past due so
-     a reopened wallet immediately reflects deposits that matured while it was closed. */
-  void WalletGreen::scheduleDepositUnlockJobs()
+  /* Schedules the unlock of every output which is locked now and refreshes the balances. Deposits saved
+     before an unlock job existed for their term (or migrated from an older wallet file) have none, and a
+     reorganization locks outputs again whose jobs are done. */
+  void WalletGreen::scheduleUnlockJobs()
   {
-    for (DepositId id = 0; id < m_deposits.size(); ++id)
+    for (const WalletRecord &wallet : m_walletsContainer.get<RandomAccessIndex>())
     {
-      const Deposit &deposit = m_deposits.get<RandomAccessIndex>()[id];
-      if (deposit.spendingTransactionId != WALLET_INVALID_TRANSACTION_ID)
-      {
-        continue;
-      }
+      std::vector<TransactionOutputInformation> outputs;
+      wallet.container->getOutputs(outputs, ITransfersContainer::IncludeTypeAll | ITransfersContainer::IncludeStateLocked | ITransfersContainer::IncludeStateSoftLocked);
 
-      try
-      {
-        const std::string address = getTransactionTransfer(deposit.creatingTransactionId, 0).address;
-        insertUnlockTransactionJob(deposit.transactionHash, static_cast<uint32_t>(deposit.unlockHeight) - 1, getWalletRecord(address).container);
-      }
-      catch (const std::exception &)
+      for (const auto &output : outputs)
       {
-        continue;
+        TransactionInformation info;
+        if (!wallet.container->getTransactionInformation(output.transactionHash, info, nullptr, nullptr) ||
+            info.blockHeight == WALLET_UNCONFIRMED_TRANSACTION_HEIGHT)
+        {
+          continue;
+        }
+
+        insertUnlockTransactionJob(output.transactionHash, getUnlockHeight(info), wallet.container);
+        if (output.type == transaction_types::OutputType::Multisignature && output.term != 0)
+        {
+          insertUnlockTransactionJob(output.transactionHash, info.blockHeight + output.term - 1, wallet.container);
+        }
       }
-    }
 
-    if (getBlockCount() > 0)
-    {
-      unlockBalances(getBlockCount() - 1);
+      updateBalance(wallet.container);
     }
   }
 
@@ -4078,8 +4077,16 @@ namespace cn
 
   void WalletGreen::insertUnlockTransactionJob(const Hash &transactionHash, uint32_t blockHeight, cn::ITransfersContainer *container)
   {
-    auto &index = m_unlockTransactionsJob.get<BlockHeightIndex>();
-    index.insert({blockHeight, container, transactionHash});
+    auto range = m_unlockTransactionsJob.get<TransactionHashIndex>().equal_range(transactionHash);
+    bool exists = std::any_of(range.first, range.second, [blockHeight, container](const UnlockTransactionJob &job) {
+      return job.blockHeight == blockHeight && job.container == container;
+    });
+
+    if (!exists)
+    {
+      auto &index = m_unlockTransactionsJob.get<BlockHeightIndex>();
+      index.insert({blockHeight, container, transactionHash});
+    }
   }
 
   void WalletGreen::deleteUnlockTransactionJob(const Hash &transactionHash)
diff --git a/src/Wallet/WalletGreen.h b/src/Wallet/WalletGreen.h
index 9497ee3..5f6e705 100644
--- a/src/Wallet/WalletGreen.h
+++ b/src/Wallet/WalletGreen.h
@@ -247,7 +247,7 @@ protected:
 
   void updateBalance(cn::ITransfersContainer *container);
   void unlockBalances(uint32_t height);
-  void scheduleDepositUnlockJobs();
+  void scheduleUnlockJobs();
 
   const WalletRecord &getWalletRecord(const crypto::PublicKey &key) const;
   const WalletRecord &getWalletRecord(const std::string &address) const;
-- 
2.43.0


From a416a923f6ba3ea094381af2c4168bd1085a27d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:02 +0000
Subject: [PATCH 71/91] fix: what a wallet saves of its history is in step with
 what it saves of its synchronization

---
 src/Wallet/WalletGreen.cpp | 56 ++++++++++++++++++++++++++++++++++----
 src/Wallet/WalletGreen.h   |  7 +++++
 2 files changed, 57 insertions(+), 6 deletions(-)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index 98a3fe7..7d5101b 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -795,6 +795,37 @@ namespace cn
     }
   }
 
+  /* Hands an update made by the synchronizer over to the thread of the dispatcher */
+  void WalletGreen::postUpdate(const std::function<void()> &update)
+  {
+    {
+      std::lock_guard<std::mutex> lk(m_updatesMutex);
+      m_updates.push_back(update);
+    }
+
+    m_dispatcher.remoteSpawn([this] { processUpdates(); });
+  }
+
+  void WalletGreen::processUpdates()
+  {
+    for (;;)
+    {
+      std::function<void()> update;
+      {
+        std::lock_guard<std::mutex> lk(m_updatesMutex);
+        if (m_updates.empty())
+        {
+          return;
+        }
+
+        update = std::move(m_updates.front());
+        m_updates.pop_front();
+      }
+
+      update();
+    }
+  }
+
   void WalletGreen::initBlockchain(const crypto::PublicKey &viewPublicKey)
   {
     std::vector<crypto::Hash> blockchain = m_synchronizer.getViewKeyKnownBlocks(viewPublicKey);
@@ -881,6 +912,11 @@ namespace cn
     stopBlockchainSynchronizer();
     m_blockchainSynchronizer.removeObserver(this);
 
+    {
+      std::lock_guard<std::mutex> lk(m_updatesMutex);
+      m_updates.clear();
+    }
+
     m_containerStorage.close();
     m_walletsContainer.clear();
     clearCaches(true, true);
@@ -950,6 +986,10 @@ namespace cn
     throwIfStopped();
 
     stopBlockchainSynchronizer();
+    if (m_dispatcher.isOwnerThread())
+    {
+      processUpdates(); // what is saved has to be in step with the state of the synchronizer
+    }
 
     try
     {
@@ -1016,6 +1056,10 @@ namespace cn
     throwIfNotInitialized();
     throwIfStopped();
     stopBlockchainSynchronizer();
+    if (m_dispatcher.isOwnerThread())
+    {
+      processUpdates();
+    }
 
     try
     {
@@ -3401,13 +3445,13 @@ namespace cn
 
   void WalletGreen::synchronizationProgressUpdated(uint32_t processedBlockCount, uint32_t totalBlockCount)
   {
-    m_dispatcher.remoteSpawn([processedBlockCount, totalBlockCount, this]() { onSynchronizationProgressUpdated(processedBlockCount, totalBlockCount); });
+    postUpdate([processedBlockCount, totalBlockCount, this]() { onSynchronizationProgressUpdated(processedBlockCount, totalBlockCount); });
   }
 
   void WalletGreen::synchronizationCompleted(std::error_code result)
   {
     m_observerManager.notify(&IWalletObserver::synchronizationCompleted, result);
-    m_dispatcher.remoteSpawn([this]() { onSynchronizationCompleted(); });
+    postUpdate([this]() { onSynchronizationCompleted(); });
   }
 
   void WalletGreen::onSynchronizationProgressUpdated(uint32_t processedBlockCount, uint32_t totalBlockCount)
@@ -3441,7 +3485,7 @@ namespace cn
 
   void WalletGreen::onBlocksAdded(const crypto::PublicKey &viewPublicKey, const std::vector<crypto::Hash> &blockHashes)
   {
-    m_dispatcher.remoteSpawn([this, blockHashes]() { blocksAdded(blockHashes); });
+    postUpdate([this, blockHashes]() { blocksAdded(blockHashes); });
   }
 
   void WalletGreen::blocksAdded(const std::vector<crypto::Hash> &blockHashes)
@@ -3457,7 +3501,7 @@ namespace cn
 
   void WalletGreen::onBlockchainDetach(const crypto::PublicKey &viewPublicKey, uint32_t blockIndex)
   {
-    m_dispatcher.remoteSpawn([this, blockIndex]() { blocksRollback(blockIndex); });
+    postUpdate([this, blockIndex]() { blocksRollback(blockIndex); });
   }
 
   void WalletGreen::blocksRollback(uint32_t blockIndex)
@@ -3574,7 +3618,7 @@ namespace cn
       containerAmountsList.emplace_back(std::move(containerAmounts));
     }
 
-    m_dispatcher.remoteSpawn(
+    postUpdate(
         [this, info, containerAmountsList] { this->transactionUpdated(info, containerAmountsList); });
   }
 
@@ -4011,7 +4055,7 @@ namespace cn
   {
     /* The subscription may be gone when the dispatcher gets to it, so take what is needed of it now */
     ITransfersContainer *container = &object->getContainer();
-    m_dispatcher.remoteSpawn([container, transactionHash, this]() { this->transactionDeleted(container, transactionHash); });
+    postUpdate([container, transactionHash, this]() { this->transactionDeleted(container, transactionHash); });
   }
 
   void WalletGreen::transactionDeleted(ITransfersContainer *container, const Hash &transactionHash)
diff --git a/src/Wallet/WalletGreen.h b/src/Wallet/WalletGreen.h
index 5f6e705..6b7b0c7 100644
--- a/src/Wallet/WalletGreen.h
+++ b/src/Wallet/WalletGreen.h
@@ -9,6 +9,9 @@
 
 #include "IWallet.h"
 
+#include <deque>
+#include <functional>
+#include <mutex>
 #include <queue>
 #include <unordered_map>
 
@@ -144,6 +147,8 @@ protected:
   void throwIfTrackingMode() const;
   void doShutdown();
   void waitForRemoteSpawns();
+  void postUpdate(const std::function<void()> &update);
+  void processUpdates();
   void clearCaches(bool clearTransactions, bool clearCachedData);
   void clearCacheAndShutdown();
   void convertAndLoadWalletFile(const std::string &path, std::ifstream &&walletFileStream);
@@ -422,6 +427,8 @@ private:
   platform_system::Event m_eventOccurred;
   std::queue<WalletEvent> m_events;
   mutable platform_system::Event m_readyEvent;
+  std::mutex m_updatesMutex;
+  std::deque<std::function<void()>> m_updates; // made by the synchronizer, to be applied by the dispatcher's thread
 
   WalletState m_state = WalletState::NOT_INITIALIZED;
 
-- 
2.43.0


From 6bf2db89b7bc3679c1f54852c61ebfbb3316b59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:55 +0000
Subject: [PATCH 72/91] fix: what a wallet saves refers to the transactions it
 saves

Deleted transactions are not saved and the ones after them move down, but the
deposits and the delayed transactions kept referring to the old positions.
---
 src/Wallet/WalletGreen.cpp | 41 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index 7d5101b..3911fb4 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -874,6 +874,43 @@ namespace cn
       });
     }
 
+    // What is saved refers to the transactions by their position among the saved ones
+    const auto savedTransactionId = [this, &transactions](TransactionId transactionId) {
+      if (transactionId >= m_transactions.size())
+      {
+        return TransactionId(WALLET_INVALID_TRANSACTION_ID);
+      }
+
+      const auto &savedTransactions = transactions.get<TransactionIndex>();
+      auto it = savedTransactions.find(m_transactions.get<RandomAccessIndex>()[transactionId].hash);
+      if (it == savedTransactions.end())
+      {
+        return TransactionId(WALLET_INVALID_TRANSACTION_ID);
+      }
+
+      return TransactionId(std::distance(transactions.get<RandomAccessIndex>().begin(), transactions.project<RandomAccessIndex>(it)));
+    };
+
+    WalletDeposits deposits(m_deposits);
+    auto &depositsIndex = deposits.get<RandomAccessIndex>();
+    for (auto it = depositsIndex.begin(); it != depositsIndex.end(); ++it)
+    {
+      depositsIndex.modify(it, [&savedTransactionId](Deposit &deposit) {
+        deposit.creatingTransactionId = savedTransactionId(deposit.creatingTransactionId);
+        deposit.spendingTransactionId = savedTransactionId(deposit.spendingTransactionId);
+      });
+    }
+
+    UncommitedTransactions uncommitedTransactions;
+    for (const auto &uncommited : m_uncommitedTransactions)
+    {
+      const TransactionId transactionId = savedTransactionId(uncommited.first);
+      if (transactionId != WALLET_INVALID_TRANSACTION_ID)
+      {
+        uncommitedTransactions.emplace(transactionId, uncommited.second);
+      }
+    }
+
     std::string containerData;
     common::StringOutputStream containerStream(containerData);
     WalletSerializerV2 s(
@@ -889,8 +926,8 @@ namespace cn
         m_unlockTransactionsJob,
         transactions,
         transfers,
-        m_deposits,
-        m_uncommitedTransactions,
+        deposits,
+        uncommitedTransactions,
         const_cast<std::string &>(extra),
         m_transactionSoftLockTime);
     s.save(containerStream, saveLevel);
-- 
2.43.0


From 7f500ab23ad31a2fc21c55fe5afbe38066239f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:33 +0000
Subject: [PATCH 73/91] fix: a transaction taken back after its answer was lost
 is found in the pool again

When the pool was read while the answer was awaited, the transaction stayed
among the known ones and its outputs were missing until the wallet restarted.
---
 src/Transfers/TransfersConsumer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Transfers/TransfersConsumer.cpp b/src/Transfers/TransfersConsumer.cpp
index a7f7d4c..9241640 100644
--- a/src/Transfers/TransfersConsumer.cpp
+++ b/src/Transfers/TransfersConsumer.cpp
@@ -416,6 +416,9 @@ std::error_code TransfersConsumer::addUnconfirmedTransaction(const ITransactionR
 }
 
 void TransfersConsumer::removeUnconfirmedTransaction(const crypto::Hash& transactionHash) {
+  // if the node has it in its pool all the same, the next look at the pool brings it back
+  m_poolTxs.erase(transactionHash);
+
   m_observerManager.notify(&IBlockchainConsumerObserver::onTransactionDeleteBegin, this, transactionHash);
   for (auto& subscription : m_subscriptions) {
     subscription.second->deleteUnconfirmedTransaction(transactionHash);
@@ -608,7 +611,6 @@ void TransfersConsumer::dropConflictingTransactions(const TransactionBlockInfo&
   // a transaction in a block supersedes the ones waiting in the pool
   for (const auto& hash : unconfirmed) {
     removeUnconfirmedTransaction(hash);
-    m_poolTxs.erase(hash);
   }
 }
 
-- 
2.43.0


From 7021abad7f610ab67a7e210166bd74bde52a898a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:05 +0000
Subject: [PATCH 74/91] fix: a wallet file which can't be flushed is an error,
 not the end of the process

The flush at the end of a list of new addresses and of an export was done by a
destructor, an error of it ended the process.
---
 src/Wallet/WalletGreen.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index 3911fb4..c2d835f 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -1050,10 +1050,7 @@ namespace cn
     dst.reserve(src.size());
 
     dst.setAutoFlush(false);
-    tools::ScopeExit exitHandler([&dst] {
-      dst.setAutoFlush(true);
-      dst.flush();
-    });
+    tools::ScopeExit exitHandler([&dst] { dst.setAutoFlush(true); });
 
     for (const auto &encryptedSpendKeys : src)
     {
@@ -1069,6 +1066,8 @@ namespace cn
 
       dst.push_back(encryptKeyPair(publicKey, secretKey, creationTimestamp, dstKey, keyPairIv));
     }
+
+    dst.flush();
   }
 
   void WalletGreen::copyContainerStoragePrefix(ContainerStorage &src, const chacha8_key &srcKey, ContainerStorage &dst, const chacha8_key &dstKey)
@@ -1740,7 +1739,6 @@ namespace cn
           if (!m_containerStorage.getAutoFlush())
           {
             m_containerStorage.setAutoFlush(true);
-            m_containerStorage.flush();
           }
         });
 
@@ -1753,6 +1751,11 @@ namespace cn
 
           minCreationTimestamp = std::min(minCreationTimestamp, addressData.creationTimestamp);
         }
+
+        if (!m_containerStorage.getAutoFlush())
+        {
+          m_containerStorage.flush();
+        }
       }
 
       m_containerStorage.setAutoFlush(true);
-- 
2.43.0


From af66f57cccc68c3f79513c22fadc313922f8ebc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:09 +0000
Subject: [PATCH 75/91] fix: the output keys of a transaction which is gone may
 be seen again

The keys of a transaction are made from its inputs, so a transfer repeated after
the first attempt failed has the outputs of the first. They were taken for
duplicates and the wallet never saw its change.
---
 src/Transfers/TransfersConsumer.cpp     | 24 ++++++++++++++++++++++--
 src/Transfers/TransfersConsumer.h       |  2 ++
 src/Transfers/TransfersSubscription.cpp |  3 +++
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/Transfers/TransfersConsumer.cpp b/src/Transfers/TransfersConsumer.cpp
index 9241640..982c9bb 100644
--- a/src/Transfers/TransfersConsumer.cpp
+++ b/src/Transfers/TransfersConsumer.cpp
@@ -28,6 +28,7 @@ using namespace common;
 
 std::unordered_set<crypto::Hash> transactions_hash_seen;
 std::unordered_set<crypto::PublicKey> public_keys_seen;
+std::unordered_map<crypto::Hash, std::vector<crypto::PublicKey>> public_keys_seen_in;
 std::mutex seen_mutex;
 
 namespace {
@@ -429,8 +430,23 @@ void TransfersConsumer::removeUnconfirmedTransaction(const crypto::Hash& transac
 void TransfersConsumer::addPublicKeysSeen(const crypto::Hash& transactionHash, const crypto::PublicKey& outputKey) {
     std::lock_guard<std::mutex> lk(seen_mutex);
     transactions_hash_seen.insert(transactionHash);
-    public_keys_seen.insert(outputKey);
+    if (public_keys_seen.insert(outputKey).second) {
+      public_keys_seen_in[transactionHash].push_back(outputKey);
+    }
 }	
+
+void TransfersConsumer::forgetTransactionSeen(const crypto::Hash& transactionHash) {
+  std::lock_guard<std::mutex> lk(seen_mutex);
+  transactions_hash_seen.erase(transactionHash);
+  auto it = public_keys_seen_in.find(transactionHash);
+  if (it != public_keys_seen_in.end()) {
+    for (const auto& key : it->second) {
+      public_keys_seen.erase(key);
+    }
+
+    public_keys_seen_in.erase(it);
+  }
+}
 	
 std::error_code createTransfers(
   const AccountKeys& account,
@@ -536,7 +552,11 @@ std::error_code createTransfers(
   }
 
   transactions_hash_seen.emplace(tx.getTransactionHash());
-  std::copy(temp_keys.begin(), temp_keys.end(), std::inserter(public_keys_seen, public_keys_seen.end()));
+  for (const auto& key : temp_keys) {
+    if (public_keys_seen.insert(key).second) {
+      public_keys_seen_in[txHash].push_back(key);
+    }
+  }
 
 
  
diff --git a/src/Transfers/TransfersConsumer.h b/src/Transfers/TransfersConsumer.h
index af246a9..9fadc09 100644
--- a/src/Transfers/TransfersConsumer.h
+++ b/src/Transfers/TransfersConsumer.h
@@ -18,6 +18,7 @@
 #include "IObservableImpl.h"
 
 #include <functional>
+#include <unordered_map>
 #include <unordered_set>
 
 namespace cn {
@@ -37,6 +38,7 @@ public:
 
   void initTransactionPool(const std::unordered_set<crypto::Hash>& uncommitedTransactions);
   void addPublicKeysSeen(const crypto::Hash& transactionHash, const crypto::PublicKey& outputKey);
+  static void forgetTransactionSeen(const crypto::Hash& transactionHash);
   
   // IBlockchainConsumer
   virtual SynchronizationStart getSyncStart() override;
diff --git a/src/Transfers/TransfersSubscription.cpp b/src/Transfers/TransfersSubscription.cpp
index 960725b..4349818 100644
--- a/src/Transfers/TransfersSubscription.cpp
+++ b/src/Transfers/TransfersSubscription.cpp
@@ -7,6 +7,7 @@
 
 #include "TransfersSubscription.h"
 #include "IWalletLegacy.h"
+#include "TransfersConsumer.h"
 
 using namespace crypto;
 
@@ -26,6 +27,7 @@ void TransfersSubscription::onBlockchainDetach(uint32_t height) {
   transfers.detach(height, deletedTransactions, lockedTransfers);
 
   for (auto& hash : deletedTransactions) {
+    TransfersConsumer::forgetTransactionSeen(hash);
     m_observerManager.notify(&ITransfersObserver::onTransactionDeleted, this, hash);
   }
 
@@ -82,6 +84,7 @@ ITransfersContainer& TransfersSubscription::getContainer() {
 
 void TransfersSubscription::deleteUnconfirmedTransaction(const Hash& transactionHash) {
   if (transfers.deleteUnconfirmedTransaction(transactionHash)) {
+    TransfersConsumer::forgetTransactionSeen(transactionHash);
     m_observerManager.notify(&ITransfersObserver::onTransactionDeleted, this, transactionHash);
   }
 }
-- 
2.43.0


From 723bc467882d43385db30511cdda4a758078c318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:52 +0000
Subject: [PATCH 76/91] fix: destroying a wallet whose file can't be flushed
 must not end the process

---
 src/Wallet/WalletGreen.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index c2d835f..30a6705 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -265,9 +265,16 @@ namespace cn
 
   WalletGreen::~WalletGreen()
   {
-    if (m_state == WalletState::INITIALIZED)
+    try
+    {
+      if (m_state == WalletState::INITIALIZED)
+      {
+        doShutdown();
+      }
+    }
+    catch (const std::exception &e)
     {
-      doShutdown();
+      m_logger(ERROR, BRIGHT_RED) << "Failed to close the wallet on destruction: " << e.what();
     }
 
     try
-- 
2.43.0


From e691492589a3bbaa834a4662370f2543792504e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:13 +0000
Subject: [PATCH 77/91] fix: the wallet looked at its coins before the blocks
 taken back were gone from them

---
 src/Transfers/TransfersConsumer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Transfers/TransfersConsumer.cpp b/src/Transfers/TransfersConsumer.cpp
index 982c9bb..8a3063f 100644
--- a/src/Transfers/TransfersConsumer.cpp
+++ b/src/Transfers/TransfersConsumer.cpp
@@ -177,11 +177,12 @@ SynchronizationStart TransfersConsumer::getSyncStart() {
 }
 
 void TransfersConsumer::onBlockchainDetach(uint32_t height) {
-  m_observerManager.notify(&IBlockchainConsumerObserver::onBlockchainDetach, this, height);
-
   detachSubscriptions([height](TransfersSubscription& sub) {
     sub.onBlockchainDetach(height);
   });
+
+  // an observer which looks at the containers must see them without these blocks
+  m_observerManager.notify(&IBlockchainConsumerObserver::onBlockchainDetach, this, height);
 }
 
 void TransfersConsumer::detachSubscriptions(const std::function<void(TransfersSubscription&)>& detach) {
-- 
2.43.0


From 0285b7831f27d6358580697e593ff0edab536063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:02 +0000
Subject: [PATCH 78/91] fix: coins taken back while a transfer is built must
 not be sent

---
 src/Wallet/WalletGreen.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index 30a6705..bd9733b 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -3043,6 +3043,20 @@ namespace cn
       }
     });
 
+    /* A reorganization may have taken the outputs back since they were selected. Nothing would show them
+       as spent when they return with another block. */
+    size_t spentOutputs = 0;
+    for (const WalletRecord &wallet : m_walletsContainer.get<RandomAccessIndex>())
+    {
+      spentOutputs += wallet.container->getTransactionInputs(transaction.getTransactionHash(), ITransfersContainer::IncludeTypeAll).size();
+    }
+
+    if (spentOutputs != transaction.getInputCount())
+    {
+      m_logger(ERROR, BRIGHT_RED) << "The outputs selected for transaction " << common::podToHex(transaction.getTransactionHash()) << " are not available any more";
+      throw std::system_error(make_error_code(error::INTERNAL_WALLET_ERROR), "The selected outputs are not available any more");
+    }
+
     if (send)
     {
       sendTransaction(cryptoNoteTransaction);
-- 
2.43.0


From dde520400b55084b9a5fa354bfa67b599330bf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:36 +0000
Subject: [PATCH 79/91] fix: a wallet whose file cannot be flushed was half
 shut down and followed the chain no more

---
 src/Wallet/WalletGreen.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index bd9733b..a6a9f98 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -948,12 +948,29 @@ namespace cn
 
   void WalletGreen::doShutdown()
   {
+    bool synchronizerStarted = m_blockchainSynchronizerStarted;
+    stopBlockchainSynchronizer();
+
+    try
+    {
+      m_containerStorage.close();
+    }
+    catch (const std::exception &)
+    {
+      // The file is still open: the wallet stays as it was
+      if (synchronizerStarted)
+      {
+        startBlockchainSynchronizer();
+      }
+
+      throw;
+    }
+
     if (m_walletsContainer.size() != 0)
     {
       m_synchronizer.unsubscribeConsumerNotifications(m_viewPublicKey, this);
     }
 
-    stopBlockchainSynchronizer();
     m_blockchainSynchronizer.removeObserver(this);
 
     {
@@ -961,7 +978,6 @@ namespace cn
       m_updates.clear();
     }
 
-    m_containerStorage.close();
     m_walletsContainer.clear();
     clearCaches(true, true);
 
-- 
2.43.0


From 9195be4dc897932c8f820d8c3c8f159e043ed087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:36 +0000
Subject: [PATCH 80/91] fix: the password of a wallet with a damaged cache
 could not be changed

---
 src/Wallet/WalletGreen.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index a6a9f98..22fe822 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -1612,8 +1612,18 @@ namespace cn
 
     if (m_containerStorage.suffixSize() > 0) {
       BinaryArray containerData;
-      loadAndDecryptContainerData(m_containerStorage, m_key, containerData);
-      encryptAndSaveContainerData(newStorage, newKey, containerData.data(), containerData.size());
+      bool loaded = true;
+      try {
+        loadAndDecryptContainerData(m_containerStorage, m_key, containerData);
+      } catch (const std::exception& e) {
+        // A cache damaged on disk was dropped when the wallet was loaded, see loadWalletCache
+        m_logger(WARNING) << "Failed to read the saved cache, it is dropped: " << e.what();
+        loaded = false;
+      }
+
+      if (loaded) {
+        encryptAndSaveContainerData(newStorage, newKey, containerData.data(), containerData.size());
+      }
     } });
 
     m_key = newKey;
-- 
2.43.0


From df6c5ecdd668ee791372b9c42ff4803893372505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:54 +0000
Subject: [PATCH 81/91] fix: shutting down a remote node client waited for
 answers that may never come

---
 src/NodeRpcProxy/NodeRpcProxy.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/NodeRpcProxy/NodeRpcProxy.cpp b/src/NodeRpcProxy/NodeRpcProxy.cpp
index e5c4b03..9c509bd 100644
--- a/src/NodeRpcProxy/NodeRpcProxy.cpp
+++ b/src/NodeRpcProxy/NodeRpcProxy.cpp
@@ -107,6 +107,8 @@ bool NodeRpcProxy::shutdown() {
 
   m_dispatcher->remoteSpawn([this]() {
     m_stop = true;
+    // Do not wait for answers of the node or for the next poll
+    m_context_group->interrupt();
     // Run all spawned contexts
     m_dispatcher->yield();
   });
@@ -677,6 +679,10 @@ std::error_code NodeRpcProxy::binaryCommand(const std::string& url, const Reques
 
   try {
     EventLock eventLock(*m_httpEvent);
+    if (m_stop) {
+      return std::make_error_code(std::errc::operation_canceled);
+    }
+
     invokeBinaryCommand(*m_httpClient, url, req, res);
     ec = interpretResponseStatus(res.status);
   } catch (const ConnectException&) {
@@ -694,6 +700,10 @@ std::error_code NodeRpcProxy::jsonCommand(const std::string& url, const Request&
 
   try {
     EventLock eventLock(*m_httpEvent);
+    if (m_stop) {
+      return std::make_error_code(std::errc::operation_canceled);
+    }
+
     invokeJsonCommand(*m_httpClient, url, req, res);
     ec = interpretResponseStatus(res.status);
   } catch (const ConnectException&) {
@@ -711,6 +721,9 @@ std::error_code NodeRpcProxy::jsonRpcCommand(const std::string& method, const Re
 
   try {
     EventLock eventLock(*m_httpEvent);
+    if (m_stop) {
+      return std::make_error_code(std::errc::operation_canceled);
+    }
 
     JsonRpc::JsonRpcRequest jsReq;
 
-- 
2.43.0


From f0d47edbe4a0fd2024955dc4be2e051d50dd2821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:54 +0000
Subject: [PATCH 82/91] fix: a remote node client called back with its lock
 held, so a callback using the client hung

---
 src/NodeRpcProxy/NodeRpcProxy.cpp | 75 +++++++++++++++++++++----------
 src/NodeRpcProxy/NodeRpcProxy.h   |  3 +-
 2 files changed, 54 insertions(+), 24 deletions(-)

diff --git a/src/NodeRpcProxy/NodeRpcProxy.cpp b/src/NodeRpcProxy/NodeRpcProxy.cpp
index 9c509bd..bb965ac 100644
--- a/src/NodeRpcProxy/NodeRpcProxy.cpp
+++ b/src/NodeRpcProxy/NodeRpcProxy.cpp
@@ -76,9 +76,12 @@ void NodeRpcProxy::resetInternalState() {
 }
 
 void NodeRpcProxy::init(const INode::Callback& callback) {
-  std::lock_guard<std::mutex> lock(m_mutex);
+  std::unique_lock<std::mutex> lock(m_mutex);
+
+  m_cv_initialized.wait(lock, [this] { return m_state != STATE_SHUTTING_DOWN; });
 
   if (m_state != STATE_NOT_INITIALIZED) {
+    lock.unlock();
     callback(make_error_code(error::ALREADY_INITIALIZED));
     return;
   }
@@ -93,13 +96,9 @@ void NodeRpcProxy::init(const INode::Callback& callback) {
 bool NodeRpcProxy::shutdown() {
   std::unique_lock<std::mutex> lock(m_mutex);
 
+  m_cv_initialized.wait(lock, [this] { return m_state != STATE_INITIALIZING && m_state != STATE_SHUTTING_DOWN; });
   if (m_state == STATE_NOT_INITIALIZED) {
     return true;
-  } else if (m_state == STATE_INITIALIZING) {
-    m_cv_initialized.wait(lock, [this] { return m_state != STATE_INITIALIZING; });
-    if (m_state == STATE_NOT_INITIALIZED) {
-      return true;
-    }
   }
 
   assert(m_state == STATE_INITIALIZED);
@@ -113,9 +112,16 @@ bool NodeRpcProxy::shutdown() {
     m_dispatcher->yield();
   });
 
-  if (m_workerThread.joinable()) {
-    m_workerThread.join();
+  // Callbacks of requests in progress may use this object, so the lock is not held while they finish
+  m_state = STATE_SHUTTING_DOWN;
+  std::thread workerThread = std::move(m_workerThread);
+  lock.unlock();
+
+  if (workerThread.joinable()) {
+    workerThread.join();
   }
+
+  lock.lock();
   m_state = STATE_NOT_INITIALIZED;
   m_cv_initialized.notify_all();
   return true;
@@ -306,8 +312,9 @@ uint64_t NodeRpcProxy::getLastLocalBlockTimestamp() const {
 }
 
 void NodeRpcProxy::relayTransaction(const cn::Transaction& transaction, const Callback& callback) {
-  std::lock_guard<std::mutex> lock(m_mutex);
+  std::unique_lock<std::mutex> lock(m_mutex);
   if (m_state != STATE_INITIALIZED) {
+    lock.unlock();
     callback(make_error_code(error::NOT_INITIALIZED));
     return;
   }
@@ -318,8 +325,9 @@ void NodeRpcProxy::relayTransaction(const cn::Transaction& transaction, const Ca
 void NodeRpcProxy::getRandomOutsByAmounts(std::vector<uint64_t>&& amounts, uint64_t outsCount,
                                           std::vector<COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS::outs_for_amount>& outs,
                                           const Callback& callback) {
-  std::lock_guard<std::mutex> lock(m_mutex);
+  std::unique_lock<std::mutex> lock(m_mutex);
   if (m_state != STATE_INITIALIZED) {
+    lock.unlock();
     callback(make_error_code(error::NOT_INITIALIZED));
     return;
   }
@@ -332,8 +340,9 @@ void NodeRpcProxy::getNewBlocks(std::vector<crypto::Hash>&& knownBlockIds,
                                 std::vector<cn::block_complete_entry>& newBlocks,
                                 uint32_t& startHeight,
                                 const Callback& callback) {
-  std::lock_guard<std::mutex> lock(m_mutex);
+  std::unique_lock<std::mutex> lock(m_mutex);
   if (m_state != STATE_INITIALIZED) {
+    lock.unlock();
     callback(make_error_code(error::NOT_INITIALIZED));
     return;
   }
@@ -344,8 +353,9 @@ void NodeRpcProxy::getNewBlocks(std::vector<crypto::Hash>&& knownBlockIds,
 
 void NodeRpcProxy::getTransactionOutsGlobalIndices(const crypto::Hash& transactionHash,
                                                    std::vector<uint32_t>& outsGlobalIndices, const Callback& callback) {
-  std::lock_guard<std::mutex> lock(m_mutex);
+  std::unique_lock<std::mutex> lock(m_mutex);
   if (m_state != STATE_INITIALIZED) {
+    lock.unlock();
     callback(make_error_code(error::NOT_INITIALIZED));
     return;
   }
@@ -356,8 +366,9 @@ void NodeRpcProxy::getTransactionOutsGlobalIndices(const crypto::Hash& transacti
 
 void NodeRpcProxy::queryBlocks(std::vector<crypto::Hash>&& knownBlockIds, uint64_t timestamp, std::vector<BlockShortEntry>& newBlocks,
   uint32_t& startHeight, const Callback& callback) {
-  std::lock_guard<std::mutex> lock(m_mutex);
+  std::unique_lock<std::mutex> lock(m_mutex);
   if (m_state != STATE_INITIALIZED) {
+    lock.unlock();
     callback(make_error_code(error::NOT_INITIALIZED));
     return;
   }
@@ -368,8 +379,9 @@ void NodeRpcProxy::queryBlocks(std::vector<crypto::Hash>&& knownBlockIds, uint64
 
 void NodeRpcProxy::getPoolSymmetricDifference(std::vector<crypto::Hash>&& knownPoolTxIds, crypto::Hash knownBlockId, bool& isBcActual,
         std::vector<std::unique_ptr<ITransactionReader>>& newTxs, std::vector<crypto::Hash>& deletedTxIds, const Callback& callback) {
-  std::lock_guard<std::mutex> lock(m_mutex);
+  std::unique_lock<std::mutex> lock(m_mutex);
   if (m_state != STATE_INITIALIZED) {
+    lock.unlock();
     callback(make_error_code(error::NOT_INITIALIZED));
     return;
   }
@@ -379,91 +391,107 @@ void NodeRpcProxy::getPoolSymmetricDifference(std::vector<crypto::Hash>&& knownP
 }
 
 void NodeRpcProxy::getMultisignatureOutputByGlobalIndex(uint64_t amount, uint32_t gindex, MultisignatureOutput& out, const Callback& callback) {
-  std::lock_guard<std::mutex> lock(m_mutex);
+  std::unique_lock<std::mutex> lock(m_mutex);
   if (m_state != STATE_INITIALIZED) {
+    lock.unlock();
     callback(make_error_code(error::NOT_INITIALIZED));
     return;
   }
 
   // TODO NOT IMPLEMENTED
+  lock.unlock();
   callback(std::error_code());
 }
 
 void NodeRpcProxy::getBlocks(const std::vector<uint32_t>& blockHeights, std::vector<std::vector<BlockDetails>>& blocks, const Callback& callback) {
-  std::lock_guard<std::mutex> lock(m_mutex);
+  std::unique_lock<std::mutex> lock(m_mutex);
   if (m_state != STATE_INITIALIZED) {
+    lock.unlock();
     callback(make_error_code(error::NOT_INITIALIZED));
     return;
   }
 
   // TODO NOT IMPLEMENTED
+  lock.unlock();
   callback(std::error_code());
 }
 
 void NodeRpcProxy::getBlocks(uint64_t timestampBegin, uint64_t timestampEnd, uint32_t blocksNumberLimit, std::vector<BlockDetails>& blocks, uint32_t& blocksNumberWithinTimestamps, const Callback& callback) {
-  std::lock_guard<std::mutex> lock(m_mutex);
+  std::unique_lock<std::mutex> lock(m_mutex);
   if (m_state != STATE_INITIALIZED) {
+    lock.unlock();
     callback(make_error_code(error::NOT_INITIALIZED));
     return;
   }
 
   // TODO NOT IMPLEMENTED
+  lock.unlock();
   callback(std::error_code());
 }
 
 void NodeRpcProxy::getBlocks(const std::vector<crypto::Hash>& blockHashes, std::vector<BlockDetails>& blocks, const Callback& callback) {
-  std::lock_guard<std::mutex> lock(m_mutex);
+  std::unique_lock<std::mutex> lock(m_mutex);
   if (m_state != STATE_INITIALIZED) {
+    lock.unlock();
     callback(make_error_code(error::NOT_INITIALIZED));
     return;
   }
 
   // TODO NOT IMPLEMENTED
+  lock.unlock();
   callback(std::error_code());
 }
 
 
 void NodeRpcProxy::getTransactions(const std::vector<crypto::Hash>& transactionHashes, std::vector<TransactionDetails>& transactions, const Callback& callback) {
-  std::lock_guard<std::mutex> lock(m_mutex);
+  std::unique_lock<std::mutex> lock(m_mutex);
   if (m_state != STATE_INITIALIZED) {
+    lock.unlock();
     callback(make_error_code(error::NOT_INITIALIZED));
     return;
   }
 
   // TODO NOT IMPLEMENTED
+  lock.unlock();
   callback(std::error_code());
 }
 
 void NodeRpcProxy::getPoolTransactions(uint64_t timestampBegin, uint64_t timestampEnd, uint32_t transactionsNumberLimit, std::vector<TransactionDetails>& transactions, uint64_t& transactionsNumberWithinTimestamps, const Callback& callback) {
-  std::lock_guard<std::mutex> lock(m_mutex);
+  std::unique_lock<std::mutex> lock(m_mutex);
   if (m_state != STATE_INITIALIZED) {
+    lock.unlock();
     callback(make_error_code(error::NOT_INITIALIZED));
     return;
   }
 
   // TODO NOT IMPLEMENTED
+  lock.unlock();
   callback(std::error_code());
 }
 
 void NodeRpcProxy::getTransactionsByPaymentId(const crypto::Hash& paymentId, std::vector<TransactionDetails>& transactions, const Callback& callback) {
-  std::lock_guard<std::mutex> lock(m_mutex);
+  std::unique_lock<std::mutex> lock(m_mutex);
   if (m_state != STATE_INITIALIZED) {
+    lock.unlock();
     callback(make_error_code(error::NOT_INITIALIZED));
     return;
   }
 
   // TODO NOT IMPLEMENTED
+  lock.unlock();
   callback(std::error_code());
 }
 
 void NodeRpcProxy::isSynchronized(bool& syncStatus, const Callback& callback) {
-  std::lock_guard<std::mutex> lock(m_mutex);
+  std::unique_lock<std::mutex> lock(m_mutex);
   if (m_state != STATE_INITIALIZED) {
+    lock.unlock();
     callback(make_error_code(error::NOT_INITIALIZED));
     return;
   }
 
   syncStatus = getPeerCount() > 0 && getLastLocalBlockHeight() >= getLastKnownBlockHeight();
+  lock.unlock();
   callback(std::error_code());
 }
 
@@ -624,9 +652,10 @@ std::error_code NodeRpcProxy::doGetTransaction(const crypto::Hash &transactionHa
 
 void NodeRpcProxy::getTransaction(const crypto::Hash &transactionHash, cn::Transaction &transaction, const Callback &callback)
 {
-  std::lock_guard<std::mutex> lock(m_mutex);
+  std::unique_lock<std::mutex> lock(m_mutex);
   if (m_state != STATE_INITIALIZED)
   {
+    lock.unlock();
     callback(make_error_code(error::NOT_INITIALIZED));
     return;
   }
diff --git a/src/NodeRpcProxy/NodeRpcProxy.h b/src/NodeRpcProxy/NodeRpcProxy.h
index 4db5f56..ee42512 100644
--- a/src/NodeRpcProxy/NodeRpcProxy.h
+++ b/src/NodeRpcProxy/NodeRpcProxy.h
@@ -141,7 +141,8 @@ private:
   enum State {
     STATE_NOT_INITIALIZED,
     STATE_INITIALIZING,
-    STATE_INITIALIZED
+    STATE_INITIALIZED,
+    STATE_SHUTTING_DOWN
   };
 
   State m_state = STATE_NOT_INITIALIZED;
-- 
2.43.0


From 828b3d33c239bcfa3c91c454889404a261125b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:54 +0000
Subject: [PATCH 83/91] fix: a transaction requested from a remote node used a
 hash that may be gone

---
 src/NodeRpcProxy/NodeRpcProxy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NodeRpcProxy/NodeRpcProxy.cpp b/src/NodeRpcProxy/NodeRpcProxy.cpp
index bb965ac..4314827 100644
--- a/src/NodeRpcProxy/NodeRpcProxy.cpp
+++ b/src/NodeRpcProxy/NodeRpcProxy.cpp
@@ -660,7 +660,7 @@ void NodeRpcProxy::getTransaction(const crypto::Hash &transactionHash, cn::Trans
     return;
   }
 
-  scheduleRequest(std::bind(&NodeRpcProxy::doGetTransaction, this, std::cref(transactionHash), std::ref(transaction)), callback);
+  scheduleRequest(std::bind(&NodeRpcProxy::doGetTransaction, this, transactionHash, std::ref(transaction)), callback);
 }
 
 void NodeRpcProxy::scheduleRequest(std::function<std::error_code()>&& procedure, const Callback& callback) {
-- 
2.43.0


From b85c9091579d942884b40c3baa776114565bd172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:54 +0000
Subject: [PATCH 84/91] fix: an answer without the requested transaction
 crashed the client of a remote node

---
 src/NodeRpcProxy/NodeRpcProxy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NodeRpcProxy/NodeRpcProxy.cpp b/src/NodeRpcProxy/NodeRpcProxy.cpp
index 4314827..3df4064 100644
--- a/src/NodeRpcProxy/NodeRpcProxy.cpp
+++ b/src/NodeRpcProxy/NodeRpcProxy.cpp
@@ -629,7 +629,7 @@ std::error_code NodeRpcProxy::doGetTransaction(const crypto::Hash &transactionHa
     return ec;
   }
 
-  if (resp.missed_tx.size() > 0)
+  if (resp.missed_tx.size() > 0 || resp.txs_as_hex.size() != 1)
   {
     return make_error_code(cn::error::REQUEST_ERROR);
   }
-- 
2.43.0


From 3ba5022f38bae1d731250ffefb15b2a4994ca90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:08 +0000
Subject: [PATCH 85/91] fix: peers at some places of a short peer list were
 never dialled

---
 src/P2p/NetNode.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/P2p/NetNode.cpp b/src/P2p/NetNode.cpp
index 43998c3..3672752 100644
--- a/src/P2p/NetNode.cpp
+++ b/src/P2p/NetNode.cpp
@@ -896,13 +896,14 @@ namespace cn
 
     size_t try_count = 0;
     size_t rand_count = 0;
-    while(rand_count < (max_random_index+1)*3 &&  try_count < 10 && !m_stop) {
+    while(rand_count < (max_random_index+1) &&  try_count < 10 && !m_stop) {
       ++rand_count;
       size_t random_index = get_random_index_with_fixed_probability(max_random_index);
       if (!(random_index < local_peers_count)) { logger(ERROR, BRIGHT_RED) << "random_starter_index < peers_local.size() failed!!"; return false; }
 
-      if(tried_peers.count(random_index))
-        continue;
+      // some indexes of a short list are never drawn: go on to the next one that was not tried
+      while(tried_peers.count(random_index))
+        random_index = (random_index + 1) % (max_random_index + 1);
 
       tried_peers.insert(random_index);
       PeerlistEntry pe = boost::value_initialized<PeerlistEntry>();
-- 
2.43.0


From 24c936f21e4d3df8d43e37e9980f8aa048d7a7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:26 +0000
Subject: [PATCH 86/91] fix: a procedure handed to a dispatcher could end it
 while it was still being handed over

---
 src/Platform/Linux/System/Dispatcher.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Platform/Linux/System/Dispatcher.cpp b/src/Platform/Linux/System/Dispatcher.cpp
index 309f565..6dd9149 100644
--- a/src/Platform/Linux/System/Dispatcher.cpp
+++ b/src/Platform/Linux/System/Dispatcher.cpp
@@ -271,10 +271,9 @@ void Dispatcher::pushContext(NativeContext* context) {
 }
 
 void Dispatcher::remoteSpawn(std::function<void()>&& procedure) {
-  {
-    MutextGuard guard(*reinterpret_cast<pthread_mutex_t*>(this->mutex));
-    remoteSpawningProcedures.push(std::move(procedure));
-  }
+  // Held until the event is raised: once the procedure has run, the dispatcher may be gone
+  MutextGuard guard(*reinterpret_cast<pthread_mutex_t*>(this->mutex));
+  remoteSpawningProcedures.push(std::move(procedure));
   uint64_t one = 1;
   for (;;) {
     // Unlike the drained reads in dispatch()/yield(), EAGAIN here means the eventfd counter
-- 
2.43.0


From 5bb15f421fe0374f8adaf2cecb7043094ae6b3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:10 +0000
Subject: [PATCH 87/91] fix: opening a wallet shows the saved balances until a
 coin became unlocked

---
 src/Wallet/WalletGreen.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index 22fe822..1b6284d 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -1485,6 +1485,10 @@ namespace cn
 
     /* Backfill missing unlock jobs and reflect what was unlocked while the wallet was closed */
     scheduleUnlockJobs();
+    if (getBlockCount() > 0)
+    {
+      unlockBalances(getBlockCount() - 1);
+    }
 
     m_logger(INFO, BRIGHT_WHITE) << "Container loaded, view public key " << common::podToHex(m_viewPublicKey) << ", wallet count " << m_walletsContainer.size() << ", actual balance " << m_currency.formatAmount(m_actualBalance) << ", pending balance " << m_currency.formatAmount(m_pendingBalance);
     m_observerManager.notify(&IWalletObserver::initCompleted, std::error_code());
@@ -3604,6 +3608,10 @@ namespace cn
     blockHeightIndex.erase(std::next(blockHeightIndex.begin(), blockIndex), blockHeightIndex.end());
 
     scheduleUnlockJobs();
+    for (const WalletRecord &wallet : m_walletsContainer.get<RandomAccessIndex>())
+    {
+      updateBalance(wallet.container);
+    }
   }
 
   void WalletGreen::onTransactionDeleteBegin(const crypto::PublicKey &viewPublicKey, const crypto::Hash &transactionHash)
@@ -3643,15 +3651,18 @@ namespace cn
     }
   }
 
-  /* Schedules the unlock of every output which is locked now and refreshes the balances. Deposits saved
-     before an unlock job existed for their term (or migrated from an older wallet file) have none, and a
-     reorganization locks outputs again whose jobs are done. */
+  /* Schedules the unlock of every output which is locked now. Deposits saved before an unlock job existed
+     for their term (or migrated from an older wallet file) have none, and a reorganization locks outputs
+     again whose jobs are done. */
   void WalletGreen::scheduleUnlockJobs()
   {
     for (const WalletRecord &wallet : m_walletsContainer.get<RandomAccessIndex>())
     {
       std::vector<TransactionOutputInformation> outputs;
       wallet.container->getOutputs(outputs, ITransfersContainer::IncludeTypeAll | ITransfersContainer::IncludeStateLocked | ITransfersContainer::IncludeStateSoftLocked);
+      std::vector<TransactionOutputInformation> deposits;
+      wallet.container->getOutputs(deposits, ITransfersContainer::IncludeTypeDeposit | ITransfersContainer::IncludeStateUnlocked);
+      outputs.insert(outputs.end(), deposits.begin(), deposits.end());
 
       for (const auto &output : outputs)
       {
@@ -3668,8 +3679,6 @@ namespace cn
           insertUnlockTransactionJob(output.transactionHash, info.blockHeight + output.term - 1, wallet.container);
         }
       }
-
-      updateBalance(wallet.container);
     }
   }
 
-- 
2.43.0


From efcd056ed2bcc1e5ce7f9735f62cd48bbcbd1e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:22 +0000
Subject: [PATCH 88/91] fix: a deposit stayed spent when its withdrawal
 vanished while the wallet was read anew

---
 src/Wallet/WalletGreen.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index 1b6284d..a71a447 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -902,9 +902,9 @@ namespace cn
     auto &depositsIndex = deposits.get<RandomAccessIndex>();
     for (auto it = depositsIndex.begin(); it != depositsIndex.end(); ++it)
     {
-      depositsIndex.modify(it, [&savedTransactionId](Deposit &deposit) {
+      depositsIndex.modify(it, [&savedTransactionId, saveLevel](Deposit &deposit) {
         deposit.creatingTransactionId = savedTransactionId(deposit.creatingTransactionId);
-        deposit.spendingTransactionId = savedTransactionId(deposit.spendingTransactionId);
+        deposit.spendingTransactionId = saveLevel == WalletSaveLevel::SAVE_ALL ? savedTransactionId(deposit.spendingTransactionId) : WALLET_INVALID_TRANSACTION_ID;
       });
     }
 
@@ -1526,6 +1526,12 @@ namespace cn
             tx.blockHeight = WALLET_UNCONFIRMED_TRANSACTION_HEIGHT;
           });
         }
+
+        // what spends the deposits is found again, unless it is gone
+        for (auto it = m_deposits.begin(); it != m_deposits.end(); ++it)
+        {
+          m_deposits.modify(it, [](Deposit &deposit) { deposit.spendingTransactionId = WALLET_INVALID_TRANSACTION_ID; });
+        }
       }
 
       std::vector<AccountPublicAddress> subscriptions;
-- 
2.43.0


From d2cf5aec3763631158cba5dd284677bb3d5b670b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:26 +0000
Subject: [PATCH 89/91] fix: a mined transaction was lost while another one
 with its coins was waiting

---
 src/Transfers/TransfersConsumer.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/Transfers/TransfersConsumer.cpp b/src/Transfers/TransfersConsumer.cpp
index 8a3063f..1127579 100644
--- a/src/Transfers/TransfersConsumer.cpp
+++ b/src/Transfers/TransfersConsumer.cpp
@@ -224,6 +224,25 @@ bool TransfersConsumer::onNewBlocks(const CompleteBlock* blocks, uint32_t startH
   assert(blocks);
   assert(count > 0);
 
+  // what the blocks contradict goes first: the keys of its outputs may be those of a transaction in them
+  for (uint32_t i = 0; i < count; ++i) {
+    if (!blocks[i].block.is_initialized()) {
+      continue;
+    }
+
+    for (const auto& tx : blocks[i].transactions) {
+      std::vector<Hash> unconfirmed;
+      std::vector<Hash> confirmed;
+      forEachSubscription([&](const TransfersSubscription& sub) {
+        sub.getConflictingTransactions(*tx, unconfirmed, confirmed);
+      });
+
+      for (const auto& hash : unconfirmed) {
+        removeUnconfirmedTransaction(hash);
+      }
+    }
+  }
+
   struct Tx {
     TransactionBlockInfo blockInfo;
     const ITransactionReader* tx;
-- 
2.43.0


From 978e56b397a459d6a76d0ace1ab50ea66a2f2b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:38 +0000
Subject: [PATCH 90/91] fix: what the synchronizer reported to the wallet could
 be applied out of order

---
 src/Wallet/WalletGreen.cpp | 5 +++++
 src/Wallet/WalletGreen.h   | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index a71a447..c4b32f2 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -257,10 +257,12 @@ namespace cn
                                                                                                                                                                 m_synchronizer(currency, logger, m_blockchainSynchronizer, node),
                                                                                                                                                                 m_eventOccurred(m_dispatcher),
                                                                                                                                                                 m_readyEvent(m_dispatcher),
+                                                                                                                                                                m_updatesEvent(m_dispatcher),
                                                                                                                                                                 m_transactionSoftLockTime(transactionSoftLockTime)
   {
     m_upperTransactionSizeLimit = m_currency.transactionMaxSize();
     m_readyEvent.set();
+    m_updatesEvent.set();
   }
 
   WalletGreen::~WalletGreen()
@@ -815,6 +817,9 @@ namespace cn
 
   void WalletGreen::processUpdates()
   {
+    // one at a time, an update must not overtake another one which waits for the wallet
+    platform_system::EventLock lk(m_updatesEvent);
+
     for (;;)
     {
       std::function<void()> update;
diff --git a/src/Wallet/WalletGreen.h b/src/Wallet/WalletGreen.h
index 6b7b0c7..d3e24cd 100644
--- a/src/Wallet/WalletGreen.h
+++ b/src/Wallet/WalletGreen.h
@@ -427,6 +427,7 @@ private:
   platform_system::Event m_eventOccurred;
   std::queue<WalletEvent> m_events;
   mutable platform_system::Event m_readyEvent;
+  platform_system::Event m_updatesEvent;
   std::mutex m_updatesMutex;
   std::deque<std::function<void()>> m_updates; // made by the synchronizer, to be applied by the dispatcher's thread
 
-- 
2.43.0


From a1bb99c0807aad2c07728449a852aaa6c171db53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:22 +0000
Subject: [PATCH 91/91] fix: a wallet destroyed with a file which can't be
 flushed kept its synchronizer running

---
 src/Wallet/WalletGreen.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index c4b32f2..ad4ce58 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -277,6 +277,11 @@ namespace cn
     catch (const std::exception &e)
     {
       m_logger(ERROR, BRIGHT_RED) << "Failed to close the wallet on destruction: " << e.what();
+
+      // the synchronizer has been started again, but there will be nobody to tell
+      stopBlockchainSynchronizer();
+      std::lock_guard<std::mutex> lk(m_updatesMutex);
+      m_updates.clear();
     }
 
     try
-- 
2.43.0

