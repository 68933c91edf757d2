#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (the committed copy is its output).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
CC="src/CryptoNoteCore/"
p("C01","Node state depends only on its current main chain",
 "Whatever order blocks arrive in, and whatever branches, chain switches, administrator rollbacks and restarts happened on the way, everything a node reports about its ledger (tip, height, block and transaction lookups, output indexes, spent markers, generated coins, deposit totals, difficulty, timestamp/payment-id indexes) equals what a fresh node fed exactly the current main chain in order reports. In particular nothing from an abandoned branch stays visible as main-chain state and nothing of the current main chain is missing.",
 ["histories","fault_sequences","inputs"],"every sequence of block arrivals over every block tree, interleaved with rejected blocks, reorganisations up to the allowed depth, rollbacks and restarts",
 "core_tests replay a handful of hand-written chains and check a few facts at the end; none compares the whole derived state after a random history with a linear replay.",
 [CC+"Blockchain.cpp",CC+"Core.cpp",CC+"BlockchainIndices.cpp",CC+"DepositIndex.cpp"],
 [("pushBlock/popBlock symmetry",CC+"Blockchain.cpp"),("switch_to_alternative_blockchain",CC+"Blockchain.cpp"),("rollbackBlockchainTo",CC+"Blockchain.cpp")],
 ["ICore/core query API","RPC-level lookups"],
 [("main chain entries and derived indexes","blocks, tx map, outputs, key images, multisignature outputs, deposit index",CC+"Blockchain.h")])
p("C02","Nothing is ever spent twice on the main chain",
 "At every moment no two inputs on a node's main chain spend the same coin (same key image, or same multi-signature/deposit output), no input refers to a main-chain output that does not exist or is not yet spendable, and a block or transaction that would break this is refused by the node, both from peers and from local submission.",
 ["histories","inputs","crash_points"],"every block tree and transaction history including double spends placed in the same block, across blocks, across branches, in the pool, and around reorganisations and restarts",
 "The tests try single double-spend placements on a fixed chain; they do not try them after an arbitrary history of reorganisations, rejected blocks, rollbacks and restarts, where the spent-set must have been maintained exactly.",
 [CC+"Blockchain.cpp",CC+"TransactionPool.cpp",CC+"Core.cpp"],
 [("key image set and multisig isUsed flags",CC+"Blockchain.cpp"),("checkTransactionInputs",CC+"Blockchain.cpp"),("pool spent key images",CC+"TransactionPool.cpp")],
 ["block and transaction acceptance verdicts","independent ledger rebuilt from the main-chain blocks"])
p("C03","Money is conserved; deposits pay out once, on time, and no more",
 "On the main chain every transaction's outputs never exceed its inputs plus the deposit interest owed, each miner reward equals the protocol's reward for that height plus the fees, the reported coins in circulation equal the sum of rewards and interest actually issued, and a deposit can be withdrawn only after its term with exactly the protocol's interest. Blocks and transactions violating this are refused.",
 ["histories","inputs"],"every history of mining, transfers, deposits and withdrawals, including malformed amounts, wrong rewards, early withdrawals and reorganisations across the unlock height",
 "Unit tests check the reward and interest formulas at points; conservation over an arbitrary branchy history with deposits created, matured and withdrawn around reorganisations is not sampled.",
 [CC+"Blockchain.cpp",CC+"Currency.cpp",CC+"Core.cpp",CC+"DepositIndex.cpp"],
 [("validate_miner_transaction",CC+"Blockchain.cpp"),("check_tx_fee / interest",CC+"Core.cpp"),("validateInput term check",CC+"Blockchain.cpp")],
 ["block verdicts","getTotalGeneratedAmount / deposit totals"])
p("C04","A node killed at any instant restarts into a valid ledger it once had",
 "If a node process dies at any point (or is stopped by a failed disk write), restarting it on the files left behind yields a working node whose chain is one that the node had as its main chain, or a prefix of one, with state exactly matching that chain, or a clean refusal to start; it never silently starts with a corrupted or inconsistent ledger. It can then extend its chain and catch up with the network again.",
 ["crash_points","fault_sequences","histories"],"every kill point at any file operation during loading, block processing, chain switching, saving and shutdown, torn and partial writes, and full-disk or I/O errors",
 "No test kills the process in the middle of a write or fills the disk; the tests only reopen cleanly closed files.",
 [CC+"Blockchain.cpp",CC+"SwappedVector.h",CC+"BlockchainIndices.cpp",CC+"TransactionPool.cpp"],
 [("SwappedVector block log",CC+"SwappedVector.h"),("cache save/load with tail hash check and rebuild",CC+"Blockchain.cpp")],
 ["post-restart query API compared with a fresh replay"],hook=None)
p("C05","Rejected input changes nothing",
 "A block, transaction or competing branch that the node refuses leaves its ledger, its tip and its set of pending transactions exactly as they were, and a valid block or transaction offered afterwards is accepted as if the refused one had never been seen. This includes a branch that turns out to be invalid only after the node has started to switch to it.",
 ["inputs","histories"],"every kind of invalid block and transaction, at every position, including an invalid block anywhere in a heavier competing branch",
 "Tests check that invalid blocks are refused, not that the whole state is untouched and remains fully usable, and never for a switch that fails midway.",
 [CC+"Blockchain.cpp",CC+"TransactionPool.cpp",CC+"Core.cpp"],
 [("pushBlock undo paths",CC+"Blockchain.cpp"),("rollback_blockchain_switching",CC+"Blockchain.cpp")],
 ["full state digest before/after a refused offer"])
p("C06","A node follows the heaviest valid chain it was given",
 "After every offered block the node's main chain is the one with the greatest cumulative work among the valid, parent-connected chains it has been given, within the documented limits (checkpoints, maximum reorganisation depth, no reorganisation that discards ordinary transactions the other branch lacks), with the first seen winning ties. Checkpointed blocks are never replaced and a chain conflicting with a checkpoint is never adopted.",
 ["histories","inputs"],"every arrival order of every block tree, with equal-work ties, varying difficulty and timestamps, checkpoints at any height",
 "The chain-switch core tests cover a few fixed trees; fork choice must hold for every tree and order including difficulty differences between branches.",
 [CC+"Blockchain.cpp",CC+"Checkpoints.cpp",CC+"Currency.cpp"],
 [("handle_alternative_block",CC+"Blockchain.cpp"),("get_next_difficulty_for_alternative_chain",CC+"Blockchain.cpp"),("Checkpoints::is_alternative_block_allowed",CC+"Checkpoints.cpp")],
 ["tip hash after each block vs reference model"])
p("C07","Pending transactions are always mutually consistent and mineable",
 "At all times a node's set of pending transactions contains no transaction already in the main chain and no two transactions accepted for relay that spend the same coin, and every block template the node produces is itself a valid block that the node and its peers accept, whatever arrived before. Each spent marker the set holds belongs to a transaction in it.",
 ["histories","schedules","inputs"],"every interleaving of transaction submissions, conflicting transactions, block arrivals, reorganisations, expiries, restarts and template requests",
 "Pool tests use a fake validator and single-step scenarios; consistency with a real chain under reorganisation and expiry is not covered.",
 [CC+"TransactionPool.cpp",CC+"Core.cpp",CC+"Blockchain.cpp"],
 [("addTransactionInputs/removeTransactionInputs",CC+"TransactionPool.cpp"),("fill_block_template",CC+"TransactionPool.cpp")],
 ["pool contents","get_block_template followed by submission"])
p("C08","An accepted transaction is not lost",
 "A valid transaction accepted as pending stays available until it is mined, its documented lifetime has elapsed, or the chain makes it invalid: it survives chain switches (returning to pending when its block is abandoned), orderly restarts and system clock adjustments in either direction, and once expired it is forgotten so it does not linger. A mined transaction of an abandoned block is again pending or mined on the new chain.",
 ["histories","schedules","fault_sequences"],"every history of submissions, blocks, reorganisations, restarts and clock jumps",
 "Tests check expiry with one forward clock step and no reorganisation, restart or backward step.",
 [CC+"TransactionPool.cpp",CC+"Blockchain.cpp",CC+"Core.cpp"],
 [("removeExpiredTransactions",CC+"TransactionPool.cpp"),("saveTransactions on switch",CC+"Blockchain.cpp")],
 ["pool contents over time"])
p("C09","Connected honest nodes converge on one chain",
 "Once message loss, partitions and crashes stop, all connected honest nodes reach the same heaviest chain within bounded time, whatever each of them saw before, including nodes that were offline, restarted from disk, or started from nothing; nobody's chain ever becomes invalid on the way.",
 ["schedules","fault_sequences","crash_points"],"every schedule of mining on several nodes, message delay, fragmentation, connection resets, partitions, node crashes and restarts (with divergence below the maximum reorganisation depth)",
 "There is no multi-node test with faults in the suite; unit tests exercise single handlers.",
 ["src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp","src/P2p/NetNode.cpp","src/P2p/LevinProtocol.cpp",CC+"Core.cpp"],
 [("NOTIFY_REQUEST_CHAIN / RESPONSE_CHAIN_ENTRY / GET_OBJECTS","src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp"),("timed sync","src/P2p/NetNode.cpp")],
 ["tip of each node after quiescence"])
p("C10","Hostile or broken peers cannot crash, wedge or corrupt a node",
 "Whatever bytes a peer sends (malformed, truncated, oversized, out of order, lying about heights or objects, wrong network), the node keeps running, keeps serving and synchronising with its honest peers, never adopts invalid data because of it, and drops the offending connection when the message cannot be interpreted or is from another network.",
 ["inputs","schedules","fault_sequences"],"every byte stream from a peer at every point of the conversation",
 "Tests never speak the peer protocol adversarially to a running node.",
 ["src/P2p/NetNode.cpp","src/P2p/LevinProtocol.cpp","src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp","src/Serialization/KVBinaryInputStreamSerializer.cpp"],
 [("LevinProtocol::readCommand limits","src/P2p/LevinProtocol.cpp"),("handler validation","src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp")],
 ["node liveness, state digests, honest peers' progress"])
p("C11","Peer lists and connection bookkeeping stay sound",
 "The known-peer lists never contain an address twice or in both the trusted and untrusted list, never contain loopback or disallowed private addresses, respect their size limits, and survive an orderly restart; a node never stays connected to itself, closes connections whose handshake fails or stalls, and every closed connection is fully forgotten. An unreadable or truncated peer file never prevents a start.",
 ["schedules","inputs","fault_sequences","crash_points"],"every sequence of handshakes, peer exchanges with arbitrary content, disconnects, timeouts and restarts",
 "Peer-list unit tests insert a few entries directly; no test drives it through the network layer with faults.",
 ["src/P2p/PeerListManager.cpp","src/P2p/NetNode.cpp"],
 [("append_with_peer_white/gray/trim","src/P2p/PeerListManager.cpp"),("connectionHandler cleanup","src/P2p/NetNode.cpp")],
 ["peer list dump, connection counts"])
p("C12","New blocks and transactions spread to every connected node",
 "A valid transaction or block given to one node reaches every node of a connected, fault-free network within bounded time without help from later blocks, whatever mixture of full and short block announcements is used and whichever transactions the receivers already have; nodes do not relay endlessly.",
 ["schedules","fault_sequences"],"every topology that is connected and every delivery order, after any earlier faults",
 "Nothing in the test suite runs several nodes and checks dissemination.",
 ["src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp",CC+"Core.cpp","src/P2p/NetNode.cpp"],
 [("relay_block / NEW_LITE_BLOCK / MISSING_TXS","src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp"),("NOTIFY_REQUEST_TX_POOL","src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp")],
 ["pool and tip of every node","message counts"])
p("C13","Cooperative tasks: no lost wake-up, interrupt or spawned task",
 "Tasks on a dispatcher run one at a time; a wait ends exactly when its event is set, its timer is due, its I/O is ready or it is interrupted; an interrupt directed at a task is always observed by that task at its current or next blocking call; waiting for a group returns exactly when all its tasks ended; and work handed over from any other thread runs exactly once, in order per thread, on the dispatcher's thread.",
 ["schedules","programs","fault_sequences"],"every interleaving of tasks, interrupts, timers, socket readiness and foreign threads, including simultaneous expiry and interruption and interrupted system calls",
 "system_tests run each primitive under the one schedule the kernel happens to give, with real sleeps.",
 ["src/Platform/Linux/System/Dispatcher.cpp","src/Platform/Linux/System/Timer.cpp","src/System/Event.cpp","src/System/ContextGroup.cpp","src/System/RemoteContext.h"],
 [("dispatch/yield/remoteSpawn","src/Platform/Linux/System/Dispatcher.cpp"),("interruptProcedure","src/Platform/Linux/System/Dispatcher.cpp")],
 ["recorded history of task events vs reference rules"])
p("C14","Byte streams and messages arrive intact",
 "Over a connection the bytes, peer messages and HTTP requests and responses read by one side are exactly those written by the other, complete and in order, however the transport splits, delays or stalls them; a cut connection ends in an error or end of stream, never in altered, duplicated or mixed-up messages.",
 ["schedules","fault_sequences","inputs"],"every fragmentation, back-pressure, stall, reset and interruption pattern with concurrent reading and writing on one connection",
 "Existing tests use loopback sockets which deliver small messages whole.",
 ["src/Platform/Linux/System/TcpConnection.cpp","src/P2p/LevinProtocol.cpp","src/HTTP/HttpParser.cpp","src/System/TcpStream.cpp","src/Rpc/HttpServer.cpp"],
 [("readStrict/writeStrict","src/P2p/LevinProtocol.cpp"),("TcpStreambuf","src/System/TcpStream.cpp"),("HttpParser","src/HTTP/HttpParser.cpp")],
 ["sent vs received sequences"])
p("C15","Wallet balances and history match the chain",
 "Once a wallet reports being synchronised with its node, its actual, pending and deposit balances, its outputs and its confirmed transaction list are exactly those derivable from the node's current main chain and pool for its keys, whatever blocks, reorganisations, sends, node failures, wallet restarts and scan order came before. Balances are never negative or counted twice.",
 ["histories","schedules","fault_sequences"],"every history of blocks, reorganisations, pool changes, node errors and wallet saves/reloads at any instant",
 "Wallet unit tests feed a stub node with short scripted chains; many are excluded as flaky; none compares to an independent scan after random reorganisations.",
 ["src/Wallet/WalletGreen.cpp","src/Transfers/TransfersConsumer.cpp","src/Transfers/TransfersContainer.cpp","src/Transfers/BlockchainSynchronizer.cpp"],
 [("TransfersContainer add/detach","src/Transfers/TransfersContainer.cpp"),("SynchronizationState::checkInterval","src/Transfers/SynchronizationState.cpp")],
 ["wallet API vs independent scan of the main chain"])
p("C16","A wallet file is never lost and always reopens with its keys",
 "Whatever instant the wallet program dies, or whichever file operation fails, while it creates, saves, re-encrypts or exports a wallet, the wallet file on disk still opens with the old or (once acknowledged) the new password and contains every address key whose creation was acknowledged; what a completed save stored is what the next load shows. A wrong password never opens a wallet and never damages it.",
 ["crash_points","fault_sequences","histories"],"every kill point and file-operation failure during wallet create, save, password change, address add/delete, export and load",
 "The tests save and load to healthy disks only.",
 ["src/Wallet/WalletGreen.cpp","src/Common/FileMappedVector.h","src/Platform/Linux/System/MemoryMappedFile.cpp"],
 [("atomicUpdate and rename","src/Common/FileMappedVector.h"),("save rollback","src/Wallet/WalletGreen.cpp")],
 ["reopen after crash"])
p("C17","A wallet spends its coins at most once and only when it says so",
 "A transfer the wallet reports as sent is a valid transaction accepted by the node that pays exactly the requested amounts plus the stated fee; a transfer it reports as failed leaves the balance and spendable coins as before; and concurrent or consecutive transfers never select the same coin, before or after failures, reorganisations and restarts.",
 ["schedules","histories","fault_sequences"],"every interleaving of transfers, node errors, relay failures, confirmations, reorganisations and wallet restarts",
 "Wallet tests send one transaction against a stub node that always behaves or always fails.",
 ["src/Wallet/WalletGreen.cpp","src/Transfers/TransfersContainer.cpp"],
 [("validateSaveAndSendTransaction with rollback scope","src/Wallet/WalletGreen.cpp"),("unconfirmed transfers marking","src/Transfers/TransfersContainer.cpp")],
 ["node pool/chain and wallet balances"])
p("C18","Chain followers see a gap-free, repairable block sequence and can be stopped",
 "Every consumer of the block synchroniser receives an uninterrupted sequence of main-chain blocks in which each detach goes back exactly to the fork point, ends on the node's current chain once the node is quiet, and gets each pool transaction's appearance and disappearance; node errors only delay it. Starting, stopping and restarting it at any moment from its own threads always completes and never delivers after stop.",
 ["schedules","fault_sequences","histories"],"every interleaving of node notifications, query failures, reorganisations, start/stop calls and slow answers",
 "The synchroniser's unit-test suite is timing dependent and excluded from the stable baseline.",
 ["src/Transfers/BlockchainSynchronizer.cpp","src/Transfers/SynchronizationState.cpp","src/Transfers/TransfersConsumer.cpp"],
 [("state machine with futureState","src/Transfers/BlockchainSynchronizer.cpp"),("checkInterval","src/Transfers/SynchronizationState.cpp")],
 ["consumer call log vs node history"])
p("C19","Threads never deadlock and shutdown always completes",
 "Starting and stopping a wallet, in-process node, synchroniser, miner or remote-call context from any allowed thread, at any moment and with operations in flight, completes in bounded time without deadlock, lost completion callbacks or use after destruction; a foreign thread closing a wallet waits for queued work and gives up after its documented limit rather than hanging forever.",
 ["schedules","fault_sequences"],"every thread interleaving of start/stop/destroy against callbacks and pending operations",
 "Unit tests run under whatever schedule the machine gives; a deadlock would show as a rare hang.",
 ["src/Wallet/WalletGreen.cpp","src/InProcessNode/InProcessNode.cpp","src/System/RemoteContext.h","src/Platform/Linux/System/Dispatcher.cpp",CC+"Miner.cpp"],
 [("waitForRemoteSpawns","src/Wallet/WalletGreen.cpp"),("InProcessNode worker service","src/InProcessNode/InProcessNode.cpp")],
 ["progress of simulated threads","completion callbacks"])
p("C20","Chain queries answer from one consistent snapshot",
 "Every answer to a chain query (block ranges since a known history, pool differences, blocks and transactions by hash or height, output indexes, random outputs) describes a single state the node actually had: ranges are contiguous, start at or below the common ancestor with the asker's history, carry correct heights and output indexes, and only list spendable main-chain outputs; pool differences applied to the asker's set give the node's pool.",
 ["histories","schedules","inputs"],"every query with every (also stale or foreign) known history against every chain history, interleaved with reorganisations",
 "RPC tests query a fixed chain.",
 [CC+"Core.cpp",CC+"Blockchain.cpp","src/InProcessNode/InProcessNode.cpp","src/Rpc/RpcServer.cpp"],
 [("queryBlocks/queryBlocksLite/findBlockchainSupplement",CC+"Core.cpp"),("getPoolChanges",CC+"Core.cpp"),("getRandomOutsByAmount",CC+"Blockchain.cpp")],
 ["query responses vs the main chain"])
p("C21","Time rules hold under any clock",
 "A node never accepts a block whose timestamp lies further in the future than the allowed limit by its own clock or is below the median of its predecessors, and never credits difficulty other than the protocol's function of the chain being extended; clock jumps or skew of a node only delay acceptance of valid blocks and never leave it permanently unable to follow the chain, mine, or time out connections.",
 ["schedules","fault_sequences","inputs"],"every clock skew, forward and backward jump, and block timestamp pattern",
 "Tests use the real clock and constant timestamps.",
 [CC+"Blockchain.cpp",CC+"Currency.cpp","src/P2p/NetNode.cpp"],
 [("check_block_timestamp",CC+"Blockchain.cpp"),("nextDifficulty",CC+"Currency.cpp")],
 ["block verdicts with skewed clocks"])
p("C22","Remote node clients deliver each answer exactly once",
 "A wallet-side client of a remote daemon completes every request exactly once with the daemon's answer or an error, never with a mixed or stale buffer, keeps its view of the node's height, pool and connection state in step with the daemon after disconnects, restarts and malformed replies, and announces changes to observers; shutting it down completes all outstanding requests.",
 ["schedules","fault_sequences"],"every interleaving of requests, HTTP failures, delays, daemon restarts, reorganisations and shutdown",
 "No test runs the client against a failing or restarting daemon.",
 ["src/NodeRpcProxy/NodeRpcProxy.cpp","src/Rpc/HttpClient.cpp","src/Rpc/HttpServer.cpp","src/Rpc/RpcServer.cpp"],
 [("scheduleRequest/worker loop","src/NodeRpcProxy/NodeRpcProxy.cpp"),("updateNodeStatus/updatePoolStatus","src/NodeRpcProxy/NodeRpcProxy.cpp")],
 ["callback log and observer log"])
p("C23","The miner only produces blocks worth submitting and stops when told",
 "While mining is on, worker threads search the current template only, any solution found is submitted exactly once and satisfies the network's difficulty, a new tip replaces the template being searched, and stopping or destroying the miner at any moment ends all workers; start/stop/pause in any order leaves a consistent state.",
 ["schedules"],"every interleaving of worker threads, template updates, pause/resume and stop",
 "Miner tests use a stub with one schedule.",
 [CC+"Miner.cpp"],
 [("miner worker loop and template lock",CC+"Miner.cpp")],
 ["submitted blocks, thread ends"])
p("C24","Encodings and cryptography are exact inverses and unforgeable",
 "Addresses, mnemonics, keys, transactions, blocks and RPC values decode to exactly what was encoded, decoding any other bytes fails cleanly, and signatures, ring signatures and hashes accept exactly what the scheme allows.",
 ["inputs"],"every input value and byte string",
 "Tests use fixed vectors and a few random values.",
 ["src/crypto/crypto.cpp","src/Common/Base58.cpp","src/Mnemonics/Mnemonics.cpp","src/Serialization/BinaryInputStreamSerializer.cpp"],
 [("pure functions","src/crypto, src/Serialization, src/Common")],
 ["function results"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
