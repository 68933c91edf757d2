"""What each check runs. parts: scenario, (runs, seconds cap) per tier, probes = counters that make a run non-trivial."""
BINARY={"core":"sim_core","core_crash":"sim_core","core_conc":"sim_core","sys_disp":"sim_sys","sys_stream":"sim_sys","net":"sim_net","miner":"sim_core","sync":"sim_wallet","wallet":"sim_wallet","proxy":"sim_wallet","wfile":"sim_wallet"}
CORE_REAL="cn::core, Blockchain, tx_memory_pool, Currency, Checkpoints, DepositIndex, BlockchainIndices, SwappedVector, serialization, logging, crypto (ed25519, ring signatures, key images): all compiled from /repo"
CORE_STUB="proof-of-work hash (domain-tagged fast hash), DNS (virtual, no records), clock, randomness, file system and threads (simulated kernel)"
CORE_RULE="One run = one seeded plan: chain parameters (upgrade heights, limits, lifetimes), then 18-60 operations on a real node (mine on the tip or on a branch, deliver withheld blocks, forged blocks of 28 kinds, transactions of many kinds, templates, rollbacks, restarts, clock jumps, idles), each checked against an independent reference ledger. Non-trivial = the run reached at least one event this property is about (%s); distinct = distinct execution trace hash."
SM="hash of (tip block, pending set) after each operation"
def core(prop,probes,what,extra=(),n=(520,33),t=(30000,1500),focus=None):
    return {"parts":[dict({"scenario":"core","quick":n,"thorough":t,"probes":probes},**({"focus":focus} if focus else {}))]+list(extra),"rule":CORE_RULE%what,"level":"exploration","state_measure":SM,"real":CORE_REAL,"stubs":CORE_STUB,
      "assumptions":["proof-of-work hash replaced by a cheap hash with the same difficulty rule","reference ledger in /verif/sim/world.cpp states the intended rules"]}
CHECKS={
 "C01":core("C01",["outcome:switched","rollbacks","restarts","outcome:switch-failed"],"a reorganisation, failed switch, rollback or restart"),
 "C02":core("C02",["forged:tx:respend","forged:two-conflicting","forged:tx:dupinput","forged:tx:again","forged:tx:badmsig","forged:tx:badsig","tx:conflict"],"a double-spend attempt"),
 "C03":core("C03",["forged:tx:overspend","forged:tx:greedywithdraw","forged:tx:early","forged:reward+","tx:withdraw","tx:deposit"],"a deposit, withdrawal or over-claiming transaction or block"),
 "C04":{"parts":[{"scenario":"core_crash","quick":(420,35),"thorough":(24000,1800),"probes":["restarts-after-crash"]}],
   "rule":"One run = one seeded plan of 14-40 operations on a real node (mine, branch, reorganise, roll back, save, restart, transactions) with one to four faults armed: the process dies before, after or in the middle of the n-th file operation (cuts at page boundaries), dies while idle, dies again while restarting, meets ENOSPC/EIO/short writes or read errors (and is then killed), or loses the tail of a rewritten file. After every death the node is started on the files left behind and compared in full with the reference ledger of the chain it restarted on, which must be (a prefix of) a chain it had; at the end it must catch up and equal a fresh node. Non-trivial = at least one restart after a death; distinct = distinct execution trace hash.",
   "level":"exploration","state_measure":SM,"real":CORE_REAL,"stubs":CORE_STUB,"assumptions":["a killed process leaves every completed write, and whole pages of the write in progress (no power loss: the product never syncs)","refusing to start is accepted only after an injected disk error"]},
 "C05":core("C05",["refusals-checked"],"a refused block, branch or transaction whose effects were compared"),
 "C06":core("C06",["outcome:switched","outcome:switch-failed","outcome:orphan"],"a branch switch, failed switch or out-of-order block"),
 "C07":core("C07",["templates"],"a block template built from the pending set"),
 "C08":core("C08",["idles","clock-back","clock-forward","outcome:switched"],"expiry processing, a clock jump or a reorganisation"),
 "C20":{"parts":[{"scenario":"core_conc","quick":(420,35),"thorough":(20000,1500),"probes":["groups-with-chain-change"]}],
   "rule":"One run = one seeded plan of 14-36 operations on a real node; before most of them up to nine chain queries start on up to three reader threads and run concurrently with the operation under a seeded scheduler (switches at every lock, weighted to contended ones). Every answer must be the exact answer of the reference model for one of the main chains the node had during the group. Non-trivial = a run in which the chain changed while queries were in flight; distinct = distinct execution trace hash.",
   "level":"exploration","state_measure":SM,"real":CORE_REAL,"stubs":CORE_STUB,"assumptions":["threads are switched at synchronisation points only (mutexes, atomics under locks), not between plain memory accesses"]},
 "C21":core("C21",["clock-back","clock-forward","forged:future","forged:old","forged:tx:locked-time"],"a clock jump or a forged timestamp or lock"),
 "C13":{"parts":[{"scenario":"sys_disp","quick":(80000,32),"thorough":(4000000,1500),"probes":["interrupts-observed","remote-spawns","resets","timeouts"]}],
   "rule":"One run = one seeded plan: 3-12 scripted tasks (plus up to 3 foreign threads) on one real Dispatcher, each running up to 9 actions: event wait/set/clear, timers from a small grid (so that coincidences are common), yield, keeping the processor busy, spawning, waiting for and interrupting groups and single tasks, event locks, remote calls, sub-tasks, group timeouts, reading/writing/closing/resetting connections, accept/connect. A model of who waits for what is checked at every return of a wait and every few simulated milliseconds; at the end everything is set and interrupted and every task must end. Non-trivial = an interrupt, timeout, reset or remote spawn took place; distinct = distinct execution trace hash.",
   "level":"exploration","state_measure":"hash of what every task waits for, its pending interrupt and every event's state, sampled every poll","real":"System/ and Platform/Linux/System (Dispatcher, contexts, timers, events, groups, locks, RemoteContext, TcpConnection/Listener/Connector): compiled from /repo","stubs":"epoll, eventfd, timerfd, sockets, pthreads, clocks (simulated kernel)",
   "assumptions":["waits must end within 50 ms of simulated time after their reason appears","foreign threads are switched at synchronisation points"]},
 "C14":{"parts":[{"scenario":"sys_stream","quick":(36000,32),"thorough":(2000000,1500),"probes":["bytes","messages","http-answers"]}],
   "rule":"One run = one seeded plan of one mode: raw byte streams both ways over one connection (direct or through TcpStreambuf), peer (Levin) messages both ways, or HTTP requests of up to 4 keep-alive clients to an echo server; with fragmentation, short reads and sends, tiny socket buffers, latency, stalls, partitions, connection resets, a side interrupted in the middle, and the server stopped and restarted. Every byte, message, header, status and body is compared with what was sent; a request is processed at most once; an intact connection never fails. Non-trivial = data arrived; distinct = distinct execution trace hash.",
   "level":"exploration","state_measure":"execution trace","real":"System/, Platform/Linux/System, LevinProtocol, HttpParser/HttpRequest/HttpResponse, HttpServer, HttpClient: compiled from /repo","stubs":"epoll, sockets, pthreads, clocks, resolver (simulated kernel)",
   "assumptions":["a half-open connection is noticed eventually (reset delivered once the link is back)"]},
}
NET_REAL="daemons as the product wires them: cn::core, CryptoNoteProtocolHandler, NodeServer, peer lists, Levin, Dispatcher, TCP wrappers: all compiled from /repo, one dispatcher thread per node"
NET_STUB="sockets and links, clocks, threads, files, randomness, DNS (simulated kernel); proof-of-work hash; UPnP"
def net(prop,probes,nontriv,extra="",n=(800,52),t=(40000,1600)):
    return {"parts":[{"scenario":"net","quick":n,"thorough":t,"probes":probes}],
   "rule":"One run = one seeded plan: 2-5 whole daemons (line, star, mesh or gossip overlays; hidden ports, private addresses, nodes starting empty, late or with damaged peer files), 10-34 operations (mine, transactions, partitions, cut links, hosts down, stalled nodes, connection resets, crashes, crashes inside file writes, orderly stops, restarts, clock changes of up to 55 minutes"+extra+"), random latency, jitter, fragmentation and buffer sizes; then faults stop and the cluster must become connected, converge, spread fresh transactions and blocks, fall quiet, keep its books, stop in order and restart. Every block any node is on is checked by the reference ledger. Non-trivial = "+nontriv+"; distinct = distinct execution trace hash.",
   "level":"exploration","state_measure":"hash of every node's tip after each operation","real":NET_REAL,"stubs":NET_STUB,
   "assumptions":["convergence is asked only where the reorganisation limits (10 blocks, displaced transactions must be in the heavier branch) permit the switch; others are counted as outside-envelope","threads of one node are switched at synchronisation points"]}
CHECKS.update({
 "C09":net("C09",["forked-before-heal","fault:crash","fault:partition","fault:clock","fault:diskcrash"],"at least one fork, crash, partition or clock change"),
 "C10":net("C10",["evil:dropped","evil:new-block","evil:objects","evil:chain-entry"],"a hostile peer was dropped, or served or announced forged data",extra=" Up to two hostile peers (scripted, dialling in or being dialled) speak correct, forged, mutated, truncated, oversized, nested, unsolicited and silent messages, lie about heights and chains, serve forged blocks and transactions, stop reading, half-close and reset."),
 "C11":net("C11",["fault:reset","fault:peerfile","fault:stop","fault:crash"],"at least one reset, stop, crash or damaged peer file"),
 "C12":net("C12",["tx-spread","block-spread"],"a transaction or block was followed to every node"),
})
SYNC_REAL="BlockchainSynchronizer, TransfersSyncronizer, TransfersConsumer, TransfersSubscription, TransfersContainer, ObserverManager, crypto: all compiled from /repo"
SYNC_STUB="the node (scripted INode answering from a reference chain, with delays, errors, reorganisations, pool changes), clocks, threads (simulated kernel); proof-of-work hash"
SYNC_RULE="One run = one seeded plan: up to three accounts (own or shared view key, different scan starts) and up to two more consumers follow a scripted node through 24-44 operations (blocks, reorganisations up to 9 deep, pool arrivals and drops, locally added transactions, node errors, slow and truncated answers, failing consumers, stop, start, save, reload of an older or the current snapshot); after every completion each account's outputs, balances, history and notifications are compared with an independent scan of the reference chain and pool. Non-trivial = %s."
def sync(what,probes,n=(1300,42),t=(60000,1600)):
    return {"scenario":"sync","quick":n,"thorough":t,"probes":probes}
MINER={"scenario":"miner","quick":(1500,38),"thorough":(60000,1500),"probes":["starts","stops","solutions","external-blocks"]}
MINER_RULE="One run = one seeded plan: a real miner on a real node; several threads start, stop, pause, resume and destroy it while new tips, failing template requests and chain changes arrive; every hash attempt and every submitted block is recorded and compared with the templates handed out."
WALLET_REAL="WalletGreen, WalletSerializationV2, FileMappedVector, MemoryMappedFile, TransfersSyncronizer, BlockchainSynchronizer, TransfersConsumer/Container, Dispatcher, Currency, crypto: all compiled from /repo"
WALLET_RULE="One run = one seeded plan: a wallet process (container wallet of up to six addresses on its dispatcher thread, client threads posting calls) on a scripted node which really verifies what the wallet sends (reference ledger and ring signatures); 12-40 operations: blocks, reorganisations, foreign transactions, dropped pool transactions, transfers (single, in bursts, delayed then committed or rolled back), deposits and withdrawals, added and deleted addresses, rescans, saves, exports, password changes, reopening with right and wrong passwords, kills at a chosen step, deaths before/inside/after a file operation, disk errors, failing and slow node answers, lost answers. At every settle, balances, deposits, history, transfers and delayed transactions are compared with an independent scan of the reference chain and pool; every reopening is compared with what was acknowledged and saved. Non-trivial = %s."
def wallet(probes,n=(420,60),t=(24000,1600),focus=None):
    return dict({"scenario":"wallet","quick":n,"thorough":t,"probes":probes},**({"focus":focus} if focus else {}))
CHECKS.update({
 "C15":{"parts":[sync("",["completed-ok","detaches","reorgs","pool-updates","reload","local-add"],(700,28)),wallet(["checks","reorgs","reloads","deaths"],(320,42))],"rule":SYNC_RULE%"a detach, reload, pool change or local transaction"+" Second part: "+WALLET_RULE%"a settled comparison, reorganisation, reopening or death","level":"exploration","state_measure":"hash of (tip, pool size) at each completion; hash of (tip, pool size, balance) at each settle","real":SYNC_REAL+"; "+WALLET_REAL,"stubs":SYNC_STUB,"assumptions":["a reorganisation does not reach below an account's scan start"]},
 "C16":{"parts":[wallet(["deaths","s:fault.disk.crash_before","s:fault.disk.torn","s:fault.disk.crash_after","s:fault.disk.enospc","s:fault.disk.eio","saves","reloads"],(900,52),focus="C16")],"rule":WALLET_RULE%"a save, reopening, death or disk fault","level":"exploration","state_measure":"hash of (tip, pool size, balance) at each settle","real":WALLET_REAL,"stubs":SYNC_STUB,"assumptions":["a killed process leaves every completed write and whole pages of memory-mapped files (no power loss)","the password key derivation is replaced by a cheap hash"]},
 "C17":{"parts":[wallet(["transfer-ok","transfer-failed","accepted","withdrawn","committed"],(420,55))],"rule":WALLET_RULE%"a transfer, withdrawal or commit was attempted","level":"exploration","state_measure":"hash of (tip, pool size, balance) at each settle","real":WALLET_REAL,"stubs":SYNC_STUB,"assumptions":["a transfer whose answer from the node was lost may be reported as failed although it was accepted; the coins must then not be offered again once the wallet has seen the pool"]},
 "C18":{"parts":[sync("",["completed-ok","detaches","reorgs","s:node_errors","consumer-failures","s:notifications"])],"rule":SYNC_RULE%"a detach, node error or failed consumer","level":"exploration","state_measure":"hash of (tip, pool size) at each completion","real":SYNC_REAL,"stubs":SYNC_STUB,"assumptions":["after a failed request the synchroniser waits for the node's next notification, as the product does"]},
 "C19":{"parts":[dict(MINER,quick=(600,18),thorough=(30000,700)),sync("",["completed-ok","reload"],(450,16),(30000,700)),wallet(["reloads","deaths","checks"],(180,26),(10000,700))],"rule":MINER_RULE+" Second part: "+SYNC_RULE%"a start, stop or reload"+" Third part: "+WALLET_RULE%"a settle, reopening or death","level":"exploration","state_measure":"execution trace","real":"miner, cn::core, "+SYNC_REAL,"stubs":SYNC_STUB,"assumptions":["threads are switched at synchronisation points only"]},
 "C23":{"parts":[MINER],"rule":MINER_RULE+" Non-trivial = a start, stop, solution or external block.","level":"exploration","state_measure":"execution trace","real":"miner, cn::core, Blockchain, tx_memory_pool, Currency: all compiled from /repo","stubs":CORE_STUB,"assumptions":["threads are switched at synchronisation points only (mutexes, atomics under locks), not between plain memory accesses"]},
 "C22":{"parts":[{"scenario":"proxy","quick":(900,75),"thorough":(40000,1600),"probes":["requests","requests-from-callbacks","evil-answers","shutdowns","races","inits","status-checks","pool-changes","reorgs","fault:reset","fault:kill","fault:stop","fault:stall","fault:link","fault:hostdown"]}],
   "rule":"One run = one seeded plan: a whole daemon (core, protocol, RPC server) on one simulated machine and a wallet process with a real NodeRpcProxy on another; several threads send every kind of request, some from inside callbacks, initialise and shut the client down at any moment, while blocks, reorganisations and transactions change the node, the daemon is stopped, killed or stalled, connections are reset and links cut; in some runs a scripted server sends malformed, truncated, empty or contradictory answers instead. Every answer must be one the node's recorded states within the request's time permit, every request must be answered exactly once, shutdown must return, and after faults stop the client must reach the node's state. Non-trivial = a request, shutdown, reinitialisation or fault; distinct = distinct execution trace hash.",
   "level":"exploration","state_measure":"execution trace","real":"NodeRpcProxy, HttpClient, HttpParser, JSON and binary RPC serialization, Dispatcher, TCP wrappers; on the other side RpcServer, HttpServer, cn::core, protocol handler, NodeServer: all compiled from /repo","stubs":NET_STUB,"assumptions":["threads are switched at synchronisation points only"]},
})
LEVEL_NOTE={
}
DEFAULT_NOTE="Seeded search over operation, schedule and fault sequences on the real code against an independent reference model; a clean batch is evidence, not proof. Trusts the reference model, the simulated kernel and the cheap proof-of-work stand-in."
NOT_APPLICABLE={
 "C24":"Codecs and cryptographic primitives are pure functions of their input: no concurrency, time, I/O or multi-party behaviour for a schedule or fault sequence to act on. (Their use inside the ledger is exercised by the C01-C08 runs.)",
}
PENDING="The scenario that would decide it is not built yet."
