#!/bin/bash
# builds demo.cpp against /repo's libraries and runs it in a scratch directory; its exit code is the verdict
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
F="-O1 -g0 -w -std=gnu++17 -maes -march=x86-64 -pthread -fno-strict-aliasing -DNDEBUG -D_GNU_SOURCE -I$D -I$R/include -I$R/src -I$R/external -I$R/external/parallel_hashmap -I$R/src/Platform/Linux -I$R/_build/version -I$R/_build/src -I$R/_build"
pids=(); for f in world stubs shim demo; do g++ $F -c "$D/$f.cpp" -o "$T/$f.o" & pids+=($!); done
for p in "${pids[@]}"; do wait $p || exit 3; done
L=$R/_build/src
g++ -o "$T/demo" "$T"/*.o -Wl,--start-group $L/libPaymentGate.a $L/libJsonRpcServer.a $L/libInProcessNode.a $L/libNodeRpcProxy.a $L/libWallet.a $L/libMnemonics.a $L/libTransfers.a $L/libP2P.a $L/libRpc.a $L/libHttp.a $L/libBlockchainExplorer.a $L/libCryptoNoteCore.a $L/libLogging.a $L/libSystem.a $L/libSerialization.a $L/libCommon.a $L/libcrypto.a -Wl,--end-group $(ls $R/_build/external/miniupnpc/libminiupnpc.a) -lboost_filesystem -lboost_thread -lboost_date_time -lboost_chrono -lboost_regex -lboost_serialization -lboost_program_options -lresolv -ldl -lpthread || exit 3
mkdir "$T/data"; cd "$T/data"; DEMO_DIR="$T/data" timeout 200 "$T/demo"; rc=$?; [ $rc = 0 ] && exit 0; echo "demo: exit $rc"; exit 1
