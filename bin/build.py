#!/usr/bin/env python3
"""Builds the simulator binaries from /repo's current working tree.
usage: build.py TARGET...   targets: see TARGETS below.  Output: /verif/out/<target>
Sources of /repo are globbed per library exactly as its CMakeLists does (whatever .c/.cpp files
exist in a library's directory), so a file added or renamed by a change is picked up."""
import os, sys, glob, subprocess, hashlib
REPO=os.environ.get("SIM_REPO","/repo")
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT=os.environ.get("SIM_OUT",os.path.join(VERIF,"out"))
SRC=REPO+"/src"
def lib(*dirs, exclude=()):
    r=[]
    for d in dirs:
        for root,_,files in os.walk(os.path.join(SRC,d)):
            for f in sorted(files):
                if f.endswith((".cpp",".c")):
                    p=os.path.join(root,f)
                    rel=os.path.relpath(p,SRC)
                    if rel in exclude or any(rel.startswith(e) for e in exclude if e.endswith("/")): continue
                    r.append(p)
    return sorted(r)
CRYPTO=lib("crypto",exclude=("crypto/cryptonight.cpp","crypto/pow_hash/","crypto/random.c"))
CORE=lib("Common","CryptoNoteCore","Logging","Serialization","System","Platform/Linux/System",exclude=("Common/DnsTools.cpp",))+[SRC+"/BlockchainExplorer/BlockchainExplorerDataBuilder.cpp"]+CRYPTO
NET=lib("CryptoNoteProtocol","P2p")
HTTP=lib("HTTP","Rpc")
WALLET=lib("Transfers","Wallet","WalletLegacy","Mnemonics")
NODE=lib("InProcessNode","NodeRpcProxy")
GATE=lib("PaymentGate","JsonRpcServer")
def sim(*names): return [os.path.join(VERIF,"sim",n) for n in names]
SIMK=sim("kernel.cpp","stubs.cpp","harness.cpp")
TARGETS={
 "sim_sys":   (CORE+lib("HTTP")+[SRC+"/P2p/LevinProtocol.cpp",SRC+"/Rpc/HttpServer.cpp",SRC+"/Rpc/HttpClient.cpp"], SIMK+sim("sc_sys.cpp")),
 "sim_core":  (CORE, SIMK+sim("world.cpp","sc_core.cpp","sc_miner.cpp")),
 "sim_net":   (CORE+NET+HTTP, SIMK+sim("world.cpp","host.cpp","sc_net.cpp")),
 "sim_wallet":(CORE+NET+HTTP+WALLET+NODE, SIMK+sim("world.cpp","host.cpp","sc_sync.cpp","sc_wallet.cpp","sc_proxy.cpp")),
}
INC=[REPO+"/include",SRC,REPO+"/external",OUT+"/version",SRC+"/Platform/Linux",REPO+"/external/parallel_hashmap",VERIF+"/sim"]
COMMON="-maes -march=x86-64 -pthread -O1 -g1 -w -fno-strict-aliasing -fno-omit-frame-pointer -DNDEBUG -D_DEFAULT_SOURCE -D_GNU_SOURCE -DHAVE_ROTR -DMINIUPNP_STATICLIB -DBOOST_TIMER_ENABLE_DEPRECATED"
LIBS="-lboost_filesystem -lboost_thread -lboost_date_time -lboost_chrono -lboost_regex -lboost_serialization -lboost_program_options -lresolv -ldl -lpthread"
def main():
    targets=[t for t in sys.argv[1:] if not t.startswith("-")] or list(TARGETS)
    os.makedirs(OUT+"/version",exist_ok=True); os.makedirs(OUT+"/obj",exist_ok=True)
    v=open(SRC+"/version.h.in").read().replace("@VERSION@","sim")
    vp=OUT+"/version/version.h"
    if not os.path.exists(vp) or open(vp).read()!=v: open(vp,"w").write(v)
    cc=os.environ.get("SIM_CC","gcc"); cxx=os.environ.get("SIM_CXX","g++")
    pre="ccache " if subprocess.call("command -v ccache >/dev/null",shell=True)==0 else ""
    inc=" ".join("-I"+i for i in INC)
    n=["ninja_required_version = 1.3","builddir = "+OUT,
       "rule cxx\n  command = %s%s -std=gnu++17 %s %s $extra -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $in"%(pre,cxx,COMMON,inc),
       "rule cxx11\n  command = %s%s -std=gnu++11 %s %s $extra -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $in"%(pre,cxx,COMMON,inc),
       "rule cc\n  command = %s%s -std=gnu11 %s %s $extra -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CC $in"%(pre,cc,COMMON,inc),
       "rule link\n  command = %s -rdynamic -no-pie -Wl,--gc-sections -o $out @$out.rsp %s\n  rspfile = $out.rsp\n  rspfile_content = $in\n  description = LINK $out"%(cxx,LIBS)]
    objs={}
    def obj(s):
        if s in objs: return objs[s]
        o=OUT+"/obj/"+hashlib.md5(s.replace(REPO,"R").replace(VERIF,"V").encode()).hexdigest()[:8]+"_"+os.path.basename(s)+".o"
        rule="cc" if s.endswith(".c") else ("cxx" if s.startswith(VERIF) else "cxx11")
        n.append("build %s: %s %s"%(o,rule,s)); objs[s]=o
        return o
    for t in targets:
        srcs=TARGETS[t][0]+TARGETS[t][1]
        n.append("build %s/%s: link %s"%(OUT,t," ".join(obj(s) for s in srcs)))
    nf=OUT+"/build.%s.ninja"%("_".join(targets))
    open(nf,"w").write("\n".join(n)+"\n")
    env=dict(os.environ); env.setdefault("CCACHE_DIR",OUT+"/ccache"); env["CCACHE_SLOPPINESS"]="time_macros"
    rc=subprocess.call(["ninja","-f",nf]+(["-v"] if "-v" in sys.argv else ["--quiet"]),env=env)
    sys.exit(rc)
main()
