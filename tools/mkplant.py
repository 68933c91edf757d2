#!/usr/bin/env python3
"""mkplant.py SPEC.py : writes /verif/seeded/<id>/{patch.diff,meta.json} (+ demo files) from a description of edits."""
import sys,os,json,subprocess,shutil
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W="/tmp/mkplant"
ns={}; exec(open(sys.argv[1]).read(),ns)
subprocess.call(["rm","-rf",W]); subprocess.check_call(["git","clone","-q","/repo",W])
for p in ns["PLANTS"]:
    subprocess.check_call(["git","-C",W,"checkout","-q","--","."])
    for f,a,b in p["edits"]:
        s=open(W+"/"+f).read(); n=s.count(a)
        assert n==1 or p.get("nth") is not None and n>p["nth"], (p["id"],f,n,a)
        if n==1: s=s.replace(a,b)
        else:
            k=-1
            for _ in range(p["nth"]+1): k=s.index(a,k+1)
            s=s[:k]+b+s[k+len(a):]
        open(W+"/"+f,"w").write(s)
    d=V+"/seeded/"+p["id"]; os.makedirs(d,exist_ok=True)
    open(d+"/patch.diff","w").write(subprocess.check_output(["git","-C",W,"diff"],text=True))
    json.dump({"property":p["property"],"needs":p["needs"],"what_it_breaks":p["breaks"]},open(d+"/meta.json","w"),indent=1)
    if "demo" in p and p.get("kind")=="sys":
        shutil.copy(V+"/tools/demo/sysrun.sh",d+"/demo.sh"); open(d+"/demo.cpp","w").write(p["demo"])
    elif "demo" in p:
        for f in ("shim.cpp","lab.h"): shutil.copy(V+"/tools/demo/"+f,d)
        shutil.copy(V+"/tools/demo/run.sh",d+"/demo.sh")
        for f in ("world.h","world.cpp","stubs.cpp","kernel.h","harness.h"): shutil.copy(V+"/sim/"+f,d)
        open(d+"/demo.cpp","w").write(p["demo"])
    os.chmod(d+"/demo.sh",0o755) if os.path.exists(d+"/demo.sh") else None
    print(p["id"],"ok")
subprocess.call(["rm","-rf",W])
