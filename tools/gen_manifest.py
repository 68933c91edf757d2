import json,sys,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+"/bin")
from config import *
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
m={"version":1,"setup_cmd":"python3 bin/build.py "+" ".join(sorted(set(BINARY.values()))),"checks":[],"not_applicable":[]}
for p in props:
    i=p["id"]
    if i in CHECKS: m["checks"].append({"property":i,"quick_cmd":"python3 bin/check.py "+i,"thorough_cmd":"VERIF_TIER=thorough python3 bin/check.py "+i,"technique":"deterministic simulation with fault injection: seeded search against a reference model","level":CHECKS[i]["level"],"level_note":LEVEL_NOTE.get(i,DEFAULT_NOTE)})
    else: m["not_applicable"].append({"property":i,"reason":NOT_APPLICABLE.get(i,PENDING)})
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1); open(V+"/MANIFEST.json","a").write("\n")
