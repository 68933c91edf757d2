#!/usr/bin/env python3
"""Decides one property by seeded deterministic simulation.
usage: check.py PROPERTY        (VERIF_SEED, VERIF_TIER=quick|thorough from the environment)
       check.py --replay PLAN   (re-runs a replay file in a fresh process)
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the machinery failed."""
import os, sys, json, time, subprocess, collections, threading, re
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,os.path.join(VERIF,"bin"))
from config import CHECKS, BINARY
OUT=os.environ.get("SIM_OUT",os.path.join(VERIF,"out"))
JOBS=int(os.environ.get("SIM_JOBS","8"))

def binary(scenario): return os.path.join(OUT,BINARY[scenario])
def build(targets):
    r=subprocess.run([sys.executable,os.path.join(VERIF,"bin/build.py")]+sorted(targets),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode: print(r.stdout[-6000:]); print("check: /repo does not build"); sys.exit(2)
def parse(text):
    r=[]
    for l in text.splitlines():
        try: r.append(json.loads(l))
        except Exception: r.append({"outcome":"lost","raw":l[:200]})
    return r
def batch(scenario,focus,first,stride,count,secs):
    p=subprocess.run([binary(scenario),"batch",scenario,focus or "-",str(first),str(stride),str(count),str(secs)],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,errors="replace")
    return parse(p.stdout)
def parallel(scenario,focus,first,count,secs):
    res=[None]*JOBS
    def w(i): res[i]=batch(scenario,focus,first+i,JOBS,(count-i+JOBS-1)//JOBS,secs)
    ts=[threading.Thread(target=w,args=(i,)) for i in range(min(JOBS,count))]
    [t.start() for t in ts]; [t.join() for t in ts]
    return [x for r in res if r for x in r]
def runplan(scenario,path,mode="run",timeout=400):
    try: p=subprocess.run([binary(scenario),mode,path],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,errors="replace",timeout=timeout)
    except subprocess.TimeoutExpired: return {"outcome":"lost"}
    r=parse(p.stdout); return r[-1] if r else {"outcome":"lost"}
def genplan(scenario,focus,seed):
    return subprocess.run([binary(scenario),"gen",scenario,focus or "-",str(seed)],stdout=subprocess.PIPE,text=True).stdout

def hasprop(r,prop): return r.get("outcome")=="violation" and prop in r.get("props","").split(",")
class Minimiser:
    """ddmin over operations, then over explicit scheduling decisions; every candidate runs in a fresh process."""
    def __init__(s,scenario,prop,key,budget):
        s.sc=scenario; s.prop=prop; s.key=key; s.end=time.time()+budget; s.n=0; s.tried=0
    def ok(s,lines):
        s.n+=1; p="%s/min.%d.%d.plan"%(OUT,os.getpid(),threading.get_ident()%100000+s.n)
        open(p,"w").write("\n".join(lines)+"\n"); r=runplan(s.sc,p); os.unlink(p); s.tried+=1
        return hasprop(r,s.prop) and r["key"]==s.key
    def pass_(s,lines,pred):
        idx=[i for i,l in enumerate(lines) if pred(l)]; keep=set(idx); n=2
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(JOBS) as ex:
            cur=idx
            while cur and time.time()<s.end:
                sz=max(1,(len(cur)+n-1)//n); parts=[cur[i:i+sz] for i in range(0,len(cur),sz)]
                def test(part):
                    if time.time()>=s.end: return False
                    drop=set(part)|(set(idx)-keep)
                    return s.ok([l for i,l in enumerate(lines) if i not in drop])
                good=None; futs=[(p,ex.submit(test,p)) for p in parts]
                for p,f in futs:
                    if f.result() and good is None: good=p
                if good is not None:
                    keep-=set(good); cur=sorted(keep); n=max(2,min(n-1,len(cur)))
                else:
                    if sz==1: break
                    n=min(len(cur),n*2)
        return [l for i,l in enumerate(lines) if i not in (set(idx)-keep)]
    def run(s,text):
        lines=[l for l in text.splitlines() if l.strip()]
        # cut the operations after the failing one, then drop operations
        lines=s.pass_(lines,lambda l:l.startswith("op "))
        p="%s/dec.%d.plan"%(OUT,os.getpid()); open(p,"w").write("\n".join(lines)+"\n")
        r=runplan(s.sc,p,"rundec"); os.unlink(p)
        dec=r.get("dec") or []
        if hasprop(r,s.prop) and r["key"]==s.key and dec and len(dec)<4000:
            ex=lines+["explicit 1"]+["dec %d %d"%(a,b) for a,b in dec]
            if s.ok(ex): lines=s.pass_(ex,lambda l:l.startswith("dec "))
        return lines

def loadknown():
    r=[]; p=os.path.join(VERIF,"known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m=re.match(r"known: property=(\S+) key=(\S+)(?: match=\"([^\"]*)\")? (.*)",l.strip())
            if m: r.append({"property":m.group(1),"key":m.group(2),"match":m.group(3),"text":m.group(4)})
    return r

def main():
    if sys.argv[1]=="--replay":
        t=open(sys.argv[2]).read(); sc=re.search(r"^scenario (\S+)",t,re.M).group(1)
        build({BINARY[sc]}); print(json.dumps(runplan(sc,sys.argv[2]))); return 0
    prop=sys.argv[1]; cfg=CHECKS[prop]
    seed=int(os.environ.get("VERIF_SEED","1")); tier=os.environ.get("VERIF_TIER","quick")
    if tier not in("quick","thorough"): tier="quick"
    t0=time.time(); print("check %s tier=%s VERIF_SEED=%d"%(prop,tier,seed)); sys.stdout.flush()
    build({BINARY[p["scenario"]] for p in cfg["parts"]})
    tb=time.time()-t0
    known=[k for k in loadknown() if k["property"]==prop]
    total=collections.Counter(); counts=collections.Counter(); stats=collections.Counter(); other=collections.Counter()
    hashes=set(); nontriv=set(); inters=set(); states=set(); samples=[]; simns=0; steps=0; decs=0; viol=collections.OrderedDict(); knownhit=collections.Counter(); errors=[]; mism=0; rechecked=0; runwall=0
    perpart=[]
    for part in cfg["parts"]:
        sc=part["scenario"]; focus=part.get("focus",prop); n,secs=part[tier]
        if "SIM_COUNT" in os.environ: n=int(os.environ["SIM_COUNT"])
        first=1+seed*100000007+(sum(map(ord,sc+focus))*1009)
        ts=time.time(); rs=parallel(sc,focus,first,n,secs); w=time.time()-ts; runwall+=w
        perpart.append({"scenario":sc,"runs":len(rs),"wall_s":round(w,1)})
        byseed={}
        for i,r in enumerate(rs): # the processor time limit is the one oracle the machine's load can influence: believe it only if it repeats
            if r.get("outcome")=="violation" and "processor time limit" in r.get("msg","") and "seed" in r:
                again=batch(sc,focus,r["seed"],1,1,0)
                if again: rs[i]=again[-1]
        for r in rs:
            total[r.get("outcome")]+=1
            for a,b in r.get("counts",{}).items(): counts[a]+=b
            for a,b in r.get("stats",{}).items(): stats[a]+=b
            if r.get("outcome")=="lost": errors.append("%s run lost: %s"%(sc,json.dumps(r)[:200])); continue
            byseed[r["seed"]]=r
            simns+=r.get("simns",0); steps+=r.get("steps",0); decs+=r.get("switches",0)
            hashes.add(r["hash"]); inters.add((r["inter"],r["hash"]) if part.get("inter_with_hash") else r["inter"]); states.update(r.get("states",[]))
            if not part.get("probes") or any(r.get("counts",{}).get(p,0) or r.get("stats",{}).get(p,0) for p in part["probes"]): nontriv.add(r["hash"])
            if len(samples)<6 and r.get("notes"): samples.append({"scenario":sc,"seed":r["seed"],"sample":r["notes"][:2],"counts":{k:v for k,v in list(r.get("counts",{}).items())[:12]}})
            if r["outcome"]=="violation":
                if r.get("key")=="harness" or not r.get("props"): errors.append("%s seed %d: %s"%(sc,r["seed"],r.get("msg","")[:300])); continue
                if hasprop(r,prop):
                    k=next((k for k in known if k["key"]==r["key"] and (not k["match"] or k["match"] in r["msg"])),None)
                    if k: knownhit[k["key"]+" "+k["text"]]+=1
                    else: viol.setdefault(r["key"],[]).append((sc,focus,r))
                else: other[r["key"]]+=1
        # determinism: the same seeds again, in other processes, must give the same executions
        seeds=sorted(byseed); k=min(len(seeds),part.get("recheck",16))
        if k:
            step=max(1,len(seeds)//k); pick=seeds[::step][:k]
            import concurrent.futures as cf
            with cf.ThreadPoolExecutor(JOBS) as ex:
                for s2,rr in zip(pick,ex.map(lambda x:batch(sc,focus,x,1,1,0),pick)):
                    rechecked+=1; a=byseed[s2]; b=rr[-1] if rr else {}
                    if a.get("hash")!=b.get("hash") or a.get("outcome")!=b.get("outcome") or a.get("key")!=b.get("key"): mism+=1; errors.append("%s seed %d is not repeatable: %s/%s/%s then %s/%s/%s"%(sc,s2,a.get("outcome"),a.get("key"),a.get("hash"),b.get("outcome"),b.get("key"),b.get("hash")))
    lines=[]; vrec=[]
    os.makedirs(OUT+"/replay",exist_ok=True)
    budget=60 if tier=="quick" else 600
    for key,lst in list(viol.items())[:4]:
        lst.sort(key=lambda x:(x[2].get("ops",0),x[2].get("steps",0)))
        done=False
        for sc,focus,r in lst[:3]:
            text=genplan(sc,focus,r["seed"])
            path="%s/replay/%s-%s-%d.plan"%(OUT,prop,re.sub(r"[^A-Za-z0-9]+","-",key)[:60],r["seed"])
            m=Minimiser(sc,prop,key,budget/ max(1,min(4,len(viol))))
            small=m.run(text); open(path,"w").write("\n".join(small)+"\n")
            a=runplan(sc,path); b=runplan(sc,path)
            if not(hasprop(a,prop) and a["key"]==key and a.get("hash")==b.get("hash")):
                open(path,"w").write(text); a=runplan(sc,path); b=runplan(sc,path)
            if hasprop(a,prop) and a["key"]==key and a.get("hash")==b.get("hash"):
                with open(path,"a") as f: f.write("# seed %d, found as: %s\n# replay: python3 bin/check.py --replay %s\n"%(r["seed"],r["msg"].replace("\n"," ")[:600],path))
                print("%s [%s] %s"%(prop,key,a["msg"])); print("  seed %d scenario %s, %d runs fail this way; minimised from %d to %d lines (%d candidate runs)"%(r["seed"],sc,len(lst),len(text.splitlines()),len(small),m.tried))
                lines.append("VIOLATION property=%s replay=%s"%(prop,path)); vrec.append({"key":key,"seed":r["seed"],"replay":path,"message":a["msg"][:600]}); done=True; break
            errors.append("%s seed %d: violation %s did not reproduce in a fresh process"%(sc,r["seed"],key))
        if done and time.time()-t0>600: break
    for k in known:
        if knownhit.get(k["key"]+" "+k["text"]) or True: print("KNOWN-FINDING: property=%s %s"%(prop,k["text"]))
    wall=time.time()-t0
    ev=sum(total.values())
    cov={"evaluations":ev,"distinct_nontrivial":len(nontriv),"rule":cfg["rule"],"samples":samples or [{"counts":dict(list(counts.items())[:10])}],
      "parts":perpart,"seeds_per_hour":int(ev*3600/max(runwall,0.001)),"simulated_seconds":int(simns/1e9),"scheduling_steps":steps,"context_switch_decisions":decs,
      "distinct_executions":len(hashes),"distinct_schedules":len(inters),"distinct_states":len(states),"state_measure":cfg.get("state_measure",""),
      "faults_and_events":dict(sorted(counts.items())),"injected_faults":dict(sorted(stats.items())),"outcomes":dict(total),"runs_ended_by_other_properties":dict(other),
      "determinism_rechecks":rechecked,"determinism_mismatches":mism,"real_components":cfg.get("real",""),"stubs":cfg.get("stubs",""),"build_s":round(tb,1),"machinery_errors":errors[:10],"violation_details":vrec,"known_findings_seen":dict(knownhit)}
    os.makedirs(VERIF+"/evidence",exist_ok=True)
    json.dump({"property":prop,"tier":tier,"seed":seed,"level":cfg["level"],"coverage":cov,"wall_s":round(wall,1),"violations":len(vrec),"assumptions":cfg.get("assumptions",[])},open("%s/evidence/%s.json"%(VERIF,prop),"w"),indent=1)
    print("%s: %d runs (%d distinct non-trivial), %.0f simulated s, %d states, %d rechecked, build %.0fs, run %.0fs; outcomes %s other %s"%(prop,ev,len(nontriv),simns/1e9,len(states),rechecked,tb,runwall,dict(total),dict(other)))
    for l in lines: print(l)
    if lines: return 1
    if errors:
        for e in errors[:5]: print("error: "+e)
        return 2
    if ev<cfg.get("min_runs",8): print("error: too few runs completed"); return 2
    return 0
if __name__=="__main__": sys.exit(main())
