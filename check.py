#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Builds the simulator and the property's harness against /repo's working tree, explores seeded
schedules/faults, gates + minimises + replays any violation, writes evidence/<property>.json.
exit 0: held on everything explored; exit 1: VIOLATION line; anything else: error of the check."""
import sys, os, subprocess, json, time, hashlib, glob, re, shutil
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.abspath(__file__)); REPO=os.environ.get("SIM_REPO","/repo")
sys.path.insert(0,os.path.join(V,"tools"))
T0=time.time()
CXX="g++"
ENGINE_FLAGS=["-std=c++20","-O2","-g0","-w","-fno-stack-protector","-fcf-protection=none"]
HARNESS_FLAGS=["-std=c++20","-O1","-g0","-w","-fsanitize=thread","--param","tsan-instrument-func-entry-exit=0","-ftemplate-depth=600","-fno-strict-aliasing"]
LIBS=["-lboost_thread","-lboost_chrono","-lboost_system","-lboost_random","-lboost_serialization","-ldl","-lpthread"]
NPROC=os.cpu_count() or 8
def log(*a): print("[%6.1fs]"%(time.time()-T0),*a,flush=True)
def die(msg): print("CHECK-ERROR:",msg,flush=True); sys.exit(3)
def sha(path):
    h=hashlib.sha256()
    with open(path,"rb") as f: h.update(f.read())
    return h.hexdigest()
def parse_d(path):
    try: s=open(path).read()
    except OSError: return None
    s=s.replace("\\\n"," "); s=s.split(":",1)[1] if ":" in s else ""
    return [x for x in s.split() if x]
def up_to_date(obj,cmd):
    meta=obj+".meta"
    if not(os.path.exists(obj) and os.path.exists(meta)): return False
    try: m=json.load(open(meta))
    except Exception: return False
    if m.get("cmd")!=cmd: return False
    for f,h in m["deps"].items():
        try:
            if sha(f)!=h: return False
        except OSError: return False
    return True
def compile_one(src,obj,flags):
    cmd=[CXX]+flags+["-I"+V+"/sim","-I"+V+"/harness","-I"+REPO,"-MMD","-MF",obj+".d","-c",src,"-o",obj]
    if up_to_date(obj,cmd): return None
    t=time.time(); p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if p.returncode!=0: return "compile failed: %s\n%s"%(src,p.stdout[-6000:])
    deps=parse_d(obj+".d") or []
    deps=[d for d in deps if d.startswith(V) or d.startswith(REPO)]
    json.dump({"cmd":cmd,"deps":{d:sha(d) for d in deps},"t":time.time()-t},open(obj+".meta","w"))
    return None
def build(prop):
    bd=os.path.join(V,"build",prop); os.makedirs(bd,exist_ok=True); cd=os.path.join(V,"build","common"); os.makedirs(cd,exist_ok=True)
    hs=sorted(glob.glob(os.path.join(V,"harness",prop+"*.cpp")))
    if not hs: die("no harness for "+prop)
    hs+=[os.path.join(V,"harness",x) for x in META.get(prop,{}).get("extra",[])]
    jobs=[(os.path.join(V,"sim",s),os.path.join(cd,s[:-4]+".o"),ENGINE_FLAGS) for s in ("engine.cpp","simnet.cpp") if os.path.exists(os.path.join(V,"sim",s))]
    for h in hs:
        extra=[]
        for line in open(h):
            m=re.match(r"//\s*FLAGS:\s*(.*)",line)
            if m: extra+=m.group(1).split()
            if not line.startswith("//"): break
        jobs.append((h,os.path.join(bd if os.path.basename(h).startswith(prop) else cd,os.path.basename(h)[:-4]+".o"),HARNESS_FLAGS+extra+(["-g1"] if os.environ.get("SIMDEBUG") else [])))
    with ThreadPoolExecutor(NPROC) as ex: errs=[e for e in ex.map(lambda j:compile_one(*j),jobs) if e]
    if errs: print(errs[0]); die("build failed")
    binp=os.path.join(bd,"sim_"+prop)
    tmp=binp+".tmp%d"%os.getpid()
    p=subprocess.run([CXX,"-rdynamic","-o",tmp]+[j[1] for j in jobs]+LIBS,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if p.returncode!=0: print(p.stdout[-4000:]); die("link failed")
    os.replace(tmp,binp); return binp
# ------------------------------------------------------------------ known findings
def known_for(prop):
    r=[]; p=os.path.join(V,"known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m=re.match(r"finding:\s+property=(\S+)\s+scenario=(\S+)\s+class=(\S+)\s*(.*)",l)
            if m and m.group(1)==prop: r.append((m.group(2),m.group(3),m.group(4)))
    return r
# ------------------------------------------------------------------ replay files
class Rep:
    def __init__(s,path=None):
        s.head={}; s.picks=[]; s.pickn=[]; s.f=[]; s.s=[]; s.b=[]
        if path: s.load(path)
    def load(s,path):
        for l in open(path):
            l=l.rstrip("\n"); k=l.split(" ",1)[0]
            if k=="picks": s.picks=[int(x) for x in l.split()[2:]]
            elif k=="pickn": s.pickn=[int(x) for x in l.split()[2:]]
            elif k=="f": s.f.append(l)
            elif k=="s": s.s.append(l)
            elif k=="b": s.b.append(l)
            elif k in("end",""): pass
            else: s.head[k]=l
    def copy(s):
        r=Rep(); r.head=dict(s.head); r.picks=list(s.picks); r.pickn=list(s.pickn); r.f=list(s.f); r.s=list(s.s); r.b=list(s.b); return r
    def write(s,path):
        with open(path,"w") as o:
            for k in("simreplay","prop","scenario","seed","expect","msg","cfg"):
                if k in s.head: o.write(s.head[k]+"\n")
            o.write("picks %d %s\n"%(len(s.picks)," ".join(map(str,s.picks))))
            o.write("pickn %d %s\n"%(len(s.pickn)," ".join(map(str,s.pickn))))
            for l in s.f+s.s+s.b: o.write(l+"\n")
            o.write("end\n")
    def size(s): return (len(s.f)*4+len(s.s)+len(s.b),sum(1 for x in s.picks if x),sum(s.picks))
def run_replay(binp,path,out=None,wall=20):
    cmd=[binp,"replay",path,"--wall",str(wall)]+(["--out",out] if out else [])
    try: p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,timeout=wall+30)
    except subprocess.TimeoutExpired: return None
    ls=p.stdout.split("\n")
    if len(ls)<2: return None
    m=re.match(r"(\S+) ([0-9a-f]+) (.*)",ls[0]); 
    return (m.group(1),m.group(2),m.group(3),"match=1" in ls[1],p.stdout) if m else None
class Minimiser:
    def __init__(s,binp,tmpdir,cls,deadline): s.bin=binp; s.tmp=tmpdir; s.cls=cls; s.deadline=deadline; s.n=0; s.tried=0
    def test(s,rep):
        s.n+=1; i=s.n; a=os.path.join(s.tmp,"c%d"%i); b=os.path.join(s.tmp,"o%d"%i); rep.write(a)
        r=run_replay(s.bin,a,b,wall=8); s.tried+=1; res=None
        if r and r[0]==s.cls and os.path.exists(b): res=Rep(b); res.head["seed"]=rep.head.get("seed",""); res.head["seed"]=rep.head["seed"]
        for x in(a,b):
            try: os.unlink(x)
            except OSError: pass
        return res
    def first(s,cands):
        """cands: list of Rep; returns first (in order) successful, tested in parallel batches"""
        for k in range(0,len(cands),NPROC):
            if time.time()>s.deadline: return None
            with ThreadPoolExecutor(NPROC) as ex: rs=list(ex.map(s.test,cands[k:k+NPROC]))
            for r in rs:
                if r is not None: return r
        return None
    def ddmin(s,base,attr):
        n=1
        while time.time()<s.deadline:
            L=getattr(base,attr)
            if not L: return base
            n=min(n,len(L)); sz=(len(L)+n-1)//n; cands=[]
            for k in range(0,len(L),sz):
                c=base.copy(); setattr(c,attr,L[:k]+L[k+sz:]); cands.append(c)
            r=s.first(cands)
            if r is not None and r.size()<base.size(): base=r; n=max(1,n-1); continue
            if sz<=1: return base
            n=min(len(L),n*2)
        return base
    def picks(s,base):
        i=0
        while i<len(base.picks) and time.time()<s.deadline:
            v=base.picks[i]; 
            if v:
                c=[]
                for nv in sorted({0,v//2,v-1}):
                    x=base.copy(); x.picks[i]=nv; c.append(x)
                r=s.first(c)
                if r is not None and (r.size()[1:]<base.size()[1:]): base=r; continue
            i+=1
        return base
    def run(s,base):
        last=None
        while time.time()<s.deadline and last!=base.size():
            last=base.size()
            for a in("f","s","b"): base=s.ddmin(base,a)
            base=s.picks(base)
        return base
def minimise(binp,path,cls,outpath,secs,bd):
    tmp=os.path.join(bd,"min%d"%os.getpid()); shutil.rmtree(tmp,ignore_errors=True); os.makedirs(tmp)
    try:
        base=Rep(path); m=Minimiser(binp,tmp,cls,time.time()+secs)
        b0=base.size(); best=m.run(base)
        best.head["expect"]=base.head["expect"]; best.write(outpath)
        r=run_replay(binp,outpath)
        if not r or r[0]!=cls: return None
        best.head["expect"]="expect %s %s"%(r[0],r[1]); best.head["msg"]="msg "+r[2]; best.write(outpath)
        return dict(before=b0,after=best.size(),tried=m.tried)
    finally: shutil.rmtree(tmp,ignore_errors=True)
# ------------------------------------------------------------------ main
META={}
def load_meta(prop):
    p=os.path.join(V,"harness","meta.json")
    if os.path.exists(p): META.update(json.load(open(p)))
    return META.get(prop,{})
def sample_of(path):
    r=Rep(path); return {"scenario":r.head.get("scenario","")[9:],"seed":r.head.get("seed",""),"outcome":r.head.get("expect","")[7:],"cfg":r.head.get("cfg","")[4:],"workload_picks":r.picks[:60],"preemptions":len(r.s),"blocking_choices":len(r.b),"faults_fired":len(r.f),"first_schedule_decisions":r.s[:12]}
def main():
    if len(sys.argv)<2: die("usage")
    prop=sys.argv[1]; tier=sys.argv[2] if len(sys.argv)>2 else os.environ.get("VERIF_TIER","quick")
    seed=int(os.environ.get("VERIF_SEED","1") or 1)
    if prop=="setup":
        r=subprocess.run([CXX,"--version"],stdout=subprocess.PIPE,text=True); print(r.stdout.split("\n")[0]); return r.returncode
    meta=load_meta(sys.argv[2] if prop=="build" else prop)
    if prop=="build": print(build(sys.argv[2])); return 0
    secs=float(os.environ.get("SIM_SECS",0)) or (meta.get("quick_s",25) if tier=="quick" else meta.get("thorough_s",600))
    print("seed",seed,"tier",tier,"property",prop,flush=True)
    binp=build(prop); bd=os.path.dirname(binp); log("built")
    out=os.path.join(bd,"out"); shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
    known=known_for(prop); kargs=[]
    for sc,cl,_ in known: kargs+=["--known","%s:%s"%(sc,cl)]
    p=subprocess.run([binp,"explore","--prop",prop,"--seed",str(seed),"--secs",str(secs),"--workers",str(NPROC),"--out",out]+kargs,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True)
    try: st=json.loads(p.stdout.strip().split("\n")[-1])
    except Exception: die("explorer gave no statistics: rc=%d %s %s"%(p.returncode,p.stdout[-500:],p.stderr[-1500:]))
    if st.get("toolerr"): die("simulator error: "+st["toolerr"])
    log("explored %d runs, %d distinct schedules, %.1f M points"%(st["runs"],st["distinct"],st["points"]/1e6))
    # determinism sample: same seeds, other process, other worker count
    det={}
    if tier!="quick" or meta.get("det",True):
        a=os.path.join(out,"da"); b=os.path.join(out,"db"); os.makedirs(a); os.makedirs(b); n=80 if tier=="quick" else 800
        for d,w in((a,NPROC),(b,3)): subprocess.run([binp,"explore","--prop",prop,"--seed",str(seed+1000),"--secs","20","--runs",str(n),"--workers",str(w),"--trace","--out",d]+kargs,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
        def rd(d):
            r={}
            for f in glob.glob(d+"/trace.*"):
                for l in open(f):
                    x=l.split(); r[x[0]]=" ".join(x[1:])
            return r
        x,y=rd(a),rd(b); common=[k for k in x if k in y]; bad=[k for k in common if x[k]!=y[k]]
        det={"runs_compared":len(common),"mismatches":len(bad)}
        if bad: log("WARNING: nondeterministic runs",[(k,x[k],y[k]) for k in bad[:3]])
    viol=[v for v in st["violations"] if not v["known"]]
    kn=[v for v in st["violations"] if v["known"]]
    rc=0; nviol=0; lines=[]
    for v in viol:
        if not v["reproduced"]: die("violation did not reproduce under the same seed (nondeterminism): %s %s"%(v["scenario"],v["class"]))
        r=run_replay(binp,v["path"])
        if not r or not r[3]: die("violation did not replay in a fresh process: %s %s -> %s"%(v["scenario"],v["class"],r and r[:3]))
        os.makedirs(os.path.join(V,"build","replays"),exist_ok=True)
        dst=os.path.join(V,"build","replays","%s_%s_%s_%d.replay"%(prop,v["scenario"],re.sub(r"\W+","-",v["class"]),seed))
        mi=None
        try: mi=minimise(binp,v["path"],v["class"],dst,meta.get("min_s",30 if tier=="quick" else 120),bd)
        except Exception as e: log("minimiser problem",e)
        ok=False
        if mi:
            r2=run_replay(binp,dst); ok=bool(r2 and r2[3])
        if not ok: shutil.copy(v["path"],dst); r2=r
        nviol+=1; rc=1
        log("violation in scenario %s: %s: %s"%(v["scenario"],v["class"],v["msg"])); 
        if mi: log("minimised (decisions, nonzero picks, pick sum) %s -> %s in %d replays"%(mi["before"],mi["after"],mi["tried"]))
        lines.append("VIOLATION property=%s replay=%s scenario=%s class=%s %s"%(prop,dst,v["scenario"],v["class"],r2[2][:300]))
        break_early=True
    samples=[sample_of(f) for f in sorted(glob.glob(out+"/sample_*.replay"))[:4]]
    for v in kn[:3]: samples.append({"known_finding":v["scenario"]+":"+v["class"],"message":v["msg"]})
    el=max(st["elapsed_s"],1e-3)
    ev={"property":prop,"tier":tier if tier in("quick","thorough") else "quick","seed":seed,"level":"exploration",
      "coverage":{"evaluations":st["runs"],"distinct_nontrivial":st["distinct"],
        "rule":meta.get("rule","")+" A case is one simulated execution (one seed: workload, schedule, faults). Distinct and non-trivial: at least one simulated thread besides the scenario's own, more than two context switches, not marked idle by its scenario, and a (context-switch sequence, event log) hash not seen before in this run.",
        "samples":samples,"simulated_runs_per_hour":round(st["runs"]/el*3600),"seeds_per_hour":round(st["runs"]/el*3600),"simulated_time_s":st["vtime_s"],"scheduling_points":st["points"],"context_switches":st["switches"],"preemptions":st["preemptions"],"distinct_interleavings":st["distinct"],
        "interleaving_measure":"64-bit hash of the full context-switch sequence (thread, thread-local step) and of the event log",
        "faults_injected":st["faults"],"runs_with_faults":st["faulty_runs"],"runs_without_faults":st["runs"]-st["faulty_runs"],"strategies":st["strategies"],"runs_per_scenario":st["scenarios"],"probes":st["probes"],"largest_run_points":st["max_points"],"determinism_sample":det,"known_finding_hits":st["known_hits"],
        "real_components":meta.get("real","all boost::asynchronous headers under test, Boost.Thread, Boost.Lockfree, libstdc++ futures and shared_ptr"),
        "stubbed_components":meta.get("stub","pthread primitives, futex, clocks, sleeps, heap and (where used) epoll/eventfd/timerfd/sockets are the simulator's")},
      "assumptions":["sequentially consistent memory in the simulated machine (missing release/acquire edges are only seen where the harness guards its data with happens-before checked cells)","preemption only at atomic operations, library calls and instrumented memory accesses of code compiled into the harness","sampled, not exhaustive"]+meta.get("assumptions",[]),
      "wall_s":round(time.time()-T0,2),"violations":nviol}
    os.makedirs(os.path.join(V,"evidence"),exist_ok=True)
    json.dump(ev,open(os.path.join(V,"evidence",prop+".json"),"w"),indent=1)
    for sc,cl,desc in known:
        hit=[v for v in kn if v["scenario"]==sc and v["class"]==cl]
        print("KNOWN-FINDING: property=%s %s/%s %s%s"%(prop,sc,cl,desc,"" if hit else " (not reached in this run)"))
    for l in lines: print(l)
    log("exit",rc); sys.stdout.flush(); return rc
if __name__=="__main__": sys.exit(main())
