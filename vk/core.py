"""Runs the check of one property: small exhaustive models, then conformance of the real
code (operation traces recorded from it must be behaviours of spec/Cryptokit.tla)."""
import os,sys,json,time,random,hashlib,traceback,base64,re
from concurrent.futures import ThreadPoolExecutor
from . import build,tlc,trace
from .trace import T,ModelError
VERIF=build.VERIF
class Ctx:
    """collects the traces and models of one round"""
    def __init__(self,prop,tier,seed,rnd=0):
        self.prop,self.tier,self.seed,self.round=prop,tier,seed,rnd
        self.r=random.Random("%s/%s/%d"%(prop,seed,rnd))
        self.rb=self.r.randbytes
        self.traces=[]; self.names=set()
        self.quick=(tier=="quick"); self.first=(rnd==0)
    def t(self,name,variant="hw"):
        n="%s.%s"%(name,variant); k=2
        while n in self.names: n="%s#%d.%s"%(name,k,variant); k+=1
        self.names.add(n)
        t=T(n,variant); self.traces.append(t); return t
    def n(self,quick,thorough=None):
        return quick if self.quick or thorough is None else thorough
class Gen:
    def __init__(self,fn,models=(),variants=("hw",),budget=900,post=None):
        self.fn,self.models,self.variants,self.budget,self.post=fn,models,variants,budget,post
# ---- replay files
def enc(v):
    if isinstance(v,trace.Ref): k,a,b,pos,mask,app,fld=v.v; return {"r":[k,a,b,pos,mask,app.hex(),fld]}
    return {"x":v.hex()} if isinstance(v,(bytes,bytearray)) else v
def dec(v):
    if isinstance(v,dict) and "r" in v: return trace.Ref(*v["r"][:5],bytes.fromhex(v["r"][5]),v["r"][6])
    return bytes.fromhex(v["x"]) if isinstance(v,dict) else v
def dump_traces(ts): return [{"id":t.id,"variant":t.variant,"ops":[[o,{k:enc(v) for k,v in kw.items()}] for o,kw in t.ops]} for t in ts]
def load_traces(js):
    r=[]
    for j in js:
        t=T(j["id"],j["variant"]); t.ops=[(o,{k:dec(v) for k,v in kw.items()}) for o,kw in j["ops"]]; r.append(t)
    return r
def write_replay(prop,ts,target,info):
    d=os.path.join(VERIF,"replays"); os.makedirs(d,exist_ok=True)
    js={"property":prop,"target":target,"traces":dump_traces(ts),"info":info}
    s=json.dumps(js,indent=0)
    p=os.path.join(d,"%s-%s.json"%(prop,hashlib.sha256(s.encode()).hexdigest()[:12]))
    open(p,"w").write(s); return p
def weight(t):
    return sum(len(v) for o,k in t.ops for v in k.values() if isinstance(v,(bytes,bytearray)))+50*len(t.ops)
# ---- execution and validation
def judge(ts,res,stats=None,workers=8):
    """-> {id:(index,expected)} rejected traces"""
    recs=[(t.id,trace.events(t,res[t.id])) for t in ts if t.id in res]
    # equal recordings (of different builds) are validated once
    first={}; same={}
    for i,ev in recs: same.setdefault(first.setdefault(hashlib.sha256(json.dumps(ev).encode()).digest(),i),[]).append(i)
    rej={}; pend=[x for x in recs if x[0] in same]; errs=0
    while pend:
        try:
            r,n=trace.validate(pend,workers=workers); rej.update(r)
            if stats is not None:
                stats["states"]+=n; stats["traces"]+=sum(len(same[i]) for i,_ in pend)
            break
        except trace.EvalError as x:
            errs+=1
            if errs>4: raise ModelError("too many evaluation errors\n"+str(x)[-3000:])
            i=pend[x.tid-1][0]; rej[i]=(x.l,"the specification cannot make sense of this event: "+x.msg[:300])
            pend=[p for p in pend if p[0]!=i]
    for i in list(rej):
        for j in same[i]: rej[j]=rej[i]
    return rej
def batches(ts,limit):
    b=[];w=0;out=[]
    for t in ts:
        b.append(t); w+=weight(t)
        if w>limit: out.append(b); b=[];w=0
    if b: out.append(b)
    return out
def show(t,idx,res,exp):
    op,kw=t.ops[idx-1]
    r=res[idx-1] if idx-1<len(res) else None
    return "trace %s, operation %d: %s\n  observed: s=%s n=%s b=%s\n  expected: %s"%(t.id,idx,trace.line(op,kw)[:400],r and r[0],r and r[1],r and r[2].hex()[:200],exp[:400])
def confirm(t,idx,jobs):
    """re-runs the rejected trace alone, then after the same predecessors; returns the
    traces to replay, or None"""
    for group in ([t],jobs.get(t.id)):
        if not group: continue
        res=trace.exec_traces(build.build(t.variant),group)
        rej=judge([t],res)
        if t.id in rej: return group,rej[t.id],res[t.id]
    return None
def process(ts,stats,log):
    """executes and validates; returns a confirmed violation or None"""
    todo=batches(ts,4_000_000); again=set()
    while todo:
        b=todo.pop(0); res,jobs=trace.execute(b)
        left=[t for t in b if t.id not in res]          # left out after several operations that did not end
        if left and not again.intersection(t.id for t in left):
            again.update(t.id for t in left); todo.append(left)
        for t in b:
            if t.id not in res: continue
            stats["executed"]+=1
            for (o,k),r in zip(t.ops,res[t.id]):
                key=o+(":"+k["cls"] if o=="new" else "")
                stats["ops"][key]=stats["ops"].get(key,0)+1
                if r[0]!="ok": stats["errors"][r[0]]=stats["errors"].get(r[0],0)+1
        rej=judge(b,res,stats)
        by={t.id:t for t in b}
        for i in sorted(rej,key=lambda i:(res[i][-1][0]=="hang",weight(by[i])))[:6]:
            t=by[i]
            c=confirm(t,rej[i][0],jobs)
            if c:
                group,(idx,exp),r=c
                return t,group,show(t,idx,r,exp)
            log("not repeated: "+show(t,rej[i][0],res[i],rej[i][1]))
    return None
def models(ms,tier,stats,log):
    for m in ms:
        name,cfg,opts=m if len(m)==3 else (m[0],m[1],{})
        if opts.get("thorough") and tier=="quick": continue
        t0=time.time()
        r=tlc.run(name,cfg=cfg,workers=opts.get("workers",2),args=opts.get("args",()),timeout=opts.get("timeout",800 if tier=="quick" else 3000),heap=opts.get("heap","3g"))
        if not r.ok: raise ModelError("model %s %s failed (rc %s):\n%s"%(name,cfg,r.rc,r.out[-4000:]))
        stats["mstates"]+=r.distinct; stats["mtrans"]+=r.generated
        stats["models"].append({"module":name,"cfg":(cfg or name).split("\n")[0][:80],"distinct_states":r.distinct,"generated":r.generated,"wall_s":round(time.time()-t0,1)})
def sample(t):
    return {"trace":t.id,"ops":[trace.line(o,k)[:160] for o,k in t.ops[:8]],"length":len(t.ops)}
def evidence(prop,tier,seed,stats,wall,viol,samples,extra):
    d=os.path.join(VERIF,"evidence"); os.makedirs(d,exist_ok=True)
    cov={"states":stats["states"]+stats["mstates"],"transitions":stats["mtrans"]+max(0,stats["states"]-stats["traces"]),
         "traces_validated_against_impl":stats["traces"],"samples":samples,
         "model_states":stats["mstates"],"trace_states":stats["states"],"models":stats["models"],
         "operations":stats["ops"],"exceptional_results":stats["errors"],"rounds":stats["rounds"]}
    cov.update(extra or {})
    js={"property":prop,"tier":tier,"seed":seed,"level":"model_checking","coverage":cov,"wall_s":round(wall,1),"violations":viol,
        "assumptions":["the TLA+ definitions (checked against published test vectors in KAT.tla) are the standards","Java overrides of word and big-number operators agree with their TLA+ definitions (SelfCheck.tla)"]}
    p=os.path.join(d,prop+".json"); tmp=p+".tmp%d"%os.getpid()
    json.dump(js,open(tmp,"w"),indent=1); os.replace(tmp,p)
EVERYWHERE=("hw","sw","asan")
def everywhere(c):
    """each trace is also executed on the other builds (equal recordings are validated once)"""
    from .p_var import clone,NOT
    for t in list(c.traces):
        if t.gb>10 or any(o in NOT or k.get("kind") in("hardware","system","secure") for o,k in t.ops) or t.variant not in EVERYWHERE or t.id.startswith("secure"): continue
        for v in EVERYWHERE:
            if v!=t.variant: clone(c,t,v)
    by={}
    for t in c.traces: by.setdefault(t.id.rsplit(".",1)[0],[]).append(t)
    c.traces=[t for g in by.values() for t in g]       # the same trace on several builds falls in one batch
def newstats(): return {"states":0,"traces":0,"executed":0,"mstates":0,"mtrans":0,"models":[],"ops":{},"errors":{},"rounds":0}
def run(prop,tier,seed):
    from . import props,p_mid,p_gc
    g=props.PROPS[prop]; t0=time.time(); stats=newstats(); log=lambda s:print(s,flush=True)
    samples=[]; viol=None; extra={}
    with ThreadPoolExecutor(8) as ex:
        tlc.classes()
        fm=ex.submit(models,g.models,tier,stats,log)
        try:
            for f in [ex.submit(build.build,v) for v in g.variants]: f.result()
        except build.BuildError as x:
            log(str(x)); return 3
        rnd=0
        while True:
            c=Ctx(prop,tier,seed,rnd); g.fn(c)
            if prop in p_mid.MID: p_mid.MID[prop](c)
            p_gc.rel(c)
            if prop not in("C20","C22","C23"): everywhere(c)
            stats["rounds"]+=1
            if rnd==0:
                k=max(1,len(c.traces)//3); samples=[sample(t) for t in c.traces[::k][:3]]
            viol=process(c.traces,stats,log)
            if viol is None and g.post:
                v=g.post(c,stats,log)
                if v: viol=v
            rnd+=1
            if viol or tier=="quick" or time.time()-t0>g.budget: break
        fm.result()
    wall=time.time()-t0
    evidence(prop,tier,seed,stats,wall,1 if viol else 0,samples,extra)
    log("%s %s: %d traces validated (%d states), %d model states, %.1f s"%(prop,tier,stats["traces"],stats["states"],stats["mstates"],wall))
    if viol:
        t,group,info=viol
        log(info)
        p=write_replay(prop,group,t.id if t else None,info)
        print("VIOLATION property=%s replay=%s"%(prop,p),flush=True)
        return 1
    return 0
def main(argv):
    prop=argv[1]; tier=argv[2] if len(argv)>2 else os.environ.get("VERIF_TIER","quick")
    try: seed=int(os.environ.get("VERIF_SEED","1"))
    except ValueError: seed=1
    try: rc=run(prop,tier,seed)
    except ModelError as x: print("MODEL ERROR: "+str(x)[-6000:]); rc=2
    except Exception: traceback.print_exc(); rc=4
    sys.exit(rc)
