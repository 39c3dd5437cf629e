"""Executes operation scripts on the conformance driver and validates the recorded
traces against the TLA+ specification (spec/Trace.tla)."""
import os,sys,json,subprocess,threading,time,select,tempfile,re,signal
from concurrent.futures import ThreadPoolExecutor
from . import build,tlc
VERIF=build.VERIF
MAXI=2**31-1
class T:
    """one trace: a list of operations (dicts)"""
    def __init__(self,id,variant="hw"): self.id=id; self.ops=[]; self.nid=0; self.variant=variant; self.gb=10
    def op(self,op,**kw):
        self.ops.append((op,kw)); return self
    def last(self,**kw): return Ref(len(self.ops)-1,**kw)
    def new(self,cls,**kw):
        self.nid+=1; self.op("new",o=self.nid,cls=cls,**kw); return self.nid
    def oid(self): self.nid+=1; return self.nid
    def lines(self):
        return [line(o,k) for o,k in self.ops]
class Ref:
    """bytes derived from the result of operation k (0-based) of the same trace"""
    def __init__(self,k,a=0,b=-1,pos=-1,mask=0,app=b"",fld=-1): self.v=(k,a,b,pos,mask,app,fld)
    def __str__(self): k,a,b,pos,mask,app,fld=self.v; return "@%d:%d:%d:%d:%d:%s:%d"%(k,a,b,pos,mask,app.hex(),fld)
    def get(self,res):
        k,a,b,pos,mask,app,fld=self.v
        r=res[k][2] if k<len(res) else b""
        if fld>=0: f=unpack(r); r=f[fld] if fld<len(f) else b""
        a=min(a,len(r)); b=len(r) if b<0 else max(a,min(b,len(r)))
        x=bytearray(r[a:b])
        if 0<=pos<len(x): x[pos]^=mask
        return bytes(x)+app
def unpack(r):
    o=[]
    while len(r)>=2:
        n=r[0]*256+r[1]
        if len(r)<n+2: break
        o.append(r[2:n+2]); r=r[n+2:]
    return o
def line(op,kw):
    p=[op]
    for k,v in kw.items():
        if k.startswith("_"): continue
        if isinstance(v,(bytes,bytearray)): v="x"+bytes(v).hex()
        p.append("%s=%s"%(k,v))
    return " ".join(p)
def clip(n): return max(-MAXI,min(MAXI,n))
REN={"n":"nn","e":"ex","d":"dd"}
def event(op,kw,res,all=()):
    e={"op":op}
    for k,v in kw.items():
        if op in("churn","oom") and k=="body": continue
        if k.startswith("_"):
            k=k[1:]
            if k=="timeout": continue
        elif op=="new" and k=="n": k="cn"
        elif op in("bulkctr",) and k=="n": k="cnt"
        elif (op.startswith("rsa_") or op.startswith("pai_")) and op!="rsa_new" and k in REN: k=REN[k]
        if isinstance(v,Ref): v=v.get(all)
        if isinstance(v,(bytes,bytearray)): v=list(v)
        elif isinstance(v,bool): v=int(v)
        elif isinstance(v,int): v=clip(v)
        e[k]=v
    if "big" in e: del e["big"]; e.pop("big2",None)
    s,n,b=res
    e["s"]=s; e["n"]=clip(n); e["rb"]=list(b)
    return e

class Driver:
    def __init__(self,exe,env=None,cwd=None,gb=0):
        e=dict(build.env()); e["ASAN_OPTIONS"]="detect_leaks=0:abort_on_error=0:exitcode=99"
        e.update(env or {})
        self.err=tempfile.TemporaryFile()
        self.p=subprocess.Popen([exe],stdin=subprocess.PIPE,stdout=subprocess.PIPE,stderr=self.err,env=e,cwd=cwd,bufsize=0,preexec_fn=limits(gb))
        self.buf=b""; self.pending=0
    def readline(self,timeout):
        end=time.time()+timeout
        while b"\n" not in self.buf:
            left=end-time.time()
            if left<=0: return "hang"
            r,_,_=select.select([self.p.stdout],[],[],left)
            if not r: return "hang"
            d=os.read(self.p.stdout.fileno(),1<<16)
            if not d: return "crash"
            self.buf+=d
        l,self.buf=self.buf.split(b"\n",1)
        return l.decode()
    def send(self,s):
        try: self.p.stdin.write(s.encode())
        except (BrokenPipeError,OSError): pass
    def close(self):
        try: self.p.kill()
        except OSError: pass
        self.p.wait()
        for f in (self.p.stdin,self.p.stdout,self.err):
            try: f.close()
            except OSError: pass
def parse(l):
    m=re.match(r"s=(\S+) n=(-?\d+) b=x([0-9a-f]*)$",l)
    if not m: raise RuntimeError("bad driver line: "+l[:200])
    return (m.group(1),int(m.group(2)),bytes.fromhex(m.group(3)))
OPTIMEOUT=20
MAXHANGS=2
def limits(gb):
    import resource
    def f():
        resource.setrlimit(resource.RLIMIT_CORE,(0,0))
        if gb: resource.setrlimit(resource.RLIMIT_AS,(gb<<30,gb<<30))
    return f
def exec_traces(exe,traces,env=None,hangs=None):
    """sequentially, in one process (restarted after a crash). Returns {id: [(s,n,b)...]};
    after several hangs the remaining traces are left out"""
    res={}; i=0; d=None; hangs=[0] if hangs is None else hangs
    gb=0 if "/asan/" in exe else max([t.gb for t in traces])
    scratch=tempfile.mkdtemp(prefix="drv",dir=build.BUILD)
    ev=dict(env or {}); ev["TMPDIR"]=scratch
    try:
        while i<len(traces) and hangs[0]<MAXHANGS:
            if d is None: d=Driver(exe,ev,scratch,gb)
            t=traces[i]
            # operations of one trace are pipelined by a writer thread
            w=threading.Thread(target=d.send,args=("trace\n"+"\n".join(t.lines())+"\n",),daemon=True); w.start()
            out=[]; dead=False
            for op,kw in t.ops:
                l=d.readline(kw.get("_timeout",OPTIMEOUT))
                if l in("crash","hang"):
                    out.append((l,0,b"")); dead=True
                    if l=="hang" or d.p.poll() is None: hangs[0]+=(l=="hang")
                    break
                r=parse(l)
                if r[0].startswith("DRV"): raise RuntimeError("driver: %s in %s"%(r[0],line(op,kw)[:300]))
                out.append(r)
            if dead: d.close(); d=None
            w.join()
            res[t.id]=out; i+=1
    finally:
        if d: d.close()
        subprocess.run(["/bin/rm","-rf",scratch])
    return res
def execute(traces,procs=8,env=None):
    """all traces, on the driver variant each asks for"""
    byv={}
    for t in traces: byv.setdefault(t.variant,[]).append(t)
    ids=[t.id for t in traces]
    if len(set(ids))!=len(ids): raise RuntimeError("duplicate trace ids: "+str([i for i in ids if ids.count(i)>1][:5]))
    jobs=[]; job={}
    for v,ts in byv.items():
        exe=build.build(v)
        for t in ts:
            if t.gb>10: jobs.append((exe,[t])); job[t.id]=[t]       # long-running: on its own
        ts=[t for t in ts if t.gb<=10]
        k=max(1,min(procs,len(ts)))
        for j in range(k):
            g=ts[j::k]
            if g: jobs.append((exe,g))
            for t in g: job[t.id]=g
    res={}; hangs=[0]
    with ThreadPoolExecutor(procs) as ex:
        for r in ex.map(lambda j:exec_traces(j[0],j[1],env,hangs),jobs): res.update(r)
    return res,job
class ModelError(Exception): pass
class EvalError(Exception):
    def __init__(self,tid,l,msg): Exception.__init__(self,msg); self.tid,self.l,self.msg=tid,l,msg
def events(t,res):
    return [event(o,k,r,res) for (o,k),r in zip(t.ops,res)]
def validate(recs,workers=8,timeout=800,heap="6g",module="Trace"):
    """recs: list of (id, events). Returns (rejections {id:(index, expected text)}, states)"""
    if not recs: return {},0
    os.makedirs(build.BUILD,exist_ok=True)
    fd,p=tempfile.mkstemp(prefix="traces",suffix=".ndjson",dir=build.BUILD)
    try:
        with os.fdopen(fd,"w") as f:
            # longest first, so that workers finish together
            for k,(i,ev) in enumerate(recs):
                f.write(json.dumps({"id":str(i),"ev":ev},separators=(",",":"))+"\n")
        r=tlc.run(module,workers=workers,env={"TRACES":p},timeout=timeout,heap=heap)
    finally: os.remove(p)
    if not r.ok:
        m=re.findall(r"(?m)^/\\ tid = (\d+)",r.out); k=re.findall(r"(?m)^/\\ l = (\d+)",r.out)
        if m and k and r.rc not in(-1,) and "OutOfMemory" not in r.out and "StackOverflow" not in r.out:
            x=re.search(r"(?s)Error: (.*?)Error: The behavior",r.out)
            raise EvalError(int(m[-1]),int(k[-1]),re.sub(r"\s+"," ",x.group(1)) if x else r.out[:500])
        raise ModelError("TLC failed (rc %s):\n%s"%(r.rc,r.out[-5000:]))
    rej={}
    txt=r.out
    for m in re.finditer(r'<<\s*"REJECT",\s*"([^"]*)",\s*(\d+),(.*?)(?=\n<<\s*"REJECT"|\n[A-Z][a-z]|\Z)',txt,re.S):
        rej[m.group(1)]=(int(m.group(2)),re.sub(r"\s+"," ",m.group(3))[:600])
    want=len(recs)+sum(len(ev) if str(i) not in rej else rej[str(i)][0] for i,ev in recs)
    if r.distinct!=want: raise ModelError("TLC explored %d states, expected %d:\n%s"%(r.distinct,want,r.out[-3000:]))
    return rej,r.distinct
