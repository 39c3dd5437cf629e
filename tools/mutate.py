#!/usr/bin/env python3
"""Mutation sweep, to find behaviour the checks do not reach.
  mutate.py gen N SEED          N random one-token changes of the sources that build and pass the stable tests -> /tmp/mut/survivors.jsonl
  mutate.py base                results of all quick traces on the clean tree -> /tmp/mut/base.pkl
  mutate.py run [FILE]          executes the traces on each survivor until a result differs -> /tmp/mut/result.jsonl
A difference from the clean tree's result (which the specification accepted) is what the checks would report."""
import os,sys,re,json,random,subprocess,shutil,pickle,time
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V)
from concurrent.futures import ThreadPoolExecutor
import threading
M="/tmp/mut"
SKIP={"blake3_dispatch.c","cryptokitBignumOld.ml"}
def code_lines(f):
    s=open("/repo/src/"+f).read()
    if f.endswith(".ml"): s=re.sub(r"\(\*.*?\*\)",lambda m:re.sub(r"[^\n]"," ",m.group()),s,flags=re.S)
    else:
        s=re.sub(r"/\*.*?\*/",lambda m:re.sub(r"[^\n]"," ",m.group()),s,flags=re.S); s=re.sub(r"//[^\n]*",lambda m:" "*len(m.group()),s)
    return s.split("\n")
C_OPS=[(r"(?<![<>=!\-])<(?![<=])","<="),(r"<=(?!=)","<"),(r"(?<![<>=!\-])>(?![>=])",">="),(r"(?<!>)>=",">"),(r"==","!="),(r"!=","=="),
 (r"(?<![+\w(,=]) \+ (?![+=])"," - "),(r" \+ "," - "),(r" - "," + "),(r"\+=","-="),(r"-=","+="),(r"&&","||"),(r"\|\|","&&"),(r"<<",">>"),(r">>(?!=)","<<"),
 (r" \^ "," | "),(r"\^=","|="),(r" \| "," ^ "),(r" & "," | "),(r"(?<![&])&(?![&=])(?= )","|"),(r"\b0x([0-9a-fA-F]+)",None),(r"(?<![\w.])\d+(?![\w.])",None),
 (r"if \((.*)\) *(\{?.*)$","NEG"),(r"\((u_)?(int|uint64_t|size_t|unsigned long|u64|unsigned long long|intnat|mlsize_t)\) *(?=[\w(])","CAST"),(r"^\s+[\w>.\-\[\]*()+ ]+ ?[|^+\-&]?= ?.*;\s*$","DEL"),(r"^\s+\w[\w]*\(.*\);\s*$","DEL"),(r"^\s+(return|break|continue).*;\s*$","DEL")]
ML_OPS=[(r" < "," <= "),(r" <= "," < "),(r" > "," >= "),(r" >= "," > "),(r" <> "," = "),(r"(?<=if )(.*) = (?=.*then)","NEQ"),(r" \+ "," - "),(r" - "," + "),
 (r" && "," || "),(r" \|\| "," && "),(r" land "," lor "),(r" lor "," land "),(r" lsl "," lsr "),(r" lsr "," lsl "),(r"(?<![\w.])\d+(?![\w.])",None),(r"0x[0-9A-Fa-f]+",None),
 (r"^\s+[^=]*<- .*;\s*$","DEL"),(r"^\s+[\w#. ()]+;\s*$","DEL"),(r"\btrue\b","false"),(r"\bfalse\b","true"),(r"if (.*) then","NEGML"),(r" min "," max "),(r"\bmod\b","/")]
def mutants(f,r):
    raw=open("/repo/src/"+f).read().split("\n"); out=[]
    for i,l in enumerate(code_lines(f)):
        if not l.strip() or l.lstrip().startswith("#") or l.strip() in("{","}","};"): continue
        if len(re.findall(r"0x[0-9A-Fa-f]{6,}",l))>=3 or re.match(r"^\s*(0x|\d+,)",l) : continue    # tables
        if f.endswith(".ml") and re.search(r"register_printer|Printexc|external |exception |^open ",l): continue
        for pat,rep in (ML_OPS if f.endswith(".ml") else C_OPS):
            for m in re.finditer(pat,l):
                if rep is None:
                    t=m.group(); v=int(t,16 if t[:2]=="0x" else 10)
                    news=[(hex if t.startswith("0x") else str)(x) for x in (v+1,v-1) if x>=0]
                elif rep=="NEG": news=["if (!(%s)) %s"%(m.group(1),m.group(2))]
                elif rep=="NEGML": news=["if not (%s) then"%m.group(1)]
                elif rep=="NEQ": news=["%s <> "%m.group(1)]
                elif rep=="CAST": news=["(uint32_t) "]
                elif rep=="DEL": news=[";"] if not f.endswith(".ml") else [re.match(r"\s*",l).group()+"();"]
                else: news=[rep]
                for nw in news:
                    n=l[:m.start()]+nw+l[m.end():]
                    if n!=l and raw[i].rstrip()==l.rstrip(): out.append((f,i,raw[i],n))
    return out
def apply(src,f,i,n):
    p=os.path.join(src,f); s=open(p).read().split("\n"); s[i]=n; open(p,"w").write("\n".join(s))
ENV=". /opt/vp/env.sh; unset DUNE_WORKSPACE; "
def test(d):
    try:
        r=subprocess.run(["/bin/bash","-c",ENV+"cd %s && timeout 120 dune build --root . --profile release @@default >/dev/null 2>&1 || exit 9; cd _build/default/test && timeout 60 ./test.exe > %s/log 2>&1 </dev/null"%(d,d)],timeout=300)
    except subprocess.TimeoutExpired: return "hang"
    if r.returncode==9: return "nobuild"
    if r.returncode: return "killed"
    s=open(d+"/log").read()
    return "survived" if "All tests successful." in s and "BROKEN" not in s and "Bad result" not in s else "killed"
def gen(N,seed,files=None):
    r=random.Random(seed)
    fs=[f for f in sorted(os.listdir("/repo/src")) if f.endswith((".c",".h",".ml")) and f not in SKIP]
    if files: fs=[f for f in fs if re.search(files,f)]
    allm={f:mutants(f,r) for f in fs}
    tot=sum(len(v)**.5 for v in allm.values()); todo=[]
    for f,v in allm.items():
        k=min(len(v),max(6,int(N*len(v)**.5/tot)))
        if f=="cryptokit.ml": k=min(len(v),k*3)
        todo+=r.sample(v,k)
    r.shuffle(todo); print(len(todo),{f:len(v) for f,v in allm.items()},flush=True)
    loc=threading.local(); cnt={}; lk=threading.Lock(); out=open(M+"/survivors.jsonl","a"); ids=iter(range(100))
    def one(m):
        if not hasattr(loc,"d"):
            with lk: loc.d=M+"/w%d"%next(ids)
            shutil.rmtree(loc.d,ignore_errors=True); subprocess.run(["cp","-a","/repo",loc.d])
        f,i,o,n=m; apply(loc.d+"/src",f,i,n); x=test(loc.d); shutil.copy("/repo/src/"+f,loc.d+"/src/"+f)
        with lk:
            cnt[x]=cnt.get(x,0)+1
            if x=="survived": out.write(json.dumps(m)+"\n"); out.flush()
            if sum(cnt.values())%50==0: print(cnt,flush=True)
    with ThreadPoolExecutor(8) as ex: list(ex.map(one,todo))
    print(cnt)
    for k in range(20): shutil.rmtree(M+"/w%d"%k,ignore_errors=True)
ORDER=["C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C16","C17","C18","C19","C20","C21","C22"]
FIRST=[(r"sha|keccak|blake|ripemd|md5","C07 C06 C08 C20 C19 C21 C22"),(r"siphash","C08 C07 C20 C19 C21"),(r"aes|rijndael","C01 C22 C02 C20 C19"),(r"des","C01 C08 C20 C19"),(r"blowfish","C01 C20 C19"),
 (r"chacha|arcfour","C05 C14 C20 C19 C22"),(r"ghash|pclmul|poly1305","C09 C22 C20 C10 C19"),(r"rng","C14 C19"),(r"zlib","C13 C19"),(r"misc","C18 C19"),(r"Bignum","C18 C15 C16 C17")]
def order(f):
    o=[]
    for p,s in FIRST:
        if re.search(p,f): o+=s.split()
    o=[p for p in o if p!="C20"]; return o+[p for p in ORDER if p not in o and p!="C20"]+["C20"]
def traces(p,all_=False):
    from vk import props,core
    from vk import p_mid,p_gc
    c=core.Ctx(p,"quick",1,0); props.PROPS[p].fn(c)
    if p in p_mid.MID: p_mid.MID[p](c)
    p_gc.rel(c)
    return [t for t in c.traces if all_ or not (any(k.get("kind") in("hardware","system","secure") for o,k in t.ops if o=="new") or t.id.startswith("secure"))]
def norm(res): return {k:[(s,n,b) for s,n,b in v] for k,v in res.items()}
def base():
    from vk import trace
    B={}
    for p in ORDER:
        ts=traces(p); t0=time.time(); a,_=trace.execute(ts); t1=time.time(); b,_=trace.execute(ts)
        B[p]=(norm(a),{(k,j) for k in a for j in range(len(a[k])) if a[k][j]!=b.get(k,[None]*9999)[j]}); print(p,len(a),"traces",len(B[p][1]),"unstable",round(t1-t0,1),flush=True)
    pickle.dump(B,open(M+"/base.pkl","wb"))
def diff(p,B,f):
    from vk import trace
    if p=="C20" or (p=="C14" and "rng" in f):      # what memory holds once wiped may differ; the specification decides
        from vk import core
        ts=traces(p,True); res,_=trace.execute(ts)
        rej=core.judge(ts,res,workers=4)
        return "%s %s"%(p,sorted(rej)[0]) if rej else None
    a,_=trace.execute(traces(p)); a=norm(a); ref,uns=B[p]
    for k in ref:
        if k not in a: return "%s %s not run"%(p,k)
        for j in range(len(ref[k])):
            if (k,j) in uns: continue
            if j>=len(a[k]) or a[k][j]!=ref[k][j]: return "%s %s op %d"%(p,k,j)
    return None
def run(fn):
    """must be started with VERIF_REPO=/tmp/mut/repo, from a copy of /verif"""
    from vk import build
    B=pickle.load(open(M+"/base.pkl","rb")); R=os.environ["VERIF_REPO"]
    done=set()
    if os.path.exists(M+"/result.jsonl"): done={json.dumps(json.loads(l)["m"]) for l in open(M+"/result.jsonl")}
    out=open(M+"/result.jsonl","a")
    part=os.environ.get("MUT_PART","0/1").split("/")
    for k,l in enumerate(open(fn)):
        if k%int(part[1])!=int(part[0]): continue
        m=json.loads(l)
        if json.dumps(m) in done: continue
        f,i,o,n=m; shutil.rmtree(R,ignore_errors=True); subprocess.run(["cp","-a",M+"/clean",R]); apply(R+"/src",f,i,n); v=None; t0=time.time()
        try:
            hits=[]
            for p in order(f):
                if p=="C20" and hits and not re.search("wipe|memset|NULL|= 0",o): continue
                v=diff(p,B,f)
                if v: hits.append(v)
            v="; ".join(hits)
        except build.BuildError: v="build error"
        except RuntimeError as x: v="runtime: "+str(x)[:100]
        out.write(json.dumps({"m":m,"v":v,"t":round(time.time()-t0)})+"\n"); out.flush()
        if not v: print("MISSED",f,i+1,"|",o.strip(),"=>",n.strip(),flush=True)
if __name__=="__main__":
    os.makedirs(M,exist_ok=True)
    if sys.argv[1]=="gen": gen(int(sys.argv[2]),int(sys.argv[3]),sys.argv[4] if len(sys.argv)>4 else None)
    elif sys.argv[1]=="base": base()
    else: run(sys.argv[2] if len(sys.argv)>2 else M+"/survivors.jsonl")
