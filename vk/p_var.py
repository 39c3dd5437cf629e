"""C22: all build configurations"""
import os, subprocess
from .lib import *
from . import build
from . import core
from .trace import T
VARS=("hw","sw","byte","nozlib","asan")
SIM=("noaes","noclmul")
def simulated():
    """the builds for a simulated processor, unless the code asks the compiler's run time about features
    (the simulation answers the cpuid instruction only)"""
    d=os.path.dirname(os.path.dirname(build.build(SIM[0])))
    a=os.path.join(d,"src","libcryptokit_stubs.a")
    r=subprocess.run(["nm",a],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True)
    return () if r.returncode or "__cpu_model" in r.stdout or "getauxval" in r.stdout else SIM
def uses_zlib(t): return any(o=="new" and k.get("cls") in("zc","zu") for o,k in t.ops)
NOT=("eqcost","memdump","dirty","rndf","bulkhash","bulkctr")
def clone(c,t,v):
    n=c.t(t.id.rsplit(".",1)[0],v); n.nid=t.nid
    n.ops=[(o,dict(k)) for o,k in t.ops]
    if v=="nozlib":
        ops=[]
        for o,k in n.ops:
            if o=="new" and k.get("cls") in("zc","zu"): k=dict(k,_nozlib=1)
            ops.append((o,k))
        n.ops=ops
    return n
def c22(c):
    from . import props
    per={"C01":60,"C02":20,"C03":8,"C04":16,"C05":40,"C06":40,"C07":30,"C08":40,"C09":60,"C10":16,"C11":16,"C12":10,"C13":20,"C14":20,"C15":4,"C16":3,"C17":6,"C18":30,"C19":25,"C21":20}
    allv=VARS+tuple(simulated())
    for p,q in per.items():
        s=core.Ctx(p,c.tier if c.quick else "quick",c.seed*1000+7,c.round); g=props.PROPS[p]; g.fn(s)
        ts=[t for t in s.traces if not any(o in NOT for o,_ in t.ops) and t.gb<=10 and sum(len(v) for _,k in t.ops for v in k.values() if isinstance(v,bytes))<40000]
        # a trace whose choices refer to the build (e.g. hardware generator) is left out
        ts=[t for t in ts if not any(k.get("kind") in("hardware","system","secure","hwsim") for o,k in t.ops if o=="new")]
        # in a build without compression no object exists after a refused construction: keep only constructions
        for t in c.r.sample(ts,min(len(ts),c.n(q,4*q))) if p!="C09" else [t for t in ts if t.id.startswith("poly")][:c.n(45,200)]+c.r.sample(ts,min(len(ts),c.n(q,4*q))):
            for v in allv:
                if v in SIM and p not in("C01","C02","C03","C04","C09","C10","C14","C08","C19"): continue
                n=clone(c,t,v)
                if v=="nozlib" and uses_zlib(t): n.ops=[(o,k) for o,k in n.ops if o=="new" and k.get("cls") in("zc","zu")]
    for v in ("hw","sw","byte","nozlib","asan"):
        t=c.t("zlib",v)
        for i in range(6):
            kw=dict(_nozlib=1) if v=="nozlib" else {}
            if c.r.random()<.7: kw["hdr"]=c.r.randrange(2)
            if i%2: kw["level"]=c.r.randint(0,9)
            t.new("zc" if i%2 else "zu",**kw)
