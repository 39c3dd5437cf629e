"""Call histories generated by TLC from spec/Histories.tla, and their replay on real objects"""
import json,re
from . import tlc
_cache={}
def histories(D,puts=("p0","p1","pm","pb","pp","p2"),others=("fl","gs","gc")):
    k=(D,puts,others)
    if k not in _cache:
        cfg="INIT Init\nNEXT Next\nINVARIANT Leaf\nCHECK_DEADLOCK FALSE\nCONSTANTS\n D = %d\n Puts = {%s}\n Others = {%s}\n"%(D,",".join('"%s"'%x for x in puts),",".join('"%s"'%x for x in others))
        r=tlc.run("Histories",cfg=cfg,workers=1)
        if not r.ok:
            from .trace import ModelError
            raise ModelError("Histories: "+r.out[-2000:])
        hs=[json.loads(json.loads(l)) for l in r.out.split("\n") if l.startswith('"[')]
        if not hs: 
            from .trace import ModelError
            raise ModelError("Histories: no output\n"+r.out[-2000:])
        _cache[k]=(hs,r.distinct,r.generated)
    return _cache[k]
def simulate(c,D,n,puts,others):
    """long random histories with the same life cycle"""
    out=[]
    for _ in range(n):
        h=[]; done=False
        while len(h)<D:
            x=c.r.random()
            if x<0.06 and not done and len(h)>D//2: h.append("fin"); done=True
            elif x<0.6 and not done: h.append(c.r.choice(puts))
            else: h.append(c.r.choice(others))
        out.append(h)
    return out
def size(a,B): return {"p0":0,"p1":1,"pm":max(0,B-1),"pb":B,"pp":B+1,"p2":2*B+1,"p9":9*B+4}[a]
def replay(c,t,o,h,B,src,fin="finish",ms=("sub","str","chr","byte")):
    """performs history h on object o; src(n) supplies the next n input bytes"""
    for a in h:
        if a[0]=="p":
            d=src(size(a,B)); m=c.r.choice(ms)
            if len(d)>64 and m in("chr","byte"): m="sub"
            kw={}
            if m=="sub" and c.r.random()<.5: kw=dict(pre=c.r.randrange(9),post=c.r.randrange(9))
            t.op("put",o=o,d=d,m=m,**kw)
        elif a=="fl": t.op("flush",o=o)
        elif a=="gs": t.op(c.r.choice(["gets","gets","getsub"]),o=o)
        elif a=="gc": t.op(c.r.choice(["getc","getb"]),o=o)
        elif a=="gn": t.op("getn",o=o,k=c.r.choice([2,B,B+1,3*B]))
        elif a=="av": t.op("avail",o=o)
        elif a=="fin": t.op(fin,o=o)
