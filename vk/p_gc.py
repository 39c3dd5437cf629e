"""C21: memory management and independence of objects"""
from .lib import *
from . import hist
from .p_wipe import objects,shape,src
from .p_trans import Src
from .p_zlib import *
KMAX=72
def ks(c,quick,thorough):
    """points of collection: words left in the minor heap"""
    a=list(range(KMAX)) if not c.quick else sorted(c.r.sample(range(KMAX),quick))
    return a+[-1,-2,-3,-40,-81]
def spread(c,step,n):
    """points of collection spread over a longer construction, at random offsets in each stretch"""
    a=list(range(n)) if not c.quick else [i+c.r.randrange(step) for i in range(0,n,step)]
    return a+[-1,-2,-3,-40,-81]
def finishop(kind): return {"T":"finish","P":"finish","A":"tag","H":"result"}.get(kind)
def use(c,t,o,u,kind,dk,g,n=None,alt=None):
    """one use of the object; g() gives the collection point of each call"""
    n=c.r.choice([u,2*u,u+1,3*u]) if n is None else n
    if kind=="B": t.op("btr",o=o,src=c.rb(u),sofs=0,dst=bytes(u),dofs=0,**g())
    elif kind=="S": t.op("str",o=o,src=c.rb(n),sofs=0,dst=bytes(n),dofs=0,len=n,**g())
    elif kind=="R": t.op("rstr",o=o,len=n,**g()); t.op("rnd",o=o,buf=bytes(n+3),ofs=1,len=n,**g())
    else:
        n=u*max(1,n//u) if alt is None else n
        t.op("put",o=o,d=src(c,dk,n),m=c.r.choice(["sub","sub","str","chr"] if n<80 else ["sub","str"]),**g())
        t.op(finishop(kind),o=o,**g())
        if kind!="H": t.op(c.r.choice(["gets","getsub"]),o=o,**g())
def step(c,t,x):
    """one random call on the object x = [o,u,kind,dk,done]"""
    o,u,kind,dk,done=x
    if kind in("B","S","R"): use(c,t,o,u,kind,dk,lambda:{},c.r.randint(0,2*u)); return
    y=c.r.random()
    if not done and y<.6: t.op("put",o=o,d=src(c,dk,c.r.choice([0,1,u-1,u,u+1,2*u+1])),m=c.r.choice(["sub","str","sub","byte"]))
    elif not done and y<.72:
        t.op(finishop(kind),o=o); x[4]=True
    elif kind!="H": anyread(c,t,o)
def relate(c,kw):
    """parameters that differ little from the given ones"""
    r=dict(kw); ks=[k for k,v in kw.items() if isinstance(v,(bytes,bytearray)) and v]
    if not ks: return r
    k=c.r.choice(ks+["key"]*("key" in ks)); v=bytearray(kw[k]); n=len(v); x=c.r.randrange(7)
    if x<2: i=c.r.choice([0,n-1,n//2,n//2-1,c.r.randrange(n)]); v[i]^=1<<c.r.randrange(8)
    elif x==2: v[n//2:]=c.rb(n-n//2)
    elif x==3: v[:n//2]=c.rb(n//2)
    elif x==4: v[:-1]=c.rb(n-1)
    elif x==5: v[1:]=c.rb(n-1)
    r[k]=bytes(v); return r
def related(c,objs,reps):
    """objects with equal or nearly equal parameters, passed in the caller's own buffers, which
    are filled anew for each; used one after the other and alternately"""
    for name,cls,kw,u,dk,kind in objs:
        if kind=="P" and kw.get("dir")=="dec": continue
        for rep in range(reps):
            t=c.t("rel-"+name,c.r.choice(["hw","hw","sw"])); base=shape(c,kw); xs=[]; cur=base
            for i in range(5):
                cur=relate(c,c.r.choice([base,cur]))
                sl=dict(slot=1) if c.r.random()<.7 and cls!="rng" else {}
                o=t.new(cls,**cur,**sl); x=[o,u,kind,dk,False]; xs.append(x)
                if c.r.random()<.6: step(c,t,c.r.choice(xs))
                step(c,t,x)
            for x in xs:
                if kind in("B","S","R"): use(c,t,x[0],u,kind,dk,lambda:{},u)
                elif not x[4]:
                    t.op("put",o=x[0],d=src(c,dk,u),m="sub") if kind!="P" else None
                    t.op(finishop(kind),o=x[0])
                    if kind!="H": t.op("gets",o=x[0])
def c21(c):
    objs=objects(c)
    for name,cls,kw,u,dk,kind in objs:
        if kind=="P" and kw.get("dir")=="dec": continue
        v=c.r.choice(["hw","hw","sw"])
        # collections during construction
        t=c.t("new-"+name,v)
        for k in spread(c,6 if kind!="A" else 2,150):
            o=t.new(cls,gc=k,**shape(c,kw)); use(c,t,o,u,kind,dk,lambda:{},2*u if u>16 else None)
        # during use
        t=c.t("use-"+name,v)
        for k in ks(c,8,KMAX):
            o=t.new(cls,**shape(c,kw)); use(c,t,o,u,kind,dk,lambda:dict(gc=k) if c.r.random()<.8 else dict(gc=c.r.randrange(KMAX)),2*u if u>16 else None)
        # during one call only, so that the object itself is still young and moves
        t=c.t("move-"+name,v)
        for which in range({"B":1,"S":1,"R":2,"H":2}.get(kind,3)):
            for k in (list(range(12))+sorted(c.r.sample(range(12,KMAX),4)) if c.quick else range(KMAX)):
                cnt=[0]
                def g():
                    cnt[0]+=1
                    return dict(gc=k) if cnt[0]-1==which else {}
                o=t.new(cls,**shape(c,kw)); use(c,t,o,u,kind,dk,g,2*u if u>16 else None)
        # arguments changed or dropped after construction
        t=c.t("args-"+name,v)
        for i in range(c.n(2,6)):
            m=dict(mut=1) if c.r.random()<.6 else dict(keep=1)
            if cls=="rng": m={}
            o=t.new(cls,**shape(c,kw),**m); p=t.new(cls,**shape(c,kw)); t.op("drop",o=p)
            use(c,t,o,u,kind,dk,lambda:{})
            t.op("chkin")
            if kind in("H","A") and c.r.random()<.5: t.op("wipe",o=o); t.op("drop",o=o)
    # interleavings: several objects of one class, then of several classes
    for name,cls,kw,u,dk,kind in objs:
        if cls=="rng": continue
        t=c.t("twins-"+name,c.r.choice(["hw","hw","sw"])); xs=[[t.new(cls,**shape(c,kw)),u,kind,dk,False] for _ in range(3)]
        for i in range(c.n(12,40)):
            step(c,t,c.r.choice(xs))
            if c.r.random()<.05: t.op("gc",m=c.r.choice(["minor","full","compact"]))
            if c.r.random()<.06: xs[c.r.randrange(3)]=[t.new(cls,**shape(c,kw)),u,kind,dk,False]
        for x in xs:
            if kind not in("B","S","R") and not x[4]:
                if not kind=="P": t.op("put",o=x[0],d=src(c,dk,u),m="sub")
                t.op(finishop(kind),o=x[0])
                if kind!="H": t.op("gets",o=x[0])
    related(c,objs,c.n(1,3))
    for i in range(c.n(25,150)):
        t=c.t("mix%d"%i,c.r.choice(["hw","sw"])); xs=[]
        for j in range(c.n(40,80)):
            if len(xs)<2 or c.r.random()<.15:
                name,cls,kw,u,dk,kind=c.r.choice(objs); xs.append([t.new(cls,keep=1,**shape(c,kw)) if cls!="rng" else t.new(cls,**kw),u,kind,dk,False])
            elif c.r.random()<.06: t.op("gc",m=c.r.choice(["minor","full","compact"]))
            elif c.r.random()<.07: x=xs.pop(c.r.randrange(len(xs))); t.op(c.r.choice(["drop","wipe"]),o=x[0])
            else: step(c,t,c.r.choice(xs))
        t.op("chkin")
    # compression: errors raised and results allocated at every collection point
    import zlib
    for i in range(c.n(2,10)):
        d=c.rb(200)+bytes(100); z=zlib.compress(d)
        t=c.t("zlib%d"%i)
        for k in ks(c,16,KMAX):
            g=lambda:dict(gc=k)
            o=t.new("zc",hdr=1); put(c,t,o,d,"sub",**g()); t.op("flush",o=o,**g()); t.op("finish",o=o,**g()); t.op("gets",o=o,**g())
            o=t.new("zu",hdr=1); put(c,t,o,z,"sub",**g()); t.op("finish",o=o,**g()); t.op("gets",o=o,**g())
            b=bytearray(z); b[c.r.randrange(2)]^=1<<c.r.randrange(8); o=t.new("zu",hdr=1); put(c,t,o,bytes(b),"str",**g())
    t=c.t("zmix"); xs=[]
    for j in range(c.n(40,120)):
        if len(xs)<3 or c.r.random()<.1: xs.append(t.new("zc",hdr=c.r.randrange(2)))
        elif c.r.random()<.1: x=xs.pop(c.r.randrange(len(xs))); t.op("finish",o=x); t.op("gets",o=x); t.op("drop",o=x)
        else: put(c,t,c.r.choice(xs),c.rb(c.r.randrange(60)))
    # helpers and arithmetic
    for i in range(c.n(4,12)):
        t=c.t("help%d"%i)
        for k in ks(c,8,KMAX):
            o=t.new("hash",alg=c.r.choice(["sha256","hmac_md5","sha512"]),**({})) if False else t.new("hash",alg="hmac_sha256",key=c.rb(5)); t.op("hstring",o=o,d=c.rb(30),gc=k)
            o=t.new("cipher",alg="aes",mode="cbc",dir="enc",key=c.rb(16),pad="length"); t.op("tstring",o=o,d=c.rb(33),gc=k)
            o=t.new("gcm",key=c.rb(16),iv=c.rb(12),dir="enc"); t.op("atstring",o=o,d=c.rb(20),gc=k)
            t.op("modpow",x=c.rb(8),y=c.rb(3),m=c.rb(9)+b"\1",gc=k)
# the same for single properties
REL={"C01":(lambda n,cls,kw,k:cls=="block" and kw["mode"]=="ecb",4),"C02":(lambda n,cls,kw,k:cls in("block","cipher") and kw["mode"]!="ecb" and k!="P",1),
     "C05":(lambda n,cls,kw,k:cls in("s_chacha20","s_arcfour","chacha20","arcfour"),4),"C08":(lambda n,cls,kw,k:k=="H" and "key" in kw,2),
     "C09":(lambda n,cls,kw,k:k=="A",4),"C14":(lambda n,cls,kw,k:cls=="rng",3)}
def rel(c):
    if c.prop not in REL: return
    f,n=REL[c.prop]; related(c,[x for x in objects(c) if f(x[0],x[1],x[2],x[5])],n)
