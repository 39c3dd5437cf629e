"""C24: resources are given back"""
import zlib
from .lib import *
from .trace import T,line
from . import p_wipe as pw
def churn(c,t,name,ops,rep=None):
    t.op("churn",body="\n".join(line(o,k) for o,k in ops).encode(),rep=rep or c.r.choice([120,240,400]),_timeout=120)
def body(): return T("body")
def c24(c):
    objs=pw.objects(c)
    for name,cls,kw,u,dk,kind in objs:
        t=c.t("r-"+name,c.r.choice(["hw","hw","sw"]))
        for rep in range(c.n(4,12)):
            b=body(); s=pw.script(c,u,kind)
            for i in range(c.r.choice([1,1,2])):
                o=b.new(cls,**kw); pw.live(c,b,o,u,kind,dk,s)
                if c.r.random()<.15: pw.live(c,b,o,u,kind,dk,pw.script(c,u,kind))      # also after the end
                if kind=="H" and c.r.random()<.2: b.op("result",o=o)
                if kind in("T","A","H") and c.r.random()<.15: b.op("putraw",o=o,buf=c.rb(4),ofs=c.r.choice([-1,2,5]),len=c.r.choice([-1,3,9]))
                if c.r.random()<.4:
                    b.op("wipe",o=o)
                    if c.r.random()<.3: b.op("wipe",o=o)
            churn(c,t,name,b.ops)
        # one allocation fails
        if cls in("hash","gcm","chapoly"):
            for k in (1,2):
                b=body(); o=b.new(cls,**kw); pw.live(c,b,o,u,kind,dk,pw.script(c,u,kind))
                if c.r.random()<.3: b.op("wipe",o=o)
                t.op("oom",body="\n".join(line(o,k) for o,k in b.ops).encode(),k=k)
    for v in ("hw","sw"):
        t=c.t("oom",v)
        for cls in ("zc","zu"):
            for k in (1,2):
                b=body(); o=b.new(cls)
                for i in range(c.r.randint(0,2)): b.op("put",o=o,d=b"abc"*c.r.randint(0,30),m="str")
                if c.r.random()<.5: b.op("finish",o=o)
                t.op("oom",body="\n".join(line(o,k) for o,k in b.ops).encode(),k=k)
    # in several copies alive at once, and with the collector running in between
    for i in range(c.n(20,60)):
        t=c.t("many%d"%i); b=body()
        for j in range(c.r.randint(2,5)):
            name,cls,kw,u,dk,kind=c.r.choice(objs); o=b.new(cls,**kw); pw.live(c,b,o,u,kind,dk,pw.script(c,u,kind))
            if c.r.random()<.3: b.op("wipe",o=o)
            if c.r.random()<.1: b.op("gc",m="minor")
        churn(c,t,"many",b.ops,120)
    # compression: unused, in progress, flushed, finished, failed, in every combination
    t=None
    for i in range(c.n(40,160)):
        if i%5==0: t=c.t("zlib%d"%(i//5),c.r.choice(["hw","hw","sw"]))
        b=body(); o=0; hdr=c.r.choice([None,0,1]); kw={} if hdr is None else dict(hdr=hdr)
        d=c.rb(c.r.choice([0,1,20,300])) if c.r.random()<.5 else b"abcdefgh"*c.r.randint(1,100)
        if i%2==0:
            if c.r.random()<.5: kw["level"]=c.r.randint(0,9)
            o=b.new("zc",**kw); x=d
        else:
            z=zlib.compressobj(6,zlib.DEFLATED,-15 if hdr==0 else 15); x=z.compress(d)+z.flush()
            w=c.r.choice(["whole","cut","bad","tail","junk"])
            if w=="cut": x=x[:c.r.randrange(len(x))]
            if w=="bad": y=bytearray(x); y[c.r.randrange(len(y))]^=1<<c.r.randrange(8); x=bytes(y)
            if w=="tail": x+=c.rb(5)
            if w=="junk": x=c.rb(30)
            o=b.new("zu",**kw)
        for k in range(c.r.choice([0,1,1,2])):
            if k: x=c.rb(10) if c.r.random()<.3 else x
            b.op("put",o=o,d=x,m=c.r.choice(["sub","str"]))
            if c.r.random()<.3: b.op("flush",o=o)
            if c.r.random()<.3: b.op("gets",o=o)
        if c.r.random()<.5: b.op("finish",o=o)
        if c.r.random()<.2: b.op("finish",o=o)
        if c.r.random()<.2: b.op("put",o=o,d=b"more",m="str")
        if c.r.random()<.4: b.op("wipe",o=o)
        churn(c,t,"zlib",b.ops,120)
    # composites and helpers
    T_=[x for x in objs if x[5]=="T"]; H=[x for x in objs if x[5]=="H"]; A=[x for x in objs if x[5]=="A"]
    for i in range(c.n(20,60)):
        t=c.t("comp%d"%i); b=body(); x,y,h,a=c.r.choice(T_),c.r.choice(T_),c.r.choice(H),c.r.choice(A)
        w=c.r.choice(["compose","then_hash","and_hash","zcompose"])
        p=b.new(x[1],**x[2])
        q=b.new(y[1],**y[2]) if w=="compose" else b.new(c.r.choice(["zc","zu"])) if w=="zcompose" else b.new(h[1],**h[2])
        o=b.new("compose",a=p,b=q) if "compose" in w else b.new(w,a=p,h=q)
        pw.live(c,b,o,x[3],"T" if "compose" in w else "A",x[4],pw.script(c,x[3],"T" if "compose" in w else "A"))
        if c.r.random()<.4: b.op("wipe",o=o)
        churn(c,t,w,b.ops,240)
        for k,z in (("tstring",x),("hstring",h),("atstring",a),("atdet",a),("acheck",a)):
            b=body(); o=b.new(z[1],**z[2]); b.op(k,o=o,d=c.rb(c.r.choice([0,z[3],2*z[3],z[3]+1]))); churn(c,t,k,b.ops,120)
    t=c.t("chan")
    for x,k in ((c.r.choice(T_),"tchan"),(c.r.choice(H),"hchan"),(("","zc",{},1),"tchan"),(("","zu",{},1),"tchan")):
        b=body(); o=b.new(x[1],**x[2]); b.op(k,o=o,d=c.rb(c.r.choice([0,x[3],5*x[3]])),**({} if c.r.random()<.5 else dict(len=c.r.choice([0,3,10])))); churn(c,t,k,b.ops,120)
    # refused constructions
    t=c.t("refused")
    for cls,kw in [("cipher",dict(alg="aes",mode="cbc",dir="enc",key=c.rb(15))),("cipher",dict(alg="aes",mode="cbc",dir="enc",key=c.rb(16),iv=c.rb(5))),
                   ("hash",dict(alg="sha3",sz=100)),("hash",dict(alg="keccak",sz=-8)),("hash",dict(alg="blake3",sz=0)),("hash",dict(alg="mac_blake3",sz=256,key=c.rb(5))),("hash",dict(alg="blake2b",sz=1000)),
                   ("hash",dict(alg="siphash",key=c.rb(3))),("gcm",dict(key=c.rb(7),iv=c.rb(12),dir="enc")),("gcm",dict(key=c.rb(16),iv=b"",dir="enc")),("chapoly",dict(key=c.rb(31),iv=c.rb(12),dir="enc")),
                   ("s_arcfour",dict(key=b"")),("rng",dict(kind="chacha",seed=c.rb(3))),("rng",dict(kind="devpath",path=b"/nonexistent")),("zc",dict(level=77)),("zc",dict(level=-5,hdr=0))]:
        b=body(); b.new(cls,**kw); churn(c,t,cls,b.ops,240)
    # generators reading a file
    t=c.t("device")
    for path in (b"/dev/zero",b"/dev/null",b"/dev/urandom"):
        for n in ([],[0],[1,40],[20000]):
            b=body(); o=b.new("rng",kind="devpath",path=path)
            for k in n: b.op("rstr",o=o,len=k)
            if c.r.random()<.3: b.op("rnd",o=o,buf=bytes(4),ofs=2,len=9)
            b.op("wipe",o=o); churn(c,t,"device",b.ops,120)
    b=body(); o=b.new("rng",kind="system"); b.op("rstr",o=o,len=40); b.op("wipe",o=o); churn(c,t,"system",b.ops)
    b=body(); o=b.new("rng",kind="secure"); b.op("rstr",o=o,len=40); churn(c,t,"secure",b.ops)
    # public-key operations and stateless functions
    t=c.t("pub")
    b=body(); g=b.new("rng",kind="chacha",seed=c.rb(32)); o=b.oid(); b.op("rsa_new",o=o,bits=c.r.choice([32,64,100]),rng=g)
    if c.r.random()<.5: b.op("rsa_owipe",o=o)
    churn(c,t,"rsa",b.ops,80)
    b=body(); g=b.new("rng",kind="chacha",seed=c.rb(32)); o=b.oid(); b.op("pai_new",o=o,bits=c.r.choice([32,64]),rng=g); churn(c,t,"pai",b.ops,80)
    b=body(); g=b.new("rng",kind="chacha",seed=c.rb(32)); p=b.oid(); o=b.oid(); b.op("dh_params",o=p,bits=40,rng=g); b.op("dh_secret",o=o,p=p,rng=g); b.op("dh_msg",o=o,p=p); b.op("dh_shared",o=o,p=p,m=c.rb(5)); churn(c,t,"dh",b.ops,40)
    x=c.rb(40)
    b=body(); b.op("modpow",x=c.rb(40),y=c.rb(9),m=x); b.op("modmul",x=c.rb(40),y=c.rb(9),m=x); b.op("rsa_enc",size=320,n=x,e=b"\3",m=c.rb(40)); b.op("derive",secret=c.rb(20),len=50); churn(c,t,"modpow",b.ops)
    b=body(); b.op("streq",x=c.rb(50),y=c.rb(50)); b.op("xorb",src=c.rb(40),sofs=3,dst=c.rb(40),dofs=5,len=30); b.op("wipeb",d=c.rb(20)); b.op("pad",pad="length",buf=c.rb(16),used=5); churn(c,t,"util",b.ops)
