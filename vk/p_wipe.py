"""C20: wiping"""
from .lib import *
from .p_hash import macfam
from .p_trans import B64
from . import pyref
def shape(c,kw):
    """another parameter set of the same sizes: all byte strings replaced"""
    return {k:(c.rb(len(v)) if isinstance(v,(bytes,bytearray)) else v) for k,v in kw.items()}
def objects(c):
    """(name, class, parameters, unit, data kind, operations)"""
    r=[]
    for alg,kl,bs in BLOCK:
        for d in ("enc","dec"):
            k=keylen(c,alg,kl)
            for m,n in [("ecb",None),("cbc",None),("ctr",None),("cfb",c.r.randint(1,bs)),("ofb",c.r.randint(1,bs)),("ctrn",c.r.randint(2,bs))]:
                kw=dict(alg=alg,mode=m,dir=d,key=c.rb(k))
                if n: kw["n"]=n
                if m!="ecb": kw["iv"]=c.rb(bs)
                u=n if m in("cfb","ofb") else bs
                r.append(("t-%s%d-%s-%s"%(alg,k,m,d),"cipher",kw,u,"raw","T"))
                if m in("cbc","ecb"):
                    r.append(("t-%s%d-%s-%s-pad"%(alg,k,m,d),"cipher",dict(kw,pad=c.r.choice(["length","8000"])),u,"raw","P"))
                pk=dict(kw,pdir=d if m in("ecb","cbc") else "enc")
                r.append(("b-%s%d-%s-%s"%(alg,k,m,d),"block",pk,u,"raw","B"))
    for kl in (16,32):
        for il in (8,12):
            kw=dict(key=c.rb(kl),iv=c.rb(il))
            r.append(("chacha%d-%d"%(kl,il),"chacha20",dict(kw,dir="enc"),64,"raw","T")); r.append(("s_chacha%d-%d"%(kl,il),"s_chacha20",kw,64,"raw","S"))
            r.append(("chapoly%d-%d"%(kl,il),"chapoly",dict(kw,dir=c.r.choice(["enc","dec"]),hdr=c.rb(c.r.choice([0,5,16,40]))),16,"raw","A"))
    k=c.r.choice([1,5,16,100,256])
    r.append(("rc4","arcfour",dict(key=c.rb(k),dir="enc"),64,"raw","T")); r.append(("s_rc4","s_arcfour",dict(key=c.rb(k)),64,"raw","S"))
    for d in ("enc","dec"):
        for il in (12,c.r.choice([0,1,8,16,17,40])):
            r.append(("gcm-%s-%d"%(d,il),"gcm",dict(key=c.rb(c.r.choice([16,24,32])),iv=c.rb(il),dir=d,hdr=c.rb(c.r.choice([0,5,16,40]))),16,"raw","A"))
    for name,R,mk in macfam(c):
        kw=mk(); r.append(("h-"+name,"hash",kw,R,"raw","H"))
    for v in ("multiline","compact","compact_pad"): r.append(("b64enc-"+v,"b64enc",dict(v=v),3,"raw","T"))
    r.append(("b64dec","b64dec",{},4,"b64","T")); r.append(("hexenc","hexenc",{},2,"raw","T")); r.append(("hexdec","hexdec",{},2,"hex","T"))
    for k in ("chacha","aesctr"):
        for l in (16,20,32,40): r.append(("rng-%s%d"%(k,l),"rng",dict(kind=k,seed=c.rb(l)),16,"raw","R"))
    return r
def src(c,kind,n):
    if kind=="b64": return "".join(c.r.choice(B64) for _ in range(n)).encode()
    if kind=="hex": return "".join(c.r.choice("0123456789abcdefABCDEF") for _ in range(n)).encode()
    return c.rb(n)
def script(c,u,kind):
    """a life: list of (operation, length/parameter)"""
    s=[]
    for _ in range(c.r.choice([0,1,1,2,2,3,4])):
        n=c.r.choice([0,1,u-1,u,u+1,2*u,2*u+1,c.r.randint(0,5*u)])
        if c.r.random()<.06 and kind in("T","H"): n=c.r.choice([300,600,1100])
        s.append(("put",max(0,n),c.r.choice(["sub","str","chr","byte"])))
        x=c.r.random()
        if kind in("T","P","A"):
            if x<.2: s.append(("gets",))
            elif x<.3: s.append(("getsub",))
            elif x<.45: s.append(("getn",c.r.randint(1,4)))
    e=c.r.random()
    if kind in("T","P") and e<.4: s.append(("finish",))
    if kind=="T" and e>.9: s.append(("flush",))
    if kind=="A" and e<.5: s.append(("tag",))
    if kind=="H" and e<.5: s.append(("result",))
    if kind in("T","P","A") and c.r.random()<.3: s.append(("gets",))
    return s
def live(c,t,o,u,kind,dk,s):
    for x in s:
        if kind in("B","S","R"):
            if x[0]!="put": continue
            n=x[1]
            if kind=="B":
                if u>0: t.op("btr",o=o,src=c.rb(u),sofs=0,dst=bytes(u),dofs=0)
            elif kind=="S": t.op("str",o=o,src=c.rb(n),sofs=0,dst=bytes(n),dofs=0,len=n)
            else: t.op("rstr",o=o,len=n)
        elif x[0]=="put":
            m=x[2]
            if m in("chr","byte") and x[1]>80: m="sub"
            t.op("put",o=o,d=src(c,dk,x[1]),m=m)
        elif x[0]=="getn": t.op("getn",o=o,k=x[1])
        else: t.op(x[0],o=o)
def three(c,t,lab,mk,run,n=3):
    """n objects with the same history of lengths and unrelated contents"""
    for i in range(n):
        t.op("dirty",v=90)
        o=mk(i); run(o)
        t.op("wipe",o=o)
        t.op("memdump",o=o,lab=lab)
def c20(c):
    objs=objects(c)
    for name,cls,kw,u,dk,kind in objs:
        v=c.r.choice(["hw","hw","sw"]) if kind!="R" else "hw"
        t=c.t("w-"+name,v); lab=1000
        for rep in range(c.n(3,12)):
            s=script(c,u,kind); lab+=1; k0=dict(kw)
            # whether padding is accepted depends on the data
            if kind=="P" and kw["dir"]=="dec": s=[x for x in s if x[0]!="finish"]
            if "iv" in k0 and c.r.random()<.2 and cls in("cipher","block","chacha20"): del k0["iv"]
            three(c,t,lab,lambda i:t.new(cls,**(shape(c,k0) if c.r.random()<.85 or i==0 else {a:(bytes(len(b)) if isinstance(b,bytes) else b) for a,b in k0.items()})),lambda o:live(c,t,o,u,kind,dk,s))
        # after a result (or tag, or end) reached with any fill of the last block
        if kind in("H","A","T"):
            for rep in range(c.n(6 if kind=="H" else 2,30)):
                n=c.r.randint(0,2*max(1,u)); e={"H":"result","A":"tag","T":"finish"}[kind]; lab+=1
                if kind=="T" and cls=="cipher": n-=n%u
                three(c,t,lab,lambda i:t.new(cls,**shape(c,kw)),lambda o:live(c,t,o,u,kind,dk,[("put",n,"sub"),(e,)]),2)
    # composite objects wipe their components
    T=[x for x in objs if x[5]=="T" and x[4]=="raw"]; H=[x for x in objs if x[5]=="H"]
    for i in range(c.n(24,120)):
        t=c.t("comp%d"%i); lab=1000
        for rep in range(2):
            a,b,h=c.r.choice(T),c.r.choice(T),c.r.choice(H); w=c.r.choice(["compose","then_hash","and_hash"]); s=script(c,a[3],"A" if w!="compose" else "T"); lab+=1
            spy=c.r.random()<.5; ids=[]
            def mk(i):
                x=t.new(a[1],**shape(c,a[2])); y=t.new(b[1],**shape(c,b[2])) if w=="compose" else t.new("hash",**shape(c,h[2]))
                if spy: x=t.new("spy",a=x); y=t.new("spy",a=y)
                ids[:]=[x,y]
                return t.new("compose",a=x,b=y) if w=="compose" else t.new(w,a=x,h=y)
            for i in range(3):
                t.op("dirty",v=90); o=mk(i); live(c,t,o,a[3],"A" if w!="compose" else "T","raw",s); t.op("wipe",o=o)
                if spy:
                    for j in ids: t.op("wiped",o=j)
                else: t.op("memdump",o=o,lab=lab)
    # the helpers wipe what they consume
    for i in range(c.n(16,80)):
        t=c.t("helper%d"%i); lab=1000
        for rep in range(3):
            k=c.r.choice(["tstring","hstring","tchan","hchan","atstring","atdet","acheck"]); lab+=1
            x=c.r.choice([o for o in objs if o[5]==("T" if k[0]=="t" else "H" if k[0]=="h" else "A") and (o[4]=="raw")])
            n=x[3]*c.r.randint(0,3)
            if x[0].startswith(("h-mac","h-aes")): n=16*c.r.randint(1,3)
            if k=="acheck": n+=16
            for j in range(3):
                t.op("dirty",v=90); o=t.new(x[1],**shape(c,x[2])); t.op(k,o=o,d=c.rb(n)); t.op("memdump",o=o,lab=lab)
    # private keys
    t=c.t("keys")
    for bits in [32,34,48,64,128,250]+([512] if c.r.random()<.3 else []):
        for op in ("rsa_new","pai_new"):
            g=t.new("rng",kind="chacha",seed=c.rb(32)); o=t.oid()
            t.op(op,o=o,bits=bits,rng=g); t.op("rsa_owipe",o=o)
    for i in range(6):
        t=c.t("keyw%d"%i); n=c.r.choice([1,4,8,17,64])
        f=dict(n=c.rb(n),d=c.rb(n),p=c.rb(n),q=c.rb(n),dp=c.rb(n),dq=c.rb(n),qinv=c.rb(n)); t.op("rsa_wipe",size=8*n,_tot=6*n,**f)
        f=dict(n=c.rb(n),n2=c.rb(n),p=c.rb(n),q=c.rb(n)); f["lambda"]=c.rb(n); f["mu"]=c.rb(n); t.op("pai_wipe",size=8*n,_tot=4*n,**f)
