"""Sizes between the block-boundary cases and the gigabytes of C23: lengths that do not fit
16 bits, buffers of hundreds of kilobytes, and single pieces of megabytes.  Each property
gets those that concern it."""
from .lib import *
from .trace import Ref
from .p_big import N,bighash,ALGS,MORE
def K(c): return c.r.choice([65535,65536,65537,65536+c.r.randrange(5000),65536+c.r.randrange(5000),70000])
def M(c): return c.r.choice([131072,200001,1<<20,(1<<20)+c.r.randrange(5000),3000017,(1<<24)+c.r.randrange(1000)])
def mparts(c,n):
    n=max(n,1)
    """a partition of n, with large pieces"""
    k=c.r.randrange(5)
    if k==0: return [n]
    if k==1: a=min(n,c.r.randrange(1,200)); return [a,n-a]
    if k==2: a=min(n,c.r.randrange(1,200)); return [n-a,a]
    if k==3: a=c.r.randrange(n); b=c.r.randrange(n-a+1); return [a,b,n-a-b]
    a=c.r.choice([64,128,1000,65536,4096]); a=min(a,n); return [a,n-a]
def var(c): return c.r.choice(["hw","hw","sw"])
def hashes(c,which,reps=1):
    for alg,sz,kl in which:
        for _ in range(reps):
            for n in (K(c),M(c)):
                t=c.t("mid-%s%d"%(alg,sz),var(c)); bighash(c,t,alg,sz,kl,mparts(c,n))
def chan(c,t,o,d,op):
    kw={}
    if c.r.random()<.5: kw["len"]=len(d) if c.r.random()<.5 else c.r.randrange(65536,len(d)+1) if len(d)>65536 else len(d)
    t.op(op,o=o,d=d,**kw)
def text(c,kind,n):
    from .p_trans import Src
    return Src(c,kind)(n)
TOY=dict(alg="toy",bs=4,key=b"abc")
def m02(c):
    for m in ("ecb","cbc","cfb","ofb","ctr"):
        kw=dict(alg="toy",bs=16,mode=m,dir=c.r.choice(["enc","dec"]),key=c.rb(3))
        kw["pdir"]=kw["dir"] if m in("ecb","cbc") else "enc"
        if m in("cfb","ofb"): kw["n"]=c.r.choice([8,16])
        if m!="ecb": kw["iv"]=c.rb(16)
        t=c.t("mid-"+m); o=t.new("bcipher",**kw); d=c.rb(K(c)//16*16); k=c.r.choice([0,5,16,40,65536])
        put(c,t,o,d[:k],"sub"); put(c,t,o,d[k:],c.r.choice(["str","sub"])); t.op("finish",o=o); t.op("gets",o=o)
    t=c.t("mid-aes",var(c)); m=c.r.choice(["cbc","ctr","cfb","ofb","ecb"]); kw=dict(alg="aes",mode=m,dir=c.r.choice(["enc","dec"]),key=c.rb(16))
    if m in("cfb","ofb"): kw["n"]=16
    o=t.new("cipher",**kw); put(c,t,o,c.rb(65536+16*c.r.randrange(40)),"sub"); t.op("finish",o=o); t.op("gets",o=o)
def m03(c):
    for p in ("length","8000"):
        t=c.t("mid-pad-"+p); kw=dict(alg="toy",bs=c.r.choice([8,16,7]),mode="cbc",key=c.rb(3),pad=p)
        o=t.new("bcipher",dir="enc",**kw); put(c,t,o,c.rb(K(c)),"str"); t.op("finish",o=o); t.op("gets",o=o); r=t.last()
        f=t.new("bcipher",dir="dec",pdir="dec",**kw); t.op("put",o=f,d=r,m="sub"); t.op("finish",o=f); t.op("avail",o=f); t.op("gets",o=f)
def m04(c):
    from .p_trans import transforms
    for name,u,src,mk in transforms(c):
        if name.startswith(("aes","des")) : continue
        if c.quick and c.r.random()<.45: continue
        t=c.t("mid-"+name); o=mk(t); n=K(c)
        put(c,t,o,text(c,src,n),c.r.choice(["str","sub"])); t.op("avail",o=o)
        x=c.r.random()
        if x<.4: t.op("getn",o=o,k=c.r.choice([1,700])); put(c,t,o,text(c,src,c.r.choice([3,300,70000])),"sub"); t.op("avail",o=o)
        elif x<.6: t.op("getsub",o=o); put(c,t,o,text(c,src,c.r.choice([3,300])),"sub")
        t.op(c.r.choice(["gets","getsub"]),o=o); t.op("avail",o=o)
def m05(c):
    for cls in ("s_chacha20","s_arcfour"):
        for i in range(2):
            t=c.t("mid-"+cls,var(c)); o=t.new(cls,key=c.rb(16)); n=K(c); a,b=c.r.randrange(9),c.r.randrange(9)
            k=c.r.randrange(100); t.op("str",o=o,src=c.rb(k),sofs=0,dst=bytes(k),dofs=0,len=k)
            if i: t.op("str",o=o,src=c.rb(a+n+3),sofs=a,dofs=a,len=n,inplace=1)
            else: t.op("str",o=o,src=c.rb(a+n+3),sofs=a,dst=c.rb(b+n+2),dofs=b,len=n)
            t.op("str",o=o,src=c.rb(90),sofs=0,dst=bytes(90),dofs=0,len=90)
        t=c.t("mid-big-"+cls,var(c)); kw=dict(ctr8=c.rb(4)+b"\xff\xff\xff"+c.rb(1)) if cls[2]=="c" else {}
        o=t.new(cls,key=c.rb(32),**kw); k=c.r.randrange(100); t.op("str",o=o,src=c.rb(k),sofs=0,dst=bytes(k),dofs=0,len=k)
        for n in (M(c),M(c)): t.op("bigstr",o=o,seed=c.r.randrange(256),N=n,_nn=N(n)); t.op("str",o=o,src=c.rb(90),sofs=0,dst=bytes(90),dofs=0,len=90)
    for cls in ("chacha20","arcfour"):
        t=c.t("mid-t-"+cls,var(c)); o=t.new(cls,key=c.rb(16),dir="enc"); put(c,t,o,c.rb(5)); put(c,t,o,c.rb(K(c)),"sub"); t.op("finish",o=o); t.op("gets",o=o)
def m06(c):
    hashes(c,ALGS[:10]+MORE[:8])
    # lengths whose number of bits does not fit 32 bits
    half(c,[("md5",0),("ripemd160",0),("sha1",0),("sha256",0),("sha512",0)])
def half(c,algs):
    for alg,kl in algs:
        h=1<<29
        # the carry happens between calls, and within a single one
        for i in range(2):
            t=c.t("half-"+alg,"hw"); x=c.r.randrange(64); t.gb=11
            bighash(c,t,alg,0,kl,c.r.choice([[h-x,x+c.r.randrange(64)],[h-1,1]] if i==0 else [[h+x],[x,h]]))
def m07(c): hashes(c,ALGS+MORE,1)
def m08(c): hashes(c,ALGS[10:]+MORE[8:],2); half(c,[("hmac_sha256",20),("hmac_md5",16),("hmac_sha1",99),("siphash",16)])
def m09(c):
    # lengths whose number of bits does not fit 32 bits
    for cls in ("gcm","chapoly"):
        for n,h in ((c.r.randrange(99),(1<<29)+c.r.randrange(99)),((1<<29)+c.r.randrange(99),c.r.randrange(99))):
            t=c.t("half-"+cls); t.gb=11; t.op("bigaead",cls=cls,dir=c.r.choice(["enc","dec"]),key=c.rb(32),iv=c.rb(12),seed=c.r.randrange(256),N=n,H=h,_nn=N(n),_hh=N(h),chunk=1<<22,_timeout=300)
    for cls in ("gcm","chapoly"):
        for i in range(c.n(6,20)):
            t=c.t("mid-%s-%d"%(cls,i),("hw","sw")[i%2]); n=K(c) if c.r.random()<.5 else M(c)%8000000; h=c.r.choice([0,K(c),M(c)%8000000,c.r.randrange(300)])
            t.op("bigaead",cls=cls,dir=c.r.choice(["enc","dec"]),key=c.rb(32),iv=c.rb(c.r.choice([12,12,8] if cls=="chapoly" else [12,16,300])),seed=c.r.randrange(256),
                 N=n,H=h,_nn=N(n),_hh=N(h),chunk=c.r.choice([1<<22,100000,65536,4099]))
    for v in ("hw","sw"):
        t=c.t("mid-chapoly-str",v); o=t.new("chapoly",dir="enc",key=c.rb(32),iv=c.rb(12),hdr=c.rb(K(c))); put(c,t,o,c.rb(K(c)),"sub"); t.op("tag",o=o); t.op("gets",o=o)
        t=c.t("mid-gcm-str",v); o=t.new("gcm",dir="dec",key=c.rb(16),iv=c.rb(c.r.choice([12,K(c)])),hdr=c.rb(20)); put(c,t,o,c.rb(65536+c.r.randrange(100)),"sub"); t.op("tag",o=o); t.op("gets",o=o)
def m10(c):
    t=c.t("mid-chapoly",var(c)); kw=dict(key=c.rb(32),iv=c.rb(12),hdr=c.rb(5)); n=K(c)
    o=t.new("chapoly",dir="enc",**kw); t.op("atstring",o=o,d=c.rb(n)); x=t.last()
    t.op("acheck",o=t.new("chapoly",dir="dec",**kw),d=x)
    p=c.r.choice([0,65536,n-1,n,n+15,c.r.randrange(n)])
    t.op("acheck",o=t.new("chapoly",dir="dec",**kw),d=Ref(x.v[0],pos=p,mask=1<<c.r.randrange(8)))
    t=c.t("mid-etm"); h=dict(alg=c.r.choice(["siphash128","md5"])); h=dict(h,key=c.rb(16)) if h["alg"][0]=="s" else h; k=c.rb(5)
    o=t.new("then_hash",a=t.new("toystream",key=k),h=t.new("hash",**h)); t.op("atstring",o=o,d=c.rb(n)); x=t.last()
    def ck(r): t.op("acheck",o=t.new("and_hash",a=t.new("toystream",key=k),h=t.new("hash",**h)),d=r)
    ck(x); ck(Ref(x.v[0],pos=c.r.choice([0,65535,65536,n-1,n,n+15]),mask=1)); ck(Ref(x.v[0],1)); ck(Ref(x.v[0],0,65536))
    o=t.new("and_hash",a=t.new("hexenc"),h=t.new("hash",**h)); put(c,t,o,c.rb(n),"sub"); t.op("tag",o=o); t.op("gets",o=o)
def m11(c):
    t=c.t("mid-comp"); o=t.new("compose",a=t.new("hexenc"),b=t.new("hexdec")); put(c,t,o,c.rb(K(c)),"sub"); t.op("finish",o=o); t.op("gets",o=o)
    t=c.t("mid-comp2"); o=t.new("compose",a=t.new("toystream",key=c.rb(3)),b=t.new("b64enc",v="compact_pad")); put(c,t,o,c.rb(K(c)),"str"); t.op("finish",o=o); t.op("gets",o=o)
    for i in range(2):
        t=c.t("mid-tstr"); o=t.new(c.r.choice(["hexenc","toystream","b64enc"]),key=c.rb(3),v="multiline"); t.op("tstring",o=o,d=c.rb(K(c)))
        t=c.t("mid-hstr"); o=t.new("hash",alg=c.r.choice(["md5","siphash","sha1"]),key=c.rb(16)); t.op("hstring",o=o,d=c.rb(K(c)))
        for _ in range(2):
            t=c.t("mid-tchan"); o=t.new(c.r.choice(["hexenc","toystream","b64enc"]),key=c.rb(3),v="compact"); chan(c,t,o,c.rb(K(c)),"tchan")
            t=c.t("mid-hchan"); o=t.new("hash",alg=c.r.choice(["md5","siphash","sha1"]),key=c.rb(16)); chan(c,t,o,c.rb(K(c)),"hchan")
def m12(c):
    for v in ("multiline","compact","compact_pad","hex"):
        t=c.t("mid-"+v); o=t.new("hexenc") if v=="hex" else t.new("b64enc",v=v); d=c.rb(K(c))
        if c.r.random()<.5: t.op("tstring",o=o,d=d)
        else: put(c,t,o,d,"sub"); t.op("finish",o=o); t.op("gets",o=o)
        x=t.last(); o=t.new("hexdec") if v=="hex" else t.new("b64dec"); t.op("put",o=o,d=x,m="str"); t.op("finish",o=o); t.op("gets",o=o)
def m13(c):
    for i in range(c.n(16,60)):
        t=c.t("mid-z%d"%i); n=K(c) if c.r.random()<.5 else M(c)%9000000
        t.op("bigz",level=c.r.randint(0,9),hdr=c.r.randrange(2),fl=c.r.randrange(2),seed=c.r.randrange(256),N=n,_nn=N(n),chunk=c.r.choice([n,1<<20,65536,65535,1000,4099]),uchunk=c.r.choice([1<<24,65536,999,7919]))
def m14(c):
    for kind in ("chacha","aesctr"):
        t=c.t("mid-"+kind,var(c)); o=t.new("rng",kind=kind,seed=c.rb(32)); t.op("rstr",o=o,len=c.r.randrange(70)); t.op("rstr",o=o,len=K(c)); t.op("rstr",o=o,len=50)
    t=c.t("mid-big"); o=t.new("rng",kind="chacha",seed=c.rb(32))
    for _ in range(3): n=M(c); t.op("bigrnd",o=o,N=n,_nn=N(n)); t.op("rstr",o=o,len=99)
    # the AES counter carries into its third and fourth byte
    for v,ns in (("hw",[(1<<20)-c.r.randrange(300),(1<<28)-(1<<20)+c.r.randrange(300)]),("sw",[(1<<20)+c.r.randrange(300)])):
        t=c.t("mid-bigaes",v); o=t.new("rng",kind="aesctr",seed=c.rb(32)); t.op("rstr",o=o,len=c.r.randrange(30))
        for n in ns: t.op("bigrnd",o=o,N=n,_nn=N(n),_timeout=100); t.op("rstr",o=o,len=600)
    for k in ("system",):
        t=c.t("mid-"+k); o=t.new("rng",kind=k)
        for n in (K(c),M(c)%5000000+1000): t.op("bigrnd",o=o,N=n,_nn=N(n))
def m18(c):
    t=c.t("mid-xor")
    for m in "bs":
        for n in (K(c),M(c)): t.op("bigxor",m=m,seed=c.r.randrange(256),N=n,_nn=N(n))
        n=K(c); a,b=c.r.randrange(9),c.r.randrange(9); t.op("xor"+m,src=c.rb(a+n+3),sofs=a,dst=c.rb(b+n+5),dofs=b,len=n)
    for m in "bs":
        for n in (K(c),M(c)):
            for pos,more in ((-1,0),(0,0),(n-1,0),(min(n-1,65536),0),(min(n-1,65535),0),(c.r.randrange(n),0),(-1,1),(-1,65536)): t.op("bigeq",m=m,N=n,pos=pos,more=more,_eq=int(pos<0 and more==0))
        d=bytearray(c.rb(K(c))); e=bytearray(d); p=c.r.randrange(len(d)); e[p]^=1<<c.r.randrange(8); t.op({"s":"streq","b":"beq"}[m],x=bytes(d),y=bytes(e)); t.op({"s":"streq","b":"beq"}[m],x=bytes(d),y=bytes(d))
def m20(c):
    from .p_wipe import three,shape,src
    for cls,kw,dk in (("arcfour",dict(key=c.rb(16),dir="enc"),"raw"),("chacha20",dict(key=c.rb(16),dir="enc"),"raw"),("hexenc",{},"raw"),("b64dec",{},"b64"),("cipher",dict(alg="aes",mode="cbc",dir="enc",key=c.rb(16)),"raw")):
        t=c.t("mid-"+cls); n=K(c)//16*16
        if cls in("cipher",): n=c.r.choice([8192,4096,20000])
        def run(o):
            t.op("put",o=o,d=src(c,dk,n),m="str")
        three(c,t,2000,lambda i:t.new(cls,**shape(c,kw)),run)
    for alg in ("md5","sha256","blake3_256","siphash"):
        t=c.t("mid-h-"+alg); n=K(c); kw=dict(alg=alg)
        if alg=="siphash": kw["key"]=c.rb(16)
        three(c,t,2000,lambda i:t.new("hash",**shape(c,kw)),lambda o:t.op("put",o=o,d=c.rb(n),m="str"))
def m22(c):
    from .p_var import VARS
    for alg,sz,kl in ALGS+MORE:
        n=K(c) if c.r.random()<.5 else M(c)%3000000+500; ps=mparts(c,n); kw=dict(key=c.rb(kl)) if kl else {}
        if sz: kw["sz"]=sz
        s=c.r.randrange(256)
        for v in VARS:
            t=c.t("mid-%s%d"%(alg,sz),v); t.op("bighash",alg=alg,seed=s,parts=",".join(map(str,ps)),_nn=N(n),_timeout=100,**kw)
    for cls in ("gcm","chapoly"):
        n=K(c); h=c.r.choice([0,K(c)]); kw=dict(cls=cls,dir="enc",key=c.rb(32),iv=c.rb(12),seed=c.r.randrange(256),N=n,H=h,_nn=N(n),_hh=N(h))
        for v in VARS: c.t("mid-"+cls,v).op("bigaead",**kw)
    for v in VARS:
        t=c.t("mid-str",v)
        for cls in ("s_chacha20","s_arcfour"): o=t.new(cls,key=c.rb(32)); n=M(c)%3000000+1000; t.op("bigstr",o=o,seed=1,N=n,_nn=N(n)); t.op("str",o=o,src=c.rb(90),sofs=0,dst=bytes(90),dofs=0,len=90)
        for m in "bs": n=K(c); t.op("bigxor",m=m,seed=c.r.randrange(256),N=n,_nn=N(n))
MID={"C02":m02,"C03":m03,"C04":m04,"C05":m05,"C06":m06,"C07":m07,"C08":m08,"C09":m09,"C10":m10,"C11":m11,"C12":m12,"C13":m13,"C14":m14,"C18":m18,"C20":m20,"C22":m22}
