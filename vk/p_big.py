"""C23: very long inputs"""
from .lib import *
from .p_wipe import objects,shape,src
G=1<<30
def N(n): return [n>>20,n&((1<<20)-1)]
SMALL={"md5","sha1","sha256","ripemd160"}
# (algorithm, size in bits, key length)
ALGS=[("ripemd160",0,0),("sha3",256,0),("keccak",256,0),("sha256",0,0),("sha1",0,0),("md5",0,0),("sha512",0,0),
      ("blake2s",256,0),("blake2b",512,0),("blake3",256,0),("siphash",0,16),("siphash128",0,16)]
MORE=[("sha224",0,0),("sha384",0,0),("sha3",224,0),("sha3",384,0),("keccak",512,0),("blake2b",160,0),("blake2s",128,0),("blake3",1000,0),("mac_blake2b",256,64),("mac_blake2s",128,32),("mac_blake3",256,32),
      ("hmac_sha1",0,20),("hmac_sha256",0,100),("hmac_sha384",0,60),("hmac_sha512",0,60),("hmac_ripemd160",0,20),("hmac_md5",0,20),("aes_cmac",0,16)]
def parts(c,k=None):
    """partitions of a message that crosses the places where counters of 32 bits (of bits or
    of bytes) overflow, with one piece that does not fit 32 bits"""
    x=c.r.randrange(200); k=c.r.randrange(4) if k is None else k
    if k==0: return [G//2-1,1,4*G+5+x]                 # exactly 2^32 bits, then more than 2^32 bytes at once
    if k==1: return [4*G+64*c.r.randrange(3),G//2-1-x,2+x]
    if k==2: return [4*G-1-x,1+x,c.r.randrange(130)]   # exactly 2^32 bytes
    return [G//2-1-x,2+x,2*G-1,2*G+c.r.randrange(64)]
def bighash(c,t,alg,sz,kl,ps):
    kw=dict(alg=alg)
    if sz: kw["sz"]=sz
    if kl: kw["key"]=c.rb(kl)
    t.op("bighash",seed=c.r.randrange(256),parts=",".join(map(str,ps)),_nn=N(sum(ps)),_timeout=400,**kw)
def heavy(t): t.gb=40; return t
def offsets(c):
    """the largest signed and unsigned 32-bit offsets lie behind"""
    return c.r.choice([2049,4097,2100,4300,4096+c.r.randrange(1,300)])
def c23(c):
    v=lambda:c.r.choice(["hw","sw"])
    # hashes and MACs: the slow ones first
    algs=ALGS if c.quick else ALGS+MORE
    for i,(alg,sz,kl) in enumerate(algs):
        t=heavy(c.t("hash-%s%d"%(alg,sz),v())); bighash(c,t,alg,sz,kl,parts(c))
    for alg in (["md5","sha1","sha256","sha512"] if c.quick else []):
        # just above half a gigabyte
        t=heavy(c.t("half-"+alg)); x=c.r.randrange(64); bighash(c,t,alg,0,0,[G//2-x,x+c.r.randrange(64)] if c.r.random()<.5 else [G//2+x])
    # authenticated encryption: long header, long text
    for cls in ("gcm","chapoly"):
        for h,n,d in ([(4*G+c.r.randrange(100),c.r.randrange(200),"enc"),(c.r.randrange(20),G//2+c.r.randrange(100),c.r.choice(["enc","dec"]))] if c.quick else
                    [(4*G+c.r.randrange(100),G//2+c.r.randrange(100),"enc"),(G//2+c.r.randrange(100),4*G+c.r.randrange(100),"dec")]):
            t=heavy(c.t("%s-%d-%d"%(cls,h>>28,n>>28),v()))
            t.op("bigaead",cls=cls,dir=d,key=c.rb(32),iv=c.rb(c.r.choice([12,12,8] if cls=="chapoly" else [12,16])),seed=c.r.randrange(256),
                 N=n,H=h,_nn=N(n),_hh=N(h),_timeout=600,**({} if n<G else dict(chunk=c.r.choice([1<<20,100000]))))
    # key streams
    for cls in ("s_chacha20","s_arcfour"):
        t=heavy(c.t(cls,v())); kw=dict(key=c.rb(32))
        if cls=="s_chacha20": kw.update(iv=c.rb(8),ctr8=c.rb(4)+b"\xfd"+c.rb(3))     # the low half of the counter overflows on the way
        o=t.new(cls,**kw); k=c.r.randrange(150); t.op("str",o=o,src=c.rb(k),sofs=0,dst=bytes(k),dofs=0,len=k)
        n=4*G+c.r.randrange(300,5000); t.op("bigstr",o=o,seed=c.r.randrange(256),N=n,_nn=N(n),_timeout=300)
        t.op("str",o=o,src=c.rb(130),sofs=0,dst=bytes(130),dofs=0,len=130)
    t=heavy(c.t("rng-chacha",v())); o=t.new("rng",kind="chacha",seed=c.rb(32)); t.op("rstr",o=o,len=c.r.randrange(70))
    n=4*G+c.r.randrange(300,5000); t.op("bigrnd",o=o,N=n,_nn=N(n),_timeout=300); t.op("rstr",o=o,len=99)
    if not c.quick:
        t=heavy(c.t("rng-system")); o=t.new("rng",kind="system"); n=4*G+c.r.randrange(300,5000); t.op("bigrnd",o=o,N=n,_nn=N(n),_timeout=600)
    # helpers
    t=heavy(c.t("xor"))
    for m in "bs": n=4*G+c.r.randrange(300,5000); t.op("bigxor",m=m,seed=c.r.randrange(256),N=n,_nn=N(n),_timeout=100)
    n=4*G+c.r.randrange(300,5000)
    for m in "bs":
        t=heavy(c.t("eq-"+m))
        for pos,more in ([(4*G+7,0) if m=="b" else (-1,0),(-1,1)] if c.quick else [(-1,0),(4*G+7,0),(2*G-1,0),(-1,1)]): t.op("bigeq",m=m,N=n,pos=pos,more=more,_eq=int(pos<0 and more==0),_timeout=100)
    # compression
    for n in ([4*G] if c.quick else [4*G,4*G+77,8*G+1]):
        t=heavy(c.t("zlib-%d"%n)); t.op("bigz",level=1,seed=c.r.randrange(256),N=n,_nn=N(n),_timeout=400)
    # unread output
    t=heavy(c.t("out")); 
    for i,cls in enumerate(["chacha20","hexenc","arcfour"] if c.quick else ["chacha20","hexenc","arcfour","chacha20","hexenc"]):
        n=c.r.randrange(20,60)*1000003 if cls!="chacha20" or c.quick else 600*1000003
        o=t.new(cls,**({} if cls=="hexenc" else dict(key=c.rb(16)))); f=2 if cls=="hexenc" else 1
        ws=sorted(2*c.r.randrange(0,(f*n-64)//2) for _ in range(6))+[f*n-64]
        if cls=="arcfour": ws=[ws[2],ws[-1]]
        t.op("bigout",o=o,seed=c.r.randrange(256),N=n,_nn=N(n),parts=c.r.choice([1,3,50]),at=",".join(map(str,ws)),_wins=[N(w) for w in ws],_timeout=100)
    # every operation that takes a buffer, at offsets above 2^31 and 2^32
    for vv in ("hw","sw"):
        t=heavy(c.t("offsets",vv))
        for name,cls,kw,u,dk,kind in objects(c):
            if kind=="P" and kw.get("dir")=="dec": continue
            o=t.new(cls,**shape(c,kw)); b=offsets(c)
            n=c.r.choice([u,2*u,u+1,3*u])
            if kind=="B":
                for i in range(2): t.op("btr",o=o,src=c.rb(u+9),sofs=c.r.randrange(9),dst=c.rb(u+9),dofs=c.r.randrange(9),big=offsets(c),big2=offsets(c))
            elif kind=="S":
                for i in range(2): t.op("str",o=o,src=c.rb(n+9),sofs=c.r.randrange(9),dst=c.rb(n+9),dofs=c.r.randrange(9),len=n,big=offsets(c),big2=offsets(c))
            elif kind=="R": t.op("rnd",o=o,buf=c.rb(n+3),ofs=c.r.randrange(3),len=n,big=b)
            else:
                n=u*max(1,n//u)
                for i in range(2): t.op("put",o=o,d=src(c,dk,n),m="sub",big=offsets(c))
                t.op({"T":"finish","P":"finish","A":"tag","H":"result"}[kind],o=o)
                if kind!="H": t.op("gets",o=o)
        for op in ("xorb","xors"):
            for i in range(4):
                n=c.r.randrange(70); t.op(op,src=c.rb(n+9),sofs=c.r.randrange(9),dst=c.rb(n+9),dofs=c.r.randrange(9),len=n,big=offsets(c),big2=offsets(c))
        o=t.new("zc"); t.op("put",o=o,d=c.rb(300),m="sub",big=offsets(c)); t.op("finish",o=o); t.op("gets",o=o); z=t.last()
        o=t.new("zu"); t.op("put",o=o,d=z,m="sub",big=offsets(c)); t.op("finish",o=o); t.op("gets",o=o)
        for k in ("system","hardware"): o=t.new("rng",kind=k); t.op("rnd",o=o,buf=bytes(40),ofs=3,len=33,big=offsets(c))
