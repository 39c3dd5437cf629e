"""C14, C18, C19: generators, utilities, refusals"""
from .lib import *
from .trace import Ref
SEEDL=list(range(16,40))+[47,48,63,64,65,100,300]
def c14(c):
    V=("hw","sw")
    sizes=[0,1,2,3,7,8,15,16,17,31,32,33,48,63,64,65,100,127,128,129,200,255,256,257]
    # every seed length; long and short seeds, only the significant part counts
    for kind in ("chacha","aesctr"):
        for v in V:
            for l in SEEDL:
                t=c.t("%s-seed%d"%(kind,l),v); s=key(c,l)
                for seed in (s,s[:32 if kind=="chacha" else 16]+c.rb(max(0,l-(32 if kind=="chacha" else 16)))):
                    o=t.new("rng",kind=kind,seed=seed,mut=1 if c.r.random()<.5 else 0)
                    for _ in range(c.r.randint(1,4)): req(c,t,o,c.r.choice(sizes))
            # requests of all sizes, no gap between them
            for i in range(c.n(14,60)):
                t=c.t("%s-req%d"%(kind,i),v); o=t.new("rng",kind=kind,seed=c.rb(c.r.choice([16,17,24,31,32,33,40])))
                for _ in range(c.r.randint(5,20)): req(c,t,o,c.r.choice(sizes) if c.r.random()<.6 else c.r.randrange(70))
            # every split of a window around a block boundary
            B=64 if kind=="chacha" else 16
            for a in c.r.sample(range(0,2*B+3),c.n(10,2*B)):
                t=c.t("%s-split%d"%(kind,a),v); o=t.new("rng",kind=kind,seed=c.rb(16))
                req(c,t,o,a); req(c,t,o,c.r.choice([0,1,B-1,B,B+1])); req(c,t,o,2*B+5)
            # the aes counter carries out of its first byte after 256 blocks
            t=c.t("%s-long"%kind,v); o=t.new("rng",kind=kind,seed=c.rb(32)); t.op("rstr",o=o,len=c.n(4090,4090)); req(c,t,o,50); t.op("rstr",o=o,len=c.n(100,20000))
            # seeds that are too short
            t=c.t("%s-short"%kind,v)
            for l in range(0,16): t.new("rng",kind=kind,seed=c.rb(l))
            # wiped generators do not matter any more; two generators do not interfere
            t=c.t("%s-two"%kind,v); s=c.rb(32); a=t.new("rng",kind=kind,seed=s); b=t.new("rng",kind=kind,seed=s)
            for _ in range(8): req(c,t,c.r.choice([a,b]),c.r.choice(sizes))
    # requests out of range change nothing
    for kind in ("chacha","aesctr","system","hardware"):
        t=c.t("range-"+kind); o=t.new("rng",kind=kind,seed=c.rb(32))
        for ofs,ln in ((-1,4),(0,11),(10,1),(11,0),(5,6),(0,-1),(2**62-1,1),(1,2**62-1),(-2**62,2),(4,-3)):
            t.op("rnd",o=o,buf=c.rb(10),ofs=ofs,len=ln)
            t.op("rnd",o=o,buf=c.rb(20),ofs=1,len=9)
    # devices
    for i in range(c.n(40,150)):
        t=c.t("dev%d"%i); n=c.r.choice([0,1,5,16,40,100,300,1000]); d=c.rb(n); kw={}
        if c.r.random()<.7: kw["chunks"]=",".join(str(c.r.choice([1,1,2,3,5,8,16,40])) for _ in range(c.r.randint(1,12)))
        o=t.new("rng",kind="device",data=d,**kw); left=n
        for _ in range(c.r.randint(1,8)):
            k=c.r.choice([0,1,2,3,7,16,40,100]); req(c,t,o,k); left-=k
            if left<0: break
        if left>0 and c.r.random()<.6: req(c,t,o,left)
        if c.r.random()<.8: req(c,t,o,c.r.choice([1,5,300])); req(c,t,o,1)
    # requests beyond the size of a single read of the Unix library
    for n in (65535,65536,65537,70000) if not c.quick else (65537,70000):
        t=c.t("devbig%d"%n); o=t.new("rng",kind="device",data=c.rb(n+5)); t.op("rstr",o=o,len=n); t.op("rstr",o=o,len=5); t.op("rstr",o=o,len=1)
    t=c.t("devnull"); o=t.new("rng",kind="device",data=b""); t.op("rnd",o=o,buf=c.rb(5),ofs=1,len=2); t.op("rnd",o=o,buf=c.rb(5),ofs=1,len=0)
    # generators of the operating system and the processor
    for kind in ("system","hardware","secure"):
        for l in c.r.sample(range(0,40),c.n(12,40))+c.r.sample(sizes+[511,512,513,600,767,768,769,1000],c.n(14,32)):
            t=c.t("%s-%d"%(kind,l),c.r.choice(V)); o=t.new("rng",kind=kind)
            a,b=c.r.choice([0,0,1,3,8]),c.r.choice([0,1,7,20])
            t.op("rnd",o=o,buf=c.rb(a+l+b),ofs=a,len=l)
            if kind!="hardware" or _hw(c): t.op("rstat",o=o,ofs=a,len=l,tot=a+l+b,reps=12)
        t=c.t(kind+"-str"); o=t.new("rng",kind=kind)
        for l in (0,1,13,256,300): t.op("rstr",o=o,len=l)
    for l in (1,100,255,256,257,512,513,1000):
        t=c.t("entropy-%d"%l); o=t.new("rng",kind="system")
        for k in (1,2,3,4,5): t.op("rndf",o=o,k=k,buf=c.rb(l+3),ofs=2,len=l)
    # the processor's generator, simulated: absent, stuck, slow to deliver, running dry
    from .p_var import simulated
    for v in simulated():
        for kw in (dict(cpu=0,avail="good"),dict(cpu=1,avail="dead"),dict(cpu=1,avail="ones"),dict(cpu=0,avail="ones")):
            t=c.t("hwsim-refused",v); t.new("rng",kind="hwsim",k=-1,flaky=0,**kw)
        for i in range(c.n(30,120)):
            t=c.t("hwsim%d"%i,v); k=c.r.choice([-1,-1,0,1,2,3,5,8,9,16,40])
            o=t.new("rng",kind="hwsim",cpu=1,avail="good",k=k,flaky=c.r.choice([0,0,1,2,3,6])); left=8*k
            for _ in range(c.r.randint(1,7)):
                l=c.r.choice([0,1,2,7,8,9,15,16,17,24,31,32,33,63,64,65,100,128]) if k<0 or c.r.random()<.5 else max(0,c.r.choice([left,left-1,left+1,left-8,left+8,left//2,1]))
                req(c,t,o,l); left=max(0,left-(l+7)//8*8)
            if k>=0: req(c,t,o,left+1); req(c,t,o,1); req(c,t,o,0)
def _hw(c): return True
def req(c,t,o,n):
    if c.r.random()<.3: t.op("rstr",o=o,len=n)
    else:
        a,b=c.r.choice([0,0,1,2,5,16]),c.r.choice([0,0,1,3,16]); t.op("rnd",o=o,buf=c.rb(a+n+b),ofs=a,len=n)
def c18(c):
    # equality: every pair of short strings over a small alphabet, every position and bit of difference
    if c.first:
        from itertools import product
        W=[bytes(x) for n in range(0,4) for x in product((0,1,255),repeat=n)]
        P=[(x,y) for x in W for y in W]
        for i in range(0,len(P),100):
            t=c.t("eq%d"%i)
            for x,y in P[i:i+100]: t.op(c.r.choice(["streq","beq"]) if c.quick else "streq",x=x,y=y)
        for op in ("streq","beq"):
            for l in (1,2,7,8,9,15,16,17,31,32,33,64,100):
                t=c.t("%s-diff%d"%(op,l)); d=data(c,l); t.op(op,x=d,y=d)
                for p in range(l):
                    b=bytearray(d); b[p]^=1<<c.r.randrange(8); t.op(op,x=d,y=bytes(b))
                for bit in range(8): b=bytearray(d); b[-1]^=1<<bit; t.op(op,x=bytes(b),y=d)
                t.op(op,x=d,y=d[:-1]); t.op(op,x=d[1:],y=d); t.op(op,x=d,y=d+b"\0"); t.op(op,x=b"\0"+d,y=d)
            # differences that cancel in sums, xors, or wrap at 256 or 2^k
            t=c.t(op+"-cancel")
            for l in (2,8,16,40,256,300,512):
                for _ in range(c.n(12,60)):
                    d=bytearray(c.rb(l)); e=bytearray(d); ps=c.r.sample(range(l),c.r.choice([2,2,min(l,4),min(l,8),l])); m=c.r.choice([1,2,0x80,0xff,c.r.randrange(1,256)])
                    for p in ps: e[p]^=m
                    t.op(op,x=bytes(d),y=bytes(e))
                    if l>=2: f=bytearray(d); f[0],f[1]=f[1],f[0]; t.op(op,x=bytes(d),y=bytes(f))
                x=bytes(l); y=b"\xff"*l; t.op(op,x=x,y=y); t.op(op,x=x,y=b"\x80"*l); t.op(op,x=x,y=b"\1"*l)
    # running time
    lab=1000
    for m in ("s","b"):
        for l in (8,16,32,100,300,1000) if c.quick else (1,7,8,16,32,33,64,100,255,256,1000,5000):
            lab+=1; t=c.t("cost-%s-%d"%(m,l)); d=c.rb(l)
            xs=[(d,d)]
            for p in sorted({0,1,l//4,l//2,l-2,l-1}): 
                b=bytearray(d); b[max(0,p)]^=c.r.randrange(1,256); xs.append((d,bytes(b)))
            xs+=[(d,bytes(x^255 for x in d)),(bytes(l),bytes(l)),(b"\xff"*l,b"\xff"*l),(c.rb(l),c.rb(l))]
            for x,y in xs: t.op("eqcost",x=x,y=y,m=m,lab=lab)
    # xor: all alignments and lengths
    if c.first:
        for op in ("xorb","xors"):
            for a in range(9):
                for b in range(9):
                    t=c.t("%s-%d-%d"%(op,a,b))
                    for l in c.r.sample(range(0,42),c.n(12,42)):
                        t.op(op,src=c.rb(a+l+c.r.randrange(3)),sofs=a,dst=c.rb(b+l+c.r.choice([0,1,7,9])),dofs=b,len=l)
    for i in range(c.n(30,150)):
        t=c.t("xor%d"%i)
        for _ in range(8):
            l=c.r.choice([0,1,8,16,63,64,65,127,128,129,255,256,257,1000]); a,b=c.r.randrange(17),c.r.randrange(17)
            t.op(c.r.choice(["xorb","xors"]),src=data(c,a+l+c.r.randrange(9)),sofs=a,dst=c.rb(b+l+c.r.randrange(20)),dofs=b,len=l)
            # both ranges in one buffer, not overlapping, in either order and possibly adjacent
            g=c.r.choice([0,0,1,3,8]); n=a+l+g+l+c.r.randrange(5); lo,hi=a,a+l+g
            if c.r.random()<.5: lo,hi=hi,lo
            t.op("xorb",src=b"",dst=c.rb(n),sofs=lo,dofs=hi,len=l,same=1)
        for s,d,so,do,l in ((5,5,0,0,6),(5,5,1,0,5),(5,5,0,1,5),(5,5,-1,0,3),(5,5,0,-1,3),(5,5,0,0,-1),(5,5,2**62-1,0,1),(5,5,0,0,2**62-1),(5,5,0,2**62-1,2),(0,0,0,0,1),(5,9,5,0,1),(9,5,0,5,1),(5,9,0,8,2),(9,5,8,0,2),(5,5,-2**62,0,1)):
            if c.r.random()<.4: t.op(c.r.choice(["xorb","xors"]),src=c.rb(s),sofs=so,dst=c.rb(d),dofs=do,len=l)
    # wiping
    t=c.t("wipe")
    for l in list(range(0,70))+[127,128,129,255,256,257,1000,2049]: t.op("wipeb",d=data(c,l)); t.op("wipes",d=data(c,l))
    # modular arithmetic
    if c.first:
        K=c.n(7,12)
        for m in range(1,K+5):
            t=c.t("mod-small%d"%m)
            for x in range(0,K+2):
                for y in range(0,K): t.op("modpow",x=bytes([x]),y=bytes([y]),m=bytes([m])); t.op("modmul",x=bytes([x]),y=bytes([y]),m=bytes([m]))
    big=[b"\0",b"\1",b"\2",b"\xff",b"\1\0",b"\xff"*4,b"\xff"*8,b"\x80"+bytes(7),b"\1"+bytes(8),b"\1"+bytes(16),b"\xff"*16,b"\0\0\0\5",b""]
    def num(l):
        x=c.r.random()
        if x<.2: return c.r.choice(big)
        if x<.3: return bytes(c.r.randint(1,3))+c.rb(l)
        if x<.4: return b"\xff"*l
        return c.rb(l)
    for i in range(c.n(100,600)):
        t=c.t("mod%d"%i)
        for _ in range(6):
            lm=c.r.choice([1,2,3,4,5,7,8,9,12,15,16,17,20,24,31,32,33,40,64]); m=num(lm)
            if not any(m): m=b"\7"
            t.op("modpow",x=num(c.r.choice([1,lm,lm,lm+1,lm+9,2*lm])),y=num(c.r.choice([1,1,2,3,8,16 if lm<20 else 4])),m=m)
            t.op("modmul",x=num(c.r.choice([1,lm,lm,lm+1,2*lm])),y=num(c.r.choice([1,lm,lm+3])),m=m)
    for l in (64,128,129,200) if c.quick else (64,65,100,128,129,192,200,256,257):
        t=c.t("mod-long%d"%l); m=c.rb(l)
        t.op("modpow",x=c.rb(l),y=c.rb(8),m=m); t.op("modmul",x=c.rb(l),y=c.rb(l),m=m); t.op("modpow",x=c.rb(l+5),y=b"\1\0\1",m=m[:-1]+bytes([m[-1]&254]))
MX=2**62-1; MN=-2**62
def ranges(c,L,u=None):
    r=[(-1,1),(-1,0),(0,L+1),(1,L),(L,1),(L+1,0),(L+1,1),(L,MX),(0,MX),(1,MX),(MX,1),(MX,0),(MX,MX),(MN,0),(MN,1),(MN,MX),(0,-1),(L,-1),(5,-3),(-1,L+1),(-1,-1),(MX-3,8),(0,MN),(L//2,L),(2**32,1),(0,2**32),(2**31,2),(-2**31,2**31),(2**32-1,1)]
    return r
def edges(c,L):
    """the ranges that are wrong by one byte first"""
    f=[(0,L+1),(-1,1),(L,1),(1,L)]; r=[x for x in ranges(c,L) if x not in f]; c.r.shuffle(r); return f+r
def legal(c,L):
    a=c.r.randint(0,L); return a,c.r.randint(0,L-a)
def c19(c):
    from .p_trans import transforms
    from .p_hash import macfam
    V=("hw","sw")
    if c.first:
        # key sizes of every cipher, through both interfaces
        for v in V:
            for alg,mx in (("aes",40),("des",20),("3des",30),("blowfish",80)):
                t=c.t("key-"+alg,v)
                for l in list(range(0,mx))+[255,256,257,1000]:
                    for cls in ("cipher","block"):
                        if c.quick and c.r.random()<.4 and l not in(0,3,4,7,8,9,15,16,17,23,24,25,31,32,33,55,56,57): continue
                        kw=dict(alg=alg,mode=c.r.choice(["ecb","cbc","ctr"]),dir=c.r.choice(["enc","dec"]),key=c.rb(l))
                        o=t.new(cls,**kw)
                        if cls=="block" and c.r.random()<.3: bs=16 if alg=="aes" else 8; t.op("btr",o=o,src=c.rb(bs),sofs=0,dst=bytes(bs),dofs=0)
            t=c.t("key-stream",v)
            for l in list(range(0,40))+[64,255,256,257,300]:
                for cls in ("chacha20","s_chacha20","arcfour","s_arcfour"): t.new(cls,key=c.rb(l),**({} if "chacha" in cls else {}))
            for l in range(0,26):
                for cls in ("chacha20","s_chacha20"):
                    t.new(cls,key=c.rb(c.r.choice([16,32])),iv=c.rb(l)); t.new(cls,key=c.rb(l),iv=c.rb(8))
            for ctr in (0,1,2**24,2**31,2**32-1,2**32,2**32+1,2**63-1,2**63,2**64-1):
                for l in (8,12):
                    o=t.new("s_chacha20",key=c.rb(32),iv=c.rb(l),ctr8=ctr.to_bytes(8,"big")); t.op("str",o=o,src=bytes(8),sofs=0,dst=bytes(8),dofs=0,len=8)
            t=c.t("key-aead",v)
            for l in list(range(0,40))+[64]:
                t.new("gcm",dir="enc",key=c.rb(l),iv=c.rb(12)); t.new("chapoly",dir="dec",key=c.rb(l),iv=c.rb(12)); t.new("chapoly",dir="enc",key=c.rb(32),iv=c.rb(l)); t.new("gcm",dir="dec",key=c.rb(16),iv=c.rb(l))
        # IV sizes and feedback sizes
        for alg,kl,bs in BLOCK:
            t=c.t("iv-%s-%s"%(alg,kl))
            for m,n in (("cbc",None),("cfb",1),("cfb",bs),("ofb",bs),("ofb",3),("ctr",None),("ctrn",2)):
                for l in list(range(0,bs+3))+[2*bs,24,32]:
                    if c.quick and c.r.random()<.5 and abs(l-bs)>1: continue
                    for cls in ("cipher","block"):
                        kw=dict(alg=alg,mode=m,dir=c.r.choice(["enc","dec"]),key=c.rb(keylen(c,alg,kl)),iv=c.rb(l))
                        if n: kw["n"]=n
                        t.new(cls,**kw)
            t=c.t("n-%s-%s"%(alg,kl))
            for m in ("cfb","ofb","ctrn"):
                for n in list(range(-2,bs+3))+[64,255,256,MX,MN,2**32,2**32+1]:
                    for cls in ("cipher","block"):
                        o=t.new(cls,alg=alg,mode=m,n=n,dir=c.r.choice(["enc","dec"]),key=c.rb(keylen(c,alg,kl)),iv=c.rb(bs))
        # digest sizes, MAC keys and IVs
        for v in V:
            for alg in ("sha2","sha3","keccak","blake2b","blake2s","blake3"):
                t=c.t("sz-"+alg,v)
                for sz in sorted(set(list(range(-9,20))+list(range(0,540,8))+[1,7,223,225,255,257,383,385,511,513,519,MX,MN,2**32+256,2**32+8] if alg!="blake3" else list(range(-9,20))+list(range(0,540,8))+[513,1031])):
                    if alg=="blake3" and sz<0 and False: continue
                    o=t.new("hash",alg=alg,sz=sz)
                    if c.r.random()<.2: t.op("hsize",o=o); t.op("result",o=o)
            for alg,ks,sz in (("mac_blake2b",list(range(60,70))+[0,1,128,256],(8,512,0,520,4,256)),("mac_blake2b512",[0,1,63,64,65,128],(None,)),("mac_blake2s",list(range(28,40))+[0,1,64],(8,256,0,264,3)),("mac_blake2s256",[0,1,31,32,33,64],(None,)),
                              ("mac_blake3",[0,1,16,31,32,33,64],(8,256,512,0,-8,9)),("mac_blake3_256",[0,1,31,32,33,64],(None,)),("siphash",list(range(0,34)),(None,)),("siphash128",list(range(0,34)),(None,)),
                              ("aes_cmac",list(range(0,34)),(None,)),("mac_aes",list(range(0,34)),(None,)),("mac_des",list(range(0,18)),(None,)),("mac_3des",list(range(0,26)),(None,)),("mac_des3",list(range(0,26)),(None,))):
                t=c.t("mk-"+alg,v)
                for k in ks:
                    for z in sz:
                        kw=dict(alg=alg,key=c.rb(k))
                        if z is not None: kw["sz"]=z
                        o=t.new("hash",**kw)
                        if c.r.random()<.15: put(c,t,o,c.rb(16)); t.op("result",o=o)
            for alg,kl,bs in (("aes_cmac",16,16),("mac_aes",16,16),("mac_des",8,8),("mac_3des",24,8),("mac_des3",16,8)):
                t=c.t("mi-"+alg,v)
                for l in range(0,2*bs+2): t.new("hash",alg=alg,key=c.rb(kl),iv=c.rb(l))
        t=c.t("triple")
        for a in (1,4,8,16):
            for b in (1,4,8,16):
                for d in (4,8): t.new("hash",alg="mac_toy3",bs=a,bs2=b,bs3=d,key=c.rb(3))
        t=c.t("levels")
        for l in (-3,-2,-1,0,1,5,9,10,11,100,1000,2**31-1,-2**31):
            o=t.new("zc",level=l); t.op("put",o=o,d=b"abc",m="str"); t.op("finish",o=o); t.op("gets",o=o)
        t=c.t("seeds")
        for k in ("chacha","aesctr"):
            for l in range(0,34): t.new("rng",kind=k,seed=c.rb(l))
        t=c.t("pk"); r=t.new("rng",kind="chacha",seed=c.rb(32))
        for b in (MN,-1,0,1,30,31,33,35,37,32,34): t.op("rsa_new",o=t.oid(),bits=b,rng=r,e=3); t.op("pai_new",o=t.oid(),bits=b,rng=r)
        for b in (MN,-1,0,16,31): t.op("dh_params",o=t.oid(),bits=b,privlen=8,rng=r)
    # ranges: block primitives and modes
    for v in ("hw","sw","asan"):
        for alg,kl,bs in BLOCK:
            for d in ("enc","dec"):
                for m,n in ((("ecb",None),("cbc",None),("cfb",3),("ofb",5),("ctr",None)) if v!="sw" else (("ecb",None),)):
                    if v=="asan" and m not in("ecb","cbc") and c.r.random()<.7: continue
                    t=c.t("btr-%s%s-%s-%s"%(alg,kl,m,d),v); kw=cipher_kw(c,alg,kl,bs,m,n,d)
                    if "iv" not in kw and m!="ecb": kw["iv"]=c.rb(bs)
                    u=n or bs; o=t.new("block",**kw)
                    # one byte too far, and just not, on either side
                    for L in (u,u+3):
                        for a,b,la,lb in ((L-u+1,0,L,2*u),(0,L-u+1,2*u,L),(-1,0,L,L),(0,-1,L,L)):
                            if m!="ecb": o=t.new("block",**kw)
                            t.op("btr",o=o,src=c.rb(la),sofs=a,dst=c.rb(lb),dofs=b)
                        if m!="ecb": o=t.new("block",**kw)
                        t.op("btr",o=o,src=c.rb(L),sofs=L-u,dst=c.rb(L),dofs=L-u)
                    offs=[-1,1,bs,bs+1,MX,MN,-bs,2**31,2**32,-2**31,MX-bs,MX-u+1,L_(u)]
                    c.r.shuffle(offs)
                    for x in offs[:c.n(5,13)]:
                        L=c.r.choice([u,u,u+1,2*u,u-1,0])
                        case=c.r.randrange(3)
                        if m!="ecb": o=t.new("block",**kw)
                        if case==0: t.op("btr",o=o,src=c.rb(L),sofs=x,dst=c.rb(2*u),dofs=c.r.choice([0,u]))
                        elif case==1: t.op("btr",o=o,src=c.rb(2*u),sofs=0,dst=c.rb(L),dofs=x)
                        else: t.op("btr",o=o,src=c.rb(L),sofs=x,dofs=0,inplace=1)
                        if m=="ecb": t.op("btr",o=o,src=c.rb(u+2),sofs=c.r.randrange(3),dst=c.rb(u+3),dofs=c.r.randrange(4))
        for cls in ("s_chacha20","s_arcfour"):
            for rep in range(c.n(2,6)):
                t=c.t("str-%s-%d"%(cls,rep),v); o=t.new(cls,key=c.rb(16)); L=c.r.choice([0,1,10,64,70])
                rs=edges(c,L)
                for ofs,ln in rs[:c.n(10,29)]:
                    # source out of range / destination out of range
                    if c.r.random()<.5: t.op("str",o=o,src=c.rb(L),sofs=ofs,dst=c.rb(c.r.choice([L,2*L+2,200])),dofs=0,len=ln)
                    else: t.op("str",o=o,src=c.rb(c.r.choice([L,2*L+2,200])),sofs=0,dst=c.rb(L),dofs=ofs,len=ln)
                    if c.r.random()<.5: t.op("str",o=o,src=c.rb(20),sofs=3,dst=c.rb(20),dofs=2,len=c.r.choice([0,5,17]))
        # transforms, hashes, authenticated transforms: put_substring / add_substring
        fam=[("T-"+n,mk,None) for n,u,s,mk in transforms(c)]
        fam+=[("zc",lambda t:t.new("zc"),None),("zu",lambda t:t.new("zu"),None)]
        fam+=[("gcm-"+d,(lambda t,d=d:t.new("gcm",dir=d,key=c.rb(16),iv=c.rb(12))),"A") for d in ("enc","dec")]
        fam+=[("chapoly-"+d,(lambda t,d=d:t.new("chapoly",dir=d,key=c.rb(32),iv=c.rb(12))),"A") for d in ("enc","dec")]
        fam+=[("H-"+n,(lambda t,mk=mk:t.new("hash",**mk())),"H") for n,R,mk in macfam(c)]
        fam+=[("comp",lambda t:t.new("compose",a=t.new("hexenc"),b=t.new("hexdec")),None),
              ("th",lambda t:t.new("then_hash",a=t.new("hexenc"),h=t.new("hash",alg="md5")),"A"),("ah",lambda t:t.new("and_hash",a=t.new("hexenc"),h=t.new("hash",alg="sha1")),"A")]
        for name,mk,kind in fam:
            if v!="hw" and c.r.random()<(.6 if c.quick else .3): continue
            t=c.t("put-"+name,v); L=c.r.choice([0,1,5,16,17,64,100]); rs=edges(c,L)
            o=mk(t) if kind=="H" else None
            for ofs,ln in rs[:c.n(7,29)]:
                if kind!="H": o=mk(t)
                if c.r.random()<.4: put(c,t,o,c.rb(c.r.choice([1,3,20])) if "dec" not in name and "zu" not in name else b"")
                t.op("putraw",o=o,buf=c.rb(L),ofs=ofs,len=ln)
                if c.r.random()<.4: a,b=legal(c,L); t.op("putraw",o=o,buf=c.rb(L) if "dec" not in name and "zu" not in name else b"A"*L,ofs=a,len=b)
            if kind=="H": t.op("result",o=o)
        for kind in ("chacha","aesctr","system","hardware","secure"):
            t=c.t("rnd-"+kind,v); o=t.new("rng",kind=kind,seed=c.rb(32))
            L=c.r.choice([0,5,20,64]); rs=edges(c,L)
            for ofs,ln in rs[:c.n(14,29)]:
                t.op("rnd",o=o,buf=c.rb(L),ofs=ofs,len=ln)
                if c.r.random()<.5: t.op("rnd",o=o,buf=c.rb(30),ofs=3,len=c.r.choice([1,20]))
    for op in ("xorb","xors"):
        t=c.t(op); L=c.r.choice([1,8,20])
        for ofs,ln in ranges(c,L):
            t.op(op,src=c.rb(L),sofs=ofs,dst=c.rb(40),dofs=0,len=ln); t.op(op,src=c.rb(40),sofs=0,dst=c.rb(L),dofs=ofs,len=ln)
    # messages that are too long or too short
    t=c.t("acheck")
    for l in range(0,20):
        t.op("acheck",o=t.new("gcm",dir="dec",key=c.rb(16),iv=c.rb(12)),d=c.rb(l)); t.op("acheck",o=t.new("chapoly",dir="dec",key=c.rb(16),iv=c.rb(8)),d=c.rb(l))
def L_(u): return u-1
