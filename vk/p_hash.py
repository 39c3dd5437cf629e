"""C06, C07, C08: hashes and MACs"""
from .lib import *
from . import hist
def hfam(c):
    """(name, rate, constructor kw) of unkeyed hashes"""
    r=[(a,BLK[a],dict(alg=a)) for a in HASHES]
    r+=[("%s_%d"%(a,s),rate(a,s),dict(alg=a,sz=s)) for a,s in SIZED]
    return r
def lens_around(c,R,blocks=(0,1,2,3)):
    s=set()
    for b in blocks:
        for d in (-18,-17,-16,-10,-9,-8,-7,-1,0,1):
            if b*R+d>=0: s.add(b*R+d)
    return sorted(s)
def one(c,t,kw,d,m=None,hs=False):
    o=t.new("hash",**kw)
    if hs: t.op("hsize",o=o)
    if d is not None: put(c,t,o,d,m or c.r.choice(["str","sub"]))
    t.op("result",o=o)
def c06(c):
    for v in ("hw","sw") if c.first else (c.r.choice(["hw","sw"]),):
        for name,R,kw in hfam(c):
            ls=list(range(0,2*R+2)) if v=="hw" and c.first else lens_around(c,R)
            if c.quick and v=="hw": ls=sorted(set(lens_around(c,R))|set(c.r.sample(ls,min(len(ls),60))))
            for i in range(0,len(ls),25):
                t=c.t("%s-%d"%(name,i//25),v)
                for l in ls[i:i+25]: one(c,t,kw,data(c,l),hs=c.r.random()<.1)
            t=c.t(name+"-none",v); o=t.new("hash",**kw); t.op("hsize",o=o); t.op("result",o=o)
            for rep in range(c.n(1,4)):
                t=c.t("%s-long%d"%(name,rep),v); one(c,t,kw,data(c,c.r.choice([5*R+3,8*R,9*R-1,700,1000,1500])))
        # every digest size
        for a,top in (("blake2b",64),("blake2s",32)):
            t=c.t(a+"-sizes",v)
            for k in range(1,top+1):
                o=t.new("hash",alg=a,sz=8*k); t.op("hsize",o=o); put(c,t,o,data(c,c.r.choice([0,1,3,BLK[a]-1,BLK[a],BLK[a]+1,c.r.randrange(2*BLK[a]+5)])),"str"); t.op("result",o=o)
        t=c.t("blake3-sizes",v)
        for k in (list(range(1,140)) if v=="hw" and not c.quick else [1,2,3,20,31,32,33,48,63,64,65,100,127,128,129,130,191,192,193,256,500,1000]+([16384+c.r.randint(1,200)] if v=="hw" else [])+[c.r.randint(1,400) for _ in range(10)]):
            o=t.new("hash",alg="blake3",sz=8*k); t.op("hsize",o=o); put(c,t,o,data(c,c.r.choice([0,1,63,64,65,c.r.randrange(200)])),"str"); t.op("result",o=o)
        # BLAKE3 tree shapes
        ch=[1023,1024,1025,2047,2048,2049,3072,3073,4096,4097,5120,5121,6145,7168,7169,8192,8193,9217,10240,15360,15361,16384,16385]
        for l in (ch if v=="hw" else c.r.sample(ch,6))+[c.r.randint(1026,20000) for _ in range(c.n(4,20))]+([31744,31745,32768,32769,65536,65537] if v=="hw" and c.first else [])+([] if c.quick else [131072,131073,200000]):
            t=c.t("blake3-%d"%l,v)
            kw=dict(alg="blake3_256") if c.r.random()<.6 else dict(alg="blake3",sz=8*c.r.randint(1,100))
            one(c,t,kw,data(c,l))
def macfam(c):
    """(name, rate, kw maker) of every keyed or unkeyed hash object"""
    r=[(n,R,lambda kw=kw:dict(kw)) for n,R,kw in hfam(c)]
    r+=[("blake2b-sz",128,lambda:dict(alg="blake2b",sz=8*c.r.randint(1,64))),("blake2s-sz",64,lambda:dict(alg="blake2s",sz=8*c.r.randint(1,32))),("blake3-sz",64,lambda:dict(alg="blake3",sz=8*c.r.randint(1,90)))]
    for h in HMACS: r.append((h,BLK[h[5:]],lambda h=h:dict(alg=h,key=c.rb(c.r.randint(0,150)))))
    r+=[("mac_blake2b",128,lambda:dict(alg="mac_blake2b",sz=8*c.r.randint(1,64),key=c.rb(c.r.randint(0,64)))),
        ("mac_blake2b512",128,lambda:dict(alg="mac_blake2b512",key=c.rb(c.r.randint(1,64)))),
        ("mac_blake2s",64,lambda:dict(alg="mac_blake2s",sz=8*c.r.randint(1,32),key=c.rb(c.r.randint(0,32)))),
        ("mac_blake2s256",64,lambda:dict(alg="mac_blake2s256",key=c.rb(c.r.randint(1,32)))),
        ("mac_blake3",64,lambda:dict(alg="mac_blake3",sz=8*c.r.randint(1,70),key=c.rb(32))),
        ("mac_blake3_256",64,lambda:dict(alg="mac_blake3_256",key=c.rb(32))),
        ("aes_cmac",16,lambda:dict(alg="aes_cmac",key=c.rb(c.r.choice([16,24,32])))),
        ("siphash",8,lambda:dict(alg="siphash",key=c.rb(16))),("siphash128",8,lambda:dict(alg="siphash128",key=c.rb(16)))]
    for a,kl,bs in (("mac_aes",16,16),("mac_des",8,8),("mac_3des",24,8),("mac_des3",16,8)):
        for p in ("none","length","8000"):
            r.append(("%s-%s"%(a,p),bs,lambda a=a,kl=kl,p=p,bs=bs:dict(dict(alg=a,key=c.rb(kl),iv=c.rb(bs)),**({} if p=="none" else {"pad":p}))))
    r.append(("mac_toy",5,lambda:dict(alg="mac_toy",bs=5,key=c.rb(3),pad=c.r.choice(["length","8000","toy"]))))
    r.append(("mac_toy3",3,lambda:dict(alg="mac_toy3",bs=3,key=c.rb(3),pad=c.r.choice(["length","8000","toy"]))))
    return r
def c07(c):
    P=("p0","p1","pm","pb","pp","p2"); O=()
    h3=hist.histories(3,P,("av",))[0]; h3=[h for h in h3 if "av" not in h]
    h4=[h for h in hist.histories(5,P,("av",))[0] if "av" not in h] if not c.quick else []
    for name,R,mk in macfam(c):
        v=c.r.choice(["hw","hw","sw"])
        hs=(c.r.sample(h3,min(len(h3),c.n(30,200))) if c.first else [])+(c.r.sample(h4,100) if h4 else [])
        for i in range(0,len(hs),10):
            t=c.t("%s-h%d"%(name,i//10),v)
            for h in hs[i:i+10]:
                o=t.new("hash",**mk()); hist.replay(c,t,o,h,R,c.rb,fin="result")
                if "fin" not in h: t.op("result",o=o)
        # fill f, then add l: every pair of positions near the block boundary
        fs=sorted(set([0,1,2,R-2,R-1,R,R+1]+[c.r.randrange(R+1) for _ in range(3)]))
        t=c.t(name+"-fill",v)
        pairs=[(f,l) for f in fs if f>=0 for l in sorted(set([0,1,R-f-1,R-f,R-f+1,2*R-f-1,2*R-f,2*R-f+1,3*R-f+1,R,R-1])) if l>=0]
        for f,l in c.r.sample(pairs,min(len(pairs),c.n(24,70))):
            o=t.new("hash",**mk()); put(c,t,o,c.rb(f),"sub"); put(c,t,o,c.rb(l),c.r.choice(["sub","str"]))
            if name.endswith("none"): put(c,t,o,c.rb(-(f+l)%R),"sub")
            t.op("result",o=o)
        # byte by byte, one piece, random pieces: same message
        for rep in range(c.n(1,4)):
            d=data(c,c.r.choice([R,2*R+1,3*R-1,3*R])); kw=mk()
            if name.endswith("none"): d=d[:len(d)//R*R]
            t=c.t("%s-same%d"%(name,rep),v)
            for parts,ms in (([len(d)],("str","sub")),([1]*len(d),MS) if len(d)<100 or c.r.random()<.3 else ([7]*(len(d)//7),("sub",)),(None,None)):
                o=t.new("hash",**kw); feed(c,t,o,d,parts=parts,ms=ms); t.op("result",o=o)
    # BLAKE3 chunk and tree boundaries
    for rep in range(c.n(30,150)):
        v=c.r.choice(["hw","sw"])
        kw=dict(alg="blake3_256") if rep%2 else dict(alg="mac_blake3",sz=8*c.r.randint(1,70),key=c.rb(32))
        t=c.t("blake3-%d"%rep,v); o=t.new("hash",**kw)
        if c.r.random()<.6:
            a=c.r.choice([1,63,64,65,1000,1023,1024,1025,2000,2048,3071,3072,c.r.randrange(3000)]); 
            b=c.r.choice([1,23,24,25,1023,1024,1025,2048,2049,1024-a%1024,1025-a%1024,2048-a%1024,1024*3-a%1024+1])
            cc=c.r.choice([0,1,64,1024,1025])
            for n in (a,b,cc): put(c,t,o,c.rb(n),c.r.choice(["sub","str"]))
        else:
            n=c.r.randint(1000,9000)
            while n>0: k=min(n,c.r.choice([1,64,500,1024,1025,2048,3000])); put(c,t,o,c.rb(k),c.r.choice(["sub","str"])); n-=k
        t.op("result",o=o)
def c08(c):
    def go(name,kws,ds,v=None):
        t=c.t(name,v or c.r.choice(["hw","sw"]))
        for kw,d in zip(kws,ds):
            o=t.new("hash",mut=c.r.randrange(2),**kw)
            if c.r.random()<.1: t.op("hsize",o=o)
            if c.r.random()<.7: put(c,t,o,d,"str")
            else: feed(c,t,o,d)
            t.op("result",o=o)
    for h in HMACS:
        B=BLK[h[5:]]
        kls=sorted(set([0,1,2,16,20,32,B-2,B-1,B,B+1,B+2,2*B-1,2*B,2*B+1,3*B,3*B+1,300]+[c.r.randrange(3*B) for _ in range(c.n(6,40))]))
        for i in range(0,len(kls),8):
            g=kls[i:i+8]
            go("%s-key%d"%(h,i//8),[dict(alg=h,key=key(c,k) if k else b"") for k in g],[data(c,c.r.choice([0,1,10,B-10,B-9,B-8,B-1,B,B+1,2*B])) for k in g])
        ls=lens_around(c,B,(0,1,2)); ls=c.r.sample(ls,c.n(10,len(ls)))
        for i in range(0,len(ls),8):
            g=ls[i:i+8]; go("%s-len%d"%(h,i//8),[dict(alg=h,key=c.rb(c.r.choice([20,B,B+1]))) for _ in g],[data(c,l) for l in g])
    for a,top,kt,R in (("mac_blake2b",64,64,128),("mac_blake2s",32,32,64)):
        prs=[(s,k) for s in range(1,top+1) for k in range(0,kt+1)]
        prs=c.r.sample(prs,c.n(60,300))+[(top,k) for k in range(kt+1)]
        for i in range(0,len(prs),20):
            g=prs[i:i+20]; go("%s-%d"%(a,i//20),[dict(alg=a,sz=8*s,key=c.rb(k)) for s,k in g],[data(c,c.r.choice([0,0,1,R-1,R,R+1,c.r.randrange(3*R)])) for _ in g])
        f="mac_blake2b512" if a=="mac_blake2b" else "mac_blake2s256"
        go(f,[dict(alg=f,key=c.rb(k)) for k in (0,1,kt//2,kt-1,kt)],[data(c,n) for n in (0,1,R,2*R,R-1)])
    for v in ("hw","sw"):
        go("blake3",[dict(alg="mac_blake3",sz=8*s,key=c.rb(c.r.choice([32,32,0]))) for s in (1,16,31,32,33,63,64,65,100,130)],[data(c,n) for n in (0,1,63,64,65,127,128,129,1024,1025)],v)
        go("blake3b",[dict(alg="mac_blake3_256",key=c.rb(c.r.choice([32,32,0]))) for s in range(6)],[data(c,n) for n in (0,1,64,1023,2048,3100)],v)
    for a in ("siphash","siphash128"):
        for i in range(c.n(3,10)):
            go("%s-%d"%(a,i),[dict(alg=a,key=key(c,16)) for _ in range(40)],[data(c,l if i==0 else c.r.randrange(300)) for l in range(40)])
    for kl in (16,24,32):
        for v in ("hw","sw"):
            ls=list(range(0,50)); ls=c.r.sample(ls,c.n(30,50))+[0,16,32,15,17]
            go("cmac%d"%kl,[dict(dict(alg="aes_cmac",key=key(c,kl)),**({"iv":c.rb(16)} if c.r.random()<.3 else {})) for _ in ls],[data(c,l) for l in ls],v)
    for a,kls,bs in (("mac_aes",(16,24,32),16),("mac_des",(8,),8),("mac_3des",(16,24),8),("mac_des3",(16,24),8)):
        for p in (None,"length","8000"):
            for kl in kls:
                ls=list(range(0,2*bs+2)) if bs==8 or not c.quick else c.r.sample(range(0,34),14)+[0,16,32,15,17,31]
                kws=[]
                for l in ls:
                    kw=dict(alg=a,key=key(c,kl))
                    if c.r.random()<.5: kw["iv"]=data(c,bs)
                    if p: kw["pad"]=p
                    kws.append(kw)
                go("%s%d-%s"%(a,kl,p),kws,[data(c,l) for l in ls])
    for i in range(c.n(8,30)):   # CBC-MAC over user ciphers
        bs=c.r.choice([1,2,3,5,8,16,20]); g=range(12)
        go("toy%d"%i,[dict(dict(alg=c.r.choice(["mac_toy","mac_toy3"]),bs=bs,key=c.rb(4)),**dict(([("iv",c.rb(bs))] if c.r.random()<.5 else [])+([("pad",c.r.choice(["length","8000","toy"]))] if c.r.random()<.6 else []))) for _ in g],[data(c,c.r.choice([0,bs,bs-1,bs+1,2*bs,3*bs,c.r.randrange(4*bs)])) for _ in g])
    for i in range(c.n(8,30)):   # final triple over three different ciphers of mixed kinds
        t=c.t("obj3-%d"%i)
        def blk():
            a,kl,bs=c.r.choice([("des",8,8),("3des",24,8),("blowfish",9,8),("toy",3,8)]); kw=dict(alg=a,mode="ecb",dir=c.r.choice(["enc","dec"]),key=c.rb(kl))
            if a=="toy": kw["bs"]=8
            return t.new("block",**kw)
        x,y,z=blk(),blk(),blk(); kw={"alg":"mac_obj3","pa":x,"pb":y,"pc":z}
        if c.r.random()<.5: kw["iv"]=c.rb(8)
        if c.r.random()<.6: kw["pad"]=c.r.choice(["length","8000"])
        o=t.new("hash",**kw); feed(c,t,o,c.rb(c.r.choice([8,16,24,5,17]))); t.op("result",o=o)
        w=t.new("hash",alg="mac_obj",pa=y,pad="length"); feed(c,t,w,c.rb(20)); t.op("result",o=w)
