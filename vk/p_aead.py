"""C09, C10: authenticated encryption"""
from .lib import *
from . import hist,pyref
from .trace import Ref
from .p_trans import transforms,Src
def gkw(c,d="enc",iv=None):
    kw=dict(dir=d,key=key(c,c.r.choice([16,24,32])),iv=c.rb(12) if iv is None else iv)
    if c.r.random()<.8: kw["hdr"]=data(c,c.r.choice([0,1,5,15,16,17,20,31,32,33,47,48,64]))
    return kw
def ckw(c,d="enc"):
    kw=dict(dir=d,key=key(c,c.r.choice([16,32])),iv=c.rb(c.r.choice([8,12])))
    if c.r.random()<.8: kw["hdr"]=data(c,c.r.choice([0,1,5,15,16,17,20,31,32,33,47,48,64]))
    return kw
def run(c,t,cls,kw,d,split=True):
    o=t.new(cls,mut=c.r.randrange(2),**kw)
    if c.r.random()<.1: t.op("tagsize",o=o); t.op("ibs",o=o); t.op("obs",o=o)
    if split: feed(c,t,o,d,read=.25)
    else: put(c,t,o,d,c.r.choice(["str","sub"]))
    t.op("tag",o=o); t.op("avail",o=o); t.op("gets",o=o)
def c09(c):
    P=("p0","p1","pm","pb","pp","p2"); O=("gs","gc","av")
    for v in ("hw","sw"):
        # every IV length near the block boundaries; every text and header length
        ivs=list(range(0,50))+[60,63,64,65,100,128,255,256,300]
        if c.quick: ivs=c.r.sample(ivs,25)+[1,8,11,12,13,15,16,17]
        for i in range(0,len(ivs),6):
            t=c.t("gcm-iv%d"%i,v)
            for l in ivs[i:i+6]: run(c,t,"gcm",gkw(c,c.r.choice(["enc","dec"]),iv=c.rb(l)),data(c,c.r.choice([0,1,15,16,17,40])))
        for cls in ("gcm","chapoly"):
            mk=gkw if cls=="gcm" else ckw
            ls=list(range(0,82)) if not c.quick else c.r.sample(range(0,82),24)+[0,15,16,17,32,48,64]
            for i in range(0,len(ls),6):
                t=c.t("%s-len%d"%(cls,i),v)
                for l in ls[i:i+6]:
                    kw=mk(c); d=data(c,l)
                    run(c,t,cls,kw,d,split=False)
                    run(c,t,cls,dict(kw,dir="dec"),d)
            hs=list(range(0,50)) if not c.quick else c.r.sample(range(0,66),12)+[0,15,16,17]
            t=c.t(cls+"-hdr",v)
            for l in hs: run(c,t,cls,dict(mk(c,c.r.choice(["enc","dec"])),hdr=data(c,l)),data(c,c.r.choice([0,3,16,20])))
            for i in range(c.n(3,10)):   # longer
                t=c.t("%s-long%d"%(cls,i),v); run(c,t,cls,mk(c,c.r.choice(["enc","dec"])),data(c,c.r.choice([300,513,700,1024])))
            # histories
            hsx=c.r.sample(hist.histories(3,P,O)[0],c.n(60,400))+hist.simulate(c,12,c.n(8,40),P,O+("gn",))
            for i in range(0,len(hsx),8):
                t=c.t("%s-h%d"%(cls,i//8),v)
                for h in hsx[i:i+8]:
                    o=t.new(cls,**mk(c,c.r.choice(["enc","dec"]))); hist.replay(c,t,o,h,16 if c.r.random()<.8 else 4,c.rb,fin="tag")
                    if "fin" not in h: t.op("tag",o=o)
                    t.op("gets",o=o)
        # decryption recovers the text and computes the same tag
        for i in range(c.n(8,30)):
            for cls in ("gcm","chapoly"):
                kw=(gkw if cls=="gcm" else ckw)(c); t=c.t("%s-rt%d"%(cls,i),v)
                o=t.new(cls,**kw); put(c,t,o,data(c,c.r.randrange(100)),"str"); t.op("tag",o=o); t.op("gets",o=o); x=t.last()
                f=t.new(cls,**dict(kw,dir="dec")); t.op("put",o=f,d=x); t.op("tag",o=f); t.op("gets",o=f)
        # counter wrap-around
        for i in range(c.n(8,30)):
            t=c.t("gcm-wrap%d"%i,v); kw=gkw(c,c.r.choice(["enc","dec"]))
            j0=bytearray(c.rb(16)); j0[12:]=(2**32-c.r.randint(1,4)).to_bytes(4,"big")
            if c.r.random()<.3: j0[8:]=b"\xff"*8
            if c.r.random()<.2: j0[12:]=c.r.choice([b"\0\0\0\xff",b"\0\0\xff\xff",b"\0\xff\xff\xff",b"\x7f\xff\xff\xff"])
            kw["iv"]=pyref.gcm_iv_for(kw["key"],bytes(j0))
            run(c,t,"gcm",kw,data(c,c.r.choice([70,96,100])),split=c.r.random()<.5)
        # Poly1305 corner values
        # (end values 0..4 leave the accumulator in [p,2^130), the next ones propagate carries through all limbs)
        targets=[(x,False) for x in range(9)]+[(x,c.r.random()<.4) for x in (pyref.P-1,pyref.P-2,2**128,2**128-1,2**129,2**104,2**78,2**52,2**26-1,2**64,2**44,2**88)]
        # carries of the last reduction that stop at, or run through, each limb (26 or 44 bits)
        for w in (26,52,78,104,44,88):
            for j in range(c.n(2,5)):
                targets.append(((c.r.randrange(2**(129-w))<<w)+2**w-1-c.r.randrange(5),False))
                targets.append((2**w*c.r.choice([1,1,2,3,c.r.randrange(1,60)])+c.r.choice([0,1,2,3,4,5]),False))
        for i in range(c.n(0,60)): targets.append((c.r.choice([c.r.randrange(20),pyref.P-1-c.r.randrange(20),2**c.r.randrange(130)]),c.r.random()<.3))
        for i,(x,mid) in enumerate(targets):
            kw=ckw(c,"dec"); hdr=kw.get("hdr",b"")
            ct=pyref.poly_ct(c,kw["key"],kw["iv"],hdr,x,n=c.r.randint(1,4),intermediate=mid)
            if ct: t=c.t("poly%d"%i,v); run(c,t,"chapoly",kw,ct)
        t=c.t("poly-ff",v)
        for n in (16,32,48,64,160): run(c,t,"chapoly",ckw(c,"dec"),b"\xff"*n); run(c,t,"chapoly",ckw(c,"dec"),bytes(n))
def c10(c):
    for v in ("hw","sw"):
        for cls in ("gcm","chapoly"):
            mk=gkw if cls=="gcm" else ckw
            for i in range(c.n(10,40)):
                t=c.t("%s-%d"%(cls,i),v); kw=mk(c)
                if "hdr" not in kw: kw["hdr"]=c.rb(c.r.randrange(4))
                l=c.r.choice([0,1,7,15,16,17,31,32,33,40,60])
                o=t.new(cls,**kw); t.op("atstring",o=o,d=data(c,l)); x=len(t.ops)-1
                dk=dict(kw,dir="dec")
                def chk(r,**o): w=t.new(cls,**dict(dk,**o)); t.op("acheck",o=w,d=r)
                chk(Ref(x))
                n=l+16
                ps=range(n) if i==0 else sorted(set([n-1,n-16,max(0,n-17),0]+[c.r.randrange(n) for _ in range(6)]))
                for p in ps: chk(Ref(x,pos=p,mask=1<<c.r.randrange(8)))
                if i<2:
                    for bit in range(128): chk(Ref(x,pos=n-16+bit//8,mask=1<<(bit%8)))
                for k in (1,2,15,16,17,c.r.randrange(1,n+1)): chk(Ref(x,0,max(0,n-k)))
                chk(Ref(x,1,-1)); chk(Ref(x,app=b"\0")); chk(Ref(x,app=c.rb(16))); chk(Ref(x,0,l)); chk(Ref(x,app=c.rb(1)))
                fl=lambda b:bytes([b[0]^(1<<c.r.randrange(8))])+b[1:] if b else b"\1"
                def flip(b):
                    if not b: return b"\0"
                    b=bytearray(b); b[c.r.randrange(len(b))]^=1<<c.r.randrange(8); return bytes(b)
                chk(Ref(x),key=flip(kw["key"])); chk(Ref(x),iv=flip(kw["iv"])); chk(Ref(x),hdr=flip(kw["hdr"])); chk(Ref(x),hdr=kw["hdr"]+b"\0"); chk(Ref(x),hdr=kw["hdr"][:-1])
                # one byte moved between header and text
                # detached
                o=t.new(cls,**kw); t.op("atdet",o=o,d=data(c,l))
                for k in range(0,17): w=t.new(cls,**dk); t.op("acheck",o=w,d=c.rb(k))
    # reordered blocks: two messages under different keys/IVs, spliced
        for cls in ("gcm","chapoly"):
            for i in range(c.n(4,12)):
                mk=gkw if cls=="gcm" else ckw; kw=mk(c); t=c.t("%s-splice%d"%(cls,i),v)
                o=t.new(cls,**kw); t.op("atstring",o=o,d=data(c,48)); x=len(t.ops)-1
                p=t.new(cls,**dict(kw,iv=c.rb(12))); t.op("atstring",o=p,d=data(c,48)); y=len(t.ops)-1
                w=t.new(cls,**dict(kw,dir="dec")); t.op("acheck",o=w,d=Ref(y))
                w=t.new(cls,**dict(kw,dir="dec")); t.op("acheck",o=w,d=Ref(x,16,-1))
                w=t.new(cls,**dict(kw,dir="dec")); t.op("acheck",o=w,d=Ref(x))
    # generic composition: every transform and hash
    hs=[dict(alg=a) for a in HASHES]+[dict(alg=a,sz=s) for a,s in SIZED]+[dict(alg=h,key=c.rb(20)) for h in HMACS]
    hs+=[dict(alg="aes_cmac",key=c.rb(16)),dict(alg="siphash",key=c.rb(16)),dict(alg="siphash128",key=c.rb(16)),dict(alg="mac_aes",key=c.rb(16),pad="length"),dict(alg="mac_des3",key=c.rb(16),pad="8000"),dict(alg="blake2b",sz=88),dict(alg="blake2s",sz=8),dict(alg="blake3",sz=800),dict(alg="mac_blake3_256",key=c.rb(32)),dict(alg="mac_blake2s",sz=128,key=c.rb(9))]
    trs=transforms(c)
    combos=[(tr,c.r.choice(hs)) for tr in trs for _ in range(c.n(2,8))]+[(c.r.choice(trs),h) for h in hs for _ in range(c.n(2,8))]
    for i,((name,u,src,mk),h) in enumerate(combos):
        for kind in ("then_hash","and_hash"):
            v=c.r.choice(["hw","sw"]); t=c.t("%s-%s-%s-%d"%(kind,name,h["alg"],i),v)
            def obj():
                a=mk(t); hh=t.new("hash",**h); return t.new(kind,a=a,h=hh)
            s=Src(c,src); d=s(c.r.choice([0,1,u,2*u,5*u,4*u+1,40]))
            if c.r.random()<.7: d=d[:len(d)//u*u]
            o=obj(); t.op("tagsize",o=o); feed(c,t,o,d,read=.3); t.op("tag",o=o); t.op("gets",o=o); t.op("avail",o=o)
            o=obj(); t.op("atstring",o=o,d=d); x=len(t.ops)-1
            o=obj(); t.op("atdet",o=o,d=d)
            if src=="raw":
                n=None
                o=obj(); t.op("acheck",o=o,d=Ref(x)); o=obj(); t.op("acheck",o=o,d=c.rb(c.r.choice([0,5,15,20,33,70])))
            if kind=="and_hash" and name in("toystream","chacha","rc4","aes-ctr","toy4-ecb-enc","toy4-cbc-enc"):
                pass
    # encrypt-then-MAC round trips, with tampering
    for i in range(c.n(20,80)):
        t=c.t("etm%d"%i,c.r.choice(["hw","sw"])); h=c.r.choice(hs); bs=c.r.choice([4,8]); k=c.rb(3); iv=c.rb(bs)
        st=c.r.random()<.5
        def enc(d):
            a=t.new("toystream",key=k) if st else t.new("bcipher",alg="toy",bs=bs,mode="cbc",dir=d,pdir=d,key=k,iv=iv,pad="length"); return a
        o=t.new("then_hash",a=enc("enc"),h=t.new("hash",**h)); t.op("atstring",o=o,d=data(c,c.r.randrange(30))); x=len(t.ops)-1
        def chk(r): w=t.new("and_hash",a=enc("dec"),h=t.new("hash",**h)); t.op("acheck",o=w,d=r)
        chk(Ref(x))
        for j in range(6): chk(Ref(x,pos=c.r.randrange(60),mask=1<<c.r.randrange(8)))
        chk(Ref(x,0,c.r.randrange(60))); chk(Ref(x,app=c.rb(1))); chk(Ref(x,1))
        # MAC-then... : tag over the plaintext
        o=t.new("and_hash",a=enc("enc"),h=t.new("hash",**h)); t.op("atstring",o=o,d=data(c,c.r.randrange(30))); x=len(t.ops)-1
        def chk2(r): w=t.new("then_hash",a=enc("dec"),h=t.new("hash",**h)); t.op("acheck",o=w,d=r)
        chk2(Ref(x))
        for j in range(6): chk2(Ref(x,pos=c.r.randrange(60),mask=1<<c.r.randrange(8)))
