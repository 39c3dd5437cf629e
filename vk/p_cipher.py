"""C01, C02, C03, C05: ciphers, modes, padding, stream ciphers"""
from .lib import *
WEAK=[bytes.fromhex(x) for x in("0101010101010101","fefefefefefefefe","e0e0e0e0f1f1f1f1","1f1f1f1f0e0e0e0e","011f011f010e010e","01e001e001f101f1","1ffe1ffe0efe0efe")]
def btr(c,t,o,b,bs,place=None):
    p=place or c.r.choice(["zero","ofs","in","ofs","inofs"])
    if p=="zero": t.op("btr",o=o,src=b,sofs=0,dst=bytes(bs),dofs=0)
    elif p=="in": t.op("btr",o=o,src=b,sofs=0,dofs=0,inplace=1)
    elif p=="inofs":
        a=c.r.randrange(0,20); z=c.r.randrange(0,20)
        if c.r.random()<0.5: t.op("btr",o=o,src=c.rb(a)+b+c.rb(z),sofs=a,dofs=a,inplace=1)
        else:   # disjoint places of one buffer
            g=c.r.randrange(0,5)
            if c.r.random()<0.5: t.op("btr",o=o,src=c.rb(a)+b+c.rb(g+bs+z),sofs=a,dofs=a+bs+g,inplace=1)
            else: t.op("btr",o=o,src=c.rb(a+bs+g)+b+c.rb(z),sofs=a+bs+g,dofs=a,inplace=1)
    else:
        a,z,u,w=[c.r.randrange(0,18) for _ in range(4)]
        t.op("btr",o=o,src=c.rb(a)+b+c.rb(z),sofs=a,dst=c.rb(u+bs+w),dofs=u)
def c01(c):
    vs=("hw","sw")
    for v in vs:
        for alg,kl,bs in BLOCK:
            if alg=="blowfish": continue
            ks=[]
            for i in range(c.n(10,40)): ks.append(c.rb(kl))
            if c.first:
                ks+=[bytes(kl),b"\xff"*kl]
                for i in (c.r.sample(range(8*kl),c.n(6,8*kl) if alg=="aes" else c.n(10,8*kl))):
                    b=bytearray(kl); b[i//8]=1<<(i%8); ks.append(bytes(b))
            if alg=="des" and c.first: ks+=WEAK
            if alg=="3des":
                a,b=c.rb(8),c.rb(8)
                ks+=[a+a+(a if kl==24 else b""),a+b+(a if kl==24 else b""),a+a+(b if kl==24 else b"")]
            for ki,k in enumerate(ks):
                t=c.t("%s%d-k%d"%(alg,kl,ki),v)
                e=t.new("block",alg=alg,mode="ecb",dir="enc",key=k,mut=c.r.randrange(2))
                d=t.new("block",alg=alg,mode="ecb",dir="dec",key=k)
                t.op("ibs",o=e)
                for j in range(c.n(4)):
                    b=data(c,bs); btr(c,t,e,b,bs); btr(c,t,d,b,bs)
                    if c.r.random()<.3: btr(c,t,e,b,bs)
                if alg!="aes":   # parity bits do not matter
                    k2=bytes(x^c.r.randrange(2) for x in k)
                    p=t.new("block",alg=alg,mode="ecb",dir=c.r.choice(["enc","dec"]),key=k2); btr(c,t,p,b,bs)
            if alg=="aes":
                # every byte value at every place
                t=c.t("%s%d-bytes"%(alg,kl),v); k=c.rb(kl)
                e=t.new("block",alg=alg,mode="ecb",dir="enc",key=k); d=t.new("block",alg=alg,mode="ecb",dir="dec",key=k)
                for j in range(c.n(40,256)): btr(c,t,e,bytes((j+17*i)%256 for i in range(16)),16); btr(c,t,d,bytes((j+29*i)%256 for i in range(16)),16)
        lens=list(range(4,57))
        c.r.shuffle(lens)
        for kl in (lens[:c.n(53)] if v=="hw" else lens[:c.n(4,20)]):
            k=c.rb(kl)
            t=c.t("blowfish%d"%kl,v)
            e=t.new("block",alg="blowfish",mode="ecb",dir="enc",key=k)
            d=t.new("block",alg="blowfish",mode="ecb",dir="dec",key=k)
            for j in range(4): b=data(c,8); btr(c,t,e,b,8); btr(c,t,d,b,8)
def toyenc(k,b):
    n=len(b); return bytes((5*b[(i+1)%n]+k[i%len(k)]+i)&255 for i in range(n))
def finishread(c,t,o):
    t.op("finish",o=o); t.op("gets",o=o)
def c02(c):
    # real ciphers, every mode and chunk size
    for alg,kl,bs in BLOCK:
        ms=modes(bs)
        if alg=="3des" and kl==16 or alg=="aes" and kl==24: ms=c.r.sample(ms,c.n(8,30))
        elif alg!="aes": ms=ms if not c.quick else c.r.sample(ms,14)
        else: ms=ms if kl==16 or not c.quick else c.r.sample(ms,16)
        for mode,n in ms:
            cs=n if mode in("cfb","ofb") else bs
            kw=cipher_kw(c,alg,kl,bs,mode,n,"enc")
            nb=c.r.randint(2,6); d=data(c,nb*cs)
            v=c.r.choice(["hw","sw"])
            t=c.t("%s%s-%s%s"%(alg,kl or "",mode,n or ""),v)
            e=t.new("cipher",**kw); put(c,t,e,d,"str"); t.op("finish",o=e); t.op("gets",o=e); x=t.last()
            f=t.new("cipher",**dict(kw,dir="dec")); t.op("put",o=f,d=x); t.op("finish",o=f); t.op("gets",o=f)
            g=t.new("cipher",**dict(kw,dir="dec")); t.op("put",o=g,d=d); t.op("flush",o=g); t.op("gets",o=g)
            # the chaining object itself, between buffers
            b=t.new("block",**dict(kw,dir=c.r.choice(["enc","dec"]),pdir=c.r.choice(["enc","dec"])))
            t.op("ibs",o=b)
            for j in range(3): btr(c,t,b,data(c,cs),cs)
    # user-supplied ciphers of any block size
    for bs in (range(1,10) if c.first else [c.r.randint(1,40) for _ in range(6)])  if True else ():
        bs=bs if bs<9 else c.r.choice([16,17,24,31,32,33,64])
        ms=modes(bs)
        if len(ms)>30: ms=c.r.sample(ms,20)
        for mode,n in ms:
            cs=n if mode in("cfb","ofb") else bs
            kw=dict(alg="toy",bs=bs,mode=mode,dir="enc",key=c.rb(5))
            if n: kw["n"]=n
            if mode!="ecb": kw["iv"]=ctriv(c,bs)
            pd="enc" if mode in("cfb","ofb","ctr","ctrn") else None
            t=c.t("toy%d-%s%s"%(bs,mode,n or ""))
            def mk(d): return t.new("bcipher",**dict(kw,dir=d,pdir=pd or d))
            e=mk("enc"); d=data(c,c.r.randint(3,12)*cs)
            if mode in("ctr","ctrn") and (n or bs)==1: d=d[:200*cs]
            feed(c,t,e,d,read=.2); t.op("finish",o=e); t.op("gets",o=e)
            f=mk("enc"); put(c,t,f,d,"sub"); t.op("finish",o=f); t.op("gets",o=f); x=t.last()
            g=mk("dec"); t.op("put",o=g,d=x); t.op("finish",o=g); t.op("gets",o=g)
            b=t.new("block",**kw)
            for j in range(4): btr(c,t,b,data(c,cs),cs)
    # counters up to and past the point where they repeat
    for i in range(c.n(6,20)):
        bs=c.r.choice([1,1,2,4,8,16])
        t=c.t("ctr1-limit%d"%i)
        o=t.new("bcipher",alg="toy",bs=bs,mode="ctrn",n=1,dir="enc",key=c.rb(3),iv=c.rb(bs))
        left=256+5
        while left>0:
            k=min(left,c.r.choice([1,5,50,100,255,256])); left-=k
            put(c,t,o,c.rb(k*bs)); t.op("gets",o=o)
        t.op("flush",o=o)
        for j in range(3): put(c,t,o,c.rb(bs)); t.op("avail",o=o)
        t.op("finish",o=o); t.op("gets",o=o)
        t=c.t("ctr1-blk%d"%i)
        alg,kl,b2=c.r.choice(BLOCK)
        o=t.new("block",alg=alg,mode="ctrn",n=1,dir="enc",key=c.rb(kl or 9),iv=c.rb(b2))
        t.op("bulkctr",o=o,n=c.r.choice([254,255])); 
        for j in range(5): btr(c,t,o,c.rb(b2),b2)
        t=c.t("ctr1-cipher%d"%i)
        alg,kl,b2=c.r.choice(BLOCK[:6])
        o=t.new("cipher",alg=alg,mode="ctrn",n=1,dir=c.r.choice(["enc","dec"]),key=c.rb(kl),iv=c.rb(b2))
        k=c.r.randint(1,250)
        put(c,t,o,c.rb(k*b2),"str"); t.op("gets",o=o); put(c,t,o,c.rb((256-k)*b2),"str"); t.op("avail",o=o); put(c,t,o,c.rb(b2),"str"); t.op("gets",o=o)
        put(c,t,o,c.rb(2*b2),"str"); t.op("gets",o=o); t.op("finish",o=o); t.op("gets",o=o)
    for n,lim in ((2,65536),(3,1<<24)):
        for i in range(c.n(2 if n==2 else 1)):
            bs=c.r.choice([n,n+1,8,16]) if n==2 else c.r.choice([3,4])
            t=c.t("ctr%d-limit%d"%(n,i))
            iv=bytearray(c.rb(bs))
            if i==0: iv[-n:]=bytes(n)
            o=t.new("block",alg="toy",bs=bs,mode="ctrn",n=n,dir="enc",key=c.rb(3),iv=bytes(iv))
            t.op("bulkctr",o=o,n=c.r.choice([1000,lim//2,lim-3]),_timeout=120)
            t.op("bulkctr",o=o,n=lim,_timeout=120)
            for j in range(3): btr(c,t,o,c.rb(bs),bs)
    # long counters: carries through every byte, no early refusal
    for n in range(2,17):
        for bs in (16,n):
            if bs<n: continue
            iv=bytearray(c.rb(bs)); k=c.r.randint(1,n); iv[bs-k:]=b"\xff"*k; iv[-1]=c.r.choice([0xff,0xfe,0xfd])
            t=c.t("ctr%d-carry%d"%(n,bs))
            o=t.new("bcipher",alg="toy",bs=bs,mode="ctrn",n=n,dir="enc",key=c.rb(3),iv=bytes(iv))
            put(c,t,o,bytes(bs*6)); t.op("finish",o=o); t.op("gets",o=o)
            b=t.new("block",alg="toy",bs=bs,mode="ctrn",n=n,dir="enc",key=c.rb(3),iv=b"\xff"*bs)
            t.op("bulkctr",o=b,n=70000)
    for alg,kl,bs in BLOCK:
        for i in range(2):
            t=c.t("%s%s-ctrcarry"%(alg,kl))
            iv=c.rb(bs-6)+b"\xff"*6 if i else b"\xff"*(bs-1)+b"\xfd"
            o=t.new("cipher",alg=alg,mode="ctr",dir="enc",key=c.rb(kl or 16),iv=iv); put(c,t,o,c.rb(bs*5)); t.op("finish",o=o); t.op("gets",o=o)
            o=t.new("cipher",alg=alg,mode="default",dir=c.r.choice(["enc","dec"]),key=c.rb(kl or 16),iv=iv); put(c,t,o,c.rb(bs*5)); t.op("finish",o=o); t.op("gets",o=o)
def c03(c):
    pads=("length","8000")
    # stripping every small block over an alphabet of suspicious bytes
    if c.first:
        for p in pads:
            for bs in (1,2,3,4) if c.quick else (1,2,3,4,5):
                al=sorted(set([0,1,2,3,4,5,127,128,129,255]) if bs<=3 else set([0,1,2,3,4,128,255]))
                t=None
                for i,b in enumerate(itertools.product(al,repeat=bs)):
                    if i%400==0: t=c.t("strip-%s-%d-%d"%(p,bs,i))
                    t.op("strip",pad=p,buf=bytes(b))
    # every block size, every number of data bytes
    for bs in (list(range(1,41))+[48,63,64,65,100,127,128,129,200,254,255] if c.first else c.r.sample(range(1,256),20)):
        for p in pads:
            t=c.t("pad-%s-%d"%(p,bs)); us=range(bs) if bs<=16 else sorted(set([0,1,bs-1,bs-2,bs//2]+[c.r.randrange(bs) for _ in range(6)]))
            for u in us:
                t.op("pad",pad=p,buf=c.rb(bs),used=u)
                d=c.rb(u)
                good=d+(bytes([bs-u])*(bs-u) if p=="length" else b"\x80"+bytes(bs-u-1))
                t.op("strip",pad=p,buf=good)
                for j in range(3):
                    x=bytearray(good); i=c.r.choice([c.r.randrange(bs),bs-1,u,min(bs-1,u+1)]); x[i]^=c.r.choice([1,2,128,255,c.r.randrange(1,256)])
                    t.op("strip",pad=p,buf=bytes(x))
                if p=="length":
                    for v in (0,bs+1,255,bs,bs-u+1,bs-u-1):
                        if 0<=v<=255: t.op("strip",pad=p,buf=good[:-1]+bytes([v])); t.op("strip",pad=p,buf=good[:max(0,bs-v)]+bytes([v])*min(bs,v) if v else good[:-1]+b"\0")
                else:
                    t.op("strip",pad=p,buf=bytes(bs)); t.op("strip",pad=p,buf=d+bytes(bs-u))
                    t.op("strip",pad=p,buf=d+b"\x80"+bytes(bs-u-1)); t.op("strip",pad=p,buf=d+b"\x81"+bytes(bs-u-1))
    # through transforms: all data lengths, real and user ciphers, good and bad endings
    confs=[("cipher",a,k,b) for a,k,b in BLOCK]+[("bcipher","toy",3,b) for b in ([1,2,3,5,8,16,33] if c.quick else [1,2,3,4,5,7,8,16,32,33,100,255])]
    for cls,alg,kl,bs in confs:
        for p in pads+(("toy",) if cls=="bcipher" else ()):
            m=c.r.choice(["cbc","ecb"]) if cls=="bcipher" else c.r.choice(["cbc","ecb","cfb","ofb","ctr"])
            n=bs if m not in("cfb","ofb") else c.r.choice([bs,bs,c.r.randint(1,bs)])
            kw=dict(alg=alg,mode=m,key=c.rb(kl or 11),pad=p)
            if alg=="toy": kw["bs"]=bs
            if m in("cfb","ofb"): kw["n"]=n
            cs=n if m in("cfb","ofb") else bs
            if m!="ecb": kw["iv"]=c.rb(bs)
            for l in (range(0,3*cs+1) if cs<=8 else [0,1,2,cs-1,cs,cs+1,2*cs-1,2*cs,2*cs+1,c.r.randrange(3*cs)]):
                v=c.r.choice(["hw","sw"]) if alg=="aes" else "hw"
                t=c.t("rt-%s-%s-%s-%d-%d"%(alg,p,m,bs,l),v)
                e=t.new(cls,dir="enc",**kw); d=data(c,l)
                if c.r.random()<.5: feed(c,t,e,d)
                else: put(c,t,e,d,"str")
                t.op("finish",o=e); t.op("avail",o=e); t.op("gets",o=e); x=len(t.ops)-1
                from .trace import Ref
                f=t.new(cls,dir="dec",**kw); t.op("put",o=f,d=Ref(x)); t.op("finish",o=f); t.op("avail",o=f); t.op("gets",o=f)
                if c.r.random()<.5:  # not a whole number of blocks
                    g=t.new(cls,dir="dec",**kw); k=c.r.randint(1,cs)
                    t.op("put",o=g,d=Ref(x,0,max(0,l-k))); t.op("finish",o=g); t.op("gets",o=g)
                g=t.new(cls,dir="dec",**kw); t.op("put",o=g,d=Ref(x,app=c.rb(c.r.choice([cs,1,cs-1])))); t.op("finish",o=g); t.op("gets",o=g)
            t=c.t("bad-%s-%s-%s-%d"%(alg,p,m,bs))
            for j in range(c.n(6)):
                g=t.new(cls,dir="dec",**kw); put(c,t,g,c.rb(cs*c.r.randrange(0,4)+c.r.choice([0,0,0,1,cs-1])),"str"); t.op("finish",o=g); t.op("avail",o=g); t.op("gets",o=g)
            # crafted plaintexts: encrypt without padding, decrypt with
            t=c.t("craft-%s-%s-%s-%d"%(alg,p,m,bs)); nk={k:v for k,v in kw.items() if k!="pad"}
            for j in range(c.n(10,30)):
                u=c.r.randrange(cs)
                last=bytearray(c.rb(u)+(bytes([(cs-u)&255])*(cs-u) if p=="length" else b"\x80"+bytes(cs-u-1)))
                x=c.r.random()
                if x<.3: last[c.r.randrange(cs)]^=c.r.choice([1,128,c.r.randrange(1,256)])
                elif x<.5: last[-1]=c.r.choice([0,255,(cs+1)&255,cs&255,1])
                elif x<.6: last=bytearray(bytes([c.r.choice([0,1,2,cs&255,(cs+1)&255,128])])*cs)
                e=t.new(cls,dir="enc",**nk); put(c,t,e,c.rb(cs*c.r.randrange(0,3))+bytes(last),"str"); t.op("finish",o=e); t.op("gets",o=e); r=t.last()
                f=t.new(cls,dir="dec",**kw); t.op("put",o=f,d=r); t.op("finish",o=f); t.op("avail",o=f); t.op("gets",o=f)
def c05(c):
    for v in ("hw","sw"):
        for kl in (16,32):
            for il in (8,12,None):
                for i in range(c.n(10,40)):
                    kw=dict(key=key(c,kl))
                    if il: kw["iv"]=data(c,il)
                    x=c.r.random()
                    if x<.25: ctr=2**32-c.r.randint(1,4)
                    elif x<.4: ctr=c.r.choice([0,1,2**31-1,2**31,2**32-1,255,65535,2**24-1,2**24])
                    elif x<.6: ctr=c.r.randrange(2**32)
                    elif x<.7: ctr=None
                    elif il==12: ctr=c.r.randrange(2**32)
                    elif x<.85: ctr=2**64-c.r.randint(1,4)
                    else: ctr=c.r.choice([2**33-1,2**40-1,2**63-1,2**63,(c.r.randrange(2**32)<<32)+2**32-1,c.r.randrange(2**64)])
                    if ctr is not None: kw["ctr8"]=ctr.to_bytes(8,"big")
                    t=c.t("chacha%d-%s-%d"%(kl,il,i),v)
                    o=t.new("chacha20",dir=c.r.choice(["enc","dec"]),mut=c.r.randrange(2),**kw)
                    feed(c,t,o,data(c,c.r.choice([64,130,200,260])),read=.2); t.op("finish",o=o); t.op("gets",o=o)
                    s=t.new("s_chacha20",**kw)
                    for j in range(4): strop(c,t,s)
        for i in range(c.n(6,20)):
            t=c.t("rc4-%d"%i,v)
            for kl in ([1,2,5,16,32,255,256,c.r.randint(1,256)] if i==0 else [c.r.randint(1,256) for _ in range(3)]):
                k=key(c,kl)
                o=t.new("arcfour",dir="enc",key=k,mut=c.r.randrange(2)); feed(c,t,o,data(c,c.r.choice([40,270,600])),read=.2); t.op("finish",o=o); t.op("gets",o=o)
                s=t.new("s_arcfour",key=k)
                for j in range(3): strop(c,t,s)
        t=c.t("rc4-all",v)
        for kl in range(1,257):
            if (kl+c.r.randrange(3))%3==0 or kl in(1,255,256):
                o=t.new("s_arcfour",key=c.rb(kl)); t.op("str",o=o,src=bytes(20),sofs=0,dofs=0,len=20,inplace=1)
    # all piece sizes around the block size, every starting position in the block
    for a in (range(0,66) if c.first else []):
        t=c.t("pos%d"%a); k=c.rb(32); iv=c.rb(8)
        o=t.new("s_chacha20",key=k,iv=iv)
        t.op("str",o=o,src=bytes(a),sofs=0,dst=bytes(a),dofs=0,len=a)
        l=c.r.choice([1,63,64,65,128,129-a if a<129 else 1])
        t.op("str",o=o,src=bytes(l),sofs=0,dst=bytes(l),dofs=0,len=l)
        t.op("str",o=o,src=bytes(70),sofs=0,dst=bytes(70),dofs=0,len=70)
    t=c.t("toystream"); o=t.new("toystream",key=c.rb(7)); feed(c,t,o,c.rb(3000),read=.3); t.op("gets",o=o)
def strop(c,t,s,n=None):
    n=c.r.choice([0,1,3,7,8,15,16,31,63,64,65,100,128,200]) if n is None else n
    a,z,u,w=[c.r.choice([0,0,1,2,3,7,8,13]) for _ in range(4)]
    x=c.r.random()
    if x<.25: t.op("str",o=s,src=c.rb(a)+data(c,n)+c.rb(z),sofs=a,dofs=a,len=n,inplace=1)
    elif x<.4: t.op("str",o=s,src=c.rb(a+2*n+z+u),sofs=a,dofs=a+n+u,len=n,inplace=1)
    else: t.op("str",o=s,src=c.rb(a)+data(c,n)+c.rb(z),sofs=a,dst=c.rb(u+n+w),dofs=u,len=n)
