"""C13: compression"""
import zlib
from .lib import *
from . import hist,deflate
def zdata(c,n):
    k=c.r.random()
    if k<.25: return c.rb(n)
    if k<.4: return bytes([c.r.randrange(256)])*n
    if k<.6:
        w=[c.rb(c.r.randint(1,12)) for _ in range(8)]; s=b""
        while len(s)<n: s+=c.r.choice(w)
        return s[:n]
    if k<.8: return bytes(c.r.choice(b"abcde \n") for _ in range(n))
    p=c.rb(c.r.randint(1,300)); return (p*(n//len(p)+1))[:n]
def ck(c):
    kw={}
    if c.r.random()<.8: kw["level"]=c.r.randint(0,9)
    if c.r.random()<.7: kw["hdr"]=c.r.randrange(2)
    return kw
def streams(c,n):
    """a valid stream, its header flag"""
    hdr=c.r.randrange(2); x=c.r.random()
    if x<.55:
        s,o=deflate.raw(c.r,maxn=max(2,min(40,n)))
        return (deflate.wrap(c.r,s,o) if hdr else s),hdr
    d=zdata(c,n)
    z=zlib.compressobj(c.r.randint(0,9),zlib.DEFLATED,15 if hdr else -15,c.r.randint(1,9),c.r.choice([zlib.Z_DEFAULT_STRATEGY,zlib.Z_FIXED,zlib.Z_HUFFMAN_ONLY,zlib.Z_RLE,zlib.Z_FILTERED]))
    s=b""; p=0
    for k in pieces(c,n):
        s+=z.compress(d[p:p+k]); p+=k
        if c.r.random()<.3: s+=z.flush(c.r.choice([zlib.Z_SYNC_FLUSH,zlib.Z_FULL_FLUSH,zlib.Z_PARTIAL_FLUSH]))
    return s+z.flush(),hdr
def unz(c,t,s,hdr,kw=None):
    o=t.new("zu",hdr=hdr) if hdr or c.r.random()<.5 else t.new("zu")
    if c.r.random()<.3: t.op("tstring",o=o,d=s); return
    feed(c,t,o,s)   # no single-byte reads on compression objects
    if c.r.random()<.3: t.op("flush",o=o); t.op("avail",o=o); t.op("gets",o=o)
    t.op("finish",o=o); t.op("avail",o=o); t.op(c.r.choice(["gets","getsub"]),o=o)
def zfeed(c,t,o,d):
    p=0
    for k in pieces(c,len(d)):
        put(c,t,o,d[p:p+k]); p+=k; x=c.r.random()
        if x<.15: t.op("flush",o=o); t.op("avail",o=o); t.op("gets",o=o)
        elif x<.25: t.op("flush",o=o)
        elif x<.4: t.op(c.r.choice(["gets","avail","getsub"]),o=o)
def c13(c):
    P=("p0","p1","pm","pb","pp","p2"); O=("fl","gs","av")
    h=hist.histories(4,P,O)[0]
    for B in (3,40):
        for cls in ("zc",):
            hs=c.r.sample(h,c.n(200,1500))
            for i in range(0,len(hs),10):
                t=c.t("zc-h%d-%d"%(B,i))
                for x in hs[i:i+10]:
                    o=t.new("zc",**ck(c)); d=zdata(c,2000); p=[0]
                    def src(n):
                        r=d[p[0]:p[0]+n]; p[0]+=n; return r
                    hist.replay(c,t,o,x,B,src)
                    if "fin" not in x: t.op("finish",o=o)
                    t.op("avail",o=o); t.op("gets",o=o)
    # every level and header choice; round trip through the decompressor
    for lv in range(-1,10):
        for hdr in (None,0,1):
            t=c.t("rt-l%d-h%s"%(lv,hdr))
            for l in (0,1,c.r.randrange(2,40),c.r.randrange(100,400)):
                kw={} if lv<0 else dict(level=lv)
                if hdr is not None: kw["hdr"]=hdr
                o=t.new("zc",**kw); d=zdata(c,l); zfeed(c,t,o,d)
                t.op("finish",o=o); t.op("avail",o=o); t.op("gets",o=o)
                o=t.new("zc",**kw); t.op("tstring",o=o,d=d); x=t.last()
                kw.pop("level",0)
                u=t.new("zu",**kw); t.op("tstring",o=u,d=x)
                u=t.new("zu",**kw); t.op("put",o=u,d=x,m=c.r.choice(MS)); t.op("finish",o=u); t.op("avail",o=u); t.op("gets",o=u)
    # many flushes
    for i in range(c.n(12,60)):
        t=c.t("fl%d"%i); o=t.new("zc",**ck(c))
        for j in range(c.r.randint(2,8)):
            put(c,t,o,zdata(c,c.r.choice([0,1,5,60,255,256,257,300])))
            for _ in range(c.r.choice([1,1,2,3])): t.op("flush",o=o)
            if c.r.random()<.7: t.op("avail",o=o); t.op("gets",o=o)
        t.op("finish",o=o); t.op("gets",o=o)
    # larger, incompressible and compressible, output beyond the buffer sizes
    for i in range(c.n(10,60)):
        t=c.t("big%d"%i); n=c.r.choice([511,512,513,1000,1500,2500]); d=c.rb(n) if i%2 else zdata(c,n); kw=ck(c)
        o=t.new("zc",**kw); put(c,t,o,d,"str"); t.op("flush",o=o); t.op("avail",o=o); t.op("gets",o=o); put(c,t,o,d[:400],"sub"); t.op("finish",o=o); t.op("avail",o=o); t.op("gets",o=o)
        z=zlib.compressobj(6,zlib.DEFLATED,-15); s=z.compress(d)+z.flush()
        u=t.new("zu"); t.op("put",o=u,d=s,m="str"); t.op("finish",o=u); t.op("avail",o=u); t.op("gets",o=u)
    # highly compressible: outputs from a few input bytes exceed every buffer
    for i in range(c.n(6,20)):
        t=c.t("bomb%d"%i); n=c.r.choice([2000,5000,9000]); z=zlib.compressobj(9,zlib.DEFLATED,-15); s=z.compress(bytes([i])*n)+z.flush()
        u=t.new("zu"); t.op("put",o=u,d=s,m=c.r.choice(["str","byte"])); t.op("flush",o=u); t.op("avail",o=u); t.op("gets",o=u); t.op("finish",o=u); t.op("gets",o=u)
    # the last code of the stream yields more than the output buffer holds, and no input is left
    for i in range(c.n(8,30)):
        t=c.t("last%d"%i)
        for _ in range(c.n(12,20)):
            k=c.r.choice([512,512,512,1024]); n=k+c.r.randrange(1,257)
            s=deflate.ending(c.r,n); u=t.new("zu"); t.op("put",o=u,d=s,m=c.r.choice(["str","str","sub"]))
            if c.r.random()<.3: t.op("flush",o=u); t.op("avail",o=u)
            t.op("finish",o=u); t.op("avail",o=u); t.op("gets",o=u)
    # valid streams of all kinds
    for i in range(c.n(150,800)):
        t=c.t("valid%d"%i); s,hdr=streams(c,c.r.choice([0,1,10,60,200])); unz(c,t,s,hdr)
        if c.r.random()<.3: # cut at a byte: everything so far is delivered by flush, then the rest
            k=c.r.randrange(len(s)+1); o=t.new("zu",hdr=hdr); put(c,t,o,s[:k]); t.op("flush",o=o); t.op("avail",o=o); t.op("gets",o=o); put(c,t,o,s[k:]); t.op("flush",o=o); t.op("gets",o=o); t.op("finish",o=o); t.op("gets",o=o)
    # malformed ones
    for i in range(c.n(250,1500)):
        t=c.t("bad%d"%i); s,hdr=streams(c,c.r.choice([0,1,10,40])); x=c.r.random(); b=bytearray(s)
        if x<.35 and b:
            for _ in range(c.r.choice([1,1,1,2,3])): b[c.r.randrange(len(b))]^=1<<c.r.randrange(8)
        elif x<.55: b=b[:c.r.randrange(len(b)+1)]
        elif x<.68: b+=c.rb(c.r.choice([1,1,2,5,20]))
        elif x<.76 and hdr: b[-c.r.randint(1,4)]^=1<<c.r.randrange(8)
        elif x<.84: hdr=1-hdr
        elif x<.9: b=bytearray(deflate.raw(c.r,far=True,maxn=10)[0]); hdr=0
        elif x<.95: b=bytearray(c.rb(c.r.randrange(1,30)))
        else: b=b[:-1] if len(b) else b
        unz(c,t,bytes(b),hdr)
    if c.first:
        # every truncation and every trailing byte of a few streams
        for k in range(c.n(4,20)):
            s,hdr=streams(c,c.r.choice([3,12,25])); s=s if len(s)<80 else zlib.compress(c.rb(9)); hdr=hdr if len(s)<80 else 1
            t=c.t("trunc%d"%k)
            for j in range(len(s)+1): o=t.new("zu",hdr=hdr); t.op("put",o=o,d=s[:j],m=c.r.choice(MS)); t.op("finish",o=o); t.op("gets",o=o)
            for j in (0,1,32,255): o=t.new("zu",hdr=hdr); t.op("put",o=o,d=s+bytes([j]),m=c.r.choice(["str","byte"])); t.op("finish",o=o); t.op("gets",o=o)
            for bit in range(0,8*len(s),1 if not c.quick else 3):
                b=bytearray(s); b[bit//8]^=1<<bit%8; o=t.new("zu",hdr=hdr); t.op("tstring",o=o,d=bytes(b))
        # every one- and two-byte stream start
        t=c.t("short")
        for a in range(256): o=t.new("zu",hdr=a%2); t.op("tstring",o=o,d=bytes([a]))
        for a in range(c.n(200,2000)): o=t.new("zu",hdr=c.r.randrange(2)); t.op("tstring",o=o,d=c.rb(2))
        t=c.t("hdrs")
        for a in range(c.n(100,600)):
            d=c.rb(3); z=bytearray(zlib.compress(d)); z[0]=c.r.choice([0x78,0x08,0x18,0x88,0x79,0x70,c.r.randrange(256)]); z[1]=c.r.randrange(256) if c.r.random()<.3 else z[1]; z[1]=z[1]-(z[0]*256+z[1])%31 if z[1]>=31 and c.r.random()<.8 else z[1]
            o=t.new("zu",hdr=1); t.op("tstring",o=o,d=bytes(z))
