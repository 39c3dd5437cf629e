"""Generators shared by the properties."""
import itertools
BLOCK=[("aes",16,16),("aes",24,16),("aes",32,16),("des",8,8),("3des",16,8),("3des",24,8),("blowfish",None,8)]
MS=("sub","str","chr","byte")
HASHES=["sha1","sha224","sha256","sha384","sha512","ripemd160","md5","blake2b512","blake2s256","blake3_256"]
SIZED=[("sha2",224),("sha2",256),("sha2",384),("sha2",512),("sha3",224),("sha3",256),("sha3",384),("sha3",512),
       ("keccak",224),("keccak",256),("keccak",384),("keccak",512)]
BLK={"sha1":64,"sha224":64,"sha256":64,"sha384":128,"sha512":128,"ripemd160":64,"md5":64,"blake2b":128,"blake2s":64,"blake3":64,
     "blake2b512":128,"blake2s256":64,"blake3_256":64}
def rate(alg,sz): 
    if alg=="sha2": return 64 if sz<=256 else 128
    if alg in("sha3","keccak"): return 200-sz//4
    return BLK[alg]
HMACS=["hmac_sha1","hmac_sha256","hmac_sha384","hmac_sha512","hmac_ripemd160","hmac_md5"]
def data(c,n):
    k=c.r.random()
    if k<0.7: return c.rb(n)
    if k<0.76: return bytes(n)
    if k<0.82: return b"\xff"*n
    if k<0.88: return bytes(i%256 for i in range(n))
    if k<0.94: return bytes([c.r.randrange(256)])*n
    b=bytearray(n)
    if n: b[c.r.randrange(n)]=1<<c.r.randrange(8)
    return bytes(b)
def keylen(c,alg,k): return c.r.randint(4,56) if k is None else k
def key(c,n):
    k=c.r.random()
    if k<0.85: return c.rb(n)
    if k<0.9: return bytes(n)
    if k<0.95: return b"\xff"*n
    b=bytearray(n); b[c.r.randrange(n)]=1<<c.r.randrange(8); return bytes(b)
def pieces(c,n,big=0.3):
    """random partition of n, with empty pieces"""
    out=[]
    while n>0:
        x=c.r.random()
        k=0 if x<0.08 else min(n,1) if x<0.2 else n if x<0.2+big*0.3 else c.r.randint(1,min(n,1+c.r.choice([3,9,20,70,300])))
        out.append(k); n-=k
    if c.r.random()<0.1 or not out: out.append(0)
    return out
def put(c,t,o,d,m=None,**kw):
    m=m or c.r.choice(MS)
    if m in("chr","byte") and len(d)>80: m=c.r.choice(("sub","str"))
    if m=="sub":
        if c.r.random()<0.7: kw["pre"]=c.r.choice([0,1,2,3,5,7,8,16,33])
        if c.r.random()<0.7: kw["post"]=c.r.choice([0,1,2,5,16,100])
    t.op("put",o=o,d=d,m=m,**kw)
def feed(c,t,o,d,parts=None,ms=None,read=0.0,**kw):
    """d in pieces, with reads in between with probability read"""
    p=0
    for k in parts if parts is not None else pieces(c,len(d)):
        put(c,t,o,d[p:p+k],m=c.r.choice(ms) if ms else None,**kw); p+=k
        if c.r.random()<read: anyread(c,t,o)
    if p<len(d): put(c,t,o,d[p:])
def anyread(c,t,o):
    x=c.r.random()
    if x<0.2: t.op("avail",o=o)
    elif x<0.45: t.op("gets",o=o)
    elif x<0.6: t.op("getsub",o=o)
    elif x<0.75: t.op("getc",o=o)
    elif x<0.85: t.op("getb",o=o)
    else:
        t.op("getn",o=o,k=c.r.choice([1,2,3,7,16,40]))
def modes(bs):
    r=[("ecb",None),("cbc",None),("ctr",None)]
    for n in range(1,bs+1): r+=[("cfb",n),("ofb",n),("ctrn",n)]
    return r
def cipher_kw(c,alg,kl,bs,mode,n,d,**kw):
    k=dict(alg=alg,mode=mode,dir=d,key=key(c,keylen(c,alg,kl)))
    if n is not None: k["n"]=n
    if mode!="ecb" and c.r.random()<0.85: k["iv"]=ctriv(c,bs)
    k.update(kw); return k
def ctriv(c,bs):
    """initial vectors, often with carries ahead"""
    iv=bytearray(c.rb(bs))
    if c.r.random()<0.5:
        k=c.r.randint(1,bs)
        for i in range(bs-k,bs): iv[i]=255
        iv[-1]=c.r.choice([255,255,254,253,250])
    return bytes(iv)
