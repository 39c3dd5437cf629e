"""Small reference arithmetic used only to steer generators to corner cases (never as oracle)"""
def _sbox():
    p=q=1; s=[0]*256
    while True:
        p=p^((p<<1)&255)^(0x1b if p&128 else 0)
        q^=q<<1; q^=q<<2; q^=q<<4; q&=255
        if q&128: q^=9
        r=lambda x,n:((x<<n)|(x>>(8-n)))&255
        s[p]=q^r(q,1)^r(q,2)^r(q,3)^r(q,4)^0x63
        if p==1: break
    s[0]=0x63; return s
SB=_sbox()
def aes(key,b):
    nk=len(key)//4; nr=nk+6; w=[list(key[4*i:4*i+4]) for i in range(nk)]; rc=1
    for i in range(nk,4*(nr+1)):
        t=list(w[i-1])
        if i%nk==0: t=[SB[x] for x in t[1:]+t[:1]]; t[0]^=rc; rc=(rc<<1)^(0x11b if rc&128 else 0)
        elif nk>6 and i%nk==4: t=[SB[x] for x in t]
        w.append([x^y for x,y in zip(w[i-nk],t)])
    s=[x^y for x,y in zip(b,sum(w[:4],[]))]
    x2=lambda a:((a<<1)^(0x1b if a&128 else 0))&255
    for r in range(1,nr+1):
        s=[SB[s[(i+4*(i%4))%16]] for i in range(16)]
        if r<nr:
            o=[]
            for c in range(4):
                a=s[4*c:4*c+4]; u=a[0]^a[1]^a[2]^a[3]
                o+=[a[i]^u^x2(a[i]^a[(i+1)%4]) for i in range(4)]
            s=o
        s=[x^y for x,y in zip(s,sum(w[4*r:4*r+4],[]))]
    return bytes(s)
R=0xE1<<120
def gmul(x,y):
    z=0
    for i in range(127,-1,-1):
        if (x>>i)&1: z^=y
        y=(y>>1)^(R if y&1 else 0)
    return z
def ginv(x):
    # x^(2^128-2)
    r=1<<127; e=2**128-2; b=x
    while e:
        if e&1: r=gmul(r,b)
        b=gmul(b,b); e>>=1
    return r
def gcm_iv_for(key,j0):
    """a 16-byte IV whose initial counter block is j0"""
    h=int.from_bytes(aes(key,bytes(16)),"big"); hi=ginv(h)
    x=gmul(int.from_bytes(j0,"big"),hi)^128
    return gmul(x,hi).to_bytes(16,"big")
def chacha_block(key,iv,ctr):
    import struct
    M=0xffffffff
    if len(key)==32: cst=b"expand 32-byte k"; kk=key
    else: cst=b"expand 16-byte k"; kk=key+key
    st=list(struct.unpack("<12I",cst+kk))
    if len(iv)==8: st+=[ctr&M,(ctr>>32)&M]+list(struct.unpack("<2I",iv))
    else: st+=[ctr&M]+list(struct.unpack("<3I",iv))
    w=list(st)
    def qr(a,b,c,d):
        for x,y,z,n in((a,b,d,16),(c,d,b,12),(a,b,d,8),(c,d,b,7)):
            w[x]=(w[x]+w[y])&M; w[z]^=w[x]; w[z]=((w[z]<<n)|(w[z]>>(32-n)))&M
    for _ in range(10):
        qr(0,4,8,12);qr(1,5,9,13);qr(2,6,10,14);qr(3,7,11,15);qr(0,5,10,15);qr(1,6,11,12);qr(2,7,8,13);qr(3,4,9,14)
    return struct.pack("<16I",*[(x+y)&M for x,y in zip(w,st)])
P=2**130-5
def poly_ct(c,key,iv,hdr,v,n=2,intermediate=False):
    """a ciphertext of n blocks for which the Poly1305 accumulator ends with value v mod p
    (intermediate: takes value v after its last block)"""
    r=int.from_bytes(chacha_block(key,iv,0)[:16],"little")&0x0ffffffc0ffffffc0ffffffc0fffffff
    ri=pow(r,-1,P)
    pad=lambda x:x+bytes(-len(x)%16)
    for _ in range(200):
        pre=c.rb(16*(n-1)); h=0
        for b in [pad(hdr)[i:i+16] for i in range(0,len(pad(hdr)),16)]+[pre[i:i+16] for i in range(0,len(pre),16)]:
            h=(h+int.from_bytes(b,"little")+2**128)*r%P
        lens=len(hdr)+(16*n<<64)
        if intermediate: m=(v*ri-h-2**128)%P
        else: m=((v*ri-lens-2**128)*ri-h-2**128)%P
        if m<2**128: return pre+m.to_bytes(16,"little")
    return None
