"""A DEFLATE/zlib stream writer producing arbitrary (also unusual and malformed) streams"""
import zlib
LB=[3,4,5,6,7,8,9,10,11,13,15,17,19,23,27,31,35,43,51,59,67,83,99,115,131,163,195,227,258]
LE=[0,0,0,0,0,0,0,0,1,1,1,1,2,2,2,2,3,3,3,3,4,4,4,4,5,5,5,5,0]
DB=[1,2,3,4,5,7,9,13,17,25,33,49,65,97,129,193,257,385,513,769,1025,1537,2049,3073,4097,6145,8193,12289,16385,24577]
DE=[0,0,0,0,1,1,2,2,3,3,4,4,5,5,6,6,7,7,8,8,9,9,10,10,11,11,12,12,13,13]
ORD=[16,17,18,0,8,7,9,6,10,5,11,4,12,3,13,2,14,1,15]
class W:
    def __init__(self): self.b=[]
    def bits(self,v,n):
        for i in range(n): self.b.append((v>>i)&1)
    def code(self,c):
        v,n=c
        for i in range(n-1,-1,-1): self.b.append((v>>i)&1)
    def align(self,r=None):
        while len(self.b)%8: self.b.append(r.randrange(2) if r else 0)
    def bytes(self):
        b=self.b+[0]*(-len(self.b)%8)
        return bytes(sum(b[i+j]<<j for j in range(8)) for i in range(0,len(b),8))
def codes(lens):
    code=0; out={}
    for l in range(1,16):
        for s,x in enumerate(lens):
            if x==l: out[s]=(code,l); code+=1
        code<<=1
    return out
FIX=codes([8]*144+[9]*112+[7]*24+[8]*8); FIXD=codes([5]*32)
def tree(r,k,mx):
    """k random leaf depths of a complete binary tree"""
    if k==1: return [1]
    ls=[1,1]
    while len(ls)<k:
        c=[i for i,d in enumerate(ls) if d<mx]
        i=r.choice(c) if r.random()<.6 else max(c,key=lambda j:ls[j])
        ls[i]+=1; ls.append(ls[i])
    return ls
def lsym(n,r):
    if n==258: return 285,0,0 
    i=max(j for j in range(28) if LB[j]<=n); return 257+i,n-LB[i],LE[i]
def dsym(d):
    i=max(j for j in range(30) if DB[j]<=d); return i,d-DB[i],DE[i]
def tokens(r,out,n,far=False,pool=None):
    """n random literals and matches, appended to out"""
    ts=[]; pool=pool or bytes(range(256))
    for _ in range(n):
        if out and r.random()<.4:
            l=r.choice([3,4,5,10,11,12,18,19,34,35,66,67,114,130,131,162,226,227,257,258,r.randint(3,258)])
            m=len(out); d=r.choice([1,2,3,4,m,max(1,m-1),r.randint(1,m)]); d=min(d,m,32768)
            if far and r.random()<.2: d=min(m+r.randint(1,5),32768)
            ts.append((l,d))
            for _ in range(l): out.append(out[-d] if d<=len(out) else 0)
        else:
            x=r.choice(pool); ts.append(x); out.append(x)
    return ts
def emit(w,ts,L,D,r,eob=True):
    for t in ts:
        if isinstance(t,int): w.code(L[t])
        else:
            s,x,n=lsym(t[0],r); w.code(L[s]); w.bits(x,n)
            s,x,n=dsym(t[1]); w.code(D[s]); w.bits(x,n)
    if eob: w.code(L[256])
def block(w,r,out,final,kind=None,far=False,maxn=40):
    kind=kind or r.choice(["stored","fixed","dyn"])
    w.bits(1 if final else 0,1)
    if kind=="stored":
        w.bits(0,2); w.align(r); n=r.choice([0,1,2,r.randrange(60)]); d=r.randbytes(n)
        w.bits(n,16); w.bits(n^0xffff,16); out+=d
        for x in d: w.bits(x,8)
    elif kind=="fixed":
        w.bits(1,2); emit(w,tokens(r,out,r.randrange(maxn),far),FIX,FIXD,r)
    else:
        w.bits(2,2); pool=bytes(r.randrange(256) for _ in range(r.choice([1,2,5,30])))
        ts=tokens(r,out,r.randrange(maxn),far,pool)
        used={256}|{t for t in ts if isinstance(t,int)}|{lsym(t[0],r)[0] for t in ts if not isinstance(t,int)}
        ud={dsym(t[1])[0] for t in ts if not isinstance(t,int)}
        def assign(syms,n,mx):
            s=sorted(syms); extra=r.choice([0,0,1,3,20])
            while extra and len(s)<n:
                x=r.randrange(n); extra-=1
                if x not in s: s.append(x)
            if len(s)==0: return [0]
            ls=tree(r,len(s),mx); r.shuffle(ls)
            lens=[0]*(max(s)+1)
            for a,b in zip(s,ls): lens[a]=b
            return lens
        L=assign(used,286,15)
        if sum(1 for x in L if x)==1 and r.random()<.5: L[0 if L[0]==0 else 1]=1
        D=assign(ud,30,15)
        L+= [0]*(257-len(L))
        if r.random()<.3: L+=[0]*(286-len(L))
        if r.random()<.3: D+=[0]*(30-len(D))
        # run-length encoding of the lengths
        seq=L+D; i=0; rl=[]
        while i<len(seq):
            j=i
            while j<len(seq) and seq[j]==seq[i]: j+=1
            k=j-i
            if seq[i]==0 and k>=11 and r.random()<.8: k=min(k,r.randint(11,138)); rl.append((18,k-11,7)); i+=k
            elif seq[i]==0 and k>=3 and r.random()<.7: k=min(k,r.randint(3,10)); rl.append((17,k-3,3)); i+=k
            elif i>0 and seq[i-1]==seq[i] and k>=3 and r.random()<.7: k=min(k,r.randint(3,6)); rl.append((16,k-3,2)); i+=k
            else: rl.append((seq[i],0,0)); i+=1
        us={x[0] for x in rl}
        if len(us)==1: us.add((min(us)+1)%19)
        s=sorted(us); ls=tree(r,len(s),7); r.shuffle(ls); cl=[0]*19
        for a,b in zip(s,ls): cl[a]=b
        nc=max(i for i in range(19) if cl[ORD[i]])+1; nc=max(nc,4)
        if r.random()<.3: nc=19
        w.bits(len(L)-257,5); w.bits(len(D)-1,5); w.bits(nc-4,4)
        for i in range(nc): w.bits(cl[ORD[i]],3)
        C=codes(cl)
        for s,x,n in rl: w.code(C[s]); w.bits(x,n)
        emit(w,ts,codes(L),codes(D),r)
def raw(r,nb=None,far=False,kinds=None,maxn=40):
    w=W(); out=bytearray(); nb=nb or r.randint(1,4)
    for i in range(nb): block(w,r,out,i==nb-1,r.choice(kinds) if kinds else None,far,maxn)
    return w.bytes(),bytes(out)
def wrap(r,s,out):
    lvl=r.randrange(4); cinfo=r.choice([7,7,7,5,0]); h=(8+16*cinfo)*256+lvl*64; h+=31-h%31
    return h.to_bytes(2,"big")+s+zlib.adler32(out).to_bytes(4,"big")
def ending(r,n):
    """n bytes whose last 258 come from one match, which is followed by the end of the block within the same byte"""
    pre=n-258
    while True:
        w=W(); w.bits(1,1); w.bits(1,2); ts=[]; left=pre
        for _ in range(r.randint(1,9)):
            if left: ts.append(r.randrange(100,200)); left-=1
        while left:
            l=258 if left>=261 or left==258 else left if left<=257 and left>=3 else 1 if left<3 else 258
            if l>left: l=left
            if l<3 or left-l in(1,2): ts.append(r.randrange(100,200)); left-=1
            else: ts.append((l,1)); left-=l
        ts.append((258,1))
        emit(w,ts,FIX,FIXD,r,eob=False)
        if len(w.b)%8==1: break
    w.code(FIX[256]); assert len(w.b)%8==0
    return w.bytes()
