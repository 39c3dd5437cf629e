"""C15, C16, C17: public-key operations"""
from .lib import *
from .trace import Ref
def b2(n,l=None):
    l=(n.bit_length()+7)//8 if l is None else l
    return n.to_bytes(max(l,0),"big")
def isprime(n):
    if n<2: return False
    for p in (2,3,5,7,11,13,17,19,23,29,31,37):
        if n%p==0: return n==p
    d=n-1; s=0
    while d%2==0: d//=2; s+=1
    for a in (2,3,5,7,11,13,17,19,23,29,31,37):
        x=pow(a,d,n)
        if x in(1,n-1): continue
        for _ in range(s-1):
            x=x*x%n
            if x==n-1: break
        else: return False
    return True
def prime(c,bits):
    while True:
        n=c.r.getrandbits(bits)|1|(1<<(bits-1))
        if bits==2: n=3
        if isprime(n): return n
from math import gcd
def rsakey(c,p,q,e=None,dmode=None):
    """private and public key as driver arguments; any valid d"""
    n=p*q; l=(p-1)*(q-1)//gcd(p-1,q-1)
    while e is None or gcd(e,l)!=1: e=c.r.choice([3,5,17,65537,c.r.randrange(1,max(2,l))|1])
    d=pow(e,-1,l) if l>1 else 1
    x=c.r.random()
    if x<.3: d+=l
    elif x<.6: d=pow(e,-1,(p-1)*(q-1)) if (p-1)*(q-1)>1 else 1
    bits=n.bit_length(); dl=(d.bit_length()+7)//8
    z=lambda v:b2(v)if c.r.random()<.7 else bytes(c.r.randrange(3))+b2(v)
    pub=dict(size=bits,n=z(n),e=z(e))
    priv=dict(size=bits,n=z(n),d=z(d),p=z(p),q=z(q),dp=z(d%(p-1)),dq=z(d%(q-1)),qinv=z(pow(q,-1,p)))
    return n,pub,priv
OPS=("rsa_dec","rsa_sign","rsa_dec_crt","rsa_sign_crt")
def ref(t,k,fld): return Ref(k,fld=fld)
def c15(c):
    sm=[3,5,7,11,13]
    if c.first:
        # tiny keys: all pairs of small primes in both orders, every message
        for p in sm:
            for q in sm:
                if p==q: continue
                t=c.t("tiny-%d-%d"%(p,q)); n,pub,priv=rsakey(c,p,q)
                for m in range(0,n+2):
                    t.op("rsa_enc",m=b2(m),**pub); x=t.last()
                    t.op(c.r.choice(OPS[:2]),m=b2(m),**priv)
                    t.op(c.r.choice(OPS[2:]),m=b2(m),**priv); s=t.last()
                    if m<n and c.r.random()<.3:
                        t.op("rsa_dec_crt",m=x,**priv); t.op("rsa_dec",m=x,**priv); t.op("rsa_unwrap",m=s,**pub)
    # keys of all sizes, unequal factors, p < q and p > q
    for i in range(c.n(120,600)):
        b1=c.r.choice([2,3,4,5,8,12,16,17,24,31,32,33,48,63,64,65,100,128,150,256]) if i%5 else 256
        bq=b1 if c.r.random()<.6 else c.r.choice([2,3,8,16,33,64])
        p,q=prime(c,b1),prime(c,bq)
        if p==q: continue
        if p<q and c.r.random()<.5: p,q=q,p
        t=c.t("key%d-%d-%d"%(i,b1,bq)); n,pub,priv=rsakey(c,p,q)
        B=(pub["size"]+7)//8
        for m in [0,1,n-1,n,n+1,p,q,p*c.r.randrange(q),q*c.r.randrange(p),c.r.randrange(n),c.r.randrange(n),(1<<(8*B))-1,n<<8]:
            if c.r.random()<.5: continue
            mb=b2(m) if c.r.random()<.6 else b2(m,max(B,len(b2(m)))+c.r.choice([0,0,1,8]))
            t.op("rsa_enc",m=mb,**pub); x=t.last()
            if m<n:
                t.op("rsa_dec",m=x,**priv); t.op("rsa_dec_crt",m=x,**priv)
                t.op("rsa_sign",m=mb,**priv); s=t.last(); t.op("rsa_unwrap",m=s,**pub)
                t.op("rsa_sign_crt",m=mb,**priv); s=t.last(); t.op("rsa_unwrap",m=s,**pub)
            else:
                for op in OPS: t.op(op,m=mb,**priv)
    # generated keys
    sizes=list(range(32,68,2))+[80,96,126,128,130,160,200,254,256,258]
    es=[None,None,3,5,17,257,65537,65539,7,15,35,1155,2147483647]
    for i in range(c.n(110,600)):
        bits=c.r.choice(sizes) if i>=len(sizes) or not c.first else sizes[i]
        e=c.r.choice(es); t=c.t("gen%d-%d"%(i,bits))
        if i%4==3:   # the same random bytes for both primes
            H=(bits//2+7)//8; x=c.rb(H); r=t.new("rng",kind="replay",data=x*2+c.rb(30000))
        else: r=t.new("rng",kind=c.r.choice(["chacha","aesctr"]),seed=c.rb(32))
        for _ in range(3 if i%4!=3 else 1):
            o=t.oid(); kw=dict(o=o,bits=bits,rng=r)
            if e: kw["e"]=e
            t.op("rsa_new",**kw); k=len(t.ops)-1
            f=lambda j:Ref(k,fld=j)
            pub=dict(size=bits,n=f(7),e=f(8)); priv=dict(size=bits,n=f(0),d=f(1),p=f(2),q=f(3),dp=f(4),dq=f(5),qinv=f(6))
            m=c.rb((bits-3)//8)
            t.op("rsa_enc",m=m,**pub); x=t.last(); t.op("rsa_dec",m=x,**priv); t.op("rsa_dec_crt",m=x,**priv)
            t.op("rsa_sign_crt",m=m,**priv); x=t.last(); t.op("rsa_unwrap",m=x,**pub)
            t.op("rsa_enc",m=Ref(k,fld=7),**pub)
    for bits in (512,) if c.quick else (512,768,1024):
        t=c.t("gen-%d"%bits); r=t.new("rng",kind="chacha",seed=c.rb(32)); t.op("rsa_new",o=t.oid(),bits=bits,rng=r,e=65537); k=len(t.ops)-1
        f=lambda j:Ref(k,fld=j)
        priv=dict(size=bits,n=f(0),d=f(1),p=f(2),q=f(3),dp=f(4),dq=f(5),qinv=f(6)); m=c.rb(bits//8-1)
        t.op("rsa_enc",m=m,size=bits,n=f(7),e=f(8)); x=t.last(); t.op("rsa_dec",m=x,**priv); t.op("rsa_dec_crt",m=x,**priv)
    # the default generator
    t=c.t("gen-secure"); t.op("rsa_new",o=t.oid(),bits=64); t.op("rsa_new",o=t.oid(),bits=128,e=3)
    t=c.t("gen-bad"); r=t.new("rng",kind="chacha",seed=c.rb(32))
    for b in (0,1,2,8,16,30,31,33,35,63,65,129,511,-2,-64): t.op("rsa_new",o=t.oid(),bits=b,rng=r)
def c16(c):
    sizes=list(range(32,66,2))+[80,96,126,128,130]
    for i in range(c.n(90,500)):
        bits=c.r.choice(sizes) if i>=len(sizes) or not c.first else sizes[i]
        t=c.t("gen%d-%d"%(i,bits))
        if i%5==4: r=t.new("rng",kind="replay",data=c.rb((bits//2+7)//8)*2+c.rb(60000))
        else: r=t.new("rng",kind=c.r.choice(["chacha","aesctr"]),seed=c.rb(32))
        t.op("pai_new",o=t.oid(),bits=bits,rng=r); k=len(t.ops)-1; f=lambda j:Ref(k,fld=j)
        pub=dict(size=bits,n=f(6),n2=f(7),g=f(8)); sec=dict(_lambda=f(4),_mu=f(5))
        priv=dict(size=bits,n=f(0),n2=f(1),p=f(2),q=f(3),**{"lambda":f(4),"mu":f(5)})
        B=(bits-3)//8; cs=[]
        for m in [b"\0",b"\1",c.rb(1),c.rb(B),c.rb(B),Ref(k,fld=0,pos=(bits+7)//8-1,mask=1),c.rb(B//2),b"",bytes(2)+c.rb(B-1)]:
            if isinstance(m,bytes) and c.r.random()<.3: continue
            t.op("pai_enc",m=m,rng=r,**pub,**sec); x=t.last(); cs.append(x)
            t.op("pai_dec",m=x,**priv)
        for _ in range(5):
            a,b=c.r.choice(cs),c.r.choice(cs); t.op("pai_add",x=a,y=b,**pub,**sec); x=t.last(); t.op("pai_dec",m=x,**priv); cs.append(x)
    # keys made by hand: any two primes with gcd(pq,(p-1)(q-1))=1, in both orders
    from math import gcd
    for i in range(c.n(60,300)):
        b=c.r.choice([6,8,10,16,17,20,24,32,33,40,64]); p,q=prime(c,b),prime(c,b)
        if p==q or gcd(p*q,(p-1)*(q-1))!=1: continue
        n=p*q; l=(p-1)*(q-1)//gcd(p-1,q-1); mu=pow(l,-1,n); size=n.bit_length() if c.r.random()<.5 else 2*b
        if size-1>n.bit_length(): size=n.bit_length()
        if (1<<(size-2))*1.02>n: continue       # too few candidates for the random factor
        t=c.t("hand%d"%i); r=t.new("rng",kind="chacha",seed=c.rb(32))
        pub=dict(size=size,n=b2(n),n2=b2(n*n),g=b2(n+1)); sec=dict(_lambda=b2(l),_mu=b2(mu))
        priv=dict(size=size,n=b2(n),n2=b2(n*n),p=b2(p),q=b2(q),**{"lambda":b2(l),"mu":b2(mu)})
        cs=[]
        for m in (0,1,n-1,n//2,c.r.randrange(n),c.r.randrange(n),c.r.randrange(n)):
            t.op("pai_enc",m=b2(m) if c.r.random()<.7 else bytes(2)+b2(m),rng=r,**pub,**sec); x=t.last(); cs.append(x); t.op("pai_dec",m=x,**priv)
            # any randomness: ciphertexts made outside
            while True:
                rr=c.r.randrange(1,n)
                if gcd(rr,n)==1: break
            y=b2(pow(n+1,m,n*n)*pow(rr,n,n*n)%(n*n)); t.op("pai_dec",m=y,**priv); cs.append(y)
        for _ in range(5):
            a,b_=c.r.choice(cs),c.r.choice(cs); t.op("pai_add",x=a,y=b_,**pub,**sec); x=t.last(); t.op("pai_dec",m=x,**priv); cs.append(x)
    t=c.t("gen-secure"); t.op("pai_new",o=t.oid(),bits=64); k=len(t.ops)-1; f=lambda j:Ref(k,fld=j)
    t.op("pai_enc",m=b"\5\6",size=64,n=f(6),n2=f(7),g=f(8),_lambda=f(4),_mu=f(5))
    t=c.t("gen-bad"); r=t.new("rng",kind="chacha",seed=c.rb(32))
    for b in (0,1,2,16,30,31,33,65,129,-2): t.op("pai_new",o=t.oid(),bits=b,rng=r)
def c17(c):
    def exchange(t,P,rng=None):
        kw={} if rng is None else dict(rng=rng)
        a,b=t.oid(),t.oid()
        t.op("dh_secret",o=a,p=P,**kw); t.op("dh_secret",o=b,p=P,**kw)
        t.op("dh_msg",o=a,p=P); ma=t.last(); t.op("dh_msg",o=b,p=P); mb=t.last()
        if c.r.random()<.3: t.op("dh_msg",o=a,p=P)
        t.op("dh_shared",o=a,p=P,m=mb,_peer=b); sa=t.last(); t.op("dh_shared",o=b,p=P,m=ma,_peer=a)
        return sa
    # generated parameters
    for i in range(c.n(80,400)):
        bits=c.r.choice(list(range(32,80))+[96,127,128,129,161,170]); t=c.t("gen%d-%d"%(i,bits))
        r=t.new("rng",kind=c.r.choice(["chacha","aesctr"]),seed=c.rb(32))
        pl=c.r.choice([1,2,3,7,8,9,10,16,20,bits-1,bits//2]) 
        if bits>160 and c.r.random()<.3: t.op("dh_params",o=(P:=t.oid()),bits=bits,rng=r)
        else: t.op("dh_params",o=(P:=t.oid()),bits=bits,privlen=pl,rng=r)
        for _ in range(3): exchange(t,P,r)
    t=c.t("bad"); r=t.new("rng",kind="chacha",seed=c.rb(32))
    for b,pl in ((31,8),(16,8),(0,0),(40,40),(40,41),(160,None),(100,None),(64,64),(32,32),(-5,1),(-5,-9)):
        kw={} if pl is None else dict(privlen=pl); t.op("dh_params",o=t.oid(),bits=b,rng=r,**kw)
    t=c.t("secure"); t.op("dh_params",o=(P:=t.oid()),bits=64,privlen=10); exchange(t,P)
    # parameters made by hand: tiny primes, any generator, leading zero bytes
    for i in range(c.n(120,500)):
        pb=c.r.choice([2,3,4,5,6,7,8,9,12,15,16,17,24,31,32,33,48,64,65,100,128]); p=prime(c,pb)
        if p==2: p=3
        g=c.r.choice([1,2,3,p-1,c.r.randrange(p),c.r.randrange(p),p+1 if pb>3 else 1]); L=(pb+7)//8+c.r.choice([0,0,0,1,2])
        t=c.t("hand%d-%d"%(i,pb)); r=t.new("rng",kind="chacha",seed=c.rb(32))
        t.op("dh_set",o=(P:=t.oid()),p=b2(p,L),g=b2(g,max(L,(g.bit_length()+7)//8)) if c.r.random()<.6 else b2(g),privlen=c.r.choice([1,2,3,4,5,6,7,8,9,10,10,17,40]))
        for _ in range(3): exchange(t,P,r)
        # an arbitrary peer message
        a=t.oid(); t.op("dh_secret",o=a,p=P,rng=r); t.op("dh_msg",o=a,p=P); t.op("dh_shared",o=a,p=P,m=b2(c.r.choice([0,1,p-1,c.r.randrange(p)])))
    # key derivation
    ls=list(range(0,100)) if not c.quick else c.r.sample(range(0,100),30)+[0,1,31,32,33,63,64,65,96]
    for i in range(0,len(ls),10):
        t=c.t("derive%d"%i)
        for l in ls[i:i+10]:
            s=c.rb(c.r.choice([0,1,20,64,55,56])); kw={}
            if c.r.random()<.7: kw["div"]=c.rb(c.r.choice([0,1,5,40,64]))
            t.op("derive",secret=s,len=l,**kw)
            if c.r.random()<.4: t.op("derive",secret=s,len=l+c.r.choice([1,31,32,40]),**kw)
    # counters of two and three digits
    t=c.t("derive-long"); s=c.rb(20)
    for l in (288,289,320,321,352,640) if c.quick else (288,289,320,321,352,640,3168,3169,3200,3201,3300): t.op("derive",secret=s,len=l)
    t.op("derive",secret=s,len=c.n(8230,30000),div=c.rb(3))
