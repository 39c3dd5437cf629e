"""C04, C11, C12: transforms, composition, helpers, codecs"""
import base64
from .lib import *
from . import hist
from .trace import Ref
B64="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
class Src:
    """endless input of a kind"""
    def __init__(self,c,kind): self.c,self.kind,self.n=c,kind,0
    def __call__(self,n):
        r=self.c.r
        if self.kind=="b64": return "".join(r.choice(B64 if r.random()<.9 else " \n\t\r") for _ in range(n)).encode()
        if self.kind=="hex": return "".join(r.choice("0123456789abcdefABCDEF" if r.random()<.9 else " \n\t\r") for _ in range(n)).encode()
        return r.randbytes(n)
def transforms(c):
    """(name, unit, source kind, constructor)"""
    out=[]
    def add(name,u,src,cls,**kw): out.append((name,u,src,lambda t,kw=kw,cls=cls:t.new(cls,**kw)))
    k3=lambda:c.rb(3)
    for bs in (1,4,16):
        for d in ("enc","dec"):
            for m,n in (("ecb",None),("cbc",None),("cfb",max(1,bs//2)),("ofb",max(1,bs-1)),("ctr",None)):
                if bs==1 and m in("cfb","ofb"): continue
                if bs==16 and m!="cbc": continue
                kw=dict(alg="toy",bs=bs,mode=m,dir=d,pdir=d if m in("ecb","cbc") else "enc",key=k3())
                if n: kw["n"]=n
                if m!="ecb": kw["iv"]=c.rb(bs)
                u=n if n else bs
                add("toy%d-%s-%s"%(bs,m,d),u,"raw","bcipher",**kw)
                if m in("cbc","ecb"):
                    for p in ("length","8000"): add("toy%d-%s-%s-%s"%(bs,m,d,p),u,"raw","bcipher",pad=p,**kw)
    for v in ("multiline","compact","compact_pad"): add("b64enc-"+v,3,"raw","b64enc",v=v)
    add("b64dec",4,"b64","b64dec"); add("hexenc",2,"raw","hexenc"); add("hexdec",2,"hex","hexdec")
    add("toystream",3,"raw","toystream",key=c.rb(5))
    add("chacha",64,"raw","chacha20",key=c.rb(32),iv=c.rb(8),dir="enc"); add("rc4",5,"raw","arcfour",key=c.rb(7),dir="dec")
    add("aes-cbc",16,"raw","cipher",alg="aes",mode="cbc",key=c.rb(16),iv=c.rb(16),dir="enc")
    add("aes-ctr",16,"raw","cipher",alg="aes",mode="ctr",key=c.rb(16),iv=c.rb(16),dir="dec")
    add("aes-pad",16,"raw","cipher",alg="aes",mode="cbc",key=c.rb(16),iv=c.rb(16),dir="enc",pad="length")
    add("aes-unpad",16,"raw","cipher",alg="aes",mode="cbc",key=c.rb(16),iv=c.rb(16),dir="dec",pad="8000")
    add("des-cfb",3,"raw","cipher",alg="des",mode="cfb",n=3,key=c.rb(8),iv=c.rb(8),dir="enc")
    return out
def edges(c,ts,reps):
    """the output buffer filled to within a few bytes of its capacity, after a few bytes were read"""
    B="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
    for name,u,src,mk in ts:
        num,den=(4,3) if name=="b64dec" else (3,4) if name.startswith("b64enc") else (1,2) if name=="hexenc" else (2,1) if name=="hexdec" else (1,1)
        s={"b64":lambda n:"".join(c.r.choice(B) for _ in range(n)).encode(),"hex":lambda n:"".join(c.r.choice("0123456789abcdefABCDEF") for _ in range(n)).encode()}.get(src,c.rb)
        t=None
        for rep in range(reps):
            if rep%20==0: t=c.t("%s-edge%d"%(name,rep//20))
            o=mk(t); cap=c.r.choice([256,256,256,512,1024]); uo=u*den//num; out1=(cap-c.r.randrange(0,4*uo))//uo*uo
            put(c,t,o,s(out1//uo*u),c.r.choice(["sub","str"]))
            # after k bytes were read, so many units fill the buffer up to the last e bytes
            e=c.r.choice([0,0,0,1,2]); ks=[k for k in range(min(out1,250)) if (cap-e-out1+k)%uo==0] or [0]; k=c.r.choice(ks[:12] if c.r.random()<.6 else ks)
            if k: t.op("getn",o=o,k=k)
            m=max(0,(cap-e-out1+k)//uo)
            if c.r.random()<.3: m=max(0,m+c.r.choice([-1,1]))
            if c.r.random()<.5:
                for i in range(m): t.op("put",o=o,d=s(u),m="sub")
            else: put(c,t,o,s(m*u),c.r.choice(["sub","str","chr"]))
            if c.r.random()<.8: put(c,t,o,s(c.r.randrange(u)),"chr")
            t.op("avail",o=o); t.op(c.r.choice(["finish","finish","finish","flush"]),o=o); t.op("avail",o=o); t.op(c.r.choice(["gets","getsub"]),o=o)
SLOW=("aes","chacha","des","rc4")
def c04(c):
    P=("p0","p1","pm","pb","pp","p2"); O=("fl","gs","gc")
    h3,n,g=hist.histories(3,P,O)
    h4=hist.histories(4,P,O+("av",))[0]
    for name,u,src,mk in transforms(c):
        slow=name.startswith(SLOW)
        hs=[]
        if c.first: hs+=c.r.sample(h3,c.n(100,700) if slow else c.n(400,len(h3)))
        hs+=c.r.sample(h4,c.n(60,300) if slow else c.n(200,2000))
        hs+=hist.simulate(c,c.r.randint(8,30),c.n(12,60),P+("p9",),O+("gn","av","gs"))
        for i in range(0,len(hs),20):
            t=c.t("%s-h%d"%(name,i//20))
            for h in hs[i:i+20]:
                o=mk(t); s=Src(c,src); hist.replay(c,t,o,h,u,s)
                if "fin" in h and c.r.random()<.5: t.op("gets",o=o)
    t=c.t("sizes")
    for name,u,src,mk in transforms(c): o=mk(t); t.op("ibs",o=o); t.op("obs",o=o)
    for cls in ("zc","zu"): o=t.new(cls); t.op("ibs",o=o); t.op("obs",o=o)
    edges(c,[x for x in transforms(c) if not x[0].startswith("des")],c.n(12,60)); edges(c,[x for x in transforms(c) if x[0].startswith(("b64","hex"))],c.n(40,200))
    # output buffers: growth, compaction, long queues read in every way
    for name,u,src,mk in transforms(c):
        if name.startswith(("aes","des","chacha")) and c.quick and c.r.random()<.5: continue
        for rep in range(c.n(1,4)):
            t=c.t("%s-buf%d"%(name,rep)); o=mk(t); s=Src(c,src); q=0
            big=name.startswith(("hex","b64","toystream","toy","rc4"))
            for j in range(c.n(10,30)):
                x=c.r.random()
                n=c.r.choice([1,10,200,255,256,257,300,511,512,513,1000]) if x<.9 or not big else c.r.choice([2000,5000])
                if not big: n=min(n,260)
                put(c,t,o,s(n),"str" if c.r.random()<.5 else "sub"); q+=n
                y=c.r.random()
                if y<.5: t.op("getn",o=o,k=c.r.choice([1,3,50,100,200,255,256]))
                elif y<.6: t.op("gets",o=o)
                elif y<.7: t.op("getsub",o=o)
                t.op("avail",o=o)
            t.op("getn",o=o,k=c.r.choice([1,5,30])); put(c,t,o,s(7)); t.op("getc",o=o); t.op("gets",o=o); t.op("getc",o=o); t.op("avail",o=o)
            put(c,t,o,s(2*u),"str"); t.op("finish",o=o); t.op("avail",o=o); t.op("gets",o=o); t.op("getb",o=o)
    # one large put
    for name,u,src,mk in transforms(c):
        if name.startswith(("aes","des","chacha")): continue
        t=c.t(name+"-large"); o=mk(t); s=Src(c,src)
        put(c,t,o,s(c.r.randint(3000,6000)),c.r.choice(["str","sub"])); t.op("avail",o=o); t.op("getn",o=o,k=700); put(c,t,o,s(c.r.randint(1000,3000)),"sub"); t.op("gets",o=o); t.op("avail",o=o)
    # the same data in two different cuts
    for name,u,src,mk in transforms(c):
        for rep in range(c.n(2,8)):
            d=Src(c,src)(c.r.choice([u,5*u,17*u+3,40,100]))
            t=c.t("%s-cut%d"%(name,rep))
            for j in range(2):
                o=mk(t); feed(c,t,o,d,parts=[len(d)] if j==0 else None,read=.3*j); t.op("finish",o=o); t.op("gets",o=o)
def c11(c):
    trs=transforms(c)
    names={n:(n,u,s,m) for n,u,s,m in trs}
    raw=[x for x in trs if x[2]=="raw"]
    P=("p0","p1","pm","pb","pp","p2"); O=("fl","gs","gc")
    h4=hist.histories(4,P,O)[0]
    def pair():
        """two (or more) transforms that fit: decoders follow encoders"""
        a=c.r.choice(trs); x=c.r.random()
        if a[0].startswith("b64enc") and x<.6: b=names["b64dec"]
        elif a[0]=="hexenc" and x<.6: b=names["hexdec"]
        else: b=c.r.choice(raw)
        return a,b
    for i in range(c.n(160,600)):
        a,b=pair(); third=c.r.choice(raw) if c.r.random()<.25 else None
        t=c.t("comp-%s-%s%s"%(a[0],b[0],"-"+third[0] if third else ""),c.r.choice(["hw","hw","sw"]))
        def mk():
            x,y=a[3](t),b[3](t); o=t.new("compose",a=x,b=y)
            if third:
                z=third[3](t)
                o=t.new("compose",a=o,b=z) if c.r.random()<.5 else t.new("compose",a=t.new("compose",a=a[3](t),b=b[3](t)),b=z)
            return o
        t.op("ibs",o=(o:=mk())); t.op("obs",o=o)
        for h in c.r.sample(h4,2)+hist.simulate(c,10,1,P,O+("gn","av")):
            o=mk(); s=Src(c,a[2]); hist.replay(c,t,o,h,a[1],s)
        # whole number of units so that finish succeeds more often
        o=mk(); s=Src(c,a[2]); d=s(a[1]*c.r.choice([0,1,2,4,8,16]))
        feed(c,t,o,d,read=.2); t.op("finish",o=o); t.op("avail",o=o); t.op("gets",o=o)
        o=mk(); t.op("tstring",o=o,d=d)
    # compose right-nested
    for i in range(c.n(20,60)):
        t=c.t("nest%d"%i); x=[c.r.choice(raw) for _ in range(3)]
        a=x[0][3](t); b=t.new("compose",a=x[1][3](t),b=x[2][3](t)); o=t.new("compose",a=a,b=b)
        feed(c,t,o,c.rb(16*c.r.randrange(0,6)),read=.3); t.op("flush",o=o); t.op("gets",o=o); feed(c,t,o,c.rb(16)); t.op("finish",o=o); t.op("gets",o=o)
    # helpers over strings: every transform and hash; wiped afterwards (spies count)
    for name,u,src,mk in trs:
        t=c.t("str-"+name)
        for l in (0,u,3*u,16*u,c.r.randrange(200)):
            o=mk(t)
            if c.r.random()<.7: o=t.new("spy",a=o); t.op("tstring",o=o,d=Src(c,src)(l)); t.op("wiped",o=o)
            else: t.op("tstring",o=o,d=Src(c,src)(l))
    from .p_hash import macfam
    fam=macfam(c)
    for name,R,mk in fam:
        t=c.t("hstr-"+name,c.r.choice(["hw","sw"]))
        for l in (0,R,c.r.randrange(3*R)):
            o=t.new("hash",**mk()); sp=c.r.random()<.7
            if sp: o=t.new("spy",a=o)
            t.op("hstring",o=o,d=c.rb(l))
            if sp: t.op("wiped",o=o)
    # helpers over channels
    lens=[0,1,2,100,255,256,257,511,512,513,767,768,1000,1023,1024,1025,1279,1280,2047,2048,2049,4095,4096,4097,5000,8192,8193]
    def chan(op,o,l,big=True):
        sp=c.r.random()<.5
        return sp
    small=[x for x in trs if x[0].startswith(("toy","hex","b64","rc4"))]
    for i in range(c.n(90,300)):
        name,u,src,mk=c.r.choice(small if c.r.random()<.8 else trs)
        t=c.t("tchan%d-%s"%(i,name))
        for j in range(2):
            l=c.r.choice(lens) if name.startswith(("toy","hex","b64","rc4")) else c.r.choice(lens[:8])
            if src=="raw" and u>1 and c.r.random()<.7: l=l//u*u
            d=Src(c,src)(l); o=mk(t); sp=c.r.random()<.5
            if sp: o=t.new("spy",a=o)
            kw={}
            x=c.r.random()
            if x<.5: kw["len"]=min(l,c.r.choice([l,l//2//u*u,c.r.randrange(l+1)//u*u,0,u,256,255,257,1024]))
            elif x<.6: kw["len"]=l+c.r.choice([1,5,300])
            t.op("tchan",o=o,d=d,**kw)
            if sp and kw.get("len",0)<=l and (u==1 or kw.get("len",l)%u==0) and src=="raw" and "dec-" not in name: t.op("wiped",o=o)
    for i in range(c.n(70,250)):
        name,R,mk=c.r.choice(fam)
        t=c.t("hchan%d-%s"%(i,name),c.r.choice(["hw","sw"]))
        l=c.r.choice(lens[:22]); d=c.rb(l); o=t.new("hash",**mk()); kw={}
        sp=c.r.random()<.5
        if sp: o=t.new("spy",a=o)
        x=c.r.random()
        if x<.5: kw["len"]=min(l,c.r.choice([l,l//2,c.r.randrange(l+1),0,1,255,256,257]))
        elif x<.6: kw["len"]=l+c.r.choice([1,7,300])
        if name.endswith("none"):
            l=l//R*R; d=d[:l]
            if "len" in kw: kw["len"]=kw["len"]//R*R
        t.op("hchan",o=o,d=d,**kw)
        if sp and kw.get("len",0)<=l: t.op("wiped",o=o)
    # authenticated helpers wipe too
    for i in range(c.n(20,60)):
        t=c.t("auth%d"%i)
        o=t.new("gcm",dir="enc",key=c.rb(16),iv=c.rb(12)) if i%2 else t.new("then_hash",a=c.r.choice(raw)[3](t),h=t.new("hash",alg="sha256"))
        o=t.new("spy",a=o); d=c.rb(16*c.r.randrange(4))
        op=c.r.choice(["atstring","atdet","acheck"]); t.op(op,o=o,d=d+c.rb(32) if op=="acheck" else d)
        if op!="acheck" or i%2: t.op("wiped",o=o)
def c12(c):
    edges(c,[x for x in transforms(c) if x[0].startswith(("b64","hex"))],c.n(120,600))
    VS=("multiline","compact","compact_pad")
    if c.first:
        # decoder: every short string over a small alphabet
        al=[b"A",b"/",b"=",b" ",b"!",b"\n"]
        D=c.n(5,6)
        from itertools import product
        seqs=[b"".join(x) for n in range(0,D+1) for x in product(al,repeat=n)]
        if c.quick: seqs=[s for s in seqs if len(s)<5]+c.r.sample([s for s in seqs if len(s)==5],1500)
        for i in range(0,len(seqs),150):
            t=c.t("b64dec-all%d"%i)
            for s in seqs[i:i+150]: o=t.new("b64dec"); t.op("put",o=o,d=s,m="str"); t.op("finish",o=o); t.op("gets",o=o)
        al=[b"0",b"f",b"F",b" ",b"g",b"\n"]
        seqs=[b"".join(x) for n in range(0,5) for x in product(al,repeat=n)]
        for i in range(0,len(seqs),150):
            t=c.t("hexdec-all%d"%i)
            for s in seqs[i:i+150]: o=t.new("hexdec"); t.op("put",o=o,d=s,m="str"); t.op("flush",o=o); t.op("finish",o=o); t.op("gets",o=o)
        # every character, at every place of a group
        for cls,pre in (("b64dec",(b"",b"Q",b"QU",b"QUJ",b"QUJD",b"QQ=",b"QQ==")),("hexdec",(b"",b"4",b"4A"))):
            for p in pre:
                t=c.t("%s-chars-%s"%(cls,p.decode().replace("=","_")))
                for ch in range(256):
                    for post in ((b"",) if c.r.random()<.7 else (b"",b"AB",b"=")):
                        o=t.new(cls); t.op("put",o=o,d=p+bytes([ch])+post,m=c.r.choice(["str","byte","chr","sub"])); t.op("finish",o=o); t.op("gets",o=o)
        # encoders: every length
        for v in VS:
            for l0 in range(0,300,20):
                t=c.t("enc-%s-%d"%(v,l0))
                for l in range(l0,l0+20):
                    o=t.new("b64enc",v=v); put(c,t,o,data(c,l),c.r.choice(["str","sub"])); t.op("finish",o=o); t.op("gets",o=o)
        t=c.t("hexenc-all"); o=t.new("hexenc"); t.op("put",o=o,d=bytes(range(256)),m="str"); t.op("finish",o=o); t.op("gets",o=o)
        # every byte value in every position of a group
        for v in VS:
            t=c.t("enc-bytes-"+v)
            for k in range(3):
                o=t.new("b64enc",v=v); t.op("put",o=o,d=b"".join(bytes([0]*k+[b]+[0]*(2-k)) for b in range(256)),m="str"); t.op("finish",o=o); t.op("gets",o=o)
        # all 64 x 64 pairs of characters
        t=c.t("b64dec-pairs"); o=t.new("b64dec"); t.op("put",o=o,d="".join(a+b for a in B64 for b in B64).encode(),m="sub"); t.op("finish",o=o); t.op("gets",o=o)
    # round trips with blanks inserted, random cuts
    for i in range(c.n(150,600)):
        d=data(c,c.r.choice([0,1,2,3,4,5,53,54,55,56,57,58,59,60,107,108,109,c.r.randrange(400)])); v=c.r.choice(VS+("hex",))
        t=c.t("rt%d"%i)
        o=t.new("hexenc") if v=="hex" else t.new("b64enc",v=v)
        feed(c,t,o,d,read=.2); t.op("finish",o=o); t.op("gets",o=o)
        o=t.new("hexenc") if v=="hex" else t.new("b64enc",v=v)
        t.op("tstring",o=o,d=d); x=t.last()
        o=t.new("hexdec") if v=="hex" else t.new("b64dec")
        t.op("tstring",o=o,d=x)
        txt=d.hex() if v=="hex" else base64.b64encode(d).decode()
        if v=="compact": txt=txt.rstrip("=")
        if v=="hex" and c.r.random()<.5: txt=txt.upper()
        s="".join(ch+(c.r.choice([" ","\n","\t","\r","\r\n","  "]) if c.r.random()<.15 else "") for ch in txt)
        if c.r.random()<.3: s="\n"+s
        if c.r.random()<.4 and s: # corrupt
            p=c.r.randrange(len(s)); s=s[:p]+c.r.choice(["!","=","-","_","\0","\x80","\xff","A","\x0b","\x0c","g","G"," "])+s[p+c.r.randrange(2):]
        o=t.new("hexdec") if v=="hex" else t.new("b64dec"); sb=s.encode("latin1")
        feed(c,t,o,sb,read=.2)
        if v=="hex" and c.r.random()<.3: t.op("flush",o=o)
        t.op("finish",o=o); t.op("gets",o=o)
        # truncated
        k=c.r.randrange(len(sb)+1); o=t.new("hexdec") if v=="hex" else t.new("b64dec"); t.op("put",o=o,d=sb[:k]); t.op("finish",o=o); t.op("gets",o=o)
    # histories on the encoders
    P=("p0","p1","pm","pb","pp","p2"); O=("gs","gc","av")
    for v in VS+("hex","b64dec","hexdec"):
        hs=c.r.sample(hist.histories(4,P,O)[0],c.n(60,500))
        for i in range(0,len(hs),20):
            t=c.t("h-%s-%d"%(v,i))
            for h in hs[i:i+20]:
                o=t.new("hexenc") if v=="hex" else t.new(v) if v in("b64dec","hexdec") else t.new("b64enc",v=v)
                hist.replay(c,t,o,h,4 if v=="b64dec" else 2 if v[:3]=="hex" else c.r.choice([3,3,54]),Src(c,"b64" if v=="b64dec" else "hex" if v=="hexdec" else "raw"))
