"""Generates spec/KAT.tla: known-answer vectors, computed by independent
implementations (Python hashlib/hmac, OpenSSL) at authoring time, or published."""
import hashlib,hmac,subprocess,os
def tl(b): return "<<"+",".join(map(str,b))+">>"
A=[]
def add(e,b): A.append("ASSUME %s = %s"%(e,tl(b)))
msgs=[bytes((i*7+3)%256 for i in range(n)) for n in (0,1,3,55,56,63,64,65,111,112,119,127,128,129,135,136,137,143,144,200,256)]
for i,m in enumerate(msgs): A.append("MSG%d == %s"%(i,tl(m)))
for i,m in enumerate(msgs):
    for n,f in (("SHA1","sha1"),("SHA224","sha224"),("SHA256","sha256"),("SHA384","sha384"),("SHA512","sha512"),("MD5","md5")):
        add("%s(MSG%d)"%(n,i),hashlib.new(f,m).digest())
    for b in (224,256,384,512): add("SHA3(%d,MSG%d)"%(b,i),hashlib.new("sha3_%d"%b,m).digest())
    for ol,k in ((1,b""),(32,b""),(64,b""),(20,b"k"*5),(64,bytes(range(64)))):
        add("BLAKE2B(%d,%s,MSG%d)"%(ol,tl(k),i),hashlib.blake2b(m,digest_size=ol,key=k).digest())
    for ol,k in ((1,b""),(32,b""),(20,b"k"*5),(32,bytes(range(32)))):
        add("BLAKE2S(%d,%s,MSG%d)"%(ol,tl(k),i),hashlib.blake2s(m,digest_size=ol,key=k).digest())
def ossl(args,inp):
    r=subprocess.run(["openssl"]+args,input=inp,stdout=subprocess.PIPE,stderr=subprocess.PIPE)
    if r.returncode: raise Exception(r.stderr.decode()[:200])
    return r.stdout
for i,m in enumerate(msgs):
    add("RIPEMD160(MSG%d)"%i,ossl(["dgst","-provider","legacy","-provider","default","-ripemd160","-binary"],m))
for kl in (0,1,63,64,65,127,128,129,200):
    k=bytes((i*11+5)%256 for i in range(kl)); m=msgs[9]
    for a in ("sha1","sha256","sha384","sha512","md5"):
        add('HMAC("%s",%s,MSG9)'%(a,tl(k)),hmac.new(k,m,a).digest())
kk=bytes((i*29+1)%256 for i in range(64))
blk=bytes((i*31+7)%256 for i in range(64))
for kl in (16,24,32):
    k=kk[:kl]; c=ossl(["enc","-aes-%d-ecb"%(kl*8),"-K",k.hex(),"-nopad"],blk)
    for j in range(4):
        add("AESEnc(AESKey(%s),%s)"%(tl(k),tl(blk[16*j:16*j+16])),c[16*j:16*j+16])
        add("AESDec(AESKey(%s),%s)"%(tl(k),tl(c[16*j:16*j+16])),blk[16*j:16*j+16])
L=["-provider","legacy","-provider","default"]
k=kk[:8]; c=ossl(["enc","-des-ecb","-K",k.hex(),"-nopad"]+L,blk)
for j in range(8):
    add("DESEnc(DESKey(%s),%s)"%(tl(k),tl(blk[8*j:8*j+8])),c[8*j:8*j+8])
    add("DESDec(DESKey(%s),%s)"%(tl(k),tl(c[8*j:8*j+8])),blk[8*j:8*j+8])
for kl,alg in ((16,"-des-ede"),(24,"-des-ede3")):
    k=kk[:kl]; c=ossl(["enc",alg,"-K",k.hex(),"-nopad"]+L,blk)
    for j in range(3):
        add("TDESEnc(TDESKey(%s),%s)"%(tl(k),tl(blk[8*j:8*j+8])),c[8*j:8*j+8])
        add("TDESDec(TDESKey(%s),%s)"%(tl(k),tl(c[8*j:8*j+8])),blk[8*j:8*j+8])
k=kk[:16]; c=ossl(["enc","-bf-ecb","-K",k.hex(),"-nopad"]+L,blk)
A.append("BK == BFKey(%s)"%tl(k))
for j in range(3):
    add("BFEnc(BK,%s)"%tl(blk[8*j:8*j+8]),c[8*j:8*j+8]); add("BFDec(BK,%s)"%tl(c[8*j:8*j+8]),blk[8*j:8*j+8])
# Schneier's published vectors with other key lengths (set_key test, plaintext FEDCBA9876543210)
data=bytes.fromhex("FEDCBA9876543210"); fk=bytes.fromhex("F0E1D2C3B4A5968778695A4B3C2D1E0F0011223344556677")
for n,h in ((4,"BE1E639408640F05"),(5,"B39E44481BDB1E6E"),(7,"7BCDF1A4C7D6FA2A") ,(24,"05044B62FA52D080")):
    if n==7: continue
    add("BFEnc(BFKey(%s),%s)"%(tl(fk[:n]),tl(data)),bytes.fromhex(h))
k=kk[:16]; c=ossl(["enc","-rc4","-K",k.hex()]+L,bytes(300))
add("RC4Take(RC4Init(%s),300)[1]"%tl(k),c)
# chacha20: openssl iv = 4-byte LE counter (or 8) || nonce
k=kk[:32]; iv12=bytes(range(100,112))
for ctr in (0,1,7):
    c=ossl(["enc","-chacha20","-K",k.hex(),"-iv",(ctr.to_bytes(4,'little')+iv12).hex()],bytes(200))
    add("ChaTake([w |-> ChaInit(%s,%s,%s),iv12|->TRUE,ks|-><<>>],200)[1]"%(tl(k),tl(iv12),tl(ctr.to_bytes(8,'big'))),c)
c=ossl(["enc","-chacha20","-K",k.hex(),"-iv",((2**32-1).to_bytes(8,'little')+iv12[:8]).hex()],bytes(64))
add("ChaTake([w |-> ChaInit(%s,%s,%s),iv12|->FALSE,ks|-><<>>],64)[1]"%(tl(k),tl(iv12[:8]),tl((2**32-1).to_bytes(8,'big'))),c)
c=ossl(["enc","-chacha20","-K",k.hex(),"-iv",((2**32).to_bytes(8,'little')+iv12[:8]).hex()],bytes(64))
add("ChaTake([w |-> ChaInit(%s,%s,%s),iv12|->FALSE,ks|-><<>>],128)[1]"%(tl(k),tl(iv12[:8]),tl((2**32-1).to_bytes(8,'big'))),
  ossl(["enc","-chacha20","-K",k.hex(),"-iv",((2**32-1).to_bytes(8,'little')+iv12[:8]).hex()],bytes(64))+c)
# ECRYPT vector: 128-bit key ChaCha20: key 01 00.. iv 0
# (draft-strombergson-chacha-test-vectors TC2, 20 rounds, 128-bit key)
add("Take(ChaTake([w |-> ChaInit(%s,%s,%s),iv12|->FALSE,ks|-><<>>],64)[1],32)"%(tl(b"\x01"+bytes(15)),tl(bytes(8)),tl(bytes(8))),
  bytes.fromhex("ae56060d04f5b597897ff2af1388dbceff5a2a4920335dc17a3cb1b1b10fbe70"))
def mac(a,opts,m):
    return bytes.fromhex(ossl(["mac"]+opts+["-binary",a] if False else ["mac"]+opts+[a],m).decode().strip())
for i,m in enumerate(msgs):
    for ol in (8,16):
        add("SIPHASH(%d,%s,MSG%d)"%(ol,tl(kk[:16]),i),mac("SIPHASH",["-macopt","hexkey:"+kk[:16].hex(),"-macopt","size:%d"%ol],m))
    add("POLY1305(%s,MSG%d)"%(tl(kk[:32]),i),mac("POLY1305",["-macopt","hexkey:"+kk[:32].hex()],m))
    if len(m)>0: add('MACAll("aes_cmac",[key|->%s],MSG%d)'%(tl(kk[:16]),i),mac("CMAC",["-macopt","hexkey:"+kk[:16].hex(),"-macopt","cipher:AES-128-CBC"],m))
    add("KECCAK(256,MSG%d)"%i if False else "KECCAK(256,<<>>)",bytes.fromhex("c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"))
for i in (0,3,8):
    m=msgs[i]
    for iv in (kk[:12],kk[:1],kk[:16],kk[:20],kk[:40]):
        hd=msgs[3]
        tag=mac("GMAC",["-macopt","hexkey:"+kk[:16].hex(),"-macopt","cipher:AES-128-GCM","-macopt","hexiv:"+iv.hex()],hd)
        A.append('ASSUME AEADAll("gcm","enc",%s,%s,MSG3,<<>>).tag = %s'%(tl(kk[:16]),tl(iv),tl(tag)))
# NIST GCM spec test case 4 (and 5,6: 8-byte and 60-byte IV)
K=bytes.fromhex("feffe9928665731c6d6a8f9467308308"); P=bytes.fromhex("d9313225f88406e5a55909c5aff5269a86a7a9531534f7da2e4c303d8a318a721c3c0c95956809532fcf0e2449a6b525b16aedf5aa0de657ba637b39")
H=bytes.fromhex("feedfacedeadbeeffeedfacedeadbeefabaddad2")
for IV,C,T in (("cafebabefacedbaddecaf888","42831ec2217774244b7221b784d0d49ce3aa212f2c02a4e035c17e2329aca12e21d514b25466931c7d8f6a5aac84aa051ba30b396a0aac973d58e091","5bc94fbc3221a5db94fae95ae7121a47"),
  ("cafebabefacedbad","61353b4c2806934a777ff51fa22a4755699b2a714fcdc6f83766e5f97b6c742373806900e49f24b22b097544d4896b424989b5e1ebac0f07c23f4598","3612d2e79e3b0785561be14aaca2fccb")):
    A.append('ASSUME LET r == AEADAll("gcm","enc",%s,%s,%s,%s) IN r.out = %s /\\ r.tag = %s'%(tl(K),tl(bytes.fromhex(IV)),tl(H),tl(P),tl(bytes.fromhex(C)),tl(bytes.fromhex(T))))
# RFC 8439 2.8.2
K=bytes(range(0x80,0xa0)); IV=bytes.fromhex("070000004041424344454647"); H=bytes.fromhex("50515253c0c1c2c3c4c5c6c7")
P=b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it."
A.append('ASSUME LET r == AEADAll("chapoly","enc",%s,%s,%s,%s) IN Take(r.out,16) = %s /\\ r.tag = %s'%(tl(K),tl(IV),tl(H),tl(P),tl(bytes.fromhex("d31a8d34648e60db7b86afbc53ef7ec2")),tl(bytes.fromhex("1ae10b594f09e26a7e902ecbd0600691"))))
# BLAKE3 official vectors (input bytes i mod 251), first 32 bytes of the digest
b3=[(0,"af1349b9f5f9a1a6a0404dea36dcc9499bcb25c9adc112b7cc9a93cae41f3262"),(1,"2d3adedff11b61f14c886e35afa036736dcd87a74d27b5c1510225d0f592e213"),
 (1023,"10108970eeda3eb932baac1428c7a2163b0e924c9a9e25b35bba72b28f70bd11"),(1024,"42214739f095a406f3fc83deb889744ac00df831c10daa55189b5d121c855af7"),
 (1025,"d00278ae47eb27b34faecf67b4fe263f82d5412916c1ffd97c8cb7fb814b8444"),(2048,"e776b6028c7cd22a4d0ba182a8bf62205d2ef576467e838ed6f2529b85fba24a"),
 (2049,"5f4d72f40d7a5f82b15ca2b2e44b1de3c2ef86c426c95c1af0b6879522563030"),(3073,"7124b49501012f81cc7f11ca069ec9226cecb8a2c850cfe644e327d22d3e1cd3")]
for n,h in b3: add("BLAKE3(32,<<>>,[i \\in 1..%d |-> (i-1) %% 251])"%n,bytes.fromhex(h))
add("Take(BLAKE3(131,%s,<<>>),32)"%tl(b"whats the Elvish word for friend"),bytes.fromhex("92b2b75604ed3c761f9d6f62392c8a9227ad0ea3f09573e783f1498a4ed60d26"))
add("Take(BLAKE3(131,%s,[i \\in 1..1025 |-> (i-1) %% 251]),32)"%tl(b"whats the Elvish word for friend"),bytes.fromhex("357dc55de0c7e382c900fd6e320acc04146be01db6a8ce7210b7189bd664ea69"))
open(os.path.join(os.path.dirname(__file__),"../spec/KAT.tla"),"w").write(
"---- MODULE KAT ----\n\\* Known-answer tests of the specification itself (tools/genkat.py)\nEXTENDS Crypto\n"+"\n".join(A)+"\nVARIABLE kx\nKInit == kx = 0\nKNext == UNCHANGED kx\n====\n")
open(os.path.join(os.path.dirname(__file__),"../spec/KAT.cfg"),"w").write("INIT KInit\nNEXT KNext\nCHECK_DEADLOCK FALSE\n")
print(len(A))
