------------------------------- MODULE Crypto -------------------------------
(***************************************************************************)
(* The mathematical functions behind the objects: block ciphers by name,   *)
(* chaining modes, paddings, MACs and authenticated encryption.            *)
(***************************************************************************)
EXTENDS Words, SequencesExt, AES, DES, Blowfish, StreamCiphers, Hashes, Macs, BigNat

---------------------------------------------------------------- 
\* Block ciphers.  A cipher is [alg, d, bs, k]: name, direction of the
\* primitive ("enc"/"dec"), block size and expanded key.
LegalKey(alg, n) == CASE alg = "aes" -> n \in {16, 24, 32}
                      [] alg = "des" -> n = 8
                      [] alg = "3des" -> n \in {16, 24}
                      [] alg = "blowfish" -> n \in 4..56
                      [] alg = "toy" -> n > 0
BlockSize(alg, bs) == CASE alg = "aes" -> 16 [] alg = "toy" -> bs [] OTHER -> 8
MkCipher(alg, d, key, bs) ==
  [alg |-> alg, d |-> d, bs |-> BlockSize(alg, bs),
   k |-> CASE alg = "aes" -> AESKey(key) [] alg = "des" -> DESKey(key)
           [] alg = "3des" -> TDESKey(key) [] alg = "blowfish" -> BFKey(key)
           [] alg = "toy" -> key]
\* a permutation of any block size, standing for a user-supplied block cipher
ToyEnc(k, b) == Eager([i \in 1..Len(b) |->
    (5 * b[1 + (i % Len(b))] + k[1 + ((i - 1) % Len(k))] + i - 1) % 256])
ToyDec(k, b) == Eager([j \in 1..Len(b) |->
    LET i == 1 + ((j - 2) % Len(b))
    IN  (205 * ((b[i] - k[1 + ((i - 1) % Len(k))] - (i - 1)) % 256)) % 256])
CEnc(c, b) == CASE c.alg = "aes" -> AESEnc(c.k, b) [] c.alg = "des" -> DESEnc(c.k, b)
                [] c.alg = "3des" -> TDESEnc(c.k, b) [] c.alg = "blowfish" -> BFEnc(c.k, b)
                [] c.alg = "toy" -> ToyEnc(c.k, b)
CDec(c, b) == CASE c.alg = "aes" -> AESDec(c.k, b) [] c.alg = "des" -> DESDec(c.k, b)
                [] c.alg = "3des" -> TDESDec(c.k, b) [] c.alg = "blowfish" -> BFDec(c.k, b)
                [] c.alg = "toy" -> ToyDec(c.k, b)
CTr(c, b) == IF c.d = "enc" THEN CEnc(c, b) ELSE CDec(c, b)

---------------------------------------------------------------- 
\* Chaining.  A chain is [mode, n, dir, c, iv, cnt]; n is the chunk size of
\* CFB/OFB or the number of counter bytes of CTR.
ChunkSize(ch) == IF ch.mode \in {"cfb", "ofb"} THEN ch.n ELSE ch.c.bs
MkChain(mode, n, dir, c, iv) ==
  [mode |-> mode, n |-> n, dir |-> dir, c |-> c,
   iv |-> IF iv = <<>> THEN Zeros(c.bs) ELSE iv, cnt |-> 0]
\* increment, modulo 256^n, of the number held big-endian in the last n bytes
IncCtr(iv, n) ==
  LET L == Len(iv)
      r == FoldLeft(LAMBDA a, j : LET i == L + 1 - j
                                      t == a.s[i] + a.c
                                  IN  [s |-> [a.s EXCEPT ![i] = t % 256], c |-> t \div 256],
                    [s |-> iv, c |-> 1], Upto(n))
  IN  r.s
\* number of blocks a CTR-n stream may produce before its counter repeats
CtrLimit(n) == IF n <= 3 THEN 256^n ELSE 2^30 - 1 + 2^30
\* one block: [out, ch]
ChainStep(ch, b) ==
  CASE ch.mode = "ecb" -> [out |-> CTr(ch.c, b), ch |-> ch]
    [] ch.mode = "cbc" /\ ch.dir = "enc" ->
         LET o == CTr(ch.c, XorSeq(ch.iv, b)) IN [out |-> o, ch |-> [ch EXCEPT !.iv = o]]
    [] ch.mode = "cbc" /\ ch.dir = "dec" ->
         [out |-> XorSeq(CTr(ch.c, b), ch.iv), ch |-> [ch EXCEPT !.iv = b]]
    [] ch.mode = "cfb" ->
         LET o == XorSeq(b, CTr(ch.c, ch.iv))
         IN  [out |-> o, ch |-> [ch EXCEPT !.iv = Drop(ch.iv, ch.n) \o (IF ch.dir = "enc" THEN o ELSE b)]]
    [] ch.mode = "ofb" ->
         LET v == CTr(ch.c, ch.iv)
         IN  [out |-> XorSeq(b, v), ch |-> [ch EXCEPT !.iv = v]]
    [] ch.mode = "ctr" ->
         [out |-> XorSeq(b, CTr(ch.c, ch.iv)),
          ch |-> [ch EXCEPT !.iv = IncCtr(ch.iv, ch.n), !.cnt = ch.cnt + 1]]
\* nb blocks of data: [out, ch]
ChainRun(ch, data, nb) ==
  LET bs == ChunkSize(ch)
  IN  FoldLeft(LAMBDA a, i : LET r == ChainStep(a.ch, Slice(data, bs * (i - 1) + 1, bs))
                             IN  [out |-> a.out \o r.out, ch |-> r.ch],
               [out |-> <<>>, ch |-> ch], Upto(nb))
\* must the chain refuse to produce nb more blocks?  Producing block number
\* 256^n makes the counter wrap around: from there on it refuses.
CtrBounded(ch) == ch.mode = "ctr" /\ ch.n < 8
CtrMustRefuse(ch, nb) == CtrBounded(ch) /\ ch.cnt + nb > CtrLimit(ch.n)
CtrMayRefuse(ch, nb)  == CtrBounded(ch) /\ ch.cnt + nb >= CtrLimit(ch.n)

---------------------------------------------------------------- 
\* Padding of a partial block (used < bs bytes) to bs bytes, and its inverse
PadBlock(p, s, bs) ==
  LET k == bs - Len(s)
  IN  CASE p = "length" -> s \o Rep(k, k)
        [] p = "8000" -> s \o <<128>> \o Zeros(k - 1)
        [] p = "toy" -> s \o <<1>> \o Rep(2, k - 1)
\* [ok, n]: number of data bytes in the padded block b.  The block is well
\* padded iff it is the padding of some prefix of itself.
Strip(p, b) ==
  LET bs == Len(b)
      C == {u \in 0..(bs - 1) : PadBlock(p, Take(b, u), bs) = b}
  IN  IF C = {} THEN [ok |-> FALSE, n |-> 0] ELSE [ok |-> TRUE, n |-> CHOOSE u \in C : TRUE]

---------------------------------------------------------------- 
\* MACs built from block ciphers
CBCMac(ch, data) == ChainRun(ch, data, Len(data) \div ch.c.bs).ch.iv
Shl1(s) == Eager([i \in 1..Len(s) |-> ((2 * s[i]) % 256) + (IF i < Len(s) THEN s[i+1] \div 128 ELSE 0)])
Dbl(s) == LET t == Shl1(s) IN IF s[1] >= 128 THEN [t EXCEPT ![16] = XorB(t[16], 135)] ELSE t
CMAC(c, iv, m) ==
  LET k1 == Dbl(CEnc(c, Zeros(16)))
      k2 == Dbl(k1)
      nb == IF Len(m) = 0 THEN 0 ELSE (Len(m) - 1) \div 16
      ch == ChainRun(MkChain("cbc", 0, "enc", c, iv), m, nb).ch
      l == Drop(m, 16 * nb)
      b == IF Len(l) = 16 THEN XorSeq(l, k1) ELSE XorSeq(PadBlock("8000", l, 16), k2)
  IN  CEnc(c, XorSeq(ch.iv, b))
Fld(a, f, d) == IF f \in DOMAIN a THEN a[f] ELSE d

\* Digest sizes, in bytes
FixedSize == [sha1 |-> 20, sha224 |-> 28, sha256 |-> 32, sha384 |-> 48, sha512 |-> 64,
              ripemd160 |-> 20, md5 |-> 16, blake2b512 |-> 64, blake2s256 |-> 32, blake3_256 |-> 32,
              hmac_sha1 |-> 20, hmac_sha256 |-> 32, hmac_sha384 |-> 48, hmac_sha512 |-> 64,
              hmac_ripemd160 |-> 20, hmac_md5 |-> 16,
              mac_blake2b512 |-> 64, mac_blake2s256 |-> 32, mac_blake3_256 |-> 32,
              aes_cmac |-> 16, mac_aes |-> 16, mac_des |-> 8, mac_3des |-> 8, mac_des3 |-> 8,
              siphash |-> 8, siphash128 |-> 16]
DigestSize(alg, a) == IF alg \in DOMAIN FixedSize THEN FixedSize[alg]
                      ELSE IF alg \in {"mac_toy", "mac_toy3"} THEN a.bs
                      ELSE IF alg \in {"mac_obj", "mac_obj3"} THEN a.c[1].bs
                      ELSE a.sz \div 8
\* is the parameter combination legal?  otherwise the error
HashError(alg, a) ==
  LET kl == Len(Fld(a, "key", <<>>))
      il == Len(Fld(a, "iv", <<>>))
      sz == Fld(a, "sz", 0)
      badiv == "iv" \in DOMAIN a /\ il # DigestSize(alg, a)
      K == "E:Wrong_key_size"
  IN  CASE alg = "sha2" -> IF sz \in {224, 256, 384, 512} THEN "ok" ELSE K
        [] alg \in {"sha3", "keccak"} -> IF sz \in {224, 256, 384, 512} THEN "ok" ELSE K
        [] alg = "blake2b" -> IF sz \in 8..512 /\ sz % 8 = 0 THEN "ok" ELSE K
        [] alg = "blake2s" -> IF sz \in 8..256 /\ sz % 8 = 0 THEN "ok" ELSE K
        [] alg = "blake3" -> IF sz > 0 /\ sz % 8 = 0 THEN "ok" ELSE K
        [] alg = "mac_blake2b" -> IF sz \in 8..512 /\ sz % 8 = 0 /\ kl <= 64 THEN "ok" ELSE K
        [] alg = "mac_blake2b512" -> IF kl <= 64 THEN "ok" ELSE K
        [] alg = "mac_blake2s" -> IF sz \in 8..256 /\ sz % 8 = 0 /\ kl <= 32 THEN "ok" ELSE K
        [] alg = "mac_blake2s256" -> IF kl <= 32 THEN "ok" ELSE K
        [] alg = "mac_blake3" -> IF sz > 0 /\ sz % 8 = 0 /\ kl \in {0, 32} THEN "ok" ELSE K
        [] alg = "mac_blake3_256" -> IF kl \in {0, 32} THEN "ok" ELSE K
        [] alg \in {"siphash", "siphash128"} -> IF kl = 16 THEN "ok" ELSE K
        [] alg \in {"aes_cmac", "mac_aes"} -> IF ~LegalKey("aes", kl) THEN K
                                 ELSE IF badiv THEN "E:Wrong_IV_size" ELSE "ok"
        [] alg = "mac_des" -> IF ~LegalKey("des", kl) THEN K ELSE IF badiv THEN "E:Wrong_IV_size" ELSE "ok"
        [] alg \in {"mac_3des", "mac_des3"} -> IF ~LegalKey("3des", kl) THEN K ELSE IF badiv THEN "E:Wrong_IV_size" ELSE "ok"
        [] alg \in {"mac_obj", "mac_obj3"} ->
             IF \E i \in 2..Len(a.c) : a.c[i].bs # a.c[1].bs THEN "E:Incompatible_block_size"
             ELSE IF badiv THEN "E:Wrong_IV_size" ELSE "ok"
        [] alg = "mac_toy" -> IF badiv THEN "E:Wrong_IV_size" ELSE "ok"
        [] alg = "mac_toy3" -> IF Fld(a, "bs2", a.bs) # a.bs \/ Fld(a, "bs3", a.bs) # Fld(a, "bs2", a.bs)
                               THEN "E:Incompatible_block_size"
                               ELSE IF badiv THEN "E:Wrong_IV_size" ELSE "ok"
        [] OTHER -> "ok"

\* CBC-MAC with optional padding
CbcMacAll(c, a, m) ==
  LET ch == MkChain("cbc", 0, "enc", c, Fld(a, "iv", <<>>))
      pad == Fld(a, "pad", "none")
      r == Len(m) % c.bs
  IN  IF pad = "none" THEN IF r # 0 THEN [s |-> "E:Wrong_data_length", b |-> <<>>]
                           ELSE [s |-> "ok", b |-> CBCMac(ch, m)]
      ELSE [s |-> "ok", b |-> CBCMac(ch, Take(m, Len(m) - r) \o PadBlock(pad, Drop(m, Len(m) - r), c.bs))]
Ok(b) == [s |-> "ok", b |-> b]
Final3(r, c2, c3) == IF r.s = "ok" THEN Ok(CTr(c3, CTr(c2, r.b))) ELSE r
\* the digest of message m by the object (alg, a): [s, b]
Digest(alg, a, m) ==
  LET sz == Fld(a, "sz", 0) \div 8
      key == Fld(a, "key", <<>>)
      bs == Fld(a, "bs", 0)
      sub(i) == Slice(key, 8 * i - 7, 8)
  IN
  CASE alg \in {"sha1", "sha224", "sha256", "sha384", "sha512", "md5", "ripemd160"} -> Ok(HashFn(alg, m))
    [] alg = "sha2" -> Ok(CASE sz = 28 -> SHA224(m) [] sz = 32 -> SHA256(m) [] sz = 48 -> SHA384(m) [] sz = 64 -> SHA512(m))
    [] alg = "sha3" -> Ok(SHA3(8 * sz, m))
    [] alg = "keccak" -> Ok(KECCAK(8 * sz, m))
    [] alg = "blake2b" -> Ok(BLAKE2B(sz, <<>>, m))
    [] alg = "blake2b512" -> Ok(BLAKE2B(64, <<>>, m))
    [] alg = "blake2s" -> Ok(BLAKE2S(sz, <<>>, m))
    [] alg = "blake2s256" -> Ok(BLAKE2S(32, <<>>, m))
    [] alg = "blake3" -> Ok(BLAKE3(sz, <<>>, m))
    [] alg = "blake3_256" -> Ok(BLAKE3(32, <<>>, m))
    [] alg = "hmac_sha1" -> Ok(HMAC("sha1", key, m))
    [] alg = "hmac_sha256" -> Ok(HMAC("sha256", key, m))
    [] alg = "hmac_sha384" -> Ok(HMAC("sha384", key, m))
    [] alg = "hmac_sha512" -> Ok(HMAC("sha512", key, m))
    [] alg = "hmac_ripemd160" -> Ok(HMAC("ripemd160", key, m))
    [] alg = "hmac_md5" -> Ok(HMAC("md5", key, m))
    [] alg = "mac_blake2b" -> Ok(BLAKE2B(sz, key, m))
    [] alg = "mac_blake2b512" -> Ok(BLAKE2B(64, key, m))
    [] alg = "mac_blake2s" -> Ok(BLAKE2S(sz, key, m))
    [] alg = "mac_blake2s256" -> Ok(BLAKE2S(32, key, m))
    [] alg = "mac_blake3" -> Ok(BLAKE3(sz, key, m))
    [] alg = "mac_blake3_256" -> Ok(BLAKE3(32, key, m))
    [] alg = "siphash" -> Ok(SIPHASH(8, key, m))
    [] alg = "siphash128" -> Ok(SIPHASH(16, key, m))
    [] alg = "aes_cmac" -> Ok(CMAC(MkCipher("aes", "enc", key, 16), Fld(a, "iv", <<>>), m))
    [] alg = "mac_aes" -> CbcMacAll(MkCipher("aes", "enc", key, 16), a, m)
    [] alg = "mac_des" -> CbcMacAll(MkCipher("des", "enc", key, 8), a, m)
    [] alg = "mac_3des" -> CbcMacAll(MkCipher("3des", "enc", key, 8), a, m)
    [] alg = "mac_des3" -> Final3(CbcMacAll(MkCipher("des", "enc", sub(1), 8), a, m),
                                  MkCipher("des", "dec", sub(2), 8),
                                  MkCipher("des", "enc", IF Len(key) = 24 THEN sub(3) ELSE sub(1), 8))
    [] alg = "mac_obj" -> CbcMacAll(a.c[1], a, m)
    [] alg = "mac_obj3" -> Final3(CbcMacAll(a.c[1], a, m), a.c[2], a.c[3])
    [] alg = "mac_toy" -> CbcMacAll(MkCipher("toy", "enc", key, bs), a, m)
    [] alg = "mac_toy3" -> Final3(CbcMacAll(MkCipher("toy", "enc", key, bs), a, m),
                                  MkCipher("toy", "dec", key, bs), MkCipher("toy", "enc", key, bs))
MACAll(alg, a, m) == Digest(alg, a, m).b

---------------------------------------------------------------- 
\* AES-GCM as an incremental object: [c, tab, ctr, e0, acc, hlen, clen]
\* (SP 800-38D; acc is the GHASH accumulator)
Len64(n) == Zeros(3) \o <<(n \div 2^29) % 256>> \o UnBE(ShL(n, 3))       \* 8n on 8 bytes
GcmInit(key, iv, hdr) ==
  LET c == MkCipher("aes", "enc", key, 16)
      tab == GHTable(CEnc(c, Zeros(16)))
      z == <<0, 0, 0, 0>>
      j0 == IF Len(iv) = 12 THEN iv \o <<0, 0, 0, 1>>
            ELSE Un4(GHASHx(tab, z, Pad16(iv) \o Zeros(8) \o Len64(Len(iv))))
  IN  [c |-> c, tab |-> tab, ctr |-> j0, e0 |-> CEnc(c, j0),
       acc |-> GHASHx(tab, z, Pad16(hdr)), hlen |-> Len(hdr), clen |-> 0]
\* process one block of at most 16 bytes: [out, g]
GcmStep(g, dir, b) ==
  LET ctr == IncCtr(g.ctr, 4)
      o == XorSeq(b, CEnc(g.c, ctr))
      x == IF dir = "enc" THEN o ELSE b
  IN  [out |-> o, g |-> [g EXCEPT !.ctr = ctr, !.acc = GMulH(g.tab, Xor4(g.acc, W4(Pad16(x), 1))),
                                  !.clen = g.clen + Len(b)]]
GcmRun(g, dir, data) ==
  LET nb == (Len(data) + 15) \div 16
  IN  FoldLeft(LAMBDA a, i : LET r == GcmStep(a.g, dir, SubSeq(data, 16 * i - 15, Min2(16 * i, Len(data))))
                             IN  [out |-> a.out \o r.out, g |-> r.g],
               [out |-> <<>>, g |-> g], Upto(nb))
GcmTag(g) == XorSeq(Un4(GMulH(g.tab, Xor4(g.acc, W4(Len64(g.hlen) \o Len64(g.clen), 1)))), g.e0)

\* ChaCha20-Poly1305 (RFC 8439): stream object plus the text authenticated so far
Zeros8 == Zeros(8)
ChaObj(key, iv, ctr8) == [w |-> ChaInit(key, iv, ctr8), iv12 |-> Len(iv) = 12, ks |-> <<>>]
CpInit(key, iv, hdr) ==
  LET r == ChaTake(ChaObj(key, iv, Zeros8), 64)
  IN  [pk |-> Take(r[1], 32), cha |-> r[2], hdr |-> hdr, ct |-> <<>>]
CpRun(g, dir, data) ==
  LET r == ChaTake(g.cha, Len(data))
      o == XorSeq(data, r[1])
  IN  [out |-> o, g |-> [g EXCEPT !.cha = r[2], !.ct = g.ct \o (IF dir = "enc" THEN o ELSE data)]]
LE8(n) == UnLE(n) \o Zeros(4)
CpTag(g) == POLY1305(g.pk, Pad16(g.hdr) \o Pad16(g.ct) \o LE8(Len(g.hdr)) \o LE8(Len(g.ct)))

AEADInit(alg, key, iv, hdr) == IF alg = "gcm" THEN GcmInit(key, iv, hdr) ELSE CpInit(key, iv, hdr)
AEADAll(alg, dir, key, iv, hdr, data) ==
  IF alg = "gcm" THEN LET r == GcmRun(GcmInit(key, iv, hdr), dir, data) IN [out |-> r.out, tag |-> GcmTag(r.g)]
  ELSE LET r == CpRun(CpInit(key, iv, hdr), dir, data) IN [out |-> r.out, tag |-> CpTag(r.g)]
=============================================================================
