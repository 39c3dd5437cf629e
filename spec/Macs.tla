-------------------------------- MODULE Macs --------------------------------
(* SipHash-2-4, Poly1305, GHASH, HMAC, CBC-MAC, CMAC. *)
EXTENDS Words, SequencesExt, Hashes, BigNat

\* ---------------------------------------------------------------- SipHash
SipRound(v) ==
  LET a0 == Add64(v[1], v[2])   b0 == Xor64(RotL64(v[2], 13), a0)   a1 == RotL64(a0, 32)
      c0 == Add64(v[3], v[4])   d0 == Xor64(RotL64(v[4], 16), c0)
      a2 == Add64(a1, d0)       d1 == Xor64(RotL64(d0, 21), a2)
      c1 == Add64(c0, b0)       b1 == Xor64(RotL64(b0, 17), c1)     c2 == RotL64(c1, 32)
  IN  <<a2, b1, c2, d1>>
SipRounds(v, n) == FoldLeft(LAMBDA u, i : SipRound(u), v, Upto(n))
SipAbsorb(v, m) == LET w == SipRounds([v EXCEPT ![4] = Xor64(v[4], m)], 2)
                   IN  [w EXCEPT ![1] = Xor64(w[1], m)]
SIPHASH(outlen, key, msg) ==
  LET k0 == LE64(key, 1)  k1 == LE64(key, 9)
      v0 == <<Xor64(k0, <<1936682341, 1886610805>>), Xor64(k1, <<1685025377, 1852075885>>),
              Xor64(k0, <<1819895653, 1852142177>>), Xor64(k1, <<1952801890, 2037671283>>)>>
      v1 == IF outlen = 16 THEN [v0 EXCEPT ![2] = Xor64(v0[2], <<0, 238>>)] ELSE v0
      nb == Len(msg) \div 8
      v2 == FoldLeft(LAMBDA v, i : SipAbsorb(v, LE64(msg, 8 * i - 7)), v1, Upto(nb))
      l == Drop(msg, 8 * nb)
      v3 == SipAbsorb(v2, LE64(PadTo(l, 7) \o <<Len(msg) % 256>>, 1))
      fin(v, c) == SipRounds([v EXCEPT ![3] = Xor64(v[3], <<0, c>>)], 4)
      out(v) == UnLE64(Xor64(Xor64(v[1], v[2]), Xor64(v[3], v[4])))
      f1 == fin(v3, IF outlen = 16 THEN 238 ELSE 255)
  IN  IF outlen = 8 THEN out(f1)
      ELSE out(f1) \o out(SipRounds([f1 EXCEPT ![2] = Xor64(f1[2], <<0, 221>>)], 4))

\* ---------------------------------------------------------------- Poly1305
P1305 == <<3>> \o Rep(255, 15) \o <<251>>            \* 2^130 - 5
PolyClamp(r) == Eager([i \in 1..16 |->
    IF i \in {4, 8, 12, 16} THEN r[i] % 16 ELSE IF i \in {5, 9, 13} THEN 4 * (r[i] \div 4) ELSE r[i]])
POLY1305(key, msg) ==       \* key: 32 bytes
  LET r == BFromLE(PolyClamp(Take(key, 16)))
      s == BFromLE(Slice(key, 17, 16))
      nb == (Len(msg) + 15) \div 16
      acc == FoldLeft(LAMBDA a, i :
               BMod(BMul(BAdd(a, BFromLE(Append(SubSeq(msg, 16 * i - 15, Min2(16 * i, Len(msg))), 1))), r), P1305),
               <<>>, Upto(nb))
      t == BAdd(acc, s)
  IN  BToLE(IF Len(t) > 16 THEN SubSeq(t, Len(t) - 15, Len(t)) ELSE t, 16)

\* ---------------------------------------------------------------- GHASH
\* 128-bit blocks as 4 words; bit 0 of GCM is the most significant bit of word 1
W4(s, i) == <<BE(s, i), BE(s, i + 4), BE(s, i + 8), BE(s, i + 12)>>
Un4(w) == UnBE(w[1]) \o UnBE(w[2]) \o UnBE(w[3]) \o UnBE(w[4])
Xor4(a, b) == <<Xor(a[1], b[1]), Xor(a[2], b[2]), Xor(a[3], b[3]), Xor(a[4], b[4])>>
MulX(v) == LET c == And(v[4], 1)
           IN  <<Xor(ShR(v[1], 1), IF c = 1 THEN -520093696 ELSE 0),       \* 0xE1000000
                 Or(ShR(v[2], 1), ShL(v[1], 31)), Or(ShR(v[3], 1), ShL(v[2], 31)),
                 Or(ShR(v[4], 1), ShL(v[3], 31))>>
\* H * x^i for i = 0..127
GHTable(h) == FoldLeft(LAMBDA t, i : Append(t, MulX(t[i])), <<W4(h, 1)>>, Upto(127))
\* product of x (4 words) with H, given the table of H
GMulH(tab, x) ==
  FoldLeft(LAMBDA z, i : IF ShR(x[1 + (i - 1) \div 32], 31 - ((i - 1) % 32)) % 2 # 0
                         THEN Xor4(z, tab[i]) ELSE z, <<0, 0, 0, 0>>, Upto(128))
\* data: whole blocks
GHASHx(tab, acc, data) ==
  FoldLeft(LAMBDA a, p : GMulH(tab, Xor4(a, W4(data, p))), acc, BlockIdx(Len(data), 16))
Pad16(s) == s \o Zeros((16 - (Len(s) % 16)) % 16)

\* ---------------------------------------------------------------- HMAC
HashFn(alg, m) == CASE alg = "sha1" -> SHA1(m) [] alg = "sha224" -> SHA224(m) [] alg = "sha256" -> SHA256(m)
                    [] alg = "sha384" -> SHA384(m) [] alg = "sha512" -> SHA512(m)
                    [] alg = "ripemd160" -> RIPEMD160(m) [] alg = "md5" -> MD5(m)
HashBlk(alg) == IF alg \in {"sha384", "sha512"} THEN 128 ELSE 64
HMAC(alg, key, m) ==
  LET B == HashBlk(alg)
      k == PadTo(IF Len(key) > B THEN HashFn(alg, key) ELSE key, B)
  IN  HashFn(alg, XorSeq(k, Rep(92, B)) \o HashFn(alg, XorSeq(k, Rep(54, B)) \o m))
=============================================================================
