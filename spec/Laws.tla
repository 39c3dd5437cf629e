------------------------------- MODULE Laws -------------------------------
(***************************************************************************)
(* Laws that the functions of the specification must obey for the          *)
(* properties to hold of it: inverses, uniqueness of padding, rejection of *)
(* altered messages, CRT = plain exponentiation, homomorphism, agreement   *)
(* of the table-driven algorithms with their definitions ...  Each state   *)
(* is one case; Part selects the law.                                      *)
(***************************************************************************)
EXTENDS Cryptokit
CONSTANT Part
VARIABLE cs
LKey(n, a) == Eager([i \in 1..n |-> (37 * i * a + 11 + a) % 256])
LBlk(n, a) == CASE a = 0 -> Zeros(n) [] a = 1 -> Rep(255, n) [] OTHER -> Eager([i \in 1..n |-> (a * i * i + 3 * a) % 256])
Cpl(s) == Eager([i \in 1..Len(s) |-> 255 - s[i]])
FlipBit(s, k) == [s EXCEPT ![1 + (k \div 8)] = XorB(s[1 + (k \div 8)], 2^(k % 8))]

\* ---------------------------------------------------------------- block ciphers
CipherCases == {<<"inv", al, n, a, b>> : al \in {"aes", "des", "3des", "blowfish"}, n \in {4, 5, 8, 16, 24, 32, 55, 56}, a \in 1..3, b \in 0..4}
               \cup {<<"parity", a, k>> : a \in 1..4, k \in 0..7} \cup {<<"compl", a, b>> : a \in 1..4, b \in 0..4}
               \cup {<<"ede", a, b>> : a \in 1..3, b \in 0..3} \cup {<<"cyclic", n, b>> : n \in 4..28, b \in {2}}
               \cup {<<"toy", n, a, b>> : n \in 1..17, a \in 1..3, b \in 0..4}
CipherLaw(c) ==
  CASE c[1] = "inv" -> LegalKey(c[2], c[3]) =>
         LET k == LKey(c[3], c[4])
             e == MkCipher(c[2], "enc", k, 0)
             d == MkCipher(c[2], "dec", k, 0)
             b == LBlk(e.bs, c[5])
         IN  CTr(d, CTr(e, b)) = b /\ CTr(e, CTr(d, b)) = b /\ Len(CTr(e, b)) = e.bs
    [] c[1] = "parity" -> LET k == LKey(8, c[2]) IN DESKey([k EXCEPT ![c[3] + 1] = XorB(k[c[3] + 1], 1)]) = DESKey(k)
    [] c[1] = "compl" -> DESEnc(DESKey(Cpl(LKey(8, c[2]))), Cpl(LBlk(8, c[3]))) = Cpl(DESEnc(DESKey(LKey(8, c[2])), LBlk(8, c[3])))
    [] c[1] = "ede" -> LET k == LKey(8, c[2])  k2 == LKey(16, c[2])  b == LBlk(8, c[3])
                       IN  /\ TDESEnc(TDESKey(k \o k), b) = DESEnc(DESKey(k), b)
                           /\ TDESEnc(TDESKey(k2), b) = TDESEnc(TDESKey(k2 \o Take(k2, 8)), b)
    [] c[1] = "cyclic" -> LET k == LKey(c[2], 1) IN BFEnc(BFKey(k), LBlk(8, c[3])) = BFEnc(BFKey(k \o k), LBlk(8, c[3]))
    [] c[1] = "toy" -> LET k == LKey(5, c[3])  b == LBlk(c[2], c[4]) IN ToyDec(k, ToyEnc(k, b)) = b /\ ToyEnc(k, ToyDec(k, b)) = b

\* ---------------------------------------------------------------- modes
ModeCases == {<<"inv", m, n, bs, nb, a>> : m \in {"ecb", "cbc", "cfb", "ofb", "ctr"}, n \in 1..4, bs \in 1..4, nb \in 0..4, a \in 2..3}
             \cup {<<"fresh", bs, a>> : bs \in 2..4, a \in 0..3}
             \cup {<<"inc", n, a>> : n \in 1..4, a \in 0..255}
ModeLaw(c) ==
  CASE c[1] = "inv" -> c[3] <= c[4] =>
         LET k == LKey(3, c[6])
             e == MkCipher("toy", "enc", k, c[4])
             d == IF c[2] \in {"ecb", "cbc"} THEN MkCipher("toy", "dec", k, c[4]) ELSE e
             ce == MkChain(c[2], c[3], "enc", e, LBlk(c[4], 5))
             cd == MkChain(c[2], c[3], "dec", d, LBlk(c[4], 5))
             m == LBlk(ChunkSize(ce) * c[5], c[6])
             x == ChainRun(ce, m, c[5])
         IN  /\ Len(x.out) = Len(m) /\ ChainRun(cd, x.out, c[5]).out = m
             /\ \A j \in 0..c[5] : LET y == ChainRun(ce, m, j) IN x.out = y.out \o ChainRun(y.ch, Drop(m, ChunkSize(ce) * j), c[5] - j).out
    [] c[1] = "fresh" ->  \* a one-byte counter takes all its values before repeating, the rest of the block stays
         LET iv == LBlk(c[2], c[3])
             ctrs == FoldLeft(LAMBDA s, i : Append(s, IncCtr(s[i], 1)), <<iv>>, Upto(256))
         IN  /\ Cardinality({ctrs[i] : i \in 1..256}) = 256 /\ ctrs[257] = iv
             /\ \A i \in 1..257 : Take(ctrs[i], c[2] - 1) = Take(iv, c[2] - 1)
    [] c[1] = "inc" -> \* counter value as a number
         LET iv == <<9>> \o Rep(255, c[2] - 1) \o <<c[3]>>
             nx == IncCtr(iv, c[2])
         IN  nx = IF c[3] < 255 THEN <<9>> \o Rep(255, c[2] - 1) \o <<c[3] + 1>> ELSE <<9>> \o Zeros(c[2])

\* ---------------------------------------------------------------- padding
PadAl == {0, 1, 2, 3, 4, 128, 129, 255}
PadCases == {<<p, b>> : p \in {"length", "8000", "toy"}, b \in UNION {[1..n -> PadAl] : n \in 1..4}}
PadLaw(c) ==
  LET b == Eager(c[2])
      C == {u \in 0..(Len(b) - 1) : PadBlock(c[1], Take(b, u), Len(b)) = b}
      s == Strip(c[1], b)
  IN  /\ Cardinality(C) <= 1                                          \* unambiguous
      /\ s.ok <=> C # {}
      /\ s.ok => PadBlock(c[1], Take(b, s.n), Len(b)) = b
      /\ \A u \in 0..(Len(b) - 1) : LET q == PadBlock(c[1], Take(b, u), Len(b)) IN Len(q) = Len(b) /\ Strip(c[1], q) = [ok |-> TRUE, n |-> u]
      /\ c[1] = "length" => (s.ok <=> b[Len(b)] \in 1..Len(b) /\ \A i \in 1..Len(b) : i > Len(b) - b[Len(b)] => b[i] = b[Len(b)])
      /\ c[1] = "8000" => (s.ok <=> \E i \in 1..Len(b) : b[i] = 128 /\ \A j \in (i + 1)..Len(b) : b[j] = 0)

\* ---------------------------------------------------------------- authenticated encryption
TamperCases == {<<al, n, w, k>> : al \in {"gcm", "chapoly"}, n \in {0, 5, 17}, w \in {"ct", "tag", "hdr", "iv", "key"}, k \in 0..255}
               \cup {<<al, n, w, k>> : al \in {"gcm", "chapoly"}, n \in {5, 17, 32}, w \in {"cut", "ext", "move"}, k \in 0..5}
TamperLaw(c) ==
  LET key == LKey(32, 3)  iv == LKey(12, 4)  hdr == LKey(7, 5)
      m == LBlk(c[2], 6)
      s == AEADAll(c[1], "enc", key, iv, hdr, m)
      all == s.out \o s.tag
      Acc(kk, vv, hh, x) == LET ct == Take(x, Len(x) - 16)  r == AEADAll(c[1], "dec", kk, vv, hh, ct) IN r.tag = Drop(x, Len(x) - 16)
      Fits(x) == c[4] < 8 * Len(x)
  IN  /\ c[4] = 0 => AEADAll(c[1], "dec", key, iv, hdr, s.out) = [out |-> m, tag |-> s.tag] /\ Acc(key, iv, hdr, all)
      /\ CASE c[3] = "ct" -> Fits(s.out) => ~Acc(key, iv, hdr, FlipBit(all, c[4]))
           [] c[3] = "tag" -> Fits(s.tag) => ~Acc(key, iv, hdr, FlipBit(all, c[4] + 8 * Len(s.out)))
           [] c[3] = "hdr" -> Fits(hdr) => ~Acc(key, iv, FlipBit(hdr, c[4]), all)
           [] c[3] = "iv" -> Fits(iv) => ~Acc(key, FlipBit(iv, c[4]), hdr, all)
           [] c[3] = "key" -> Fits(key) => ~Acc(FlipBit(key, c[4]), iv, hdr, all)
           [] c[3] = "cut" -> Len(all) - c[4] - 1 >= 16 => ~Acc(key, iv, hdr, Take(all, Len(all) - c[4] - 1)) /\ ~Acc(key, iv, hdr, Drop(all, c[4] + 1))
           [] c[3] = "ext" -> ~Acc(key, iv, hdr, all \o Zeros(c[4] + 1)) /\ ~Acc(key, iv, hdr, Zeros(c[4] + 1) \o all)
           [] c[3] = "move" -> \* a byte moved between header and text
                ~Acc(key, iv, hdr \o <<all[1]>>, Drop(all, 1)) /\ ~Acc(key, iv, Take(hdr, 6), <<hdr[7]>> \o all)

\* ---------------------------------------------------------------- codecs
CodecAl == {65, 66, 47, 43, 57, 122, 61, 10, 32, 33}
CodecCases == {<<"rt", v, s>> : v \in {"multiline", "compact", "compact_pad"}, s \in UNION {[1..n -> {0, 1, 63, 128, 255}] : n \in 0..4}}
              \cup {<<"long", v, n>> : v \in {"multiline", "compact", "compact_pad"}, n \in 50..115}
              \cup {<<"dec", s>> : s \in UNION {[1..n -> CodecAl] : n \in 0..4}}
              \cup {<<"hex", s>> : s \in UNION {[1..n -> {0, 10, 159, 255}] : n \in 0..3}}
              \cup {<<"hexd", s>> : s \in UNION {[1..n -> {48, 57, 65, 70, 71, 97, 103, 32, 10}] : n \in 0..3}}
B64All(v, s) == LET r == B64EncPut([v |-> v, pend |-> <<>>, col |-> 0], s) IN r.out \o B64EncFinish(r.o)
B64Back(t) == LET r == B64DecPut(<<>>, FALSE, t)  f == B64DecFinish(r.pend) IN [ok |-> ~r.bad /\ f.ok, out |-> r.out \o f.out]
RtOk(v, s) == LET t == B64All(v, s)
              IN  /\ B64Back(t) = [ok |-> TRUE, out |-> s]
                  /\ \A k \in {0, Len(t) \div 2, Len(t)}, w \in {9, 10, 13, 32} : B64Back(Take(t, k) \o <<w>> \o Drop(t, k)) = [ok |-> TRUE, out |-> s]
                  /\ v = "compact_pad" => Len(t) = 4 * ((Len(s) + 2) \div 3)
                  /\ v = "compact" => Len(t) = (8 * Len(s) + 5) \div 6
                  /\ v = "multiline" => \A i \in 1..Len(t) : i > 76 => \E j \in (i - 76)..i : t[j] = 10   \* lines of at most 76
CodecLaw(c) ==
  CASE c[1] = "rt" -> RtOk(c[2], Eager(c[3]))
    [] c[1] = "long" -> RtOk(c[2], LBlk(c[3], 7))
    [] c[1] = "dec" -> \* accepted exactly when: alphabet, blanks, '=' only at the end, not one symbol left over
         LET s == Eager(c[2])
             sig == SelectSeq(s, LAMBDA x : ~IsBlank(x))
             dat == SelectSeq(sig, LAMBDA x : x # 61)
             good == /\ \A i \in 1..Len(sig) : IsB64(sig[i]) \/ sig[i] = 61
                     /\ \A i, j \in 1..Len(sig) : i < j /\ sig[i] = 61 => sig[j] = 61
                     /\ Len(dat) % 4 # 1
             r == B64Back(s)
         IN  r.ok <=> good
    [] c[1] = "hex" -> LET s == Eager(c[2])  r == HexDecPut(<<>>, HexEnc(s)) IN ~r.bad /\ r.pend = <<>> /\ r.out = s
    [] c[1] = "hexd" -> LET s == Eager(c[2])  r == HexDecPut(<<>>, s)  sig == SelectSeq(s, LAMBDA x : ~IsBlank(x))
                        IN  /\ r.bad <=> \E i \in 1..Len(sig) : ~IsHex(sig[i])
                            /\ ~r.bad => Len(r.out) = Len(sig) \div 2 /\ (r.pend # <<>> <=> Len(sig) % 2 = 1)

\* ---------------------------------------------------------------- DEFLATE
\* a bit writer and the fixed code, from RFC 1951 3.2.6
LBits(v, n) == [i \in 1..n |-> (v \div 2^(i - 1)) % 2]           \* least significant first
HBits(v, n) == [i \in 1..n |-> (v \div 2^(n - i)) % 2]           \* Huffman codes: most significant first
FixCode(s) == IF s < 144 THEN HBits(48 + s, 8) ELSE IF s < 256 THEN HBits(400 + s - 144, 9)
              ELSE IF s < 280 THEN HBits(s - 256, 7) ELSE HBits(192 + s - 280, 8)
PackB(bits) == Eager([i \in 1..((Len(bits) + 7) \div 8) |->
                 FoldLeft(LAMBDA a, j : a + (IF 8 * i - 8 + j <= Len(bits) THEN bits[8 * i - 8 + j] ELSE 0) * 2^(j - 1), 0, Upto(8))])
LenSym(len) == CHOOSE i \in 1..29 : LBase[i] <= len /\ len - LBase[i] < 2^LExt[i] /\ (len = 258 <=> i = 29)
DstSym(d) == CHOOSE i \in 1..30 : DBase[i] <= d /\ d - DBase[i] < 2^DExt[i]
Match(len, d) == LET i == LenSym(len)  k == DstSym(d)
                 IN  FixCode(256 + i) \o LBits(len - LBase[i], LExt[i]) \o HBits(k - 1, 5) \o LBits(d - DBase[k], DExt[k])
BHead(fin, ty) == LBits(fin, 1) \o LBits(ty, 2)
Lits(s) == FoldLeft(LAMBDA a, x : a \o FixCode(x), <<>>, s)
InfCases == {<<"lit", x>> : x \in 0..255} \cup {<<"len", l>> : l \in 3..258} \cup {<<"dist", d>> : d \in 1..40}
            \cup {<<"stored", n>> : n \in 0..20} \cup {<<"cut", n>> : n \in 0..12} \cup {<<"adler", k>> : k \in 0..31} \cup {<<"two", n>> : n \in 0..10}
            \cup {<<"far", d>> : d \in 1..12} \cup {<<"hdr", a, b>> : a \in {8, 24, 88, 104, 120, 136, 121, 119}, b \in 0..255}
StoredBlk(fin, s) == PackB(BHead(fin, 0)) \o <<Len(s) % 256, Len(s) \div 256, 255 - (Len(s) % 256), 255 - (Len(s) \div 256)>> \o s
Z1(s) == <<120, 1>> \o StoredBlk(1, s) \o Adler(s)
Done(r, o, z) == r.st = "done" /\ r.out = o /\ r.used = z
InfLaw(c) ==
  CASE c[1] = "lit" -> LET z == PackB(BHead(1, 1) \o Lits(<<c[2], 7, c[2]>>) \o FixCode(256)) IN Done(InflateRaw(z), <<c[2], 7, c[2]>>, Len(z))
    [] c[1] = "len" -> LET z == PackB(BHead(1, 1) \o Lits(<<1, 2, 3>>) \o Match(c[2], 3) \o FixCode(256))
                       IN  Done(InflateRaw(z), Eager([i \in 1..(c[2] + 3) |-> 1 + ((i - 1) % 3)]), Len(z))
    [] c[1] = "dist" -> LET s == LBlk(40, 3)  z == PackB(BHead(1, 1) \o Lits(s) \o Match(4, c[2]) \o FixCode(256))
                        IN  Done(InflateRaw(z), s \o Eager([i \in 1..4 |-> s[41 - c[2] + ((i - 1) % c[2])]]), Len(z))
    [] c[1] = "far" -> \* a distance reaching before the start is malformed
         LET z == PackB(BHead(1, 1) \o Lits(LBlk(c[2] - 1, 3)) \o Match(3, c[2]) \o FixCode(256)) IN InflateRaw(z).st = "bad"
    [] c[1] = "stored" -> LET s == LBlk(c[2], 5)  z == StoredBlk(1, s) IN Done(InflateRaw(z), s, Len(z)) /\ Done(InflateRaw(z \o <<1, 2>>), s, Len(z))
    [] c[1] = "two" -> LET s == LBlk(c[2], 5)  z == StoredBlk(0, s) \o PackB(BHead(1, 1) \o Lits(s) \o FixCode(256)) IN Done(InflateRaw(z), s \o s, Len(z))
    [] c[1] = "cut" -> LET z == PackB(BHead(1, 1) \o Lits(LBlk(12, 3)) \o FixCode(256))
                       IN  \A k \in 0..(Len(z) - 1) : LET r == InflateRaw(Take(z, k)) IN r.st = "more" /\ r.out = Take(LBlk(12, 3), Len(r.out))
    [] c[1] = "adler" -> LET s == LBlk(9, 3)  z == Z1(s)
                         IN  Done(InflateZlib(z), s, Len(z)) /\ InflateZlib(FlipBit(z, 8 * (Len(z) - 4) + c[2])).st = "bad"
    [] c[1] = "hdr" -> LET z == <<c[2], c[3]>> \o Drop(Z1(<<5>>), 2)
                       IN  InflateZlib(z).st = IF c[2] % 16 = 8 /\ c[2] \div 16 <= 7 /\ (256 * c[2] + c[3]) % 31 = 0 /\ (c[3] \div 32) % 2 = 0 THEN "done" ELSE "bad"

\* ---------------------------------------------------------------- public key
Primes == {5, 7, 11, 13, 17, 19, 23, 29, 31}
BN(n) == NatToBN(n)
RECURSIVE GcdI(_, _), PowI(_, _, _)
GcdI(a, b) == IF b = 0 THEN a ELSE GcdI(b, a % b)
PowI(a, e, m) == IF e = 0 THEN 1 % m ELSE (a * PowI(a, e - 1, m)) % m
PubCases == {<<"rsa", p, q>> : p \in Primes, q \in Primes} \cup {<<"pai", p, q>> : p \in {5, 7, 11, 13}, q \in {5, 7, 11, 13}}
            \cup {<<"dh", p>> : p \in Primes} \cup {<<"pow", a, m>> : a \in 0..24, m \in 1..24} \cup {<<"prime", n>> : n \in 0..700}
            \cup {<<"derive", n>> : n \in 0..100}
PubLaw(c) ==
  CASE c[1] = "rsa" -> c[2] # c[3] =>
         LET p == c[2]  q == c[3]  n == p * q
             lam == ((p - 1) * (q - 1)) \div GcdI(p - 1, q - 1)
             e == CHOOSE x \in 3..lam + 3 : GcdI(x, lam) = 1 /\ \A y \in 3..(x - 1) : GcdI(y, lam) # 1
             d == CHOOSE x \in 1..lam : (x * e) % lam = 1 % lam
             dp == d % (p - 1)  dq == d % (q - 1)
             qi == CHOOSE x \in 1..(p - 1) : (x * q) % p = 1
         IN  \A m \in 0..(n - 1) :
               LET x == BPowMod(BN(m), BN(e), BN(n))
                   m1 == BPowMod(BMod(x, BN(p)), BN(dp), BN(p))
                   m2 == BPowMod(BMod(x, BN(q)), BN(dq), BN(q))
                   h == BMod(BMul(BSub(BAdd(m1, BN(p * q)), m2), BN(qi)), BN(p))    \* m1 - m2 may be negative, also when p < q
               IN  BEq(BPowMod(x, BN(d), BN(n)), BN(m)) /\ BEq(BAdd(m2, BMul(h, BN(q))), BN(m))
    [] c[1] = "pai" -> (c[2] # c[3] /\ GcdI(c[2] * c[3], (c[2] - 1) * (c[3] - 1)) = 1) =>
         LET n == c[2] * c[3]  n2 == n * n
             lam == ((c[2] - 1) * (c[3] - 1)) \div GcdI(c[2] - 1, c[3] - 1)
             mu == CHOOSE x \in 1..(n - 1) : (x * lam) % n = 1
             Enc(m, r) == BMod(BMul(BPowMod(BN(n + 1), BN(m), BN(n2)), BPowMod(BN(r), BN(n), BN(n2))), BN(n2))
             Dec(x) == PaiDec(BN(n), BN(n2), BN(lam), BN(mu), x)
             RS == {r \in 1..(n - 1) : GcdI(r, n) = 1}
         IN  /\ \A m \in 0..(n - 1), r \in {r \in RS : r < 12 \/ r > n - 5} : BEq(Dec(Enc(m, r)), BN(m))
             /\ \A m \in {0, 1, n \div 2, n - 1}, k \in 0..(n - 1) : BEq(Dec(BMod(BMul(Enc(m, 2), Enc(k, n - 1)), BN(n2))), BN((m + k) % n))
    [] c[1] = "dh" -> \A g \in 2..(c[2] - 1), a \in 1..(c[2] - 2), b \in 1..(c[2] - 2) :
                        BPowMod(BPowMod(BN(g), BN(a), BN(c[2])), BN(b), BN(c[2])) = BPowMod(BPowMod(BN(g), BN(b), BN(c[2])), BN(a), BN(c[2]))
    [] c[1] = "pow" -> \A e \in 0..24 : BEq(BPowMod(BN(c[2]), BN(e), BN(c[3])), BN(PowI(c[2], e, c[3])))
    [] c[1] = "prime" -> BIsPrime(BN(c[2])) <=> (c[2] > 1 /\ \A k \in 2..26 : k < c[2] => c[2] % k # 0)
    [] c[1] = "derive" -> LET k == DeriveKey(<<1, 2>>, LBlk(20, 3), 100) IN DeriveKey(<<1, 2>>, LBlk(20, 3), c[2]) = Take(k, c[2])

\* ---------------------------------------------------------------- table-driven variants
\* one AES round by the T-tables that the portable code uses, and GHASH by 4-bit tables
T0(x) == LET s == SBOX[1 + x] IN BE(<<GMul(s, 2), s, s, GMul(s, 3)>>, 1)
TRound(s, k) == \* s: 16 bytes, k: 16 bytes
  FoldLeft(LAMBDA a, j : a \o UnBE(Xor(Xor(Xor(T0(s[4 * j + 1]), RotR(T0(s[4 * ((j + 1) % 4) + 2]), 8)),
                                           Xor(RotR(T0(s[4 * ((j + 2) % 4) + 3]), 16), RotR(T0(s[4 * ((j + 3) % 4) + 4]), 24))),
                                       BE(k, 4 * j + 1))), <<>>, <<0, 1, 2, 3>>)
SRow == [i \in 1..16 |-> 1 + ((i - 1) % 4) + 4 * ((((i - 1) \div 4) + ((i - 1) % 4)) % 4)]
SRound(s, k) == XorSeq(MixCols(Eager([i \in 1..16 |-> SBOX[1 + s[SRow[i]]]])), k)
\* Z := Z*x^4 + X[nibble]*H, from the last nibble to the first
Nib(s, i) == IF i % 2 = 1 THEN s[(i + 1) \div 2] \div 16 ELSE s[i \div 2] % 16
MulX4(v) == MulX(MulX(MulX(MulX(v))))
GH4(h, s) == LET t == GHTable(h)
                 N(v) == FoldLeft(LAMBDA a, j : IF (v \div 2^(4 - j)) % 2 = 1 THEN Xor4(a, t[j]) ELSE a, <<0, 0, 0, 0>>, Upto(4))
             IN  FoldLeft(LAMBDA z, j : Xor4(MulX4(z), N(Nib(s, 33 - j))), <<0, 0, 0, 0>>, Upto(32))
TabCases == {<<"t0", a, b>> : a \in 0..12, b \in 0..12} \cup {<<"gh", a, b>> : a \in 0..12, b \in 0..12} \cup {<<"ring", a, b>> : a \in 0..6, b \in 0..6}
            \cup {<<"sbox", x>> : x \in 0..255}
TabLaw(c) ==
  CASE c[1] = "t0" -> TRound(LBlk(16, c[2]), LBlk(16, c[3])) = SRound(LBlk(16, c[2]), LBlk(16, c[3]))
    [] c[1] = "gh" -> Un4(GH4(LBlk(16, c[2]), LBlk(16, c[3]))) = Un4(GMulH(GHTable(LBlk(16, c[2])), W4(LBlk(16, c[3]), 1)))
    [] c[1] = "ring" -> LET a == LBlk(16, c[2])  b == LBlk(16, c[3])  d == LBlk(16, 9)
                            Mu(x, y) == Un4(GMulH(GHTable(x), W4(y, 1)))
                        IN  Mu(a, b) = Mu(b, a) /\ Mu(a, Mu(b, d)) = Mu(Mu(a, b), d) /\ Mu(a, XorSeq(b, d)) = XorSeq(Mu(a, b), Mu(a, d))
    [] c[1] = "sbox" -> ISBOX[1 + SBOX[1 + c[2]]] = c[2] /\ SBOX[1 + ISBOX[1 + c[2]]] = c[2] /\ (c[2] # 0 => GMul(c[2], GInv(c[2])) = 1)

\* ---------------------------------------------------------------- hashes and MACs
MacCases == {<<"long", al, n>> : al \in {"sha1", "sha256", "sha384", "sha512", "ripemd160", "md5"}, n \in {129, 200}}
            \cup {<<"zero", al, n>> : al \in {"sha1", "sha256", "sha384", "sha512", "ripemd160", "md5"}, n \in {0, 1, 63}}
            \cup {<<"xof", n>> : n \in {1, 31, 32, 63, 64, 65, 130}} \cup {<<"trunc", n>> : n \in {0, 1, 55, 56, 111, 112, 128}}
            \cup {<<"cmac", n>> : n \in 0..33} \cup {<<"cbcmac", n>> : n \in 1..6}
MacLaw(c) ==
  CASE c[1] = "long" -> HMAC(c[2], LKey(c[3], 3), <<1, 2>>) = HMAC(c[2], HashFn(c[2], LKey(c[3], 3)), <<1, 2>>)
    [] c[1] = "zero" -> HMAC(c[2], LKey(c[3], 3), <<1, 2>>) = HMAC(c[2], LKey(c[3], 3) \o <<0>>, <<1, 2>>)
    [] c[1] = "xof" -> BLAKE3(c[2], <<>>, LBlk(70, 3)) = Take(BLAKE3(200, <<>>, LBlk(70, 3)), c[2])
    [] c[1] = "trunc" -> LET m == LBlk(c[2], 3) IN Len(SHA224(m)) = 28 /\ Len(SHA384(m)) = 48 /\ SHA224(m) # Take(SHA256(m), 28) /\ BLAKE2B(20, <<>>, m) # Take(BLAKE2B(64, <<>>, m), 20)
    [] c[1] = "cmac" -> \* two messages, one the 8000-padding of the other, have different MACs
         LET ci == MkCipher("aes", "enc", LKey(16, 3), 16)  m == LBlk(c[2], 3)
         IN  c[2] % 16 # 0 => CMAC(ci, Zeros(16), m) # CMAC(ci, Zeros(16), Take(m, 16 * (c[2] \div 16)) \o PadBlock("8000", Drop(m, 16 * (c[2] \div 16)), 16))
    [] c[1] = "cbcmac" -> LET ci == MkCipher("des", "enc", LKey(8, 3), 8)  m == LBlk(8 * c[2], 3)
                              ch == MkChain("cbc", 0, "enc", ci, <<>>)
                          IN  CBCMac(ch, m) = Drop(ChainRun(ch, m, c[2]).out, 8 * c[2] - 8)

Cases == CASE Part = "cipher" -> CipherCases [] Part = "mode" -> ModeCases [] Part = "pad" -> PadCases [] Part = "tamper" -> TamperCases
           [] Part = "codec" -> CodecCases [] Part = "inflate" -> InfCases [] Part = "pub" -> PubCases [] Part = "table" -> TabCases [] Part = "mac" -> MacCases
Law(c) == CASE Part = "cipher" -> CipherLaw(c) [] Part = "mode" -> ModeLaw(c) [] Part = "pad" -> PadLaw(c) [] Part = "tamper" -> TamperLaw(c)
            [] Part = "codec" -> CodecLaw(c) [] Part = "inflate" -> InfLaw(c) [] Part = "pub" -> PubLaw(c) [] Part = "table" -> TabLaw(c) [] Part = "mac" -> MacLaw(c)
Init == cs \in {<<"todo", c>> : c \in Cases}
Next == cs[1] = "todo" /\ cs' = <<"done", cs[2]>>
Holds == cs[1] = "done" => Law(cs[2])
=============================================================================
