------------------------------- MODULE Hashes -------------------------------
(***************************************************************************)
(* Digest functions as mathematical functions of the whole message:        *)
(* FIPS 180-4 (SHA-1, SHA-2), RFC 1321 (MD5), RIPEMD-160, FIPS 202         *)
(* (SHA-3) and original Keccak, RFC 7693 (BLAKE2), BLAKE3.                 *)
(***************************************************************************)
EXTENDS Words, SequencesExt, Tables

\* a message as sequences of n-byte blocks, starting at byte o+1 (full blocks only)
BlockIdx(len, n) == [i \in 1..(len \div n) |-> n * (i - 1) + 1]
\* bit length of a message of len bytes as 8 bytes
BitLenBE(len) == Zeros(3) \o <<(len \div 2^29) % 256>> \o UnBE(ShL(len, 3))
BitLenLE(len) == UnLE(ShL(len, 3)) \o <<(len \div 2^29) % 256>> \o Zeros(3)
\* Merkle-Damgard strengthening: 80 00.. length
MDPad(len, blk, lenfield) ==
  LET z == (blk - ((len + 1 + Len(lenfield)) % blk)) % blk
  IN  <<128>> \o Zeros(z) \o lenfield
Iter(Compress(_, _, _), h0, msg, blk) ==
  FoldLeft(LAMBDA h, p : Compress(h, msg, p), h0, BlockIdx(Len(msg), blk))
CatBE(ws) == FoldLeft(LAMBDA a, w : a \o UnBE(w), <<>>, ws)
CatLE(ws) == FoldLeft(LAMBDA a, w : a \o UnLE(w), <<>>, ws)
CatBE64(ws) == FoldLeft(LAMBDA a, w : a \o UnBE64(w), <<>>, ws)
CatLE64(ws) == FoldLeft(LAMBDA a, w : a \o UnLE64(w), <<>>, ws)
SeqAdd(a, b) == Eager([i \in 1..Len(a) |-> Add(a[i], b[i])])

\* ---------------------------------------------------------------- SHA-1
H_SHA1 == <<1732584193, -271733879, -1732584194, 271733878, -1009589776>>
Up80 == Eager(Upto(80))
SHA1W(m, p) == FoldLeft(LAMBDA w, t : Append(w, RotL(Xor(Xor(w[t-3], w[t-8]), Xor(w[t-14], w[t-16])), 1)),
                        Eager([i \in 1..16 |-> BE(m, p + 4 * i - 4)]), [i \in 1..64 |-> i + 16])
SHA1F(t, b, c, d) == IF t <= 20 THEN Or(And(b, c), And(Not(b), d))
                     ELSE IF t <= 40 \/ t > 60 THEN Xor(Xor(b, c), d)
                     ELSE Or(Or(And(b, c), And(b, d)), And(c, d))
SHA1K(t) == IF t <= 20 THEN 1518500249 ELSE IF t <= 40 THEN 1859775393
            ELSE IF t <= 60 THEN -1894007588 ELSE -899497514
SHA1C(h, m, p) ==
  LET w == SHA1W(m, p)
      s == FoldLeft(LAMBDA v, t :
             <<Add(Add(Add(RotL(v[1], 5), SHA1F(t, v[2], v[3], v[4])), Add(v[5], w[t])), SHA1K(t)),
               v[1], RotL(v[2], 30), v[3], v[4]>>, h, Up80)
  IN  SeqAdd(h, s)
SHA1(m) == CatBE(Iter(SHA1C, H_SHA1, m \o MDPad(Len(m), 64, BitLenBE(Len(m))), 64))

\* ---------------------------------------------------------------- SHA-224/256
Sg0(x) == Xor(Xor(RotR(x, 7), RotR(x, 18)), ShR(x, 3))
Sg1(x) == Xor(Xor(RotR(x, 17), RotR(x, 19)), ShR(x, 10))
BS0(x) == Xor(Xor(RotR(x, 2), RotR(x, 13)), RotR(x, 22))
BS1(x) == Xor(Xor(RotR(x, 6), RotR(x, 11)), RotR(x, 25))
Ch(x, y, z) == Xor(And(x, y), And(Not(x), z))
Maj(x, y, z) == Xor(Xor(And(x, y), And(x, z)), And(y, z))
SHA256W(m, p) == FoldLeft(LAMBDA w, t : Append(w, Add(Add(Sg1(w[t-2]), w[t-7]), Add(Sg0(w[t-15]), w[t-16]))),
                          Eager([i \in 1..16 |-> BE(m, p + 4 * i - 4)]), [i \in 1..48 |-> i + 16])
Up64 == Eager(Upto(64))
SHA256C(h, m, p) ==
  LET w == SHA256W(m, p)
      s == FoldLeft(LAMBDA v, t :
             LET t1 == Add(Add(Add(v[8], BS1(v[5])), Add(Ch(v[5], v[6], v[7]), K256[t])), w[t])
                 t2 == Add(BS0(v[1]), Maj(v[1], v[2], v[3]))
             IN  <<Add(t1, t2), v[1], v[2], v[3], Add(v[4], t1), v[5], v[6], v[7]>>, h, Up64)
  IN  SeqAdd(h, s)
SHA256Run(h0, m) == CatBE(Iter(SHA256C, h0, m \o MDPad(Len(m), 64, BitLenBE(Len(m))), 64))
SHA256(m) == SHA256Run(H256, m)
SHA224(m) == Take(SHA256Run(H224, m), 28)

\* ---------------------------------------------------------------- SHA-384/512
Xor3L(a, b, c) == Xor64(Xor64(a, b), c)
Lg0(x) == Xor3L(RotR64(x, 1), RotR64(x, 8), ShR64(x, 7))
Lg1(x) == Xor3L(RotR64(x, 19), RotR64(x, 61), ShR64(x, 6))
LS0(x) == Xor3L(RotR64(x, 28), RotR64(x, 34), RotR64(x, 39))
LS1(x) == Xor3L(RotR64(x, 14), RotR64(x, 18), RotR64(x, 41))
Ch64(x, y, z) == Xor64(And64(x, y), And64(Not64(x), z))
Maj64(x, y, z) == Xor3L(And64(x, y), And64(x, z), And64(y, z))
SHA512W(m, p) == FoldLeft(LAMBDA w, t : Append(w, Add64(Add64(Lg1(w[t-2]), w[t-7]), Add64(Lg0(w[t-15]), w[t-16]))),
                          Eager([i \in 1..16 |-> BE64(m, p + 8 * i - 8)]), [i \in 1..64 |-> i + 16])
SHA512C(h, m, p) ==
  LET w == SHA512W(m, p)
      s == FoldLeft(LAMBDA v, t :
             LET t1 == Add64(Add64(Add64(v[8], LS1(v[5])), Add64(Ch64(v[5], v[6], v[7]), K512[t])), w[t])
                 t2 == Add64(LS0(v[1]), Maj64(v[1], v[2], v[3]))
             IN  <<Add64(t1, t2), v[1], v[2], v[3], Add64(v[4], t1), v[5], v[6], v[7]>>, h, Up80)
  IN  Eager([i \in 1..8 |-> Add64(h[i], s[i])])
SHA512Run(h0, m) == CatBE64(Iter(SHA512C, h0, m \o MDPad(Len(m), 128, Zeros(8) \o BitLenBE(Len(m))), 128))
SHA512(m) == SHA512Run(H512, m)
SHA384(m) == Take(SHA512Run(H384, m), 48)

\* ---------------------------------------------------------------- MD5
H_MD5 == <<1732584193, -271733879, -1732584194, 271733878>>
MD5F(t, b, c, d) == IF t <= 16 THEN Or(And(b, c), And(Not(b), d))
                    ELSE IF t <= 32 THEN Or(And(d, b), And(Not(d), c))
                    ELSE IF t <= 48 THEN Xor(Xor(b, c), d)
                    ELSE Xor(c, Or(b, Not(d)))
MD5G(t) == LET i == t - 1
           IN  1 + (IF t <= 16 THEN i ELSE IF t <= 32 THEN (5 * i + 1) % 16
                    ELSE IF t <= 48 THEN (3 * i + 5) % 16 ELSE (7 * i) % 16)
MD5S == <<<<7, 12, 17, 22>>, <<5, 9, 14, 20>>, <<4, 11, 16, 23>>, <<6, 10, 15, 21>>>>
MD5C(h, m, p) ==
  LET w == Eager([i \in 1..16 |-> LE(m, p + 4 * i - 4)])
      s == FoldLeft(LAMBDA v, t :
             LET x == Add(Add(v[1], MD5F(t, v[2], v[3], v[4])), Add(TMD5[t], w[MD5G(t)]))
             IN  <<v[4], Add(v[2], RotL(x, MD5S[1 + (t - 1) \div 16][1 + ((t - 1) % 4)])), v[2], v[3]>>,
             h, Up64)
  IN  SeqAdd(h, s)
MD5(m) == CatLE(Iter(MD5C, H_MD5, m \o MDPad(Len(m), 64, BitLenLE(Len(m))), 64))

\* ---------------------------------------------------------------- RIPEMD-160
RMF(j, x, y, z) == CASE j = 1 -> Xor(Xor(x, y), z)
                     [] j = 2 -> Or(And(x, y), And(Not(x), z))
                     [] j = 3 -> Xor(Or(x, Not(y)), z)
                     [] j = 4 -> Or(And(x, z), And(y, Not(z)))
                     [] OTHER -> Xor(x, Or(y, Not(z)))
RMLine(h, w, R, S, K, fn(_)) ==
  FoldLeft(LAMBDA v, t :
     LET rd == 1 + (t - 1) \div 16
         x == Add(RotL(Add(Add(v[1], RMF(fn(rd), v[2], v[3], v[4])), Add(w[1 + R[t]], K[rd])), S[t]), v[5])
     IN  <<v[5], x, v[2], RotL(v[3], 10), v[4]>>, h, Up80)
RMDC(h, m, p) ==
  LET w == Eager([i \in 1..16 |-> LE(m, p + 4 * i - 4)])
      a == RMLine(h, w, RMDRL, RMDSL, RMDKL, LAMBDA r : r)
      b == RMLine(h, w, RMDRR, RMDSR, RMDKR, LAMBDA r : 6 - r)
  IN  <<Add(Add(h[2], a[3]), b[4]), Add(Add(h[3], a[4]), b[5]), Add(Add(h[4], a[5]), b[1]),
        Add(Add(h[5], a[1]), b[2]), Add(Add(h[1], a[2]), b[3])>>
RIPEMD160(m) == CatLE(Iter(RMDC, H_SHA1, m \o MDPad(Len(m), 64, BitLenLE(Len(m))), 64))

\* ---------------------------------------------------------------- Keccak
\* state: 25 lanes, index 1 + x + 5*y
Lx(i) == (i - 1) % 5
Ly(i) == (i - 1) \div 5
Ln(x, y) == 1 + (x % 5) + 5 * (y % 5)
KRound(A, rc) ==
  LET C == Eager([x \in 1..5 |-> Xor64(Xor3L(A[x], A[x+5], A[x+10]), Xor64(A[x+15], A[x+20]))])
      D == Eager([x \in 1..5 |-> Xor64(C[1 + ((x + 3) % 5)], RotL64(C[1 + (x % 5)], 1))])
      \* theta, rho, pi: lane (x,y) moves to (y, 2x+3y); so target (X,Y) comes from x = X+3Y, y = X
      B == Eager([i \in 1..25 |-> LET X == Lx(i)  Y == Ly(i)
                                      s == Ln(X + 3 * Y, X)
                                  IN  RotL64(Xor64(A[s], D[1 + Lx(s)]), KROT[s])])
      E == Eager([i \in 1..25 |-> LET y5 == 5 * Ly(i)  x == Lx(i)
                                  IN  Xor64(B[i], And64(Not64(B[1 + ((x + 1) % 5) + y5]), B[1 + ((x + 2) % 5) + y5]))])
  IN  [E EXCEPT ![1] = Xor64(E[1], rc)]
KeccakF(A) == FoldLeft(KRound, A, KRC)
KZero == Eager([i \in 1..25 |-> <<0, 0>>])
\* sponge with capacity 2*outlen bytes; suffix is the domain/padding first byte
KeccakHash(outlen, suffix, m) ==
  LET rate == 200 - 2 * outlen
      q == rate - (Len(m) % rate)
      pad == IF q = 1 THEN <<suffix + 128>> ELSE <<suffix>> \o Zeros(q - 2) \o <<128>>
      mp == m \o pad
      S == FoldLeft(LAMBDA A, p :
             KeccakF(Eager([i \in 1..25 |-> IF i <= rate \div 8 THEN Xor64(A[i], LE64(mp, p + 8 * i - 8)) ELSE A[i]])),
             KZero, BlockIdx(Len(mp), rate))
  IN  Take(CatLE64(S), outlen)
SHA3(bits, m) == KeccakHash(bits \div 8, 6, m)
KECCAK(bits, m) == KeccakHash(bits \div 8, 1, m)

\* ---------------------------------------------------------------- BLAKE2
MixIdx == << <<1, 5, 9, 13>>, <<2, 6, 10, 14>>, <<3, 7, 11, 15>>, <<4, 8, 12, 16>>,
             <<1, 6, 11, 16>>, <<2, 7, 12, 13>>, <<3, 8, 9, 14>>, <<4, 5, 10, 15>> >>
G32(v, a, b, c, d, x, y) ==
  LET a1 == Add(Add(v[a], v[b]), x)  d1 == RotR(Xor(v[d], a1), 16)
      c1 == Add(v[c], d1)            b1 == RotR(Xor(v[b], c1), 12)
      a2 == Add(Add(a1, b1), y)      d2 == RotR(Xor(d1, a2), 8)
      c2 == Add(c1, d2)              b2 == RotR(Xor(b1, c2), 7)
  IN  [v EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2]
G64(v, a, b, c, d, x, y) ==
  LET a1 == Add64(Add64(v[a], v[b]), x)  d1 == RotR64(Xor64(v[d], a1), 32)
      c1 == Add64(v[c], d1)              b1 == RotR64(Xor64(v[b], c1), 24)
      a2 == Add64(Add64(a1, b1), y)      d2 == RotR64(Xor64(d1, a2), 16)
      c2 == Add64(c1, d2)                b2 == RotR64(Xor64(b1, c2), 63)
  IN  [v EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2]
\* sequence <<1,..,8>> folded; sigma row r gives message word order (0-based entries)
Up8 == Eager(Upto(8))
\* t: counter <<hi, lo>>; last: final block flag
B2SC(h, blk, t, last) ==
  LET m == Eager([i \in 1..16 |-> LE(blk, 4 * i - 3)])
      v0 == h \o <<H256[1], H256[2], H256[3], H256[4], Xor(H256[5], t[2]), Xor(H256[6], t[1]),
                   IF last THEN Not(H256[7]) ELSE H256[7], H256[8]>>
      v == FoldLeft(LAMBDA w, r :
             FoldLeft(LAMBDA u, i : G32(u, MixIdx[i][1], MixIdx[i][2], MixIdx[i][3], MixIdx[i][4],
                                        m[1 + SIGMA[r][2 * i - 1]], m[1 + SIGMA[r][2 * i]]), w, Up8),
             v0, Upto(10))
  IN  Eager([i \in 1..8 |-> Xor(h[i], Xor(v[i], v[i + 8]))])
B2BC(h, blk, t, last) ==
  LET m == Eager([i \in 1..16 |-> LE64(blk, 8 * i - 7)])
      v0 == h \o <<H512[1], H512[2], H512[3], H512[4], Xor64(H512[5], t), H512[6],
                   IF last THEN Not64(H512[7]) ELSE H512[7], H512[8]>>
      v == FoldLeft(LAMBDA w, r :
             LET sg == SIGMA[1 + ((r - 1) % 10)] IN
             FoldLeft(LAMBDA u, i : G64(u, MixIdx[i][1], MixIdx[i][2], MixIdx[i][3], MixIdx[i][4],
                                        m[1 + sg[2 * i - 1]], m[1 + sg[2 * i]]), w, Up8),
             v0, Upto(12))
  IN  Eager([i \in 1..8 |-> Xor64(h[i], Xor64(v[i], v[i + 8]))])
PadTo(s, n) == s \o Zeros(n - Len(s))
\* data = key block (if any) followed by the message; at least one block is always compressed
BLAKE2S(outlen, key, msg) ==
  LET data == (IF key = <<>> THEN <<>> ELSE PadTo(key, 64)) \o msg
      h0 == [H256 EXCEPT ![1] = Xor(H256[1], 16842752 + 256 * Len(key) + outlen)]
      nb == IF Len(data) = 0 THEN 0 ELSE (Len(data) - 1) \div 64
      h == FoldLeft(LAMBDA a, i : B2SC(a, Slice(data, 64 * i - 63, 64), <<0, 64 * i>>, FALSE), h0, Upto(nb))
  IN  Take(CatLE(B2SC(h, PadTo(Drop(data, 64 * nb), 64), <<0, Len(data)>>, TRUE)), outlen)
BLAKE2B(outlen, key, msg) ==
  LET data == (IF key = <<>> THEN <<>> ELSE PadTo(key, 128)) \o msg
      h0 == [H512 EXCEPT ![1] = Xor64(H512[1], <<0, 16842752 + 256 * Len(key) + outlen>>)]
      nb == IF Len(data) = 0 THEN 0 ELSE (Len(data) - 1) \div 128
      h == FoldLeft(LAMBDA a, i : B2BC(a, Slice(data, 128 * i - 127, 128), <<0, 128 * i>>, FALSE), h0, Upto(nb))
  IN  Take(CatLE64(B2BC(h, PadTo(Drop(data, 128 * nb), 128), <<0, Len(data)>>, TRUE)), outlen)

\* ---------------------------------------------------------------- BLAKE3
\* flags: CHUNK_START 1, CHUNK_END 2, PARENT 4, ROOT 8, KEYED_HASH 16
B3Compress(cv, mw, ctr, blen, flags) ==      \* full 16-word output
  LET v0 == cv \o <<H256[1], H256[2], H256[3], H256[4], ctr[2], ctr[1], blen, flags>>
      s == FoldLeft(LAMBDA a, r :
             [v |-> FoldLeft(LAMBDA u, i : G32(u, MixIdx[i][1], MixIdx[i][2], MixIdx[i][3], MixIdx[i][4],
                                               a.m[2 * i - 1], a.m[2 * i]), a.v, Up8),
              m |-> Eager([i \in 1..16 |-> a.m[1 + B3PERM[i]]])],
             [v |-> v0, m |-> mw], Upto(7))
  IN  Eager([i \in 1..16 |-> IF i <= 8 THEN Xor(s.v[i], s.v[i + 8]) ELSE Xor(s.v[i], cv[i - 8])])
B3Words(b) == Eager([i \in 1..16 |-> LE(b, 4 * i - 3)])
\* an output node: everything but the ROOT flag and output counter
B3Node(cv, mw, ctr, blen, fl) == [cv |-> cv, mw |-> mw, ctr |-> ctr, blen |-> blen, fl |-> fl]
B3CV(nd) == Take(B3Compress(nd.cv, nd.mw, <<0, nd.ctr>>, nd.blen, nd.fl), 8)
\* node of one chunk (at most 1024 bytes) with chunk counter idx
B3Chunk(key, fl, m, idx) ==
  LET nb == IF Len(m) = 0 THEN 0 ELSE (Len(m) - 1) \div 64
      cv == FoldLeft(LAMBDA c, i :
              Take(B3Compress(c, B3Words(Slice(m, 64 * i - 63, 64)), <<0, idx>>, 64,
                              fl + (IF i = 1 THEN 1 ELSE 0)), 8), key, Upto(nb))
      l == Drop(m, 64 * nb)
  IN  B3Node(cv, B3Words(PadTo(l, 64)), idx, Len(l), fl + 2 + (IF nb = 0 THEN 1 ELSE 0))
RECURSIVE Pow2Below(_, _)
Pow2Below(n, p) == IF 2 * p >= n THEN p ELSE Pow2Below(n, 2 * p)   \* largest power of 2 < n
RECURSIVE B3Tree(_, _, _, _)
B3Tree(key, fl, m, idx) ==
  IF Len(m) <= 1024 THEN B3Chunk(key, fl, m, idx)
  ELSE LET chunks == (Len(m) + 1023) \div 1024
           lft == Pow2Below(chunks, 1)
           a == B3CV(B3Tree(key, fl, Take(m, 1024 * lft), idx))
           b == B3CV(B3Tree(key, fl, Drop(m, 1024 * lft), idx + lft))
       IN  B3Node(key, a \o b, 0, 64, fl + 4)
BLAKE3(outlen, key, m) ==
  LET kw == IF key = <<>> THEN H256 ELSE Eager([i \in 1..8 |-> LE(key, 4 * i - 3)])
      nd == B3Tree(kw, IF key = <<>> THEN 0 ELSE 16, m, 0)
      nblk == (outlen + 63) \div 64
  IN  Take(FoldLeft(LAMBDA a, i : a \o CatLE(B3Compress(nd.cv, nd.mw, <<0, i - 1>>, nd.blen, nd.fl + 8)),
                    <<>>, Upto(nblk)), outlen)
=============================================================================
