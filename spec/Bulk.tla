-------------------------------- MODULE Bulk --------------------------------
(***************************************************************************)
(* Functions of inputs of gigabytes.  The input is the periodic pattern    *)
(* Pat(seed): byte i (from 0) is 131i + 17(i div 256) + seed modulo 256,   *)
(* of period 65536.  Lengths are pairs <<M, R>> standing for M * 2^20 + R  *)
(* (TLC's integers have 32 bits).  BulkDigest, BulkSeal and BulkRC4 are    *)
(* evaluated by spec/java/BulkOv.java; their definitions are given here    *)
(* and compared on short inputs in SelfCheck.tla.                          *)
(***************************************************************************)
EXTENDS Crypto

BigN(n) == n[1] * 2^20 + n[2]             \* only for small n
PatByte(seed, i) == (131 * (i % 65536) + 17 * ((i % 65536) \div 256) + seed) % 256
Pat(seed, i, n) == Eager([j \in 1..n |-> PatByte(seed, i + j - 1)])
BulkDigestP(alg, sz, key, seed, n) == Digest(alg, [sz |-> sz, key |-> key], Pat(seed, 0, BigN(n))).b
BulkSealP(alg, dir, key, iv, seed, h, n, win) ==
  LET r == AEADAll(alg, dir, key, iv, Pat(seed, 0, BigN(h)), Pat(seed, 0, BigN(n)))
  IN  r.tag \o SubSeq(r.out, IF Len(r.out) > win THEN Len(r.out) - win + 1 ELSE 1, Len(r.out))
BulkRC4P(S, i, j, n) == LET o == RC4Take([S |-> S, i |-> i, j |-> j], BigN(n))[2] IN o.S \o <<o.i, o.j>>
\* evaluated by Java
BulkDigest(alg, sz, key, seed, n) == BulkDigestP(alg, sz, key, seed, n)
BulkSeal(alg, dir, key, iv, seed, h, n, win) == BulkSealP(alg, dir, key, iv, seed, h, n, win)
BulkRC4(S, i, j, n) == BulkRC4P(S, i, j, n)

\* ---- arithmetic on <<M, R>> ----
NNorm(m, r) == <<m + (r \div 2^20), r % 2^20>>
NAdd(a, k) == NNorm(a[1], a[2] + k)                    \* k may be negative
NDiv64(a) == a[1] * 2^14 + (a[2] \div 64)
NMod64(a) == a[2] % 64
NMod64K(a) == a[2] % 65536
PatAt(seed, n, k) == Pat(seed, NMod64K(n), k)          \* k bytes from position n

\* ---- long key streams ----
\* ChaCha20 after skipping n bytes.  The number of whole blocks in n is added to the counter.
ChaSkip(o, n) ==
  IF n[1] = 0 /\ n[2] <= Len(o.ks) THEN [o EXCEPT !.ks = Drop(o.ks, n[2])]
  ELSE LET m == NAdd(n, -Len(o.ks))
           nb == NDiv64(m)
           lo == Add(o.w[13], nb)
           carry == IF lo >= 0 /\ lo < nb THEN 1 ELSE 0          \* unsigned lo < nb
           w == [o.w EXCEPT ![13] = lo, ![14] = IF o.iv12 THEN o.w[14] ELSE Add(o.w[14], carry)]
           b == [o EXCEPT !.w = w, !.ks = <<>>]
       IN  ChaTake(b, NMod64(m))[2]
RC4Skip(o, n) == LET r == BulkRC4(o.S, o.i, o.j, n) IN [o EXCEPT !.S = Take(r, 256), !.i = r[257], !.j = r[258]]

\* ---- Adler-32 of the first n pattern bytes ----
Adl == 65521
MulA(a, b) == LET x == BMod(BMul(NatToBN(a), NatToBN(b)), NatToBN(Adl))
              IN  FoldLeft(LAMBDA s, i : s * 256 + x[i], 0, Upto(Len(x)))
AdlerRun(a, b, d) == FoldLeft(LAMBDA s, i : LET x == (s[1] + d[i]) % Adl IN <<x, (s[2] + x) % Adl>>, <<a, b>>, Upto(Len(d)))
\* k whole periods: a grows by S each time; b by P * a + T
PatAdler(seed, n) ==
  LET k == n[1] * 16 + (n[2] \div 65536)
      st == AdlerRun(0, 0, Pat(seed, 0, 65536))                   \* <<S, T>>
      kk == (k % 2 = 0) \* (parity of k, to halve k(k-1) exactly)
      tri == IF kk THEN MulA((k \div 2) % Adl, (k - 1) % Adl) ELSE MulA(k % Adl, ((k - 1) \div 2) % Adl)
      P == 65536 % Adl
      a == (1 + MulA(k % Adl, st[1])) % Adl
      b == (MulA(MulA(k % Adl, P), 1) + MulA(MulA(P, st[1]), IF k = 0 THEN 0 ELSE tri) + MulA(k % Adl, st[2])) % Adl
      e == AdlerRun(a, b, Pat(seed, 0, NMod64K(n)))
  IN  <<e[2] \div 256, e[2] % 256, e[1] \div 256, e[1] % 256>>
=============================================================================
