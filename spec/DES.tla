-------------------------------- MODULE DES --------------------------------
(* FIPS 46-3, on sequences of bits, most significant first. *)
EXTENDS Words, SequencesExt, Tables

ToBits(s) == Eager([i \in 1..(8 * Len(s)) |-> (s[1 + (i - 1) \div 8] \div 2^(7 - ((i - 1) % 8))) % 2])
FromBits(b) == Eager([i \in 1..(Len(b) \div 8) |->
   128*b[8*i-7] + 64*b[8*i-6] + 32*b[8*i-5] + 16*b[8*i-4] + 8*b[8*i-3] + 4*b[8*i-2] + 2*b[8*i-1] + b[8*i]])
Permute(b, t) == Eager([i \in 1..Len(t) |-> b[t[i]]])
XorBits(a, b) == XorSeq(a, b)

\* 16 round keys of 48 bits
DESKey(key) ==
  LET cd0 == Permute(ToBits(key), DESPC1)
      rot(h, n) == SubSeq(h, n + 1, 28) \o SubSeq(h, 1, n)
      st == FoldLeft(LAMBDA acc, r :
              LET c == rot(acc[1], DESSH[r])  d == rot(acc[2], DESSH[r])
              IN  <<c, d, Append(acc[3], Permute(c \o d, DESPC2))>>,
              <<SubSeq(cd0, 1, 28), SubSeq(cd0, 29, 56), <<>> >>, Upto(16))
  IN  st[3]

DESF(r, k) ==
  LET x == XorBits(Permute(r, DESE), k)
      sb(i) == LET o == 6 * (i - 1)
                   row == 2 * x[o+1] + x[o+6]
                   col == 8 * x[o+2] + 4 * x[o+3] + 2 * x[o+4] + x[o+5]
                   v == DESS[i][1 + 16 * row + col]
               IN  <<v \div 8, (v \div 4) % 2, (v \div 2) % 2, v % 2>>
  IN  Permute(sb(1) \o sb(2) \o sb(3) \o sb(4) \o sb(5) \o sb(6) \o sb(7) \o sb(8), DESP)

DESRun(ks, order, block) ==
  LET ip == Permute(ToBits(block), DESIP)
      lr == FoldLeft(LAMBDA s, r : <<s[2], XorBits(s[1], DESF(s[2], ks[r]))>>,
                     <<SubSeq(ip, 1, 32), SubSeq(ip, 33, 64)>>, order)
  IN  FromBits(Permute(lr[2] \o lr[1], DESFP))
DESEnc(ks, b) == DESRun(ks, Upto(16), b)
DESDec(ks, b) == DESRun(ks, [i \in 1..16 |-> 17 - i], b)

\* Triple DES, EDE; 16-byte keys reuse the first key
TDESKey(key) == LET k1 == DESKey(Take(key, 8))
                IN  <<k1, DESKey(Slice(key, 9, 8)),
                      IF Len(key) = 24 THEN DESKey(Slice(key, 17, 8)) ELSE k1>>
TDESEnc(k, b) == DESEnc(k[3], DESDec(k[2], DESEnc(k[1], b)))
TDESDec(k, b) == DESDec(k[1], DESEnc(k[2], DESDec(k[3], b)))
=============================================================================
