-------------------------------- MODULE AES --------------------------------
(***************************************************************************)
(* FIPS 197.  The S-box is defined, not listed: inversion in GF(2^8)       *)
(* modulo x^8+x^4+x^3+x+1 followed by the affine transformation.           *)
(***************************************************************************)
EXTENDS Words, SequencesExt

XTime(a) == IF a < 128 THEN 2 * a ELSE XorB(2 * a - 256, 27)
\* multiplication in GF(2^8)
GMul(a, b) == FoldLeft(LAMBDA r, i : LET d == XTime(r)
                                     IN  IF (b \div 2^(8 - i)) % 2 = 1 THEN XorB(d, a) ELSE d,
                       0, Upto(8))
\* powers of the generator 3, and logarithms
Pow3 == FoldLeft(LAMBDA s, i : Append(s, GMul(s[i], 3)), <<1>>, Upto(254))
Log3 == Eager([x \in 1..255 |-> (CHOOSE i \in 1..255 : Pow3[i] = x) - 1])
GInv(x) == IF x = 0 THEN 0 ELSE Pow3[1 + ((255 - Log3[x]) % 255)]
Bit(x, i) == (x \div 2^(i % 8)) % 2
Affine(x) == LET b(i) == (Bit(x, i) + Bit(x, i + 4) + Bit(x, i + 5) + Bit(x, i + 6)
                          + Bit(x, i + 7) + Bit(99, i)) % 2
             IN  b(0) + 2*b(1) + 4*b(2) + 8*b(3) + 16*b(4) + 32*b(5) + 64*b(6) + 128*b(7)
SBOX  == Eager([i \in 1..256 |-> Affine(GInv(i - 1))])
ISBOX == Eager([i \in 1..256 |-> (CHOOSE j \in 1..256 : SBOX[j] = i - 1) - 1])
M2  == Eager([i \in 1..256 |-> GMul(i - 1, 2)])
M3  == Eager([i \in 1..256 |-> GMul(i - 1, 3)])
M9  == Eager([i \in 1..256 |-> GMul(i - 1, 9)])
M11 == Eager([i \in 1..256 |-> GMul(i - 1, 11)])
M13 == Eager([i \in 1..256 |-> GMul(i - 1, 13)])
M14 == Eager([i \in 1..256 |-> GMul(i - 1, 14)])

RCon(i) == FoldLeft(LAMBDA r, k : XTime(r), 1, Upto(i - 1))
SubW(w) == <<SBOX[1 + w[1]], SBOX[1 + w[2]], SBOX[1 + w[3]], SBOX[1 + w[4]]>>
RotW(w) == <<w[2], w[3], w[4], w[1]>>

\* expanded key: sequence of round keys (16-byte sequences), for 16/24/32-byte keys
AESKey(key) ==
  LET nk == Len(key) \div 4
      nr == nk + 6
      w0 == Eager([i \in 1..nk |-> Slice(key, 4 * i - 3, 4)])
      w == FoldLeft(LAMBDA ws, i :
             LET p == ws[i - 1]
                 t == IF (i - 1) % nk = 0
                      THEN LET s == SubW(RotW(p))
                           IN  <<XorB(s[1], RCon((i - 1) \div nk)), s[2], s[3], s[4]>>
                      ELSE IF nk > 6 /\ (i - 1) % nk = 4 THEN SubW(p) ELSE p
             IN  Append(ws, XorSeq(ws[i - nk], t)),
             w0, [j \in 1..(4 * (nr + 1) - nk) |-> nk + j])
  IN  Eager([r \in 1..(nr + 1) |-> w[4*r-3] \o w[4*r-2] \o w[4*r-1] \o w[4*r]])

\* byte i of ShiftRows(s) is byte SR[i] of s (column-major state)
SR  == Eager([i \in 1..16 |-> 1 + ((i - 1) % 4) + 4 * ((((i - 1) \div 4) + ((i - 1) % 4)) % 4)])
ISR == Eager([i \in 1..16 |-> 1 + ((i - 1) % 4) + 4 * ((((i - 1) \div 4) - ((i - 1) % 4)) % 4)])
SubShift(s)  == Eager([i \in 1..16 |-> SBOX[1 + s[SR[i]]]])
ISubShift(s) == Eager([i \in 1..16 |-> ISBOX[1 + s[ISR[i]]]])
\* byte in the same column, k rows further
Nb(i, k) == 1 + 4 * ((i - 1) \div 4) + ((i - 1 + k) % 4)
MixCols(s) == Eager([i \in 1..16 |->
   XorB(XorB(M2[1 + s[i]], M3[1 + s[Nb(i, 1)]]), XorB(s[Nb(i, 2)], s[Nb(i, 3)]))])
IMixCols(s) == Eager([i \in 1..16 |->
   XorB(XorB(M14[1 + s[i]], M11[1 + s[Nb(i, 1)]]), XorB(M13[1 + s[Nb(i, 2)]], M9[1 + s[Nb(i, 3)]]))])

AESEnc(rk, b) ==
  LET nr == Len(rk) - 1
      s == FoldLeft(LAMBDA x, r : XorSeq(MixCols(SubShift(x)), rk[r]),
                    XorSeq(b, rk[1]), [j \in 1..(nr - 1) |-> j + 1])
  IN  XorSeq(SubShift(s), rk[nr + 1])
AESDec(rk, b) ==
  LET nr == Len(rk) - 1
      s == FoldLeft(LAMBDA x, r : IMixCols(XorSeq(ISubShift(x), rk[r])),
                    XorSeq(b, rk[nr + 1]), [j \in 1..(nr - 1) |-> nr + 1 - j])
  IN  XorSeq(ISubShift(s), rk[1])
=============================================================================
