------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers of any size, as big-endian byte sequences without       *)
(* leading zeros (0 is the empty sequence).  Definitions ending in P are   *)
(* plain TLA+; the operators without P are evaluated by Java in TLC (see   *)
(* Words.tla) and compared with them by SelfCheck.tla.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

RECURSIVE NatToBN(_)
NatToBN(n) == IF n = 0 THEN <<>> ELSE Append(NatToBN(n \div 256), n % 256)

FirstNZ(s) == IF \E i \in 1..Len(s) : s[i] # 0
              THEN CHOOSE i \in 1..Len(s) : s[i] # 0 /\ \A j \in 1..(i-1) : s[j] = 0
              ELSE Len(s) + 1
BNormP(s) == SubSeq(s, FirstNZ(s), Len(s))

\* little-endian digit i (0-based) of s
Dig(s, i) == IF i < Len(s) THEN s[Len(s) - i] ELSE 0
MaxLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)

RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(a, b, i, c, acc) ==
  IF i > MaxLen(a, b) THEN acc
  ELSE LET t == Dig(a, i) + Dig(b, i) + c
       IN  AddFrom(a, b, i + 1, t \div 256, <<t % 256>> \o acc)
BAddP(a, b) == BNormP(AddFrom(a, b, 0, 0, <<>>))

RECURSIVE SubFrom(_, _, _, _, _)
SubFrom(a, b, i, c, acc) ==
  IF i >= Len(a) THEN acc
  ELSE LET t == Dig(a, i) - Dig(b, i) - c
       IN  SubFrom(a, b, i + 1, IF t < 0 THEN 1 ELSE 0, <<t % 256>> \o acc)
BSubP(a, b) == BNormP(SubFrom(a, b, 0, 0, <<>>))      \* requires a >= b

BLessP(a, b) ==
  LET x == BNormP(a)  y == BNormP(b)
  IN  \/ Len(x) < Len(y)
      \/ /\ Len(x) = Len(y)
         /\ \E i \in 1..Len(x) : x[i] < y[i] /\ \A j \in 1..(i-1) : x[j] = y[j]

RECURSIVE MulDig(_, _, _, _, _)
MulDig(a, d, i, c, acc) ==
  IF i > Len(a) THEN acc
  ELSE LET t == Dig(a, i) * d + c
       IN  MulDig(a, d, i + 1, t \div 256, <<t % 256>> \o acc)
BMulP(a, b) ==
  FoldLeft(LAMBDA acc, d : BAddP(Append(acc, 0), MulDig(a, d, 0, 0, <<>>)), <<>>, b)

\* long division by repeated subtraction, one byte of the dividend at a time
RECURSIVE SubWhile(_, _, _)
SubWhile(r, m, q) == IF BLessP(r, m) THEN <<q, r>> ELSE SubWhile(BSubP(r, m), m, q + 1)
BDivMod(a, m) ==
  FoldLeft(LAMBDA acc, d : LET s == SubWhile(BNormP(Append(acc[2], d)), m, 0)
                           IN  <<Append(acc[1], s[1]), s[2]>>,
           << <<>>, <<>> >>, a)
BDivP(a, m) == BNormP(BDivMod(a, m)[1])
BModP(a, m) == BDivMod(a, m)[2]

\* binary exponentiation over the bits of e, most significant first
BitsOfByte(d) == [i \in 1..8 |-> (d \div 2^(8-i)) % 2]
BPowModP(a, e, m) ==
  FoldLeft(LAMBDA acc, d :
             FoldLeft(LAMBDA x, bit : LET s == BModP(BMulP(x, x), m)
                                      IN  IF bit = 1 THEN BModP(BMulP(s, a), m) ELSE s,
                      acc, BitsOfByte(d)),
           BModP(<<1>>, m), e)

RECURSIVE BGcdP(_, _)
BGcdP(a, b) == IF BNormP(b) = <<>> THEN BNormP(a) ELSE BGcdP(b, BModP(a, b))
-----------------------------------------------------------------------------
BNorm(a)   == BNormP(a)
BAdd(a, b) == BAddP(a, b)
BSub(a, b) == BSubP(a, b)
BMul(a, b) == BMulP(a, b)
BDiv(a, b) == BDivP(a, b)
BMod(a, b) == BModP(a, b)
BLess(a, b) == BLessP(a, b)
BPowMod(a, e, m) == BPowModP(a, e, m)
BGcd(a, b) == BGcdP(a, b)
-----------------------------------------------------------------------------
BLeq(a, b) == ~BLess(b, a)
BEq(a, b) == BNorm(a) = BNorm(b)
BOne == <<1>>
BIsZero(a) == BNorm(a) = <<>>
BIsOdd(a) == a # <<>> /\ a[Len(a)] % 2 = 1
BBit(a, i) == (Dig(a, i \div 8) \div 2^(i % 8)) % 2
BBitLen(a) == LET x == BNorm(a)
              IN  IF x = <<>> THEN 0
                  ELSE 8 * (Len(x) - 1) + (CHOOSE k \in 1..8 : x[1] < 2^k /\ x[1] >= 2^(k-1))
\* fixed-size big-endian encoding on n bytes (requires that it fits)
BFix(a, n) == LET x == BNorm(a) IN [i \in 1..(n - Len(x)) |-> 0] \o x
BFromLE(s) == BNorm([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])
BToLE(a, n) == LET x == BFix(a, n) IN [i \in 1..n |-> x[n + 1 - i]]
BLcm(a, b) == BDiv(BMul(a, b), BGcd(a, b))
\* Miller-Rabin primality test with the bases 2..37 (deterministic below 3.3e24)
MRBases == <<2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37>>
BPow2(s) == <<2^(s % 8)>> \o [i \in 1..(s \div 8) |-> 0]
RECURSIVE Twos(_)
Twos(a) == IF BIsOdd(a) THEN 0 ELSE 1 + Twos(BDiv(a, <<2>>))
RECURSIVE SqHits(_, _, _, _)
SqHits(x, n, nm1, k) == IF x = nm1 THEN TRUE ELSE IF k <= 1 THEN FALSE
                        ELSE SqHits(BMod(BMul(x, x), n), n, nm1, k - 1)
MRPass(n, b) == LET nm1 == BSub(n, BOne)
                    s == Twos(nm1)
                    d == BDiv(nm1, BPow2(s))
                    x == BPowMod(<<b>>, d, n)
                IN  x = BOne \/ SqHits(x, n, nm1, s)
BIsPrime(a) ==
  LET n == BNorm(a)
  IN  IF BLess(n, <<2>>) THEN FALSE
      ELSE IF \E i \in 1..Len(MRBases) : n = <<MRBases[i]>> THEN TRUE
      ELSE IF \E i \in 1..Len(MRBases) : BMod(n, <<MRBases[i]>>) = <<>> THEN FALSE
      ELSE \A i \in 1..Len(MRBases) : MRPass(n, MRBases[i])
=============================================================================
