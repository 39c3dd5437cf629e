------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Machine words and byte strings.                                         *)
(*                                                                         *)
(* TLC integers are 32-bit, so a 32-bit word is represented by the signed  *)
(* integer with the same two's-complement bits, and a 64-bit word by the   *)
(* pair <<high, low>> of two such words.  Bytes are integers 0..255, byte  *)
(* strings are sequences of bytes.                                         *)
(*                                                                         *)
(* Every operator is defined here in plain TLA+ (the ...P definitions).    *)
(* For speed TLC evaluates the operators without the P suffix by the Java  *)
(* class WordsOv, exactly as it does for the standard Integers module;     *)
(* SelfCheck.tla compares the two.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

Byte == 0..255

\* ---- 16-bit halves ----
Hi(a) == (a \div 65536) % 65536
Lo(a) == a % 65536
Mk(h, l) == (IF h >= 32768 THEN h - 65536 ELSE h) * 65536 + l

RECURSIVE X16(_, _), A16(_, _)
X16(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a
             ELSE 2 * X16(a \div 2, b \div 2) + ((a + b) % 2)
A16(a, b) == IF a = 0 \/ b = 0 THEN 0
             ELSE 2 * A16(a \div 2, b \div 2) + ((a % 2) * (b % 2))

\* ---- bytes ----
XorBP(a, b) == X16(a, b)
AndBP(a, b) == A16(a, b)

\* ---- 32-bit words ----
AddP(a, b) == LET l == Lo(a) + Lo(b)
                  h == Hi(a) + Hi(b) + (l \div 65536)
              IN  Mk(h % 65536, l % 65536)
XorP(a, b) == Mk(X16(Hi(a), Hi(b)), X16(Lo(a), Lo(b)))
AndP(a, b) == Mk(A16(Hi(a), Hi(b)), A16(Lo(a), Lo(b)))
NotP(a)    == -1 - a
OrP(a, b)  == NotP(AndP(NotP(a), NotP(b)))
RotRP(a, k) ==
  LET h == Hi(a)  l == Lo(a)
  IN  IF k >= 16
      THEN LET j == k - 16
           IN  Mk((l \div 2^j) + (h % 2^j) * 2^(16-j), (h \div 2^j) + (l % 2^j) * 2^(16-j))
      ELSE Mk((h \div 2^k) + (l % 2^k) * 2^(16-k), (l \div 2^k) + (h % 2^k) * 2^(16-k))
RotLP(a, k) == RotRP(a, (32 - k) % 32)
ShRP(a, k) ==
  LET h == Hi(a)  l == Lo(a)
  IN  IF k >= 32 THEN 0
      ELSE IF k >= 16 THEN h \div 2^(k-16)
      ELSE Mk(h \div 2^k, (l \div 2^k) + (h % 2^k) * 2^(16-k))
ShLP(a, k) ==
  LET h == Hi(a)  l == Lo(a)
  IN  IF k >= 32 THEN 0
      ELSE IF k >= 16 THEN Mk((l * 2^(k-16)) % 65536, 0)
      ELSE Mk(((h * 2^k) % 65536) + (l \div 2^(16-k)), (l * 2^k) % 65536)

\* unsigned comparison a < b
UltP(a, b) == Hi(a) < Hi(b) \/ (Hi(a) = Hi(b) /\ Lo(a) < Lo(b))

\* ---- 64-bit words ----
Xor64P(a, b) == <<XorP(a[1], b[1]), XorP(a[2], b[2])>>
And64P(a, b) == <<AndP(a[1], b[1]), AndP(a[2], b[2])>>
Not64P(a)    == <<NotP(a[1]), NotP(a[2])>>
Add64P(a, b) == LET l == AddP(a[2], b[2])
                    c == IF UltP(l, a[2]) THEN 1 ELSE 0
                IN  <<AddP(AddP(a[1], b[1]), c), l>>
ShR64P(a, k) == IF k >= 64 THEN <<0, 0>>
                ELSE IF k >= 32 THEN <<0, ShRP(a[1], k - 32)>>
                ELSE IF k = 0 THEN a
                ELSE <<ShRP(a[1], k), OrP(ShRP(a[2], k), ShLP(a[1], 32 - k))>>
ShL64P(a, k) == IF k >= 64 THEN <<0, 0>>
                ELSE IF k >= 32 THEN <<ShLP(a[2], k - 32), 0>>
                ELSE IF k = 0 THEN a
                ELSE <<OrP(ShLP(a[1], k), ShRP(a[2], 32 - k)), ShLP(a[2], k)>>
RotR64P(a, k) == LET x == ShR64P(a, k)  y == ShL64P(a, 64 - k)
                 IN  <<OrP(x[1], y[1]), OrP(x[2], y[2])>>
RotL64P(a, k) == RotR64P(a, (64 - k) % 64)

\* ---- byte string <-> word conversions; s[i] is the first byte ----
BEP(s, i) == Mk(s[i] * 256 + s[i+1], s[i+2] * 256 + s[i+3])
LEP(s, i) == Mk(s[i+3] * 256 + s[i+2], s[i+1] * 256 + s[i])
UnBEP(w)  == <<Hi(w) \div 256, Hi(w) % 256, Lo(w) \div 256, Lo(w) % 256>>
UnLEP(w)  == <<Lo(w) % 256, Lo(w) \div 256, Hi(w) % 256, Hi(w) \div 256>>
BE64P(s, i) == <<BEP(s, i), BEP(s, i + 4)>>
LE64P(s, i) == <<LEP(s, i + 4), LEP(s, i)>>
UnBE64P(w) == UnBEP(w[1]) \o UnBEP(w[2])
UnLE64P(w) == UnLEP(w[2]) \o UnLEP(w[1])

\* bytewise xor; the result has the length of the shorter argument
XorSeqP(a, b) == [i \in 1..(IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)) |-> X16(a[i], b[i])]

-----------------------------------------------------------------------------
\* Evaluated by Java (see above)
XorB(a, b) == XorBP(a, b)
AndB(a, b) == AndBP(a, b)
Add(a, b)  == AddP(a, b)
Xor(a, b)  == XorP(a, b)
And(a, b)  == AndP(a, b)
Or(a, b)   == OrP(a, b)
Not(a)     == NotP(a)
RotR(a, k) == RotRP(a, k)
RotL(a, k) == RotLP(a, k)
ShR(a, k)  == ShRP(a, k)
ShL(a, k)  == ShLP(a, k)
Xor64(a, b)  == Xor64P(a, b)
And64(a, b)  == And64P(a, b)
Not64(a)     == Not64P(a)
Add64(a, b)  == Add64P(a, b)
RotR64(a, k) == RotR64P(a, k)
RotL64(a, k) == RotL64P(a, k)
ShR64(a, k)  == ShR64P(a, k)
ShL64(a, k)  == ShL64P(a, k)
BE(s, i) == BEP(s, i)
LE(s, i) == LEP(s, i)
UnBE(w)  == UnBEP(w)
UnLE(w)  == UnLEP(w)
BE64(s, i) == BE64P(s, i)
LE64(s, i) == LE64P(s, i)
UnBE64(w)  == UnBE64P(w)
UnLE64(w)  == UnLE64P(w)
XorSeq(a, b) == XorSeqP(a, b)

\* Forces evaluation of a sequence given as a function (identity)
Eager(s) == s
-----------------------------------------------------------------------------
Upto(n) == [i \in 1..n |-> i]           \* <<1, ..., n>>
Rep(x, n) == [i \in 1..n |-> x]
Zeros(n) == Rep(0, n)
Slice(s, i, n) == SubSeq(s, i, i + n - 1)
Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Min2(a, b) == IF a < b THEN a ELSE b
=============================================================================
