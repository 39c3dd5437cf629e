------------------------------- MODULE Codecs -------------------------------
(* Base64 (RFC 2045 alphabet) and hexadecimal, as incremental machines.     *)
EXTENDS Words, SequencesExt

B64Char(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 71 + v
              ELSE IF v < 62 THEN v - 4 ELSE IF v = 62 THEN 43 ELSE 47
B64Val(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71
             ELSE IF c \in 48..57 THEN c + 4 ELSE IF c = 43 THEN 62 ELSE 63
IsB64(c) == c \in 65..90 \/ c \in 97..122 \/ c \in 48..57 \/ c = 43 \/ c = 47
IsBlank(c) == c \in {32, 9, 10, 13}
\* characters of a group of 1..3 bytes, without '='
B64Group(g) ==
  LET a == g[1]
      b == IF Len(g) > 1 THEN g[2] ELSE 0
      c == IF Len(g) > 2 THEN g[3] ELSE 0
      q == <<B64Char(a \div 4), B64Char((a % 4) * 16 + b \div 16), B64Char((b % 16) * 4 + c \div 64), B64Char(c % 64)>>
  IN  Take(q, Len(g) + 1)
LineLen == 72
\* encoder: [v, pend, col]; v \in {"multiline", "compact", "compact_pad"}
B64EncPut(o, d) ==
  LET buf == o.pend \o d
      ng == Len(buf) \div 3
      r == FoldLeft(LAMBDA a, i :
             LET nl == o.v = "multiline" /\ a.col + 4 >= LineLen
             IN  [out |-> a.out \o B64Group(Slice(buf, 3 * i - 2, 3)) \o (IF nl THEN <<10>> ELSE <<>>),
                  col |-> IF nl THEN 0 ELSE a.col + 4],
             [out |-> <<>>, col |-> o.col], Upto(ng))
  IN  [out |-> r.out, o |-> [o EXCEPT !.pend = Drop(buf, 3 * ng), !.col = r.col]]
B64EncFinish(o) ==
  (IF o.pend = <<>> THEN <<>> ELSE B64Group(o.pend))
  \o (IF o.v # "compact" /\ o.pend # <<>> THEN Rep(61, 3 - Len(o.pend)) ELSE <<>>)
  \o (IF o.v = "multiline" /\ o.col > 0 THEN <<10>> ELSE <<>>)

\* decoder: [pend (6-bit values), fin (a '=' was seen), bad]
B64DecChar(a, c) ==
  IF a.bad THEN a
  ELSE IF c = 61 THEN [a EXCEPT !.fin = TRUE]
  ELSE IF IsBlank(c) THEN a
  ELSE IF ~IsB64(c) \/ a.fin THEN [a EXCEPT !.bad = TRUE]
  ELSE LET p == Append(a.pend, B64Val(c))
       IN  IF Len(p) < 4 THEN [a EXCEPT !.pend = p]
           ELSE [a EXCEPT !.pend = <<>>,
                 !.out = a.out \o <<p[1] * 4 + p[2] \div 16, (p[2] % 16) * 16 + p[3] \div 4, (p[3] % 4) * 64 + p[4]>>]
B64DecPut(pend, fin, d) == FoldLeft(B64DecChar, [pend |-> pend, fin |-> fin, bad |-> FALSE, out |-> <<>>], d)
\* final group: [ok, out]
B64DecFinish(p) == CASE Len(p) = 0 -> [ok |-> TRUE, out |-> <<>>]
                     [] Len(p) = 1 -> [ok |-> FALSE, out |-> <<>>]
                     [] Len(p) = 2 -> [ok |-> TRUE, out |-> <<p[1] * 4 + p[2] \div 16>>]
                     [] Len(p) = 3 -> [ok |-> TRUE, out |-> <<p[1] * 4 + p[2] \div 16, (p[2] % 16) * 16 + p[3] \div 4>>]

HexChar(v) == IF v < 10 THEN 48 + v ELSE 87 + v
IsHex(c) == c \in 48..57 \/ c \in 65..70 \/ c \in 97..102
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
HexEnc(d) == Eager([i \in 1..(2 * Len(d)) |-> LET x == d[(i + 1) \div 2] IN HexChar(IF i % 2 = 1 THEN x \div 16 ELSE x % 16)])
HexDecChar(a, c) ==
  IF a.bad \/ IsBlank(c) THEN a
  ELSE IF ~IsHex(c) THEN [a EXCEPT !.bad = TRUE]
  ELSE IF a.pend = <<>> THEN [a EXCEPT !.pend = <<HexVal(c)>>]
  ELSE [a EXCEPT !.pend = <<>>, !.out = Append(a.out, 16 * a.pend[1] + HexVal(c))]
HexDecPut(pend, d) == FoldLeft(HexDecChar, [pend |-> pend, bad |-> FALSE, out |-> <<>>], d)
=============================================================================
