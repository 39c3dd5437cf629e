------------------------------ MODULE Inflate ------------------------------
(***************************************************************************)
(* DEFLATE (RFC 1951) and zlib (RFC 1950) decoding, as a state machine     *)
(* that consumes symbols.  Result status: "done" (final block complete),   *)
(* "more" (input is a proper prefix), "bad" (malformed).                   *)
(***************************************************************************)
EXTENDS Words, SequencesExt

\* ---- canonical Huffman codes ----
\* lens: sequence of code lengths of symbols 0..; the decoding tables
Cnt(lens, l) == FoldLeft(LAMBDA a, x : IF x = l THEN a + 1 ELSE a, 0, lens)
HuffTable(lens) ==
  LET cnt == Eager([l \in 1..15 |-> Cnt(lens, l)])
      left == FoldLeft(LAMBDA a, l : IF a < 0 THEN a ELSE 2 * a - cnt[l], 1, Upto(15))
      maxl == FoldLeft(LAMBDA a, l : IF cnt[l] > 0 THEN l ELSE a, 0, Upto(15))
      \* symbols ordered by (length, value)
      syms == FoldLeft(LAMBDA acc, l :
                IF cnt[l] = 0 THEN acc
                ELSE acc \o FoldLeft(LAMBDA a, i : IF lens[i] = l THEN Append(a, i - 1) ELSE a,
                                     <<>>, Upto(Len(lens))),
                <<>>, Upto(15))
  IN  [cnt |-> cnt, syms |-> syms, left |-> left, max |-> maxl]
\* decode one symbol at bit position p: [st, sym, p]
BitAt(in, p) == (in[1 + p \div 8] \div 2^(p % 8)) % 2
DecodeSym(T, in, p) ==
  LET nbits == 8 * Len(in)
      r == FoldLeft(LAMBDA a, l :
             IF a.st # "run" THEN a
             ELSE IF l > T.max THEN [a EXCEPT !.st = "bad"]     \* no code word starts like this
             ELSE IF p + l > nbits THEN [a EXCEPT !.st = "more"]
             ELSE LET code == a.code + BitAt(in, p + l - 1)
                      c == T.cnt[l]
                  IN  IF code - c < a.first
                      THEN [a EXCEPT !.st = "ok", !.sym = T.syms[1 + a.index + (code - a.first)], !.p = p + l]
                      ELSE [a EXCEPT !.index = a.index + c, !.first = 2 * (a.first + c), !.code = 2 * code],
             [st |-> "run", code |-> 0, first |-> 0, index |-> 0, sym |-> 0, p |-> p], Upto(15))
  IN  [st |-> IF r.st = "run" THEN "bad" ELSE r.st, sym |-> r.sym, p |-> r.p]
\* n bits, least significant first; caller checks availability
BitsVal(in, p, n) == FoldLeft(LAMBDA a, i : a + BitAt(in, p + i - 1) * 2^(i - 1), 0, Upto(n))
Have(in, p, n) == p + n <= 8 * Len(in)

FixedLit == HuffTable(Eager([i \in 1..288 |-> IF i <= 144 THEN 8 ELSE IF i <= 256 THEN 9 ELSE IF i <= 280 THEN 7 ELSE 8]))
FixedDist == HuffTable(Rep(5, 32))
LBase == <<3,4,5,6,7,8,9,10,11,13,15,17,19,23,27,31,35,43,51,59,67,83,99,115,131,163,195,227,258>>
LExt  == <<0,0,0,0,0,0,0,0,1,1,1,1,2,2,2,2,3,3,3,3,4,4,4,4,5,5,5,5,0>>
DBase == <<1,2,3,4,5,7,9,13,17,25,33,49,65,97,129,193,257,385,513,769,1025,1537,2049,3073,4097,6145,8193,12289,16385,24577>>
DExt  == <<0,0,0,0,1,1,2,2,3,3,4,4,5,5,6,6,7,7,8,8,9,9,10,10,11,11,12,12,13,13>>
CLOrd == <<16,17,18,0,8,7,9,6,10,5,11,4,12,3,13,2,14,1,15>>

\* machine state: [st: "run"/"done"/"more"/"bad", ph: "head"/"codes", fin, p, out, L, D]
Halt(s, why) == [s EXCEPT !.st = why]
Copy(out, dist, len) == FoldLeft(LAMBDA o, i : Append(o, o[Len(o) - dist + 1]), out, Upto(len))

\* code lengths of a dynamic block: read n = nlen+ndist lengths
DynLens(T, in, p0, n) ==
  FoldLeft(LAMBDA a, i :
    IF a.st # "run" \/ Len(a.ls) >= n THEN a
    ELSE LET d == DecodeSym(T, in, a.p)
         IN  IF d.st # "ok" THEN [a EXCEPT !.st = d.st]
             ELSE IF d.sym < 16 THEN [a EXCEPT !.p = d.p, !.ls = Append(a.ls, d.sym)]
             ELSE LET eb == IF d.sym = 16 THEN 2 ELSE IF d.sym = 17 THEN 3 ELSE 7
                      base == IF d.sym = 18 THEN 11 ELSE 3
                  IN  IF d.sym = 16 /\ a.ls = <<>> THEN [a EXCEPT !.st = "bad"]
                      ELSE IF ~Have(in, d.p, eb) THEN [a EXCEPT !.st = "more"]
                      ELSE LET k == base + BitsVal(in, d.p, eb)
                               v == IF d.sym = 16 THEN a.ls[Len(a.ls)] ELSE 0
                           IN  IF Len(a.ls) + k > n THEN [a EXCEPT !.st = "bad"]
                               ELSE [a EXCEPT !.p = d.p + eb, !.ls = a.ls \o Rep(v, k)],
    [st |-> "run", p |-> p0, ls |-> <<>>], Upto(n))

DynHeader(s, in) ==
  IF ~Have(in, s.p, 14) THEN Halt(s, "more")
  ELSE
  LET nlen == BitsVal(in, s.p, 5) + 257
      ndist == BitsVal(in, s.p + 5, 5) + 1
      ncode == BitsVal(in, s.p + 10, 4) + 4
      p1 == s.p + 14
  IN
  IF nlen > 286 \/ ndist > 30 THEN Halt(s, "bad")
  ELSE IF ~Have(in, p1, 3 * ncode) THEN Halt(s, "more")
  ELSE
  LET cl == FoldLeft(LAMBDA a, i : [a EXCEPT ![1 + CLOrd[i]] = BitsVal(in, p1 + 3 * (i - 1), 3)],
                     Zeros(19), Upto(ncode))
      T == HuffTable(Eager(cl))
  IN
  IF T.left # 0 THEN Halt(s, "bad")
  ELSE
  LET r == DynLens(T, in, p1 + 3 * ncode, nlen + ndist)
  IN
  IF r.st # "run" THEN Halt(s, r.st)
  ELSE IF r.ls[257] = 0 THEN Halt(s, "bad")
  ELSE
  LET LT == HuffTable(Eager(Take(r.ls, nlen)))
      DT == HuffTable(Eager(Drop(r.ls, nlen)))
      okT(t) == t.left = 0 \/ (t.left > 0 /\ t.max <= 1)
  IN  IF ~okT(LT) \/ ~okT(DT) THEN Halt(s, "bad")
      ELSE [s EXCEPT !.ph = "codes", !.p = r.p, !.L = LT, !.D = DT]

Stored(s, in) ==
  LET b == (s.p + 7) \div 8          \* byte index (0-based) after alignment
  IN  IF b + 4 > Len(in) THEN Halt(s, "more")
      ELSE LET len == in[b+1] + 256 * in[b+2]
               nlen == in[b+3] + 256 * in[b+4]
           IN  IF len + nlen # 65535 \/ \E i \in 1..2 : XorB(in[b+i], in[b+2+i]) # 255 THEN Halt(s, "bad")
               ELSE IF b + 4 + len > Len(in)
                    THEN [s EXCEPT !.out = s.out \o Drop(in, b + 4), !.st = "more"]
                    ELSE [s EXCEPT !.out = s.out \o Slice(in, b + 5, len), !.p = 8 * (b + 4 + len),
                                   !.st = IF s.fin THEN "done" ELSE "run"]

BlockHead(s, in) ==
  IF ~Have(in, s.p, 3) THEN Halt(s, "more")
  ELSE LET t == [s EXCEPT !.fin = BitAt(in, s.p) = 1, !.p = s.p + 3]
           ty == BitsVal(in, s.p + 1, 2)
       IN  CASE ty = 0 -> Stored(t, in)
             [] ty = 1 -> [t EXCEPT !.ph = "codes", !.L = FixedLit, !.D = FixedDist]
             [] ty = 2 -> DynHeader(t, in)
             [] ty = 3 -> Halt(t, "bad")

Sym(s, in) ==
  LET d == DecodeSym(s.L, in, s.p)
  IN
  IF d.st # "ok" THEN Halt(s, d.st)
  ELSE IF d.sym < 256 THEN [s EXCEPT !.p = d.p, !.out = Append(s.out, d.sym)]
  ELSE IF d.sym = 256 THEN [s EXCEPT !.p = d.p, !.ph = "head", !.st = IF s.fin THEN "done" ELSE "run"]
  ELSE IF d.sym > 285 THEN Halt(s, "bad")
  ELSE
  LET i == d.sym - 256
  IN
  IF ~Have(in, d.p, LExt[i]) THEN Halt(s, "more")
  ELSE
  LET len == LBase[i] + BitsVal(in, d.p, LExt[i])
      e == DecodeSym(s.D, in, d.p + LExt[i])
  IN
  IF e.st # "ok" THEN Halt(s, e.st)
  ELSE IF e.sym > 29 THEN Halt(s, "bad")
  ELSE IF ~Have(in, e.p, DExt[e.sym + 1]) THEN Halt(s, "more")
  ELSE
  LET dist == DBase[e.sym + 1] + BitsVal(in, e.p, DExt[e.sym + 1])
  IN  IF dist > Len(s.out) THEN Halt(s, "bad")
      ELSE [s EXCEPT !.p = e.p + DExt[e.sym + 1], !.out = Copy(s.out, dist, len)]

InfStep(s, in) == IF s.ph = "head" THEN BlockHead(s, in) ELSE Sym(s, in)
Inf0(byte0) == [st |-> "run", ph |-> "head", fin |-> FALSE, p |-> 8 * byte0, out |-> <<>>, L |-> FixedLit, D |-> FixedDist]
\* every step consumes at least one bit
InfRun(in, byte0) == FoldLeft(LAMBDA s, i : IF s.st # "run" THEN s ELSE InfStep(s, in),
                              Inf0(byte0), Upto(8 * Len(in) + 8))
Adler(d) == LET r == FoldLeft(LAMBDA a, x : LET s1 == (a[1] + x) % 65521 IN <<s1, (a[2] + s1) % 65521>>, <<1, 0>>, d)
            IN  <<r[2] \div 256, r[2] % 256, r[1] \div 256, r[1] % 256>>

\* [st, out, used]: used = number of bytes of the stream when "done"
InflateRaw(in) == LET s == InfRun(in, 0)
                  IN  [st |-> s.st, out |-> s.out, used |-> (s.p + 7) \div 8]
InflateZlib(in) ==
  IF Len(in) < 2 THEN [st |-> "more", out |-> <<>>, used |-> 0]
  ELSE IF (256 * in[1] + in[2]) % 31 # 0 \/ in[1] % 16 # 8 \/ in[1] \div 16 > 7 \/ (in[2] \div 32) % 2 = 1
       THEN [st |-> "bad", out |-> <<>>, used |-> 0]
  ELSE LET s == InfRun(in, 2)
           e == (s.p + 7) \div 8
       IN  IF s.st # "done" THEN [st |-> s.st, out |-> s.out, used |-> e]
           ELSE IF Len(in) < e + 4 THEN [st |-> "more", out |-> s.out, used |-> e]
           ELSE IF Slice(in, e + 1, 4) # Adler(s.out) THEN [st |-> "bad", out |-> s.out, used |-> e]
           ELSE [st |-> "done", out |-> s.out, used |-> e + 4]
InflateAny(hdr, in) == IF hdr THEN InflateZlib(in) ELSE InflateRaw(in)
=============================================================================
