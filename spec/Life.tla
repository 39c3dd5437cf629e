------------------------------- MODULE Life -------------------------------
(***************************************************************************)
(* The streaming machines of Cryptokit.tla (PutT, FlushT, FinishT, TagA,   *)
(* ResultH, reads) explored exhaustively on small inputs and compared with *)
(* one-shot definitions written directly from the standards: every cut of  *)
(* the input into puts, every interleaving of puts, flushes and reads, of  *)
(* one or two objects.  Family selects the objects.                        *)
(***************************************************************************)
EXTENDS Cryptokit
CONSTANTS Family, MaxIn, MaxPut
VARIABLES lcfg, lst, lfed, lgot, lph, ltag
lvars == <<lcfg, lst, lfed, lgot, lph, ltag>>
Ids(cfg) == 1..Len(cfg)

\* ------------------------------------------------ direct definitions
FlatMap(n, op(_)) == FoldLeft(LAMBDA a, i : a \o op(i), <<>>, Upto(n))
DBlk(s, i, n) == SubSeq(s, n * (i - 1) + 1, n * i)
LastN(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
\* iterated encryption
RECURSIVE EIter(_, _, _), CbcC(_, _, _, _), CfbC(_, _, _, _, _)
EIter(c, b, k) == IF k = 0 THEN b ELSE CTr(c, EIter(c, b, k - 1))
CbcC(c, iv, s, i) == IF i = 0 THEN iv ELSE CTr(c, XorSeq(DBlk(s, i, c.bs), CbcC(c, iv, s, i - 1)))
\* ciphertext chunk i of CFB: the register holds the last bs bytes of iv followed by the ciphertext so far
CfbC(c, iv, n, s, i) == XorSeq(DBlk(s, i, n), CTr(c, LastN(iv \o FlatMap(i - 1, LAMBDA j : CfbC(c, iv, n, s, j)), c.bs)))
ToNum(s) == FoldLeft(LAMBDA a, i : 256 * a + s[i], 0, Upto(Len(s)))
FromNum(v, n) == Eager([i \in 1..n |-> (v \div 256^(n - i)) % 256])
CtrBlk(iv, n, k) == Take(iv, Len(iv) - n) \o FromNum((ToNum(LastN(iv, n)) + k) % 256^n, n)
\* whole blocks s under chain parameters; cn as given
ModeDef(c, m, n, dir, iv, s) ==
  LET bs == IF m \in {"cfb", "ofb"} THEN n ELSE c.bs
      nb == Len(s) \div bs
      B(i) == DBlk(s, i, bs)
  IN  CASE m = "ecb" -> FlatMap(nb, LAMBDA i : CTr(c, B(i)))
        [] m = "cbc" /\ dir = "enc" -> FlatMap(nb, LAMBDA i : CbcC(c, iv, s, i))
        [] m = "cbc" /\ dir = "dec" -> FlatMap(nb, LAMBDA i : XorSeq(CTr(c, B(i)), IF i = 1 THEN iv ELSE B(i - 1)))
        [] m = "cfb" /\ dir = "enc" -> FlatMap(nb, LAMBDA i : CfbC(c, iv, n, s, i))
        [] m = "cfb" /\ dir = "dec" -> FlatMap(nb, LAMBDA i : XorSeq(B(i), CTr(c, LastN(iv \o SubSeq(s, 1, n * (i - 1)), c.bs))))
        [] m = "ofb" -> FlatMap(nb, LAMBDA i : XorSeq(B(i), EIter(c, iv, i)))
        [] m = "ctr" -> FlatMap(nb, LAMBDA i : XorSeq(B(i), CTr(c, CtrBlk(iv, n, i - 1))))
ECipher(e) == MkCipher(e.alg, IF e.cls = "cipher" THEN PrimDir(e, FlatMode(e)) ELSE Fld(e, "pdir", e.dir), e.key, Fld(e, "bs", 0))
EN(e) == IF e.mode \in {"cfb", "ofb", "ctrn"} THEN e.cn ELSE ECipher(e).bs
EBs(e) == IF FlatMode(e) \in {"cfb", "ofb"} THEN EN(e) ELSE ECipher(e).bs
EIv(e) == IF Has(e, "iv") THEN e.iv ELSE Zeros(ECipher(e).bs)
EMode(e, s) == ModeDef(ECipher(e), FlatMode(e), EN(e), e.dir, EIv(e), s)
\* padding
DPad(p, s, bs) == LET k == bs - (Len(s) % bs)
                  IN  s \o (IF p = "length" THEN Rep(k, k) ELSE IF p = "8000" THEN <<128>> \o Rep(0, k - 1) ELSE <<1>> \o Rep(2, k - 1))
\* the data of which x is the padding
DUnpad(p, x, bs) == LET C == {u \in 0..Len(x) : Len(x) - u <= bs /\ DPad(p, Take(x, u), bs) = x}
                    IN  IF C = {} THEN [s |-> "E:Bad_padding", b |-> <<>>] ELSE [s |-> "ok", b |-> Take(x, CHOOSE u \in C : TRUE)]
\* Base64 and hexadecimal by bits
Bits(v, k) == Eager([i \in 1..k |-> (v \div 2^(k - i)) % 2])
OfBits(b) == FoldLeft(LAMBDA a, i : 2 * a + b[i], 0, Upto(Len(b)))
BitsOf(s, k) == FlatMap(Len(s), LAMBDA i : Bits(s[i], k))
Chunk(b, i, k) == LET x == SubSeq(b, k * (i - 1) + 1, Min2(k * i, Len(b))) IN x \o Rep(0, k - Len(x))
B64Alphabet == Eager([i \in 1..64 |-> IF i <= 26 THEN 64 + i ELSE IF i <= 52 THEN 70 + i ELSE IF i <= 62 THEN i - 5 ELSE IF i = 63 THEN 43 ELSE 47])
B64Text(s) == LET b == BitsOf(s, 8) IN Eager([i \in 1..((Len(b) + 5) \div 6) |-> B64Alphabet[1 + OfBits(Chunk(b, i, 6))]])
B64Line == 72
B64Def(v, s) == LET t == B64Text(s)
                    full == Len(t) \div B64Line
                    p == IF v = "compact" THEN t ELSE t \o Rep(61, (4 - (Len(t) % 4)) % 4)
                    nl == Len(p) \div B64Line
                    rest == Drop(p, B64Line * nl)
                    \* the final newline is there only if a full group is on the last line
                    lastnl == IF Len(s) \div 3 > 18 * ((Len(s) \div 3) \div 18) THEN <<10>> ELSE <<>>
                    m == (Len(s) \div 3) \div 18
                IN  IF v # "multiline" THEN p
                    ELSE FlatMap(m, LAMBDA i : DBlk(p, i, B64Line) \o <<10>>) \o Drop(p, B64Line * m) \o lastnl
NonBlank(s) == SelectSeq(s, LAMBDA c : c \notin {32, 9, 10, 13})
B64DecDef(s) ==
  LET t == NonBlank(s)
      d == SelectSeq(t, LAMBDA c : c # 61)
      okc == \A i \in 1..Len(d) : \E j \in 1..64 : B64Alphabet[j] = d[i]
      tail == \E i, j \in 1..Len(t) : i < j /\ t[i] = 61 /\ t[j] # 61
      b == BitsOf(Eager([i \in 1..Len(d) |-> (CHOOSE j \in 1..64 : B64Alphabet[j] = d[i]) - 1]), 6)
  IN  IF ~okc \/ tail \/ Len(d) % 4 = 1 THEN [s |-> "E:Bad_encoding", b |-> <<>>]
      ELSE [s |-> "ok", b |-> Eager([i \in 1..(Len(b) \div 8) |-> OfBits(DBlk(b, i, 8))])]
HexDigits == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 97, 98, 99, 100, 101, 102>>
Lower(c) == IF c \in 65..70 THEN c + 32 ELSE c
HexDecDef(s) ==
  LET t == NonBlank(s)
      ok == \A i \in 1..Len(t) : \E j \in 1..16 : HexDigits[j] = Lower(t[i])
      v(c) == (CHOOSE j \in 1..16 : HexDigits[j] = Lower(c)) - 1
  IN  IF ~ok \/ Len(t) % 2 = 1 THEN [s |-> "E:Bad_encoding", b |-> <<>>]
      ELSE [s |-> "ok", b |-> Eager([i \in 1..(Len(t) \div 2) |-> 16 * v(t[2 * i - 1]) + v(t[2 * i])])]
\* key streams by position
ChaAt(e, i) == LET w0 == ChaInit(e.key, Fld(e, "iv", Zeros(8)), Fld(e, "ctr8", Zeros(8)))
                   k == (i - 1) \div 64
                   lo == Add(w0[13], k)
                   iv12 == Len(Fld(e, "iv", Zeros(8))) = 12
                   cy == IF ~iv12 /\ w0[13] < 0 /\ lo >= 0 THEN 1 ELSE 0
               IN  ChaBlock([w0 EXCEPT ![13] = lo, ![14] = Add(w0[14], cy)])[1 + ((i - 1) % 64)]
\* one-shot definition of the object created by event e: [s, b]
OkB(b) == [s |-> "ok", b |-> b]
RECURSIVE Def(_, _, _)
Def(cfg, k, s) ==
  LET e == cfg[k] IN
  CASE e.cls \in {"cipher", "bcipher"} /\ ~Has(e, "pad") ->
         IF Len(s) % EBs(e) # 0 THEN [s |-> "E:Wrong_data_length", b |-> <<>>] ELSE OkB(EMode(e, s))
    [] e.cls \in {"cipher", "bcipher"} /\ Has(e, "pad") /\ e.dir = "enc" -> OkB(EMode(e, DPad(e.pad, s, EBs(e))))
    [] e.cls \in {"cipher", "bcipher"} /\ Has(e, "pad") /\ e.dir = "dec" ->
         IF s = <<>> \/ Len(s) % EBs(e) # 0 THEN [s |-> "E:Wrong_data_length", b |-> <<>>] ELSE DUnpad(e.pad, EMode(e, s), EBs(e))
    [] e.cls = "chacha20" -> OkB(XorSeq(s, Eager([i \in 1..Len(s) |-> ChaAt(e, i)])))
    [] e.cls = "arcfour" -> OkB(XorSeq(s, RC4Take(RC4Init(e.key), Len(s))[1]))
    [] e.cls = "b64enc" -> OkB(B64Def(e.v, s))
    [] e.cls = "b64dec" -> B64DecDef(s)
    [] e.cls = "hexenc" -> OkB(FlatMap(Len(s), LAMBDA i : <<HexDigits[1 + (s[i] \div 16)], HexDigits[1 + (s[i] % 16)]>>))
    [] e.cls = "hexdec" -> HexDecDef(s)
    [] e.cls = "compose" -> LET r == Def(cfg, e.a, s) IN IF r.s # "ok" THEN r ELSE Def(cfg, e.b, r.b)
    [] e.cls \in {"then_hash", "and_hash"} -> Def(cfg, e.a, s)
    [] e.cls = "hash" -> OkB(<<>>)
    [] e.cls \in {"gcm", "chapoly"} -> OkB(AEADAll(e.cls, e.dir, e.key, e.iv, Fld(e, "hdr", <<>>), s).out)
TagDef(cfg, k, s) ==
  LET e == cfg[k] IN
  CASE e.cls = "then_hash" -> Digest(cfg[e.h].alg, cfg[e.h], Def(cfg, e.a, s).b).b
    [] e.cls = "and_hash" -> Digest(cfg[e.h].alg, cfg[e.h], s).b
    [] e.cls = "hash" -> Digest(e.alg, e, s).b
    [] e.cls \in {"gcm", "chapoly"} -> AEADAll(e.cls, e.dir, e.key, e.iv, Fld(e, "hdr", <<>>), s).tag

\* ------------------------------------------------ the objects explored
K2 == <<5, 77>>
IV2 == <<7, 254>>
K16 == Eager([i \in 1..16 |-> (29 * i + 3) % 256])
IV3 == <<7, 255, 254>>
BC(bs, m, n, d, p) == [cls |-> "bcipher", alg |-> "toy", key |-> K2, bs |-> bs, mode |-> m, cn |-> n, dir |-> d,
                       pdir |-> IF m \in {"cfb", "ofb", "ctr", "ctrn"} THEN "enc" ELSE d, iv |-> IF bs = 2 THEN IV2 ELSE IV3]
                      @@ (IF p = "none" THEN [cls |-> "bcipher"] ELSE [pad |-> p])
Modes == {<<"ecb", 0>>, <<"cbc", 0>>, <<"cfb", 1>>, <<"cfb", 2>>, <<"ofb", 1>>, <<"ofb", 2>>, <<"ctr", 0>>, <<"ctrn", 1>>, <<"ctrn", 2>>}
SHash == [cls |-> "hash", alg |-> "siphash", key |-> K16]
Simple == {BC(2, "cbc", 0, "enc", "none"), BC(2, "cbc", 0, "dec", "length"), BC(3, "ctr", 0, "enc", "8000"), [cls |-> "hexenc"], [cls |-> "hexdec"],
           [cls |-> "b64enc", v |-> "compact_pad"], [cls |-> "b64dec"]}
Cfgs ==
  CASE Family = "chain" -> {<<BC(bs, m[1], m[2], d, "none")>> : bs \in {2, 3}, m \in Modes, d \in {"enc", "dec"}}
                           \cup {<<BC(3, m, 3, d, "none")>> : m \in {"cfb", "ofb", "ctrn"}, d \in {"enc", "dec"}}
    [] Family = "pad" -> {<<BC(bs, m[1], m[2], d, p)>> : bs \in {2, 3}, m \in {<<"ecb", 0>>, <<"cbc", 0>>, <<"cfb", 1>>, <<"ctr", 0>>}, d \in {"enc", "dec"}, p \in {"length", "8000", "toy"}}
    [] Family = "codec" -> {<<[cls |-> c]>> : c \in {"hexenc", "hexdec", "b64dec"}} \cup {<<[cls |-> "b64enc", v |-> v]>> : v \in {"multiline", "compact", "compact_pad"}}
    [] Family = "stream" -> {<<[cls |-> "chacha20", key |-> K16, ctr8 |-> c]>> : c \in {Zeros(8), <<0, 0, 0, 1, 255, 255, 255, 255>>}}
                            \cup {<<[cls |-> "chacha20", key |-> K16 \o K16, iv |-> Take(K16, 12), ctr8 |-> <<0, 0, 0, 0, 255, 255, 255, 255>>]>>}
                            \cup {<<[cls |-> "arcfour", key |-> K2]>>}
    [] Family = "comp" -> {<<a, b, [cls |-> "compose", a |-> 1, b |-> 2]>> : a \in Simple, b \in Simple}
    [] Family = "comp3" -> {<<a, b, c, [cls |-> "compose", a |-> 1, b |-> 2], [cls |-> "compose", a |-> 4, b |-> 3]>> :
                              a \in {BC(2, "cbc", 0, "enc", "length"), [cls |-> "hexenc"]}, b \in Simple, c \in {BC(2, "cfb", 1, "dec", "none"), [cls |-> "b64enc", v |-> "compact"]}}
                            \cup {<<a, b, c, [cls |-> "compose", a |-> 2, b |-> 3], [cls |-> "compose", a |-> 1, b |-> 4]>> :
                              a \in {BC(2, "cbc", 0, "enc", "length"), [cls |-> "hexenc"]}, b \in Simple, c \in {BC(2, "cfb", 1, "dec", "none"), [cls |-> "b64enc", v |-> "compact"]}}
    [] Family = "auth" -> {<<a, SHash, [cls |-> k, a |-> 1, h |-> 2]>> : a \in Simple, k \in {"then_hash", "and_hash"}}
    [] Family = "hash" -> {<<SHash>>, <<[cls |-> "hash", alg |-> "mac_toy", key |-> K2, bs |-> 2, pad |-> "8000"]>>, <<[cls |-> "hash", alg |-> "mac_toy", key |-> K2, bs |-> 3, pad |-> "length", iv |-> IV3]>>}
    [] Family = "aead" -> {<<[cls |-> c, dir |-> d, key |-> K16, iv |-> Take(K16, n), hdr |-> h]>> : c \in {"gcm", "chapoly"}, d \in {"enc", "dec"}, n \in {8, 12}, h \in {<<>>, K2}}
    [] Family = "two" -> {<<a, b>> : a \in {BC(2, "cbc", 0, "enc", "length"), BC(2, "ctrn", 1, "enc", "none"), [cls |-> "b64dec"], SHash}, b \in Simple}
\* the objects used directly: the last one, or both
Tops(cfg) == IF Family = "two" THEN {1, 2} ELSE {Len(cfg)}
InByte(c, i) == CASE c = 1 -> (i * 73) % 256 [] OTHER -> c
Alphabet(cfg) ==
  LET e == cfg[1] IN
  IF Family \in {"stream", "aead"} THEN {1}
  ELSE IF e.cls = "b64dec" THEN {65, 47, 61, 32, 33} ELSE IF e.cls = "hexdec" THEN {48, 70, 10, 71}
  ELSE IF Has(e, "pad") /\ Has(e, "dir") /\ e.dir = "dec" THEN {0, 1, 37} ELSE {0, 130}
\* sizes of the pieces
Sizes == IF Family \in {"stream", "aead"} THEN {n \in {0, 1, 15, 16, 17, 63, 64} : n <= MaxPut} ELSE 0..MaxPut
RECURSIVE Strs(_, _)
Strs(A, n) == IF n = 0 THEN {<<>>} ELSE {Append(x, c) : x \in Strs(A, n - 1), c \in A}
Pieces(cfg, fed) == IF Family \in {"stream", "aead"} THEN {Eager([i \in 1..n |-> InByte(1, Len(fed) + i)]) : n \in Sizes}
                    ELSE UNION {Strs(Alphabet(cfg), n) : n \in Sizes}

\* ------------------------------------------------ the machine
RECURSIVE Build(_, _, _)
Build(cfg, k, st) == IF k > Len(cfg) THEN st ELSE Build(cfg, k + 1, Upd(st, k, NewObj(st, cfg[k]).o))
Empty == [zz \in {} |-> 0]
Init == /\ lcfg \in Cfgs
        /\ lst = Build(lcfg, 1, Empty)
        /\ lfed = [k \in Tops(lcfg) |-> <<>>] /\ lgot = [k \in Tops(lcfg) |-> <<>>]
        /\ lph = [k \in Tops(lcfg) |-> "open"] /\ ltag = [k \in Tops(lcfg) |-> <<>>]
IsHash(k) == lcfg[k].cls = "hash"
IsAuth(k) == lcfg[k].cls \in {"then_hash", "and_hash", "gcm", "chapoly"}
Put(k) == /\ lph[k] = "open"
          /\ \E d \in Pieces(lcfg, lfed[k]) :
               /\ Len(lfed[k]) + Len(d) <= MaxIn
               /\ LET r == PutT(lst, k, d, "ok")
                  IN  /\ lst' = r.st
                      /\ lfed' = [lfed EXCEPT ![k] = lfed[k] \o d]
                      /\ lph' = [lph EXCEPT ![k] = IF r.s = "ok" THEN "open" ELSE r.s]
          /\ UNCHANGED <<lcfg, lgot, ltag>>
\* (not on padded decryption: the library releases the last block at a flush, padding included,
\* so that a flush there must not come at the end; see DESIGN.md)
PadDec(k) == Has(lcfg[k], "pad") /\ Has(lcfg[k], "dir") /\ lcfg[k].dir = "dec"
Flush(k) == /\ lph[k] = "open" /\ ~IsHash(k) /\ ~IsAuth(k) /\ \A j \in 1..Len(lcfg) : ~PadDec(j)
            /\ LET r == FlushT(lst, k, "ok")
               IN  IF r.s = "ok" THEN lst' = r.st /\ lph' = lph
                   ELSE lst' = r.st /\ lph' = [lph EXCEPT ![k] = IF IsDead(r.st, k) THEN "dead" ELSE "open"]
            /\ UNCHANGED <<lcfg, lfed, lgot, ltag>>
Read(k) == /\ lph[k] \in {"open", "fin"} /\ ~IsHash(k) /\ OutOf(lst, k) # <<>>
           /\ LET q == OutOf(lst, k) IN
              \E n \in {1, Len(q)} :
                 lst' = SetOut(lst, k, Drop(q, n)) /\ lgot' = [lgot EXCEPT ![k] = lgot[k] \o Take(q, n)]
           /\ UNCHANGED <<lcfg, lfed, lph, ltag>>
Finish(k) == /\ lph[k] = "open"
             /\ IF IsHash(k) THEN LET r == ResultH(lst, k) IN lst' = r.st /\ lph' = [lph EXCEPT ![k] = "fin"] /\ ltag' = [ltag EXCEPT ![k] = r.b]
                ELSE IF IsAuth(k) THEN LET r == TagA(lst, k, "ok")
                                       IN lst' = r.st /\ lph' = [lph EXCEPT ![k] = IF r.s = "ok" THEN "fin" ELSE r.s] /\ ltag' = [ltag EXCEPT ![k] = r.b]
                ELSE LET r == FinishT(lst, k, "ok")
                     IN lst' = r.st /\ lph' = [lph EXCEPT ![k] = IF r.s = "ok" THEN "fin" ELSE r.s] /\ ltag' = ltag
             /\ UNCHANGED <<lcfg, lfed, lgot>>
Next == \E k \in Tops(lcfg) : Put(k) \/ Flush(k) \/ Read(k) \/ Finish(k)
\* the object of the machine is a function of what was fed, flushed and read
View == <<lcfg, lfed, lgot, lph, ltag, lst>>

\* ------------------------------------------------ properties
Avail(k) == IF IsHash(k) \/ lst[k].k = "dead" THEN <<>> ELSE OutOf(lst, k)
\* finished: everything that came out is the one-shot function of everything that went in; errors agree
Whole == \A k \in Tops(lcfg) :
           /\ lph[k] = "fin" => LET r == Def(lcfg, k, lfed[k]) IN
                 /\ r.s = "ok" /\ lgot[k] \o Avail(k) = r.b
                 /\ (IsHash(k) \/ IsAuth(k) => ltag[k] = TagDef(lcfg, k, lfed[k]))
           /\ lph[k] \notin {"open", "fin", "dead"} => LET r == Def(lcfg, k, lfed[k]) IN
                 \* (of a composition in error either component may be the first to notice)
                 IF lcfg[k].cls \in {"compose", "then_hash", "and_hash"} THEN r.s # "ok" ELSE r.s = lph[k]
\* before: the output so far is a prefix of every completion's output; here, of the completion by what makes whole blocks
FullBlocks(k) == LET e == lcfg[k] IN
  IF e.cls = "bcipher" THEN EMode(e, Take(lfed[k], (Len(lfed[k]) \div EBs(e)) * EBs(e))) ELSE <<>>
Prefix == \A k \in Tops(lcfg) :
            lph[k] = "open" /\ lcfg[k].cls = "bcipher" =>
               LET o == lgot[k] \o Avail(k)  w == FullBlocks(k) bs == EBs(lcfg[k]) IN
               /\ IsPrefix(o, w) /\ Len(w) - Len(o) <= bs
               /\ lst[k].pend = LastN(lfed[k], Len(lfed[k]) - Len(o))
\* a flush leaves nothing behind but an incomplete block
Flushed == \A k \in Tops(lcfg) :
             lph[k] = "open" /\ lcfg[k].cls = "bcipher" =>
               LET r == FlushT(lst, k, "ok") IN
               (r.s = "ok" <=> Len(lfed[k]) % EBs(lcfg[k]) = 0) /\ (r.s = "ok" => lgot[k] \o OutOf(r.st, k) = FullBlocks(k))
\* decryption of what was encrypted
InvertsBack == \A k \in Tops(lcfg) :
             LET e == lcfg[k] IN
             lph[k] = "fin" /\ e.cls = "bcipher" /\ e.dir = "enc" =>
               LET d == [e EXCEPT !.dir = "dec", !.pdir = IF e.pdir = "enc" /\ FlatMode(e) \in {"cfb", "ofb", "ctr"} THEN "enc" ELSE "dec"]
               IN  Def(<<d>>, 1, Def(lcfg, k, lfed[k]).b) = OkB(lfed[k])
\* padding adds 1..bs bytes and fills whole blocks
PadLen == \A k \in Tops(lcfg) :
             LET e == lcfg[k] IN
             lph[k] = "fin" /\ e.cls = "bcipher" /\ e.dir = "enc" /\ Has(e, "pad") =>
               LET n == Len(lgot[k] \o Avail(k)) IN n % EBs(e) = 0 /\ n > Len(lfed[k]) /\ n <= Len(lfed[k]) + EBs(e)
=============================================================================
