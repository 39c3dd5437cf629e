----------------------------- MODULE Cryptokit -----------------------------
(***************************************************************************)
(* The library as a state machine.  The state `st` maps object identifiers *)
(* to abstract objects; an event `e` is a call on the public interface     *)
(* together with its observed result (e.s: status, e.n: integer, e.rb:     *)
(* bytes).  Step(st, e) says whether the observed result is one the        *)
(* specification allows, and gives the next state:                         *)
(*    [ok |-> BOOLEAN, st |-> next state, exp |-> expected result]         *)
(*                                                                         *)
(* Abstract objects hold only what the specification needs: the chaining   *)
(* state, the input not yet processed, the output not yet read.  An object *)
(* whose further behaviour is not specified (after an error that may have  *)
(* consumed part of the input, after wipe, ...) is "dead": anything goes,  *)
(* except crashing, hanging or touching memory it does not own.            *)
(***************************************************************************)
EXTENDS Crypto, Bulk, Codecs, Inflate, PubKey, TLC

None == {}
Dead == [cls |-> "dead", k |-> "dead"]
Wiped == [cls |-> "dead", k |-> "dead", w |-> TRUE]
Upd(st, i, o) == (i :> o) @@ st
Has(e, f) == f \in DOMAIN e

Fatal == {"crash", "hang", "X:Stack_overflow", "X:Out_of_memory", "X:other"}
\* ---- result comparison ----
\* (the next state is only meaningful, and only evaluated, if the event is accepted)
Verdict(c, st, x) == IF c THEN [ok |-> TRUE, st |-> st, exp |-> <<>>] ELSE [ok |-> FALSE, st |-> <<>>, exp |-> x]
R(st, s, n, b, e) == Verdict(e.s = s /\ e.n = n /\ e.rb = b, st, <<s, n, b>>)
OkR(st, e) == R(st, "ok", 0, <<>>, e)
\* any exception will do
Raises(st, e) == Verdict(e.s # "ok" /\ e.s \notin Fatal, st, <<"some exception", 0, <<>> >>)
AnyOk(st, e) == Verdict(e.s \notin {"crash", "hang"}, st, <<"anything but a crash", 0, <<>> >>)
Cond(c, st, what) == Verdict(c, st, <<what, 0, <<>> >>)

-----------------------------------------------------------------------------
\* Transforms: feeding, flushing, finishing.  All return [st, s].
Res(st, s) == [st |-> st, s |-> s]
BlockOut(o, data, nb) == LET r == ChainRun(o.ch, data, nb)
                         IN  [o EXCEPT !.ch = r.ch, !.out = o.out \o r.out]
\* processing nb blocks of buf by object i; rest stays pending.  obs is the observed status.
BlockPut(st, i, o, buf, nb, obs) ==
  LET bs == ChunkSize(o.ch)
  IN  IF CtrMustRefuse(o.ch, nb) \/ (CtrMayRefuse(o.ch, nb) /\ obs = "E:Message_too_long")
      THEN LET k == IF CtrMustRefuse(o.ch, nb) /\ obs # "E:Message_too_long" THEN 0
                    ELSE CtrLimit(o.ch.n) - 1 - o.ch.cnt      \* blocks delivered before the refusal
           IN  Res(Upd(st, i, [BlockOut(o, buf, IF k < 0 THEN 0 ELSE k) EXCEPT !.k = "refused"]), "E:Message_too_long")
      ELSE Res(Upd(st, i, [BlockOut(o, buf, nb) EXCEPT !.pend = Drop(buf, nb * bs)]), "ok")

RECURSIVE PutT(_, _, _, _), Drain(_, _), FlushT(_, _, _), FinishT(_, _, _), OutOf(_, _), SetOut(_, _, _), WipeO(_, _)
\* the unread output of an object, and its replacement
OutOf(st, i) == LET o == st[i] IN
  CASE o.k = "comp" -> OutOf(st, o.b)
    [] o.k = "ah" -> OutOf(st, o.a)
    [] o.k = "spy" -> OutOf(st, o.a)
    [] OTHER -> o.out
SetOut(st, i, v) == LET o == st[i] IN
  CASE o.k = "comp" -> SetOut(st, o.b, v)
    [] o.k = "ah" -> SetOut(st, o.a, v)
    [] o.k = "spy" -> SetOut(st, o.a, v)
    [] OTHER -> Upd(st, i, [o EXCEPT !.out = v])
Drain(st, i) == SetOut(st, i, <<>>)

StreamTake(o, n) == CASE o.sc = "chacha" -> ChaTake(o.s, n)
                      [] o.sc = "rc4" -> RC4Take(o.s, n)
                      [] o.sc = "toy" -> <<Eager([j \in 1..n |-> (o.s.key[1 + ((o.s.pos + j - 1) % Len(o.s.key))]
                                                                  + 3 * (o.s.pos + j - 1)) % 256]),
                                           [o.s EXCEPT !.pos = o.s.pos + n]>>
PutT(st, i, d, obs) ==
  LET o == st[i] IN
  CASE o.k = "block" ->
         LET buf == o.pend \o d
             bs == ChunkSize(o.ch)
         IN  BlockPut(st, i, o, buf, IF buf = <<>> THEN 0 ELSE (Len(buf) - 1) \div bs, obs)
    [] o.k = "stream" -> LET r == StreamTake(o, Len(d))
                         IN  Res(Upd(st, i, [o EXCEPT !.s = r[2], !.out = o.out \o XorSeq(d, r[1])]), "ok")
    [] o.k = "b64e" -> LET r == B64EncPut(o, d)
                       IN  Res(Upd(st, i, [r.o EXCEPT !.out = o.out \o r.out]), "ok")
    [] o.k = "b64d" -> LET r == B64DecPut(o.pend, o.eq, d)
                       IN  IF r.bad THEN Res(Upd(st, i, Dead), "E:Bad_encoding")
                           ELSE Res(Upd(st, i, [o EXCEPT !.pend = r.pend, !.eq = r.fin, !.out = o.out \o r.out]), "ok")
    [] o.k = "hexe" -> Res(Upd(st, i, [o EXCEPT !.out = o.out \o HexEnc(d)]), "ok")
    [] o.k = "hexd" -> LET r == HexDecPut(o.pend, d)
                       IN  IF r.bad THEN Res(Upd(st, i, Dead), "E:Bad_encoding")
                           ELSE Res(Upd(st, i, [o EXCEPT !.pend = r.pend, !.out = o.out \o r.out]), "ok")
    [] o.k = "comp" -> LET r == PutT(st, o.a, d, obs)
                       IN  IF r.s # "ok" THEN Res(Upd(r.st, i, Dead), r.s)
                           ELSE LET x == OutOf(r.st, o.a)
                                    q == PutT(Drain(r.st, o.a), o.b, x, obs)
                                IN  IF q.s = "ok" THEN q ELSE Res(Upd(q.st, i, Dead), q.s)
    [] o.k = "gcm" -> LET buf == o.pend \o d
                          nb == IF buf = <<>> THEN 0 ELSE (Len(buf) - 1) \div 16
                          r == GcmRun(o.g, o.dir, Take(buf, 16 * nb))
                      IN  Res(Upd(st, i, [o EXCEPT !.g = r.g, !.pend = Drop(buf, 16 * nb), !.out = o.out \o r.out]), "ok")
    [] o.k = "cp" -> LET r == CpRun(o.g, o.dir, d)
                     IN  Res(Upd(st, i, [o EXCEPT !.g = r.g, !.out = o.out \o r.out]), "ok")
    [] o.k = "hash" -> Res(Upd(st, i, [o EXCEPT !.msg = o.msg \o d]), "ok")
    [] o.k = "th" -> LET r == PutT(st, o.a, d, obs)
                     IN  IF r.s # "ok" THEN Res(Upd(r.st, i, Dead), r.s)
                         ELSE LET x == OutOf(r.st, o.a)
                                  q == PutT(Drain(r.st, o.a), o.h, x, obs)
                              IN  Res(Upd(q.st, i, [o EXCEPT !.out = o.out \o x]), "ok")
    [] o.k = "ah" -> LET r == PutT(st, o.a, d, obs)
                     IN  IF r.s # "ok" THEN Res(Upd(r.st, i, Dead), r.s)
                         ELSE PutT(r.st, o.h, d, obs)
    [] o.k = "spy" -> PutT(st, o.a, d, obs)
    [] o.k = "refused" -> Res(st, IF obs = "ok" THEN "ok" ELSE "E:Message_too_long")

FlushT(st, i, obs) ==
  LET o == st[i] IN
  CASE o.k = "block" -> IF o.pend = <<>> THEN Res(st, "ok")
                        ELSE IF Len(o.pend) = ChunkSize(o.ch) THEN BlockPut(st, i, o, o.pend, 1, obs)
                        ELSE Res(st, "E:Wrong_data_length")
    [] o.k \in {"stream", "hexe"} -> Res(st, "ok")
    [] o.k \in {"b64e", "b64d"} -> Res(st, "E:Wrong_data_length")
    [] o.k = "hexd" -> Res(st, IF o.pend = <<>> THEN "ok" ELSE "E:Wrong_data_length")
    [] o.k = "comp" -> LET r == FlushT(st, o.a, obs)
                       IN  IF r.s # "ok" THEN r
                           ELSE LET x == OutOf(r.st, o.a)
                                    q == PutT(Drain(r.st, o.a), o.b, x, obs)
                                IN  IF q.s # "ok" THEN Res(Upd(q.st, i, Dead), q.s) ELSE FlushT(q.st, o.b, obs)
    [] o.k = "spy" -> FlushT(st, o.a, obs)
    [] o.k = "refused" -> Res(st, IF obs = "ok" THEN "ok" ELSE "E:Message_too_long")

FinO(o) == [o EXCEPT !.fin = TRUE]
FinishT(st, i, obs) ==
  LET o == st[i] IN
  CASE o.k = "block" /\ o.pad = "none" ->
         LET r == FlushT(st, i, obs)
         IN  Res(Upd(r.st, i, FinO(r.st[i])), r.s)
    [] o.k = "block" /\ o.pad # "none" /\ o.dir = "enc" ->
         LET bs == ChunkSize(o.ch)
             data == IF Len(o.pend) = bs THEN o.pend \o PadBlock(o.pad, <<>>, bs)
                     ELSE PadBlock(o.pad, o.pend, bs)
             r == BlockPut(st, i, o, data, Len(data) \div bs, obs)
         IN  Res(Upd(r.st, i, FinO(r.st[i])), r.s)
    [] o.k = "block" /\ o.pad # "none" /\ o.dir = "dec" ->
         LET bs == ChunkSize(o.ch)
         IN  IF Len(o.pend) # bs THEN Res(Upd(st, i, FinO(o)), "E:Wrong_data_length")
             ELSE LET r == ChainRun(o.ch, o.pend, 1)
                      t == Strip(o.pad, r.out)
                  IN  IF t.ok THEN Res(Upd(st, i, FinO([o EXCEPT !.out = o.out \o Take(r.out, t.n)])), "ok")
                      ELSE Res(Upd(st, i, FinO(o)), "E:Bad_padding")
    [] o.k \in {"stream", "hexe"} -> Res(Upd(st, i, FinO(o)), "ok")
    [] o.k = "b64e" -> Res(Upd(st, i, FinO([o EXCEPT !.out = o.out \o B64EncFinish(o)])), "ok")
    [] o.k = "b64d" -> LET r == B64DecFinish(o.pend)
                       IN  IF r.ok THEN Res(Upd(st, i, FinO([o EXCEPT !.out = o.out \o r.out])), "ok")
                           ELSE Res(Upd(st, i, FinO(o)), "E:Bad_encoding")
    [] o.k = "hexd" -> Res(Upd(st, i, FinO(o)), IF o.pend = <<>> THEN "ok" ELSE "E:Bad_encoding")
    [] o.k = "comp" -> LET r == FinishT(st, o.a, obs)
                       IN  IF r.s # "ok" THEN Res(Upd(r.st, i, Dead), r.s)
                           ELSE LET x == OutOf(r.st, o.a)
                                    q == PutT(Drain(r.st, o.a), o.b, x, obs)
                                IN  IF q.s # "ok" THEN Res(Upd(q.st, i, Dead), q.s)
                                    ELSE LET z == FinishT(q.st, o.b, obs)
                                         IN  Res(Upd(z.st, i, FinO(o)), z.s)
    [] o.k = "spy" -> FinishT(st, o.a, obs)
    [] o.k = "refused" -> Res(st, IF obs = "ok" THEN "ok" ELSE "E:Message_too_long")

\* a finished object takes no more input (see the interface documentation)
RECURSIVE IsFin(_, _), IsDead(_, _)
IsFin(st, i) == LET o == st[i] IN IF o.k = "spy" THEN IsFin(st, o.a) ELSE (Has(o, "fin") /\ o.fin)
IsDead(st, i) == LET o == st[i] IN
  IF o.k = "dead" THEN TRUE
  ELSE IF o.k = "spy" THEN IsDead(st, o.a)
  ELSE IF o.k = "comp" THEN IsDead(st, o.a) \/ IsDead(st, o.b)
  ELSE IF o.k \in {"th", "ah"} THEN IsDead(st, o.a) \/ IsDead(st, o.h)
  ELSE FALSE

\* hash results and authentication tags: [st, s, b]
RECURSIVE ResultH(_, _), TagA(_, _, _), TagSizeO(_, _), HSize(_, _)
ResultH(st, i) ==
  LET o == st[i] IN
  IF o.k = "spy" THEN ResultH(st, o.a)
  ELSE LET r == Digest(o.alg, o.a, o.msg)
       IN  [st |-> Upd(st, i, FinO(o)), s |-> r.s, b |-> r.b]
HSize(st, i) == LET o == st[i] IN IF o.k = "spy" THEN HSize(st, o.a) ELSE DigestSize(o.alg, o.a)
TagSizeO(st, i) == LET o == st[i] IN
  CASE o.k \in {"gcm", "cp"} -> 16 [] o.k \in {"th", "ah"} -> HSize(st, o.h) [] o.k = "spy" -> TagSizeO(st, o.a)
TagA(st, i, obs) ==
  LET o == st[i] IN
  CASE o.k = "gcm" -> LET r == GcmRun(o.g, o.dir, o.pend)
                      IN  [st |-> Upd(st, i, FinO([o EXCEPT !.out = o.out \o r.out])), s |-> "ok", b |-> GcmTag(r.g)]
    [] o.k = "cp" -> [st |-> Upd(st, i, FinO(o)), s |-> "ok", b |-> CpTag(o.g)]
    [] o.k = "th" -> LET r == FinishT(st, o.a, obs)
                     IN  IF r.s # "ok" THEN [st |-> Upd(r.st, i, Dead), s |-> r.s, b |-> <<>>]
                         ELSE LET x == OutOf(r.st, o.a)
                                  q == PutT(Drain(r.st, o.a), o.h, x, obs)
                                  z == ResultH(q.st, o.h)
                              IN  [st |-> Upd(z.st, i, FinO([o EXCEPT !.out = o.out \o x])), s |-> z.s, b |-> z.b]
    [] o.k = "ah" -> LET r == FinishT(st, o.a, obs)
                     IN  IF r.s # "ok" THEN [st |-> Upd(r.st, i, Dead), s |-> r.s, b |-> <<>>]
                         ELSE LET z == ResultH(r.st, o.h)
                              IN  [st |-> Upd(z.st, i, FinO(o)), s |-> z.s, b |-> z.b]
    [] o.k = "spy" -> TagA(st, o.a, obs)

\* wiping: the object and all its components become unusable; spies count
WipeO(st, i) ==
  LET o == st[i] IN
  CASE o.k = "spy" -> WipeO(Upd(st, i, [o EXCEPT !.wipes = o.wipes + 1]), o.a)
    [] o.k = "comp" -> Upd(WipeO(WipeO(st, o.a), o.b), i, Wiped)
    [] o.k \in {"th", "ah"} -> Upd(WipeO(WipeO(st, o.a), o.h), i, Wiped)
    [] Has(o, "sub") -> FoldLeft(LAMBDA s, j : WipeO(s, j), Upd(st, i, Wiped), o.sub)
    [] OTHER -> Upd(st, i, Wiped)

\* after a failure whose effect is not specified (spies lose count: wipes = -1)
RECURSIVE KillO(_, _)
KillO(st, i) ==
  LET o == st[i] IN
  CASE o.k = "spy" -> KillO(Upd(st, i, [o EXCEPT !.wipes = -1]), o.a)
    [] o.k = "comp" -> Upd(KillO(KillO(st, o.a), o.b), i, Dead)
    [] o.k \in {"th", "ah"} -> Upd(KillO(KillO(st, o.a), o.h), i, Dead)
    [] Has(o, "sub") -> FoldLeft(LAMBDA s, j : KillO(s, j), Upd(st, i, Dead), o.sub)
    [] OTHER -> Upd(st, i, Dead)

-----------------------------------------------------------------------------
\* Constructors: [s, o]
New(s, o) == [s |-> s, o |-> o]
NewErr(s) == New(s, Dead)
FlatMode(e) == IF e.mode = "default" THEN "cbc" ELSE IF e.mode = "ctrn" THEN "ctr" ELSE e.mode
\* direction given to the block primitive by the high-level constructors
PrimDir(e, m) == IF m \in {"cfb", "ofb", "ctr"} THEN "enc" ELSE e.dir
\* chain from explicit parameters, or an error
MkCh(e, m, c) ==
  LET n == IF e.mode \in {"cfb", "ofb", "ctrn"} THEN e.cn ELSE c.bs
  IN  IF m # "ecb" /\ Has(e, "iv") /\ Len(e.iv) # c.bs THEN [s |-> "E:Wrong_IV_size", ch |-> <<>>]
      ELSE IF m \in {"cfb", "ofb", "ctr"} /\ ~(n \in 1..c.bs) THEN [s |-> "X:*", ch |-> <<>>]
      ELSE [s |-> "ok", ch |-> MkChain(m, n, e.dir, c, IF Has(e, "iv") /\ m # "ecb" THEN e.iv ELSE <<>>)]
BlockObj(e, ch, sub) == [cls |-> "T", k |-> "block", ch |-> ch, pend |-> <<>>, out |-> <<>>,
                         pad |-> Fld(e, "pad", "none"), dir |-> e.dir, fin |-> FALSE, sub |-> sub]
NewObj(st, e) ==
  CASE e.cls \in {"cipher", "bcipher", "block"} ->
         LET m == FlatMode(e)
             isobj == e.alg = "obj"
             pd == IF e.cls = "cipher" THEN PrimDir(e, m) ELSE Fld(e, "pdir", e.dir)
         IN  IF ~isobj /\ ~LegalKey(e.alg, Len(e.key)) THEN NewErr("E:Wrong_key_size")
             ELSE LET c == IF isobj THEN (IF st[e.pa].k = "spy" THEN st[st[e.pa].a].ch.c ELSE st[e.pa].ch.c)
                           ELSE MkCipher(e.alg, pd, e.key, Fld(e, "bs", 0))
                      r == MkCh(e, m, c)
                      sub == IF isobj THEN <<e.pa>> ELSE <<>>
                  IN  IF r.s # "ok" THEN NewErr(r.s)
                      ELSE IF e.cls = "block" THEN New("ok", [cls |-> "B", k |-> "bc", ch |-> r.ch, sub |-> sub])
                      ELSE New("ok", BlockObj(e, r.ch, sub))
    [] e.cls \in {"chacha20", "s_chacha20"} ->
         LET iv == Fld(e, "iv", Zeros(8))
             c8 == Fld(e, "ctr8", Zeros(8))
             s == [cls |-> IF e.cls = "chacha20" THEN "T" ELSE "S", k |-> "stream", sc |-> "chacha",
                   s |-> ChaObj(e.key, iv, c8), out |-> <<>>, fin |-> FALSE]
         IN  IF Len(e.key) \notin {16, 32} THEN NewErr("E:Wrong_key_size")
             ELSE IF Len(iv) \notin {8, 12} THEN NewErr("E:Wrong_IV_size")
             \* a 12-byte nonce leaves 32 bits for the block counter
             ELSE IF Len(iv) = 12 /\ \E j \in 1..4 : c8[j] # 0 THEN NewErr("E:Wrong_IV_size")
             ELSE New("ok", s)
    [] e.cls \in {"arcfour", "s_arcfour"} ->
         IF Len(e.key) \notin 1..256 THEN NewErr("E:Wrong_key_size")
         ELSE New("ok", [cls |-> IF e.cls = "arcfour" THEN "T" ELSE "S", k |-> "stream", sc |-> "rc4",
                         s |-> RC4Init(e.key), out |-> <<>>, fin |-> FALSE])
    [] e.cls = "toystream" -> New("ok", [cls |-> "T", k |-> "stream", sc |-> "toy", s |-> [key |-> e.key, pos |-> 0],
                                         out |-> <<>>, fin |-> FALSE])
    [] e.cls = "b64enc" -> New("ok", [cls |-> "T", k |-> "b64e", v |-> e.v, pend |-> <<>>, col |-> 0, out |-> <<>>, fin |-> FALSE])
    [] e.cls = "b64dec" -> New("ok", [cls |-> "T", k |-> "b64d", pend |-> <<>>, eq |-> FALSE, out |-> <<>>, fin |-> FALSE])
    [] e.cls = "hexenc" -> New("ok", [cls |-> "T", k |-> "hexe", out |-> <<>>, fin |-> FALSE])
    [] e.cls = "hexdec" -> New("ok", [cls |-> "T", k |-> "hexd", pend |-> <<>>, out |-> <<>>, fin |-> FALSE])
    [] e.cls \in {"zc", "zu"} ->
         IF Has(e, "nozlib") THEN NewErr("E:Compression_not_supported")
         ELSE IF Fld(e, "level", 6) \notin -1..9 THEN NewErr("X:*")
         ELSE New("ok", [cls |-> "Z", k |-> e.cls, hdr |-> Fld(e, "hdr", 0) = 1, in |-> <<>>, got |-> <<>>,
                         ph |-> "open", av |-> -1])
    [] e.cls = "compose" -> New("ok", [cls |-> "T", k |-> "comp", a |-> e.a, b |-> e.b, fin |-> FALSE])
    [] e.cls = "then_hash" -> New("ok", [cls |-> "A", k |-> "th", a |-> e.a, h |-> e.h, out |-> <<>>, fin |-> FALSE])
    [] e.cls = "and_hash" -> New("ok", [cls |-> "A", k |-> "ah", a |-> e.a, h |-> e.h, fin |-> FALSE])
    [] e.cls = "gcm" ->
         IF ~LegalKey("aes", Len(e.key)) THEN NewErr("E:Wrong_key_size")
         ELSE New("ok", [cls |-> "A", k |-> "gcm", dir |-> e.dir, g |-> GcmInit(e.key, e.iv, Fld(e, "hdr", <<>>)),
                         pend |-> <<>>, out |-> <<>>, fin |-> FALSE])
    [] e.cls = "chapoly" ->
         IF Len(e.key) \notin {16, 32} THEN NewErr("E:Wrong_key_size")
         ELSE IF Len(e.iv) \notin {8, 12} THEN NewErr("E:Wrong_IV_size")
         ELSE New("ok", [cls |-> "A", k |-> "cp", dir |-> e.dir, g |-> CpInit(e.key, e.iv, Fld(e, "hdr", <<>>)),
                         out |-> <<>>, fin |-> FALSE])
    [] e.cls = "hash" ->
         IF e.alg \in {"mac_obj", "mac_obj3"}
         THEN LET ciph(i) == IF st[i].k = "spy" THEN st[st[i].a].ch.c ELSE st[i].ch.c
                  sub == IF e.alg = "mac_obj" THEN <<e.pa>> ELSE <<e.pa, e.pb, e.pc>>
                  par == [f \in (DOMAIN e) \cap {"iv", "pad"} |-> e[f]]
                         @@ [c |-> Eager([j \in 1..Len(sub) |-> ciph(sub[j])])]
                  s == HashError(e.alg, par)
              IN  IF s # "ok" THEN NewErr(s)
                  ELSE New("ok", [cls |-> "H", k |-> "hash", alg |-> e.alg, a |-> par,
                                  msg |-> <<>>, fin |-> FALSE, sub |-> sub])
         ELSE LET s == HashError(e.alg, e)
              IN  IF s # "ok" THEN NewErr(s)
                  ELSE New("ok", [cls |-> "H", k |-> "hash", alg |-> e.alg,
                                  a |-> [f \in (DOMAIN e) \cap {"key", "iv", "pad", "sz", "bs"} |-> e[f]],
                                  msg |-> <<>>, fin |-> FALSE])
    [] e.cls = "spy" -> New("ok", [cls |-> st[e.a].cls, k |-> "spy", a |-> e.a, wipes |-> 0])
    [] e.cls = "rng" ->
         CASE e.kind = "chacha" ->
                IF Len(e.seed) < 16 THEN NewErr("E:Seed_too_short")
                ELSE LET l == Len(e.seed)
                         key == IF l >= 32 THEN Take(e.seed, 32) ELSE IF l = 16 THEN e.seed ELSE PadTo(e.seed, 32)
                     IN  New("ok", [cls |-> "R", k |-> "chacha", s |-> ChaObj(key, Zeros(8), Zeros(8))])
           [] e.kind = "aesctr" ->
                IF Len(e.seed) < 16 THEN NewErr("E:Seed_too_short")
                ELSE New("ok", [cls |-> "R", k |-> "aesctr", c |-> MkCipher("aes", "enc", Take(e.seed, 16), 16),
                                ctr |-> Zeros(16), ks |-> <<>>])
           [] e.kind = "device" -> New("ok", [cls |-> "R", k |-> "device", data |-> e.data])
           [] e.kind = "replay" -> New("ok", [cls |-> "R", k |-> "replay", data |-> e.data])
           [] e.kind \in {"system", "secure"} -> New("ok", [cls |-> "R", k |-> "os"])
           [] e.kind = "hardware" -> New("maybe", [cls |-> "R", k |-> "os"])
           \* the instruction of a simulated processor: absent, never delivering, always delivering the
           \* same word, or delivering (perhaps after a few attempts) up to e.k words of 8 bytes (-1: any number)
           [] e.kind = "hwsim" ->
                IF e.cpu = 0 \/ e.avail # "good" THEN NewErr("E:No_entropy_source")
                ELSE New("ok", [cls |-> "R", k |-> "sim", left |-> e.k, bytes |-> 0, draws |-> 0])

StepNew(st, e) ==
  LET r == NewObj(st, e)
      st2 == Upd(st, e.o, IF e.s = "ok" THEN r.o ELSE Dead)
  IN  IF r.s = "X:*" THEN Raises(st2, e)
      ELSE IF r.s = "maybe" THEN Cond(e.s \in {"ok", "E:No_entropy_source"}, st2, "ok or no entropy source")
      ELSE R(st2, r.s, 0, <<>>, e)

-----------------------------------------------------------------------------
\* Compression: relational, the compressor may choose any encoding
ZRead(st, i, o, b, e) ==
  LET got == o.got \o b
      o2 == [o EXCEPT !.got = got, !.av = -1]
      avok == o.av < 0 \/ o.av = Len(b)
  IN
  IF o.k = "zc" THEN
    IF o.ph = "open" THEN Cond(avok, Upd(st, i, o2), "as many bytes as announced")
    ELSE LET r == InflateAny(o.hdr, got)
         IN  IF o.ph = "flushed"
             THEN Cond(avok /\ r.st = "more" /\ r.out = o.in, Upd(st, i, o2), "a prefix of a stream, decoding to all the data put before the flush")
             ELSE Cond(avok /\ r.st = "done" /\ r.used = Len(got) /\ r.out = o.in, Upd(st, i, o2), "a complete stream, decoding to the data")
  ELSE
    LET r == InflateAny(o.hdr, o.in)
    IN  IF o.ph \in {"finished", "flushed"}
        THEN Verdict(avok /\ got = r.out, Upd(st, i, o2), <<"decoded data", Len(r.out), Drop(r.out, Len(o.got))>>)
        ELSE Cond(avok /\ IsPrefix(got, r.out), Upd(st, i, o2), "a prefix of the decoded data")
ZPut(st, i, o, d, e) ==
  IF o.ph = "finished" THEN AnyOk(Upd(st, i, Dead), e)
  ELSE LET o2 == [o EXCEPT !.in = o.in \o d, !.ph = IF d = <<>> THEN o.ph ELSE "open", !.av = -1]
       IN  IF o.k = "zc" THEN OkR(Upd(st, i, o2), e)
           ELSE IF e.s = "ok" THEN R(Upd(st, i, o2), "ok", 0, <<>>, e)
           ELSE LET r == InflateAny(o.hdr, o2.in)
                IN  Cond(e.s = "E:Compression_error" /\ (r.st = "bad" \/ (r.st = "done" /\ r.used < Len(o2.in))),
                         Upd(st, i, Dead), "ok: the stream read so far is valid")
ZFinish(st, i, o, e) ==
  IF o.ph = "finished" THEN AnyOk(Upd(st, i, Dead), e)
  ELSE LET o2 == [o EXCEPT !.ph = "finished", !.av = -1]
       IN  IF o.k = "zc" THEN OkR(Upd(st, i, o2), e)
           ELSE LET r == InflateAny(o.hdr, o.in)
                IN  IF r.st = "done" /\ r.used = Len(o.in) THEN OkR(Upd(st, i, o2), e)
                    ELSE R(Upd(st, i, Dead), "E:Compression_error", 0, <<>>, e)
ZFlush(st, i, o, e) == IF o.ph = "finished" THEN AnyOk(Upd(st, i, Dead), e)
                       ELSE OkR(Upd(st, i, [o EXCEPT !.ph = "flushed", !.av = -1]), e)

-----------------------------------------------------------------------------
\* Calls on transforms, hashes, authenticated transforms
IsZ(st, i) == st[i].cls = "Z"
StepPut(st, e, d) ==
  IF IsDead(st, e.o) THEN AnyOk(st, e)
  ELSE IF IsZ(st, e.o) THEN ZPut(st, e.o, st[e.o], d, e)
  ELSE IF IsFin(st, e.o) THEN AnyOk(Upd(st, e.o, Dead), e)
  ELSE LET r == PutT(st, e.o, d, e.s) IN R(r.st, r.s, 0, <<>>, e)
\* put_substring with an arbitrary range
LegalRange(ofs, len, buf) == ofs >= 0 /\ len >= 0 /\ ofs <= Len(buf) - len
StepPutRaw(st, e) ==
  IF LegalRange(e.ofs, e.len, e.buf) THEN StepPut(st, e, Slice(e.buf, e.ofs + 1, e.len))
  ELSE IF IsDead(st, e.o) THEN AnyOk(st, e)
  \* nothing designated: may be refused or ignored
  ELSE IF e.len <= 0 THEN Cond(e.s \in {"ok", "X:Invalid_argument"}, st, "refused or ignored")
  \* an out-of-range hash update is refused without effect; transforms may have consumed part of it
  ELSE R(IF st[e.o].k = "hash" /\ ~Has(st[e.o], "sub") /\ st[e.o].alg \notin {"mac_aes", "mac_des", "mac_3des", "mac_des3", "mac_toy", "mac_toy3", "mac_obj", "mac_obj3", "aes_cmac"}
         THEN st ELSE Upd(st, e.o, Dead), "X:Invalid_argument", 0, <<>>, e)
StepFlush(st, e) ==
  IF IsDead(st, e.o) THEN AnyOk(st, e)
  ELSE IF IsZ(st, e.o) THEN ZFlush(st, e.o, st[e.o], e)
  ELSE IF IsFin(st, e.o) THEN AnyOk(Upd(st, e.o, Dead), e)
  ELSE LET r == FlushT(st, e.o, e.s) IN R(r.st, r.s, 0, <<>>, e)
StepFinish(st, e) ==
  IF IsDead(st, e.o) THEN AnyOk(st, e)
  ELSE IF IsZ(st, e.o) THEN ZFinish(st, e.o, st[e.o], e)
  ELSE IF IsFin(st, e.o) THEN AnyOk(Upd(st, e.o, Dead), e)
  ELSE LET r == FinishT(st, e.o, e.s) IN R(r.st, r.s, 0, <<>>, e)
StepTag(st, e) ==
  IF IsDead(st, e.o) THEN AnyOk(st, e)
  ELSE IF IsFin(st, e.o) THEN AnyOk(Upd(st, e.o, Dead), e)
  ELSE LET r == TagA(st, e.o, e.s) IN R(r.st, r.s, 0, r.b, e)
StepRead(st, e) ==
  IF IsDead(st, e.o) THEN AnyOk(st, e)
  ELSE IF IsZ(st, e.o) THEN
    LET o == st[e.o] IN
    CASE e.op = "avail" -> Cond(e.s = "ok" /\ e.n >= 0, Upd(st, e.o, [o EXCEPT !.av = e.n]), "a number")
      [] e.op \in {"gets", "getsub"} -> IF e.s = "ok" THEN ZRead(st, e.o, o, e.rb, e) ELSE Cond(FALSE, st, "bytes")
      [] OTHER -> AnyOk(Upd(st, e.o, Dead), e)
  ELSE
    LET q == OutOf(st, e.o) IN
    CASE e.op = "avail" -> R(st, "ok", Len(q), <<>>, e)
      [] e.op \in {"gets", "getsub"} -> R(Drain(st, e.o), "ok", 0, q, e)
      [] e.op \in {"getc", "getb"} -> IF q = <<>> THEN R(st, "X:End_of_file", 0, <<>>, e)
                                      ELSE R(SetOut(st, e.o, Tail(q)), "ok", q[1], <<>>, e)
      [] e.op = "getn" -> IF Len(q) < e.k THEN R(Drain(st, e.o), "X:End_of_file", 0, <<>>, e)
                          ELSE R(SetOut(st, e.o, Drop(q, e.k)), "ok", 0, Take(q, e.k), e)
StepResult(st, e) ==
  IF IsDead(st, e.o) THEN AnyOk(st, e)
  ELSE IF IsFin(st, e.o) THEN AnyOk(Upd(st, e.o, Dead), e)
  ELSE LET r == ResultH(st, e.o) IN R(r.st, r.s, 0, r.b, e)

RECURSIVE IBS(_, _), OBS(_, _)
IBS(st, i) == LET o == st[i] IN
  CASE o.k = "block" -> IF o.pad # "none" /\ o.dir = "enc" THEN 1 ELSE ChunkSize(o.ch)
    [] o.k = "bc" -> ChunkSize(o.ch)
    [] o.k = "spy" -> IBS(st, o.a) [] o.k \in {"comp", "th", "ah"} -> IBS(st, o.a) [] OTHER -> 1
OBS(st, i) == LET o == st[i] IN
  CASE o.k = "block" -> IF o.pad # "none" /\ o.dir = "dec" THEN 1 ELSE ChunkSize(o.ch)
    [] o.k = "spy" -> OBS(st, o.a) [] o.k = "comp" -> OBS(st, o.b) [] o.k \in {"th", "ah"} -> OBS(st, o.a) [] OTHER -> 1

-----------------------------------------------------------------------------
\* Helpers over whole strings and channels: [st, s, b] of put; finish; get; wipe
WholeT(st, i, d, obs) ==
  LET r == PutT(st, i, d, obs)
  IN  IF r.s # "ok" THEN [st |-> KillO(st, i), s |-> r.s, b |-> <<>>]
      ELSE LET f == FinishT(r.st, i, obs)
           IN  IF f.s # "ok" THEN [st |-> KillO(st, i), s |-> f.s, b |-> <<>>]
               ELSE [st |-> WipeO(f.st, i), s |-> "ok", b |-> OutOf(f.st, i)]
WholeH(st, i, d) ==
  LET r == ResultH(PutT(st, i, d, "ok").st, i)
  IN  IF r.s # "ok" THEN [st |-> KillO(st, i), s |-> r.s, b |-> r.b] ELSE [st |-> WipeO(r.st, i), s |-> "ok", b |-> r.b]
\* authenticated: [st, s, b, tag]
WholeA(st, i, d, obs) ==
  LET r == PutT(st, i, d, obs)
  IN  IF r.s # "ok" THEN [st |-> KillO(st, i), s |-> r.s, b |-> <<>>, tag |-> <<>>]
      ELSE LET t == TagA(r.st, i, obs)
           IN  IF t.s # "ok" THEN [st |-> KillO(st, i), s |-> t.s, b |-> <<>>, tag |-> <<>>]
               ELSE [st |-> WipeO(t.st, i), s |-> "ok", b |-> OutOf(t.st, i), tag |-> t.b]
StepWhole(st, e) ==
  IF IsDead(st, e.o) \/ IsFin(st, e.o) THEN AnyOk(st, e)
  ELSE
  CASE e.op = "tstring" /\ IsZ(st, e.o) ->
         LET o == st[e.o] IN
         IF o.k = "zc"
         THEN LET r == InflateAny(o.hdr, e.rb)
              IN  Cond(e.s = "ok" /\ r.st = "done" /\ r.used = Len(e.rb) /\ r.out = e.d, KillO(st, e.o),
                       "a stream decoding to the data")
         ELSE LET r == InflateAny(o.hdr, e.d)
              IN  IF r.st = "done" /\ r.used = Len(e.d) THEN R(KillO(st, e.o), "ok", 0, r.out, e)
                  ELSE R(KillO(st, e.o), "E:Compression_error", 0, <<>>, e)
    [] e.op = "tstring" /\ ~IsZ(st, e.o) -> LET r == WholeT(st, e.o, e.d, e.s) IN R(r.st, r.s, 0, r.b, e)
    [] e.op = "hstring" -> LET r == WholeH(st, e.o, e.d) IN R(r.st, r.s, 0, r.b, e)
    [] e.op = "atstring" -> LET r == WholeA(st, e.o, e.d, e.s) IN R(r.st, r.s, 0, r.b \o r.tag, e)
    [] e.op = "atdet" -> LET r == WholeA(st, e.o, e.d, e.s) IN R(r.st, r.s, Len(r.b), r.b \o r.tag, e)
    [] e.op = "acheck" ->
         LET ts == TagSizeO(st, e.o)
             k == Len(e.d) - ts
         IN  IF k < 0 THEN R(st, "E:Wrong_data_length", 0, <<>>, e)
             ELSE LET r == WholeA(st, e.o, Take(e.d, k), e.s)
                  IN  IF r.s # "ok" THEN R(r.st, r.s, 0, <<>>, e)
                      ELSE IF r.tag = Drop(e.d, k) THEN R(r.st, "some", 0, r.b, e)
                      ELSE R(r.st, "none", 0, <<>>, e)
    [] e.op = "tchan" ->
         LET want == Fld(e, "len", Len(e.d))
         IN  IF want > Len(e.d)     \* the data there is may already be too much for the transform
             THEN Cond(e.s = "X:End_of_file" \/ (e.s # "ok" /\ e.s = WholeT(st, e.o, e.d, e.s).s), KillO(st, e.o), "X:End_of_file")
             ELSE LET r == WholeT(st, e.o, Take(e.d, want), e.s)
                  IN  IF r.s = "ok" THEN R(r.st, "ok", want, r.b, e)
                      ELSE Cond(e.s = r.s, KillO(st, e.o), r.s)
    [] e.op = "hchan" ->
         LET want == Fld(e, "len", Len(e.d))
         IN  IF want > Len(e.d) THEN Cond(e.s = "X:End_of_file", KillO(st, e.o), "X:End_of_file")
             ELSE LET r == WholeH(st, e.o, Take(e.d, want))
                  IN  IF r.s = "ok" THEN R(r.st, "ok", want, r.b, e)
                      ELSE Cond(e.s = r.s, KillO(st, e.o), r.s)

-----------------------------------------------------------------------------
\* Block and stream primitives between buffers
SameOutside(buf, b, ofs, len) == Len(b) = Len(buf) /\ \A j \in 1..Len(buf) : (j > ofs /\ j <= ofs + len) \/ b[j] = buf[j]
Overwrite(buf, ofs, d) == Take(buf, ofs) \o d \o Drop(buf, ofs + Len(d))
StepBtr(st, e) ==
  IF IsDead(st, e.o) THEN AnyOk(st, e)
  ELSE
  LET i == IF st[e.o].k = "spy" THEN st[e.o].a ELSE e.o
      o == st[i]
      bs == ChunkSize(o.ch)
      dst == IF Fld(e, "inplace", 0) = 1 THEN e.src ELSE e.dst
      prim == o.ch.mode = "ecb"
  IN  IF o.ch.mode = "ctr" /\ o.ch.cnt < 0
      THEN Cond(e.s = "E:Message_too_long", st, "E:Message_too_long")
      ELSE IF ~(LegalRange(e.sofs, bs, e.src) /\ LegalRange(e.dofs, bs, dst))
      THEN Cond(/\ e.s = "X:Invalid_argument" /\ e.n = 0
                /\ IF prim \/ ~LegalRange(e.dofs, bs, dst) THEN e.rb = dst ELSE SameOutside(dst, e.rb, e.dofs, bs),
                IF prim THEN st ELSE Upd(st, i, Dead), "a refusal without effect")
      ELSE IF CtrMustRefuse(o.ch, 1) \/ (CtrMayRefuse(o.ch, 1) /\ e.s = "E:Message_too_long")
      THEN Cond(e.s = "E:Message_too_long" /\ e.n = 0 /\ SameOutside(dst, e.rb, e.dofs, bs), Upd(st, i, [o EXCEPT !.ch.cnt = -1]), "E:Message_too_long")
      ELSE LET r == ChainStep(o.ch, Slice(e.src, e.sofs + 1, bs))
           IN  R(Upd(st, i, [o EXCEPT !.ch = r.ch]), "ok", 0, Overwrite(dst, e.dofs, r.out), e)
\* e.cnt blocks of zeros in a row (observed: number delivered, last block)
AddCtr(iv, n, k) ==     \* iv after k increments of its last n bytes
  LET L == Len(iv)
      r == FoldLeft(LAMBDA a, j : LET i == L + 1 - j
                                      t == a.s[i] + (a.c % 256)
                                  IN  [s |-> [a.s EXCEPT ![i] = t % 256], c |-> (a.c \div 256) + (t \div 256)],
                    [s |-> iv, c |-> k], Upto(n))
  IN  r.s
StepBulkCtr(st, e) ==
  LET o == st[e.o]
      lim == CtrLimit(o.ch.n) - o.ch.cnt
      k == e.n
      o2 == [o EXCEPT !.ch.iv = AddCtr(o.ch.iv, o.ch.n, k), !.ch.cnt = IF e.s = "ok" THEN o.ch.cnt + k ELSE -1]
  IN  Cond(/\ IF e.s = "ok" THEN k = e.cnt ELSE e.s = "E:Message_too_long" /\ k \in {lim - 1, lim} /\ k < e.cnt
           /\ (CtrBounded(o.ch) => k <= lim)
           /\ (k > 0 => e.rb = CTr(o.ch.c, AddCtr(o.ch.iv, o.ch.n, k - 1))),
           Upd(st, e.o, o2), "all blocks up to the limit of the counter, then a refusal")
StepStr(st, e) ==
  IF IsDead(st, e.o) THEN AnyOk(st, e)
  ELSE
  LET o == st[e.o]
      dst == IF Fld(e, "inplace", 0) = 1 THEN e.src ELSE e.dst
  IN  IF ~(LegalRange(e.sofs, e.len, e.src) /\ LegalRange(e.dofs, e.len, dst))
      THEN Cond(e.s = "X:Invalid_argument" /\ e.n = 0 /\ e.rb = dst, st, "a refusal without effect")
      ELSE LET r == StreamTake(o, e.len)
               d == Slice(e.src, e.sofs + 1, e.len)
           IN  R(Upd(st, e.o, [o EXCEPT !.s = r[2]]), "ok", 0, Overwrite(dst, e.dofs, XorSeq(d, r[1])), e)

-----------------------------------------------------------------------------
\* Random generators
RngTake(o, n) ==     \* <<bytes, object>>
  CASE o.k = "chacha" -> LET r == ChaTake(o.s, n) IN <<r[1], [o EXCEPT !.s = r[2]]>>
    [] o.k = "aesctr" ->
         LET need == IF n > Len(o.ks) THEN (n - Len(o.ks) + 15) \div 16 ELSE 0
             r == FoldLeft(LAMBDA a, j : [c |-> IncCtr(a.c, 16), ks |-> a.ks \o CEnc(o.c, a.c)],
                           [c |-> o.ctr, ks |-> o.ks], Upto(need))
         IN  <<Take(r.ks, n), [o EXCEPT !.ctr = r.c, !.ks = Drop(r.ks, n)]>>
    [] o.k \in {"device", "replay"} -> <<Take(o.data, n), [o EXCEPT !.data = Drop(o.data, n)]>>
\* the AES counter generator after n bytes: whole blocks only advance the counter
AesSkip(o, n) ==
  LET m == NAdd(n, -Len(o.ks))
      b == [o EXCEPT !.ks = <<>>, !.ctr = AddCtr(o.ctr, 16, m[1] * 2^16 + (m[2] \div 16))]
  IN  IF n[1] = 0 /\ n[2] <= Len(o.ks) THEN RngTake(o, n[2])[2] ELSE RngTake(b, m[2] % 16)[2]
\* the simulated processor delivers bytes >= 128 only: any other byte was not delivered by it
SimStep(st, e, o, data, n) ==
  LET o2 == [o EXCEPT !.bytes = @ + n, !.draws = @ + (n + 7) \div 8]
      may  == o.left < 0 \/ o2.bytes <= 8 * o.left          \* enough was delivered
      must == o.left < 0 \/ o2.draws <= o.left \/ n = 0
  IN  Cond(\/ e.s = "ok" /\ (may \/ n = 0) /\ \A i \in 1..Len(data) : data[i] >= 128
           \/ e.s = "E:Entropy_source_closed" /\ ~must,
           Upd(st, e.o, IF e.s = "ok" THEN o2 ELSE [o EXCEPT !.bytes = 8 * o.left + 1, !.draws = o.left + 1]),
           "only delivered bytes, or E:Entropy_source_closed")
StepRnd(st, e) ==
  IF IsDead(st, e.o) THEN AnyOk(st, e)
  ELSE
  LET o == st[e.o] IN
  IF ~LegalRange(e.ofs, e.len, e.buf)
  THEN IF e.len <= 0 THEN Cond(e.s \in {"ok", "X:Invalid_argument"} /\ e.rb = e.buf, st, "refused or ignored")
       ELSE R(st, "X:Invalid_argument", 0, e.buf, e)
  ELSE IF o.k = "os" THEN Cond(e.s = "ok" /\ SameOutside(e.buf, e.rb, e.ofs, e.len), st, "writes only in range")
  ELSE IF o.k = "sim"
       THEN IF SameOutside(e.buf, e.rb, e.ofs, e.len) THEN SimStep(st, e, o, SubSeq(e.rb, e.ofs + 1, e.ofs + e.len), e.len)
            ELSE Cond(FALSE, st, "writes only in range")
  ELSE IF o.k = "device" /\ Len(o.data) < e.len
       THEN Cond(e.s = "E:Entropy_source_closed" /\ SameOutside(e.buf, e.rb, e.ofs, e.len), Upd(st, e.o, [o EXCEPT !.data = <<>>]), "E:Entropy_source_closed")
  ELSE LET r == RngTake(o, e.len)
       IN  R(Upd(st, e.o, r[2]), "ok", 0, Overwrite(e.buf, e.ofs, r[1]), e)
\* a request during which the operating system refuses to deliver (e.n: it did so)
StepRndf(st, e) ==
  Cond(SameOutside(e.buf, e.rb, e.ofs, e.len) /\ e.s = IF e.n > 0 THEN "E:Entropy_source_closed" ELSE "ok",
       st, "an error if and only if entropy was refused")
StepRstr(st, e) ==
  IF IsDead(st, e.o) THEN AnyOk(st, e)
  ELSE
  LET o == st[e.o] IN
  IF o.k = "os" THEN Cond(e.s = "ok" /\ Len(e.rb) = e.len, st, "len bytes")
  ELSE IF o.k = "sim" THEN SimStep(st, e, o, e.rb, e.len)
  ELSE IF o.k = "device" /\ Len(o.data) < e.len
       THEN Cond(e.s = "E:Entropy_source_closed", Upd(st, e.o, [o EXCEPT !.data = <<>>]), "E:Entropy_source_closed")
  ELSE LET r == RngTake(o, e.len) IN R(Upd(st, e.o, r[2]), "ok", 0, r[1], e)
StepRstat(st, e) ==
  IF IsDead(st, e.o) THEN AnyOk(st, e)
  ELSE Cond(e.s = "ok" /\ Len(e.rb) = e.tot
            /\ \A j \in 1..e.tot : IF j > e.ofs /\ j <= e.ofs + e.len THEN e.rb[j] >= 2 ELSE e.rb[j] = 1,
            st, "every requested byte varies, no other byte is touched")

-----------------------------------------------------------------------------
\* Stateless functions
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE IF n < 100 THEN <<48 + (n \div 10), 48 + (n % 10)>>
              ELSE <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
DeriveKey(div, secret, n) ==
  Take(FoldLeft(LAMBDA a, i : a \o SHA256(div \o secret \o Decimal(i)), <<>>, Upto((n + 31) \div 32)), n)
StepUtil(st, e) ==
  CASE e.op \in {"streq", "beq"} -> R(st, "ok", IF e.x = e.y THEN 1 ELSE 0, <<>>, e)
    [] e.op \in {"xorb", "xors"} ->
         LET src == IF Has(e, "same") THEN e.dst ELSE e.src IN
         IF LegalRange(e.sofs, e.len, src) /\ LegalRange(e.dofs, e.len, e.dst)
         THEN R(st, "ok", 0, Overwrite(e.dst, e.dofs, XorSeq(Slice(src, e.sofs + 1, e.len), Slice(e.dst, e.dofs + 1, e.len))), e)
         ELSE R(st, "X:Invalid_argument", 0, e.dst, e)
    [] e.op \in {"wipeb", "wipes"} -> R(st, "ok", 0, Zeros(Len(e.d)), e)
    [] e.op = "pad" -> R(st, "ok", 0, PadBlock(e.pad, Take(e.buf, e.used), Len(e.buf)), e)
    [] e.op = "strip" -> LET r == Strip(e.pad, e.buf)
                         IN  IF r.ok THEN R(st, "ok", r.n, e.buf, e) ELSE R(st, "E:Bad_padding", 0, <<>>, e)
    [] e.op = "modpow" -> R(st, "ok", 0, BFix(BPowMod(e.x, e.y, e.m), Len(e.m)), e)
    [] e.op = "modmul" -> R(st, "ok", 0, BFix(BMod(BMul(e.x, e.y), e.m), Len(e.m)), e)
    [] e.op = "derive" -> R(st, "ok", 0, DeriveKey(Fld(e, "div", <<>>), e.secret, e.len), e)

\* Public-key operations
StepPub(st, e) ==
  CASE e.op = "rsa_new" ->
         IF e.bits < 32 \/ e.bits % 2 = 1 THEN R(st, "E:Wrong_key_size", 0, <<>>, e)
         ELSE LET k == Unpack(e.rb)
              IN  Cond(/\ e.s = "ok" /\ e.n = e.bits /\ Len(k) = 9
                       /\ k[1] = k[8]
                       /\ RSAValidPair(e.bits, k[1], k[9], k[2], k[3], k[4], k[5], k[6], k[7])
                       /\ (Has(e, "e") => BEq(k[9], NatToBN(e.e))),
                       st, "a consistent RSA key pair")
    [] e.op \in {"rsa_enc", "rsa_unwrap"} -> LET r == RSAOp(e.size, e.nn, e.ex, e.m) IN R(st, r.s, 0, r.b, e)
    [] e.op \in {"rsa_dec", "rsa_sign", "rsa_dec_crt", "rsa_sign_crt"} ->
         LET r == RSAOp(e.size, e.nn, e.dd, e.m) IN R(st, r.s, 0, r.b, e)
    [] e.op = "rsa_owipe" -> Cond(e.s = "ok" /\ Len(e.rb) > 0 /\ \A j \in 1..Len(e.rb) : e.rb[j] = 0, st, "all zeros")
    [] e.op \in {"rsa_wipe", "pai_wipe"} -> Cond(e.s = "ok" /\ Len(e.rb) = e.tot /\ \A j \in 1..Len(e.rb) : e.rb[j] = 0, st, "all zeros")
    [] e.op = "pai_new" ->
         IF e.bits < 32 \/ e.bits % 2 = 1 THEN R(st, "E:Wrong_key_size", 0, <<>>, e)
         ELSE LET k == Unpack(e.rb)
              IN  Cond(/\ e.s = "ok" /\ e.n = e.bits /\ Len(k) = 9
                       /\ BEq(k[1], k[7]) /\ BEq(k[2], k[8])
                       /\ PaiValid(e.bits, k[1], k[2], k[3], k[4], k[5], k[6], k[9]),
                       st, "a consistent Paillier key pair")
    \* a correct ciphertext is any element of Z*_{n^2} that decrypts to the message
    [] e.op = "pai_enc" -> Cond(/\ e.s = "ok" /\ BLess(e.rb, e.n2) /\ BGcd(e.rb, e.nn) = BOne
                                /\ BEq(PaiDec(e.nn, e.n2, e.lambda, e.mu, e.rb), BMod(e.m, e.nn)),
                                st, "an encryption of the message")
    [] e.op = "pai_dec" -> Cond(e.s = "ok" /\ BEq(e.rb, PaiDec(e.nn, e.n2, e.lambda, e.mu, e.m)), st, "the decryption")
    [] e.op = "pai_add" -> Cond(/\ e.s = "ok" /\ BLess(e.rb, e.n2)
                                /\ BEq(PaiDec(e.nn, e.n2, e.lambda, e.mu, e.rb),
                                       BMod(BAdd(PaiDec(e.nn, e.n2, e.lambda, e.mu, e.x), PaiDec(e.nn, e.n2, e.lambda, e.mu, e.y)), e.nn)),
                                st, "an encryption of the sum")
    [] e.op = "dh_params" ->
         IF e.bits < 32 \/ e.bits <= Fld(e, "privlen", 160) THEN R(st, "E:Wrong_key_size", 0, <<>>, e)
         ELSE LET k == Unpack(e.rb)
              IN  Cond(/\ e.s = "ok" /\ e.n = Fld(e, "privlen", 160) /\ Len(k) = 2
                       /\ Len(k[1]) = Bytes8(e.bits) /\ Len(k[2]) = Bytes8(e.bits)
                       /\ BBitLen(k[1]) = e.bits /\ BIsPrime(k[1])
                       /\ BLess(BOne, k[2]) /\ BLess(k[2], k[1]),
                       Upd(st, e.o, [cls |-> "P", k |-> "dhp", p |-> k[1], g |-> k[2], privlen |-> e.n]),
                       "a prime of the requested size and a generator")
    [] e.op = "dh_set" -> OkR(Upd(st, e.o, [cls |-> "P", k |-> "dhp", p |-> e.p, g |-> e.g, privlen |-> e.privlen]), e)
    [] e.op = "dh_secret" ->
         \* the secret is not observable: the candidates are narrowed by what is
         LET P == st[e.p]
         IN  OkR(Upd(st, e.o, [cls |-> "P", k |-> "dhs",
                               xs |-> IF P.privlen <= 10 THEN (2^(P.privlen - 1))..(2^P.privlen - 1) ELSE {}]), e)
    [] e.op = "dh_msg" ->
         LET P == st[e.p]
             o == st[e.o]
             X == {x \in o.xs : BEq(BPowMod(P.g, NatToBN(x), P.p), e.rb)}
         IN  Cond(/\ e.s = "ok" /\ Len(e.rb) = Len(P.p) /\ BLess(e.rb, P.p) /\ (o.xs # {} => X # {}),
                  Upd(st, e.o, [o EXCEPT !.xs = X] @@ [msg |-> e.rb]), "g^x mod p for the secret x")
    [] e.op = "dh_shared" ->
         LET P == st[e.p]
             o == st[e.o]
             X == {x \in o.xs : BEq(BPowMod(e.m, NatToBN(x), P.p), e.rb)}
         IN  Cond(/\ e.s = "ok" /\ Len(e.rb) = Len(P.p) /\ BLess(e.rb, P.p)
                  /\ (o.xs # {} => X # {})
                  /\ (Has(e, "peer") /\ Has(st[e.peer], "shared") => st[e.peer].shared = e.rb),
                  Upd(st, e.o, [o EXCEPT !.xs = X] @@ [shared |-> e.rb]), "m^x mod p, equal to the peer's secret")

-----------------------------------------------------------------------------
\* Memory reachable from a wiped object: e.rb is a digest of it.  All objects
\* that went through the same calls with the same lengths (same label e.lab)
\* have the same memory once wiped, whatever their keys and data were.
StepMem(st, e) ==
  IF ~Has(st[e.o], "w") THEN AnyOk(st, e)
  ELSE IF e.lab \in DOMAIN st
       THEN Cond(e.s = "ok" /\ e.rb = st[e.lab].mem, st, "memory independent of keys and data")
       ELSE Cond(e.s = "ok", Upd(st, e.lab, [cls |-> "M", k |-> "mem", mem |-> e.rb]), "a dump")

\* Cost of a comparison (instructions executed): a function of the lengths only.  e.lab
\* identifies function and length; a few instructions of difference in the final test are
\* allowed.  Not measurable: n < 0.
CostSlack == 24
\* Resources.  The operations of a script, on new objects each time, were carried out rep times; growth is
\* <<C blocks, bytes of C memory, live words of the heap, open files>> after everything unreachable was collected.
\* What one life holds (at least one block, or 1000 bytes, or a few words) must not be multiplied by rep.
Growth(e) == [i \in 1..4 |-> ((e.rb[4 * i - 3] * 256 + e.rb[4 * i - 2]) * 256 + e.rb[4 * i - 1]) * 256 + e.rb[4 * i]]
StepChurn(st, e) ==
  LET g == Growth(e)
  IN  Verdict(e.s = "ok" /\ 4 * g[1] < e.rep + 80 /\ g[2] < 400 * e.rep + 100000 /\ g[3] < e.rep + 100 /\ g[4] = 0, st,
              <<"memory and files in use do not grow with the number of objects used", g>>)

\* With one C allocation failing, each operation of a script succeeded as usual or raised Out_of_memory (after which the
\* rest has no object to work on), nothing crashed, and afterwards the script gave the same results again.
StepOom(st, e) == Cond(e.s = "ok" /\ \A i \in 1..Len(e.rb) : e.rb[i] = 1, st, "Out_of_memory or success, and no lasting effect")

StepCost(st, e) ==
  IF e.n < 0 THEN AnyOk(st, e)
  ELSE IF e.lab \notin DOMAIN st
  THEN Cond(e.s = "ok", Upd(st, e.lab, [cls |-> "M", k |-> "cost", lo |-> e.n, hi |-> e.n]), "a cost")
  ELSE LET o == st[e.lab]
           lo == IF e.n < o.lo THEN e.n ELSE o.lo
           hi == IF e.n > o.hi THEN e.n ELSE o.hi
       IN  Verdict(e.s = "ok" /\ hi - lo <= CostSlack, Upd(st, e.lab, [o EXCEPT !.lo = lo, !.hi = hi]), <<"same cost for all contents", o.lo, o.hi>>)

-----------------------------------------------------------------------------
\* Inputs of gigabytes (Bulk.tla).  e.nn is the length; observed are the last BulkWin bytes
\* of the destination and the BulkGuard bytes behind it (which must still be 238).
BulkWin == 200
BulkGuard == Rep(238, 16)
StreamSkip(o, n) == IF o.sc = "chacha" THEN [o EXCEPT !.s = ChaSkip(o.s, n)] ELSE [o EXCEPT !.s = RC4Skip(o.s, n)]
StepBulk(st, e) ==
  CASE e.op = "bighash" -> R(st, "ok", 0, BulkDigest(e.alg, Fld(e, "sz", 0), Fld(e, "key", <<>>), e.seed, e.nn), e)
    [] e.op = "bigstr" ->
         LET o == StreamSkip(st[e.o], NAdd(e.nn, -BulkWin))
             r == StreamTake(o, BulkWin)
         IN  R(Upd(st, e.o, [o EXCEPT !.s = r[2]]), "ok", 0,
               XorSeq(r[1], PatAt(e.seed, NAdd(e.nn, -BulkWin), BulkWin)) \o BulkGuard, e)
    [] e.op = "bigrnd" ->
         IF st[e.o].k = "os"
         THEN Cond(/\ e.s = "ok" /\ Len(e.rb) = BulkWin + 16 /\ Drop(e.rb, BulkWin) = BulkGuard
                   /\ Cardinality({j \in 1..BulkWin : e.rb[j] # 238}) > BulkWin - 50, st, "all bytes written")
         ELSE IF st[e.o].k = "aesctr"
         THEN LET o == AesSkip(st[e.o], NAdd(e.nn, -BulkWin))
                  r == RngTake(o, BulkWin)
              IN  R(Upd(st, e.o, r[2]), "ok", 0, r[1] \o BulkGuard, e)
         ELSE LET o == st[e.o]
                  s == ChaSkip(o.s, NAdd(e.nn, -BulkWin))
                  r == ChaTake(s, BulkWin)
              IN  R(Upd(st, e.o, [o EXCEPT !.s = r[2]]), "ok", 0, r[1] \o BulkGuard, e)
    [] e.op = "bigxor" -> \* destination: zeros
         R(st, "ok", 0, PatAt(e.seed, NAdd(e.nn, -BulkWin), BulkWin) \o BulkGuard, e)
    [] e.op = "bigeq" -> R(st, "ok", e.eq, <<>>, e)
    [] e.op = "bigaead" -> R(st, "ok", 0, BulkSeal(e.cls, e.dir, e.key, e.iv, e.seed, e.hh, e.nn, 64), e)
    [] e.op = "bigz" -> R(st, "ok", 1, IF Fld(e, "hdr", 1) = 1 THEN PatAdler(e.seed, e.nn) ELSE <<>>, e)
    \* long output not read until the end: its length and windows of it
    [] e.op = "bigout" ->
         LET o == st[e.o]
             win(p) == CASE o.k = "stream" -> XorSeq(StreamTake(StreamSkip(o, p), 64)[1], PatAt(e.seed, p, 64))
                         [] o.k = "hexe" -> HexEnc(PatAt(e.seed, <<0, BigN(p) \div 2>>, 32))
         IN  R(Upd(st, e.o, Dead), "ok", IF o.k = "hexe" THEN 2 * BigN(e.nn) ELSE BigN(e.nn),
               FoldLeft(LAMBDA a, i : a \o win(e.wins[i]), <<>>, Upto(Len(e.wins))), e)

-----------------------------------------------------------------------------
Step(st, e) ==
  IF e.s \in {"crash", "hang"} THEN Cond(FALSE, st, "an answer")
  ELSE
  CASE e.op = "new" -> StepNew(st, e)
    [] e.op = "put" -> StepPut(st, e, e.d)
    [] e.op = "putraw" -> StepPutRaw(st, e)
    [] e.op = "flush" -> StepFlush(st, e)
    [] e.op = "finish" -> StepFinish(st, e)
    [] e.op = "tag" -> StepTag(st, e)
    [] e.op \in {"avail", "gets", "getsub", "getc", "getb", "getn"} -> StepRead(st, e)
    [] e.op = "result" -> StepResult(st, e)
    [] e.op = "hsize" -> IF IsDead(st, e.o) THEN AnyOk(st, e) ELSE R(st, "ok", HSize(st, e.o), <<>>, e)
    [] e.op = "tagsize" -> IF IsDead(st, e.o) THEN AnyOk(st, e) ELSE R(st, "ok", TagSizeO(st, e.o), <<>>, e)
    [] e.op = "ibs" -> IF IsDead(st, e.o) THEN AnyOk(st, e) ELSE R(st, "ok", IBS(st, e.o), <<>>, e)
    [] e.op = "obs" -> IF IsDead(st, e.o) THEN AnyOk(st, e) ELSE R(st, "ok", OBS(st, e.o), <<>>, e)
    [] e.op = "wipe" -> OkR(WipeO(st, e.o), e)
    [] e.op = "wiped" -> IF ~Has(st[e.o], "wipes") THEN AnyOk(st, e)
                        ELSE Cond(e.s = "ok" /\ e.n >= st[e.o].wipes, st, "wiped at least as often as asked for")
    [] e.op = "memdump" -> StepMem(st, e)
    [] e.op = "eqcost" -> StepCost(st, e)
    [] e.op = "churn" -> StepChurn(st, e)
    [] e.op = "oom" -> StepOom(st, e)
    [] e.op = "chkin" -> R(st, "ok", 0, <<>>, e)
    [] e.op = "dirty" -> OkR(st, e)
    [] e.op = "gc" -> OkR(st, e)
    [] e.op = "drop" -> OkR(Upd(st, e.o, Dead), e)
    [] e.op = "btr" -> StepBtr(st, e)
    [] e.op = "str" -> StepStr(st, e)
    [] e.op = "bulkctr" -> StepBulkCtr(st, e)
    [] e.op \in {"bighash", "bigstr", "bigrnd", "bigxor", "bigeq", "bigaead", "bigz", "bigout"} -> StepBulk(st, e)
    [] e.op \in {"tstring", "hstring", "atstring", "atdet", "acheck", "tchan", "hchan"} -> StepWhole(st, e)
    [] e.op = "rnd" -> StepRnd(st, e)
    [] e.op = "rndf" -> StepRndf(st, e)
    [] e.op = "rstr" -> StepRstr(st, e)
    [] e.op = "rstat" -> StepRstat(st, e)
    [] e.op \in {"streq", "beq", "xorb", "xors", "wipeb", "wipes", "pad", "strip", "modpow", "modmul", "derive"} -> StepUtil(st, e)
    [] OTHER -> StepPub(st, e)
=============================================================================
