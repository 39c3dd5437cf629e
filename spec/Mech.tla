------------------------------- MODULE Mech -------------------------------
(***************************************************************************)
(* The bookkeeping mechanisms of the library, as small machines with all   *)
(* sizes scaled down, each shown to implement the abstraction that         *)
(* Cryptokit.tla uses.  Part selects the mechanism:                        *)
(*   obuf   the output buffer that grows and compacts  = a FIFO queue      *)
(*   hbuf   block buffering, padding and length field of the MD-style      *)
(*          hashes                                     = pad(message)      *)
(*   lazy   the variant that keeps a full last block (BLAKE2, CMAC)        *)
(*   count  two-word bit counters with carry           = the bit length    *)
(*   tree   BLAKE3's stack of chaining values          = the hash tree     *)
(*   rng    filling a request by partial reads         = bytes in order    *)
(*   keyst  a key stream delivered from a block buffer = byte positions    *)
(*   range  the range test on machine integers         = offsets in bounds *)
(*   ctr    n-byte counters that must not repeat                           *)
(*   wipe   two runs that differ only in key and data have the same memory *)
(*          once wiped, whatever happened before (trees of objects)        *)
(*   res    C blocks owned by heap objects: freed by wiping or by the       *)
(*          collector, never twice, never used afterwards, none left over  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS Part, Lim
VARIABLE mm
Up(n) == [i \in 1..n |-> i]
Tk(s, n) == SubSeq(s, 1, n)
Dr(s, n) == SubSeq(s, n + 1, Len(s))
MinI(a, b) == IF a < b THEN a ELSE b

\* ---------------------------------------------------------------- obuf
\* mm: [buf (cells), beg, end, q (ghost queue), nxt (next byte to write)]
ObInit == mm = [buf |-> [i \in 1..2 |-> 0], beg |-> 0, end |-> 0, q |-> <<>>, nxt |-> 1]
Live == SubSeq(mm.buf, mm.beg + 1, mm.end)
RECURSIVE Grow(_, _)
Grow(n, need) == IF need > n THEN Grow(2 * n, need) ELSE n
ObPut(n) ==
  LET len == Len(mm.buf)
      used == mm.end - mm.beg
      new == [i \in 1..n |-> mm.nxt + i - 1]
      ready == IF mm.end + n <= len THEN [buf |-> mm.buf, beg |-> mm.beg, end |-> mm.end]
               ELSE IF used + n < len
               THEN [buf |-> Live \o SubSeq(mm.buf, used + 1, len), beg |-> 0, end |-> used]
               ELSE LET nl == Grow(2 * len, used + n) IN [buf |-> Live \o [i \in 1..(nl - used) |-> 0], beg |-> 0, end |-> used]
  IN  mm' = [buf |-> Tk(ready.buf, ready.end) \o new \o Dr(ready.buf, ready.end + n), beg |-> ready.beg, end |-> ready.end + n,
             q |-> mm.q \o new, nxt |-> mm.nxt + n]
ObNext == \/ \E n \in 0..5 : mm.nxt + n <= Lim + 1 /\ ObPut(n)
          \/ mm.end > mm.beg /\ mm' = [mm EXCEPT !.beg = mm.beg + 1, !.q = Tail(mm.q)]
          \/ mm' = [mm EXCEPT !.beg = 0, !.end = 0, !.q = <<>>]
ObInv == mm.beg <= mm.end /\ mm.end <= Len(mm.buf) /\ Live = mm.q

\* ---------------------------------------------------------------- hbuf
\* block of 4 bytes, the last one of which holds the length in the final block
HB == 4
HbInit == mm = [blocks |-> <<>>, buf |-> <<>>, n |-> 0, fin |-> FALSE]
Bytes(a, n) == [i \in 1..n |-> a + i]
RECURSIVE Munge(_, _)
Munge(bl, d) == IF Len(d) < HB THEN [bl |-> bl, d |-> d] ELSE Munge(Append(bl, Tk(d, HB)), Dr(d, HB))
HbAdd(k) ==
  LET d == Bytes(mm.n, k)
      t == HB - Len(mm.buf)
      r == IF Len(mm.buf) # 0
           THEN IF k < t THEN [bl |-> mm.blocks, d |-> mm.buf \o d]
                ELSE Munge(Append(mm.blocks, mm.buf \o Tk(d, t)), Dr(d, t))
           ELSE Munge(mm.blocks, d)
  IN  mm' = [mm EXCEPT !.blocks = r.bl, !.buf = r.d, !.n = mm.n + k]
HbFin == LET b == Append(mm.buf, 128)
             r == IF Len(b) > HB - 1 THEN [bl |-> Append(mm.blocks, b \o [i \in 1..(HB - Len(b)) |-> 0]), b |-> <<>>]
                  ELSE [bl |-> mm.blocks, b |-> b]
         IN  mm' = [mm EXCEPT !.blocks = Append(r.bl, r.b \o [i \in 1..(HB - 1 - Len(r.b)) |-> 0] \o <<1000 + mm.n>>), !.fin = TRUE]
HbNext == ~mm.fin /\ ((\E k \in 0..(3 * HB) : mm.n + k <= Lim /\ HbAdd(k)) \/ HbFin)
Concat(bl) == FoldLeft(LAMBDA a, b : a \o b, <<>>, bl)
HbInv == IF ~mm.fin THEN Concat(mm.blocks) \o mm.buf = Bytes(0, mm.n) /\ Len(mm.buf) < HB
         ELSE LET z == CHOOSE z \in 0..(HB - 1) : (mm.n + 1 + z + 1) % HB = 0
              IN  Concat(mm.blocks) = Bytes(0, mm.n) \o <<128>> \o [i \in 1..z |-> 0] \o <<1000 + mm.n>>

\* ---------------------------------------------------------------- lazy
\* the last block, full or not, stays in the buffer until the end
LzInit == mm = [blocks |-> <<>>, buf |-> <<>>, n |-> 0]
RECURSIVE MungeL(_, _)
MungeL(bl, d) == IF Len(d) <= HB THEN [bl |-> bl, d |-> d] ELSE MungeL(Append(bl, Tk(d, HB)), Dr(d, HB))
LzAdd(k) ==
  LET d == Bytes(mm.n, k)
      t == HB - Len(mm.buf)
      r == IF k <= t THEN [bl |-> mm.blocks, d |-> mm.buf \o d]
           ELSE MungeL(Append(mm.blocks, mm.buf \o Tk(d, t)), Dr(d, t))
  IN  mm' = [mm EXCEPT !.blocks = r.bl, !.buf = r.d, !.n = mm.n + k]
LzNext == \E k \in 0..(3 * HB) : mm.n + k <= Lim /\ LzAdd(k)
LzInv == /\ Concat(mm.blocks) \o mm.buf = Bytes(0, mm.n)
         /\ \A i \in 1..Len(mm.blocks) : Len(mm.blocks[i]) = HB
         /\ Len(mm.buf) <= HB /\ (mm.n > 0 => Len(mm.buf) > 0)

\* ---------------------------------------------------------------- count
\* words of W bits; lengths of up to 2W bits; a byte is 8 = 2^SH units
W == 4
SH == 1
CInit == mm = [hi |-> 0, lo |-> 0, tot |-> 0]
CNext == \E len \in 0..(2^(2 * W) - 1) :
           /\ mm.tot + len <= Lim
           /\ LET t == (mm.lo + ((len * 2^SH) % 2^W)) % 2^W
                  c == IF t < mm.lo THEN 1 ELSE 0
              IN  mm' = [hi |-> (mm.hi + c + (len \div 2^(W - SH))) % 2^W, lo |-> t, tot |-> mm.tot + len]
CInv == mm.hi * 2^W + mm.lo = (mm.tot * 2^SH) % 2^(2 * W)

\* ---------------------------------------------------------------- tree
\* chunks of CL bytes; leaves are <<"c", index, length>>
CL == 2
\* largest power of two <= n
Pow2Below(n) == CHOOSE p \in {2^i : i \in 0..10} : p <= n /\ 2 * p > n
PopCnt(n) == FoldLeft(LAMBDA a, i : a + ((n \div 2^i) % 2), 0, <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9>>)
Par(l, r) == <<"p", l, r>>
\* the definition: a tree over n bytes starting with chunk i
RECURSIVE TreeDef(_, _)
TreeDef(i, n) == IF n <= CL THEN <<"c", i, n>>
                 ELSE LET l == Pow2Below((n - 1) \div CL) * CL IN Par(TreeDef(i, l), TreeDef(i + (l \div CL), n - l))
TrInit == mm = [stk |-> <<>>, ctr |-> 0, cur |-> 0, n |-> 0]
RECURSIVE Merge(_, _)
Merge(stk, k) == IF Len(stk) <= k THEN stk
                 ELSE Merge(Append(Tk(stk, Len(stk) - 2), Par(stk[Len(stk) - 1], stk[Len(stk)])), k)
Push(stk, cv, ctr) == Append(Merge(stk, PopCnt(ctr)), cv)
RECURSIVE Half(_, _), Subtrees(_, _)
Half(len, sofar) == IF sofar % len # 0 THEN Half(len \div 2, sofar) ELSE len
\* s: [stk, ctr, left]
Subtrees(s, z) ==
  IF s.left <= CL THEN s
  ELSE LET len == Half(Pow2Below(s.left), s.ctr * CL)
           ch == len \div CL
       IN  IF len <= CL THEN Subtrees([stk |-> Push(s.stk, <<"c", s.ctr, len>>, s.ctr), ctr |-> s.ctr + ch, left |-> s.left - len], z)
           ELSE Subtrees([stk |-> Push(Push(s.stk, TreeDef(s.ctr, len \div 2), s.ctr), TreeDef(s.ctr + (ch \div 2), len \div 2), s.ctr + (ch \div 2)),
                          ctr |-> s.ctr + ch, left |-> s.left - len], z)
TrUpdate(k) ==
  LET take == IF mm.cur > 0 THEN MinI(CL - mm.cur, k) ELSE 0
      full == mm.cur > 0 /\ k > take
      a == IF full THEN [stk |-> Push(mm.stk, <<"c", mm.ctr, CL>>, mm.ctr), ctr |-> mm.ctr + 1, left |-> k - take]
           ELSE [stk |-> mm.stk, ctr |-> mm.ctr, left |-> k]
      b == Subtrees(a, 0)
  IN  IF k = 0 THEN mm' = mm
      ELSE IF mm.cur > 0 /\ ~full THEN mm' = [mm EXCEPT !.cur = mm.cur + take, !.n = mm.n + k]
      ELSE mm' = [stk |-> IF b.left > 0 THEN Merge(b.stk, PopCnt(b.ctr)) ELSE b.stk, ctr |-> b.ctr, cur |-> b.left, n |-> mm.n + k]
TrNext == \E k \in 0..(7 * CL) : mm.n + k <= Lim /\ TrUpdate(k)
RECURSIVE Fold(_, _)
Fold(stk, r) == IF stk = <<>> THEN r ELSE Fold(Tk(stk, Len(stk) - 1), Par(stk[Len(stk)], r))
Root == IF mm.stk = <<>> THEN <<"c", mm.ctr, mm.cur>>
        ELSE IF mm.cur > 0 THEN Fold(mm.stk, <<"c", mm.ctr, mm.cur>>)
        ELSE LET L == Len(mm.stk) IN Fold(Tk(mm.stk, L - 2), Par(mm.stk[L - 1], mm.stk[L]))
TrInv == Root = TreeDef(0, mm.n)

\* ---------------------------------------------------------------- rng
\* the source delivers any positive number of bytes up to what is asked, or is at its end
RInit == mm = [src |-> 0, buf |-> [i \in 1..(Lim + 2) |-> 0], ofs |-> 0, len |-> 0, want |-> 0, at |-> 0, st |-> "idle", start |-> 0]
RNext == \/ mm.st = "idle" /\ \E o \in 0..2, n \in 0..Lim : mm' = [mm EXCEPT !.ofs = o, !.len = n, !.want = n, !.at = o, !.st = IF n = 0 THEN "ok" ELSE "read", !.start = mm.src]
         \/ mm.st = "read" /\ \E k \in 1..mm.want :
              /\ mm.src + k <= 2 * Lim
              /\ mm' = [mm EXCEPT !.buf = [i \in 1..(Lim + 2) |-> IF i > mm.at /\ i <= mm.at + k THEN mm.src + i - mm.at ELSE mm.buf[i]],
                                  !.src = mm.src + k, !.at = mm.at + k, !.want = mm.want - k, !.st = IF k = mm.want THEN "ok" ELSE "read"]
         \/ mm.st = "read" /\ mm' = [mm EXCEPT !.st = "closed"]
RInv == /\ mm.st = "ok" => \A i \in 1..(Lim + 2) : mm.buf[i] = IF i > mm.ofs /\ i <= mm.ofs + mm.len THEN mm.start + i - mm.ofs ELSE 0
        /\ \A i \in 1..(Lim + 2) : ~(i > mm.ofs /\ i <= mm.ofs + mm.len) => mm.buf[i] = 0
        /\ (mm.st = "ok" => mm.src = mm.start + mm.len)

\* ---------------------------------------------------------------- keyst
\* key stream byte p is p; a block of KB bytes is buffered, next is the index of its first unused byte
KB == 4
KInit == mm = [blk |-> 0, next |-> KB, pos |-> 0, out |-> <<>>]
RECURSIVE KTake(_, _)
KTake(s, n) == IF n = 0 THEN s
               ELSE LET t == IF s.next >= KB THEN [s EXCEPT !.blk = s.blk + 1, !.next = 0] ELSE s
                    IN  KTake([t EXCEPT !.next = t.next + 1, !.out = Append(t.out, KB * (t.blk - 1) + t.next)], n - 1)
KNext == \E n \in 0..(2 * KB + 1) : mm.pos + n <= Lim /\ LET r == KTake([mm EXCEPT !.out = <<>>], n) IN mm' = [r EXCEPT !.pos = mm.pos + n]
KInv == mm.out = [i \in 1..Len(mm.out) |-> mm.pos - Len(mm.out) + i - 1]

\* ---------------------------------------------------------------- range
\* machine integers of 5 bits; buffers of every length; the test used throughout the library:
\* ofs < 0 || len < 0 || ofs > L - len
Wrap(x) == ((x + 16) % 32) - 16
RgInit == mm \in [ofs : -16..15, len : -16..15, L : 0..15]
RgRefuses == mm.ofs < 0 \/ mm.len < 0 \/ mm.ofs > Wrap(mm.L - mm.len)
RgInv == RgRefuses <=> ~(mm.ofs \in 0..mm.L /\ mm.len >= 0 /\ mm.ofs + mm.len <= mm.L)

\* ---------------------------------------------------------------- ctr
\* counter of one digit, base CB; refuses after the counter came back to its initial value
CB == 5
CtInit == mm \in [iv : 0..(CB - 1), c : {0}, used : {{}}, st : {"run"}]
CtNext == /\ mm.st = "run"
          /\ LET c == (mm.iv + Cardinality(mm.used)) % CB
                 nx == (c + 1) % CB
             IN  mm' = [mm EXCEPT !.c = Cardinality(mm.used) + 1, !.used = mm.used \cup {c}, !.st = IF nx = mm.iv THEN "full" ELSE "run"]
CtInv == mm.c = Cardinality(mm.used) /\ (mm.st = "full" <=> Cardinality(mm.used) = CB)

\* ---------------------------------------------------------------- wipe
\* A tree of two leaves under a composite.  Every leaf has a key, a block buffer of 2 cells with its fill, and a
\* growing output buffer; consumed output stays in memory until overwritten.  The two runs see keys and data 1 and 2.
Leaf == [key |-> 0, blk |-> <<0, 0>>, fill |-> 0, out |-> <<0>>, oend |-> 0, obeg |-> 0]
LPut(l, x) == IF l.fill = 0 THEN [l EXCEPT !.blk = <<x, l.blk[2]>>, !.fill = 1]
              ELSE LET o == IF l.oend + 2 <= Len(l.out) THEN l.out ELSE Tk(l.out, l.oend) \o [i \in 1..(Len(l.out) + 2) |-> 0]
                   IN  [l EXCEPT !.blk = <<l.blk[1], x>>, !.fill = 0,
                                 !.out = Tk(o, l.oend) \o <<10 * l.key + l.blk[1], 10 * l.key + x>> \o Dr(o, l.oend + 2), !.oend = l.oend + 2]
LGet(l) == IF l.obeg = l.oend THEN l ELSE [l EXCEPT !.obeg = l.obeg + 1]
LWipe(l) == [key |-> 0, blk |-> <<0, 0>>, fill |-> 0, out |-> [i \in 1..Len(l.out) |-> 0], oend |-> 0, obeg |-> 0]
WInit == mm = [r |-> [x \in 1..2 |-> [j \in 1..2 |-> [Leaf EXCEPT !.key = x]]], n |-> 0, dead |-> FALSE]
WNext == ~mm.dead /\
         (\/ mm.n < Lim /\ \E j \in 1..2 : mm' = [mm EXCEPT !.r = [x \in 1..2 |-> [mm.r[x] EXCEPT ![j] = LPut(mm.r[x][j], x)]], !.n = mm.n + 1]
          \/ \E j \in 1..2 : mm' = [mm EXCEPT !.r = [x \in 1..2 |-> [mm.r[x] EXCEPT ![j] = LGet(mm.r[x][j])]]]
          \/ mm' = [mm EXCEPT !.r = [x \in 1..2 |-> [j \in 1..2 |-> LWipe(mm.r[x][j])]], !.dead = TRUE])
WInv == mm.dead => mm.r[1] = mm.r[2]

\* ---------------------------------------------------------------- res
\* Lim objects at most.  An object of kind "ctx" owns one block, freed by wiping (which clears the pointer) or
\* by its finalizer; one of kind "zs" owns its stream block and, from construction until the stream is ended,
\* the library's state block: ended by finish or, failing that, by the finalizer.
RsInit == mm = [objs |-> <<>>, blocks |-> {}, freed |-> {}, twice |-> FALSE, bad |-> FALSE]
RsFree(m, b) == IF b = <<"nil">> THEN m
                ELSE [m EXCEPT !.blocks = m.blocks \ {b}, !.freed = m.freed \cup {b}, !.twice = m.twice \/ b \notin m.blocks]
RsUse(m, b) == [m EXCEPT !.bad = m.bad \/ b \notin m.blocks]
NilB == <<"nil">>
RsNew(k) == LET i == Len(mm.objs) + 1
                o == [kind |-> k, reach |-> TRUE, p |-> <<"p", i>>, s |-> IF k = "zs" THEN <<"s", i>> ELSE NilB, alive |-> TRUE]
            IN  mm' = [mm EXCEPT !.objs = Append(mm.objs, o), !.blocks = mm.blocks \cup {o.p} \cup (IF k = "zs" THEN {o.s} ELSE {})]
Set(m, i, o) == [m EXCEPT !.objs = [m.objs EXCEPT ![i] = o]]
RsNext ==
  \/ Len(mm.objs) < Lim /\ \E k \in {"ctx", "zs"} : RsNew(k)
  \/ \E i \in 1..Len(mm.objs) :
       LET o == mm.objs[i] IN
       \/ o.reach /\ o.kind = "ctx" /\ o.p # NilB /\ mm' = RsUse(mm, o.p)
       \/ o.reach /\ o.kind = "zs" /\ o.s # NilB /\ mm' = RsUse(RsUse(mm, o.p), o.s)
       \/ o.reach /\ o.kind = "ctx" /\ mm' = Set(RsFree(mm, o.p), i, [o EXCEPT !.p = NilB])          \* wipe, possibly again
       \/ o.reach /\ o.kind = "zs" /\ mm' = Set(RsFree(RsUse(mm, o.p), o.s), i, [o EXCEPT !.s = NilB])  \* end of the stream
       \/ o.reach /\ mm' = Set(mm, i, [o EXCEPT !.reach = FALSE])
       \/ ~o.reach /\ o.alive                                                                         \* the finalizer
            /\ mm' = Set(RsFree(RsFree(mm, o.s), o.p), i, [o EXCEPT !.alive = FALSE, !.p = NilB, !.s = NilB])
RsInv == /\ ~mm.twice /\ ~mm.bad
         \* every block in use belongs to exactly one object that is not collected
         /\ \A b \in mm.blocks : Cardinality({i \in 1..Len(mm.objs) : mm.objs[i].alive /\ b \in {mm.objs[i].p, mm.objs[i].s}}) = 1
         /\ (\A i \in 1..Len(mm.objs) : ~mm.objs[i].alive) => mm.blocks = {}

Init == CASE Part = "obuf" -> ObInit [] Part = "hbuf" -> HbInit [] Part = "lazy" -> LzInit [] Part = "count" -> CInit
          [] Part = "tree" -> TrInit [] Part = "rng" -> RInit [] Part = "keyst" -> KInit [] Part = "range" -> RgInit [] Part = "ctr" -> CtInit [] Part = "wipe" -> WInit [] Part = "res" -> RsInit
Next == CASE Part = "obuf" -> ObNext [] Part = "hbuf" -> HbNext [] Part = "lazy" -> LzNext [] Part = "count" -> CNext
          [] Part = "tree" -> TrNext [] Part = "rng" -> RNext [] Part = "keyst" -> KNext [] Part = "range" -> UNCHANGED mm [] Part = "ctr" -> CtNext [] Part = "wipe" -> WNext [] Part = "res" -> RsNext
Inv == CASE Part = "obuf" -> ObInv [] Part = "hbuf" -> HbInv [] Part = "lazy" -> LzInv [] Part = "count" -> CInv
         [] Part = "tree" -> TrInv [] Part = "rng" -> RInv [] Part = "keyst" -> KInv [] Part = "range" -> RgInv [] Part = "ctr" -> CtInv [] Part = "wipe" -> WInv [] Part = "res" -> RsInv
=============================================================================
