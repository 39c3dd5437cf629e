----------------------------- MODULE Histories -----------------------------
(***************************************************************************)
(* All call histories of the streaming life cycle up to a length, printed  *)
(* as JSON; they are replayed on the real objects (vk/hist.py).  Labels:   *)
(*   p0 p1 pm pb pp p2  put of 0, 1, B-1, B, B+1, 2B+1 bytes (B: block)    *)
(*   fl flush   gs/gu get_string/get_substring   gc get_char   av avail    *)
(*   fin finish (or result / tag): no put afterwards                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS D, Puts, Others
VARIABLES h, done
Init == h = <<>> /\ done = FALSE
Next == /\ Len(h) < D
        /\ \/ \E a \in Puts : ~done /\ h' = Append(h, a) /\ done' = done
           \/ \E a \in Others : h' = Append(h, a) /\ done' = done
           \/ ~done /\ h' = Append(h, "fin") /\ done' = TRUE
Leaf == Len(h) = D => PrintT(ToJson(h))
=============================================================================
