------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: each recorded trace must be a behaviour of Cryptokit. *)
(* One initial state per trace; each step consumes one event.  A rejected  *)
(* event leads to a state with bad = TRUE.                                 *)
(***************************************************************************)
EXTENDS Cryptokit, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, st, bad
vars == <<tid, l, st, bad>>
EmptyStore == [x \in {} |-> 0]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = EmptyStore /\ bad = FALSE
Next ==
  /\ ~bad
  /\ l <= Len(Traces[tid].ev)
  /\ LET r == Step(st, Traces[tid].ev[l])
     IN  /\ l' = l + 1
         /\ IF r.ok THEN st' = r.st /\ bad' = FALSE
            ELSE /\ PrintT(<<"REJECT", Traces[tid].id, l, r.exp>>)
                 /\ st' = st /\ bad' = TRUE
  /\ UNCHANGED tid
View == <<tid, l, bad>>
=============================================================================
