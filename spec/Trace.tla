------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* The state machine of a client of the library: a register file, and one  *)
(* step per call.  A recorded execution (env TRACE, ndjson) is a behaviour *)
(* of this machine iff every call returned what Api.tla requires and no    *)
(* call disturbed any register except its destination.  Rejected calls are *)
(* collected in `bad` and the machine continues from the observed value,   *)
(* so one TLC run reports every rejected call of the trace.                *)
(***************************************************************************)
EXTENDS Api, Real, TLC, Json

VARIABLES i,       \* calls consumed
          R,       \* register |-> [k: kind, r: raw octets logged, v: abstract value]
          bad,     \* rejected calls
          free     \* calls outside their contract (nothing was decided about them)
vars == <<i, R, bad, free>>

Log == ndJsonDeserialize(IOEnv.TRACE)
Storable == {"fp", "fp2", "fp6", "fp12", "g1", "g2", "sc", "by"}

Init == i = 0 /\ R = [x \in {} |-> 0] /\ bad = <<>> /\ free = 0

Reset == R' = [x \in {} |-> 0] /\ UNCHANGED <<bad, free>>
\* the register still holds what was put there
Dump(e) == /\ bad' = IF e.x[1] \in DOMAIN R /\ (R[e.x[1]].k # e.k \/ R[e.x[1]].r # e.r) THEN Append(bad, i + 1) ELSE bad
           /\ UNCHANGED <<R, free>>
Call(e) ==
    LET v == Abs(e.k, e.r)
        w == Want(e, R, v)
        ok == Judge(e, w, v)
    IN /\ R' = IF e.k \in Storable /\ e.d # "-" THEN (e.d :> [k |-> e.k, r |-> e.r, v |-> v]) @@ R
               ELSE IF e.k = "none" /\ e.o = "sqrtA" THEN [x \in DOMAIN R \ {e.d} |-> R[x]]
               ELSE R
       /\ bad' = IF ok THEN bad ELSE Append(bad, i + 1)
       /\ free' = IF w.k = "any" THEN free + 1 ELSE free
Next ==
    /\ i < Len(Log)
    /\ i' = i + 1
    /\ LET e == Log[i + 1]
       IN IF e.c # "sys" THEN Call(e)
          ELSE IF e.o = "reset" THEN Reset
          ELSE IF e.o = "abort" THEN UNCHANGED <<R, bad, free>>
          ELSE Dump(e)
    /\ (i' = Len(Log)) => PrintT("RESULT " \o ToJson([n |-> i', bad |-> bad', free |-> free']))
Spec == Init /\ [][Next]_vars
View == i
=============================================================================
