----------------------------- MODULE TraceSafe -----------------------------
(***************************************************************************)
(* The part of Trace.tla that needs no mathematics: every call returns, in *)
(* one of the ways its interface allows, and touches nothing but its       *)
(* destination.  The recorded execution comes from a build in which an     *)
(* access outside an object, an impossible shift or a division by zero     *)
(* ends the process, which the log shows as a call that crashed.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES i,       \* calls consumed
          R,       \* register |-> [k: kind, r: raw octets logged]
          bad      \* rejected calls
vars == <<i, R, bad>>
Log == ndJsonDeserialize(IOEnv.TRACE)
Storable == {"fp", "fp2", "fp6", "fp12", "g1", "g2", "sc", "by"}
\* how many results of which kind a value has
Width(k) == CASE k = "fp" \/ k = "sc" \/ k = "by" \/ k = "bo" -> {1} [] k = "in" -> {1} [] k = "rawv" -> {1, 2} [] k = "fp2" \/ k = "fpx2" \/ k = "divn" \/ k = "words" -> {2}
              [] k = "g1" -> {3} [] k = "fp2x2" -> {4} [] k = "fp6" \/ k = "g2" -> {6} [] k = "fp12" -> {12} [] k = "none" \/ k = "u" \/ k = "exc" -> {0} [] OTHER -> {}
\* an exception: there is no room for the sum, or the caller's own callback threw
Throws(e) == \/ e.c = "sc" /\ e.o = "add"
             \/ e.c \in {"g1", "g2"} /\ e.o = "wsum" /\ e.m[1] = "2"
             \/ e.c = "pair" /\ e.o = "calc" /\ e.m = <<"t">>
\* no value: a decoder, a square root, or an output that is too long
Decoders == {"fromBE", "fromLE", "fromBEd", "fromLEd", "fromABE", "fromABEd", "fromALE", "fromALEd", "fromJBE", "fromJBEd", "fromJLE", "fromJLEd", "fromC", "sqrt", "sqrtA", "expand", "full", "xmd", "hmac", "extract"}
Returns(e) == /\ e.k \notin {"crash", "hang"}
              /\ Len(e.r) \in Width(e.k)
              /\ (e.k = "exc") => Throws(e)
              /\ (e.k = "none") => e.o \in Decoders
Init == i = 0 /\ R = [x \in {} |-> 0] /\ bad = <<>>
Next ==
    /\ i < Len(Log)
    /\ i' = i + 1
    /\ LET e == Log[i + 1]
       IN IF e.c = "sys" /\ e.o = "reset" THEN R' = [x \in {} |-> 0] /\ UNCHANGED bad
          ELSE IF e.c = "sys" /\ e.o = "abort" THEN UNCHANGED <<R, bad>>
          ELSE IF e.c = "sys" THEN /\ UNCHANGED R
                                   /\ bad' = IF e.x[1] \in DOMAIN R /\ R[e.x[1]] # [k |-> e.k, r |-> e.r] THEN Append(bad, i + 1) ELSE bad
          ELSE /\ bad' = IF Returns(e) THEN bad ELSE Append(bad, i + 1)
               /\ R' = IF e.k \in Storable /\ e.d # "-" THEN (e.d :> [k |-> e.k, r |-> e.r]) @@ R
                       ELSE IF e.k = "none" /\ e.o = "sqrtA" THEN [x \in DOMAIN R \ {e.d} |-> R[x]]
                       ELSE R
    /\ (i' = Len(Log)) => PrintT("RESULT " \o ToJson([n |-> i', bad |-> bad', free |-> 0]))
Spec == Init /\ [][Next]_vars
View == i
=============================================================================
