------------------------------ MODULE Clients ------------------------------
(***************************************************************************)
(* Several clients of one library.  Each client performs Calls calls on    *)
(* its own registers; a call begins, and ends later with the value that is *)
(* a function of its arguments alone (Result), so the library is a state   *)
(* machine without any state of its own.  Whatever the interleaving, every *)
(* client ends with the registers it would have had alone (Independent).   *)
(* With Hidden = TRUE the library keeps the value of the last call in a    *)
(* cell shared by all clients and answers from it; TLC must then refute    *)
(* Independent, which shows that the property is not vacuous.              *)
(*                                                                         *)
(* Every complete behaviour in which calls do not overlap is printed as a  *)
(* schedule, and the check replays each one with real programs; overlapping *)
(* calls are exercised by running the programs on threads and from inside  *)
(* the callbacks of the library.                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils

N      == atoi(IOEnv.CLIENTS)
Calls  == atoi(IOEnv.CALLS)
Hidden == IOEnv.HIDDEN = "1"
Overlap == IOEnv.OVERLAP = "1"
C == 1..N

VARIABLES pc,      \* client |-> calls finished
          busy,    \* clients inside a call
          regs,    \* client |-> results so far
          cell,    \* the state a faulty library would have
          hist     \* the schedule: which client ended a call
vars == <<pc, busy, regs, cell, hist>>
\* a call of client c: a term made of its arguments
Term(c, k, args) == <<c, k, args>>
Alone(c, n) == LET A[k \in 0..n] == IF k = 0 THEN <<>> ELSE Append(A[k - 1], Term(c, k, A[k - 1])) IN A[n]

Init == pc = [c \in C |-> 0] /\ busy = {} /\ regs = [c \in C |-> <<>>] /\ cell = <<>> /\ hist = <<>>
Begin(c) == /\ c \notin busy /\ pc[c] < Calls /\ (Overlap \/ busy = {})
            /\ busy' = busy \cup {c}
            /\ cell' = IF Hidden THEN Term(c, pc[c] + 1, regs[c]) ELSE cell
            /\ UNCHANGED <<pc, regs, hist>>
End(c) == /\ c \in busy /\ busy' = busy \ {c}
          /\ pc' = [pc EXCEPT ![c] = @ + 1]
          /\ regs' = [regs EXCEPT ![c] = Append(@, IF Hidden THEN cell ELSE Term(c, pc[c] + 1, regs[c]))]
          /\ hist' = IF Overlap THEN hist ELSE Append(hist, c)
          /\ UNCHANGED cell
          /\ (~Overlap /\ \A d \in C : pc'[d] = Calls) => PrintT(<<"SCHED", hist'>>)
Next == \E c \in C : Begin(c) \/ End(c)
Spec == Init /\ [][Next]_vars
Independent == \A c \in C : regs[c] = Alone(c, pc[c])
=============================================================================
