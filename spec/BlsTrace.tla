------------------------------ MODULE BlsTrace ------------------------------
(***************************************************************************)
(* A recorded execution of the library as a behaviour of the symbolic      *)
(* scheme: every register holds a form, every yes or no of the library     *)
(* must be the equality of forms that Symbolic.tla says it is, and the     *)
(* octets of a key, signature or secret must be the same function of its   *)
(* form whichever way it came about, different forms having different      *)
(* octets.  No field or curve arithmetic is evaluated, so that tens of     *)
(* thousands of verifications can be judged.                               *)
(***************************************************************************)
EXTENDS Symbolic, Json, IOUtils

VARIABLES i, R, bad,
          oct,      \* <<encoding, form>> |-> octets
          inv       \* octets |-> <<encoding, form>>
vars == <<i, R, bad, oct, inv>>
Log == ndJsonDeserialize(IOEnv.TRACE)
One == <<"one", "">>
Gen == <<"gen", "">>
PopOf(f) == <<"pop", EncOf(f)>>
DstTag(v) == IF v = <<"suite", "pop">> THEN "pop" ELSE IF v = <<"suite", "nul">> THEN "nul" ELSE "other"
EncTag(e) == IF e.o \in {"toALE", "toALEs"} /\ e.m[1] = "1" /\ e.c = "g1" THEN "enc" ELSE e.c \o e.o \o (IF e.m = <<>> THEN "" ELSE e.m[1])
Encoders == {"toC", "toCs", "toALE", "toALEs", "toABE", "toABEs", "skTo"}
Decoders == {"fromC", "fromABE", "fromALE", "skFrom"}
Rest(e, a(_), n) == [j \in 1..(Len(e.x) - n) |-> a(n + j)]

\* the form that the result stands for
Form(e, a(_)) ==
    LET o == e.o IN
    CASE e.c = "sc" /\ o = "raw"    -> Sym(<<"s", e.m[1]>>)
      [] o = "sk"     -> Sym(<<"seed", a(1)>>)
      [] o = "child"  -> Sym(<<"child", a(1), e.m[1]>>)
      [] o = "childU" \/ o = "childG1" -> Plus(a(1), Sym(<<"off", a(1), e.m[1]>>))
      [] o = "childG2" -> Plus(a(1), Sym(<<<<"off2", a(1), e.m[1]>>, Gen>>))
      [] o \in {"pk", "copy", "affine"} -> a(1)
      [] o = "base" -> IF e.c = "g1" THEN Sym(One) ELSE Sym(<<One, Gen>>)
      [] o = "zero" -> Nil
      [] o \in {"aggSk", "aggPk", "aggSig"} -> SumS(Rest(e, a, 0))
      [] o \in {"aggPkT", "aggSigT"} -> LET s == SelectSeq([j \in 1..Len(e.x) |-> j], LAMBDA j : e.m[1] = "-" \/ SubSeq(e.m[1], j, j) = "1") IN SumS([j \in 1..Len(s) |-> a(s[j])])
      [] o = "add" \/ o = "addA" -> Plus(a(1), a(2))
      [] o = "sub" \/ o = "subA" -> Diff(a(1), a(2))
      [] o = "dbl" \/ o = "dblA" -> Plus(a(1), a(1))
      [] o = "neg"  -> Minus(a(1))
      [] o = "sign" -> Tensor(a(1), Nul(a(2)))
      [] o = "popProve" -> Tensor(a(1), PopOf(a(1)))
      [] o = "fromMsg"  -> Sym(<<One, <<DstTag(a(2)), a(1)>>>>)
      \* secret times point
      [] o = "scaleS" -> IF e.c = "g1" THEN IF a(1) = Sym(One) THEN a(2) ELSE Nil
                         ELSE LET b == (CHOOSE k \in DOMAIN a(1) : TRUE)[2] IN IF a(1) = Sym(<<One, b>>) THEN Tensor(a(2), b) ELSE Assert(FALSE, "only a hash point is multiplied")
      [] o \in Decoders -> a(1)[2]
      [] OTHER -> Assert(FALSE, <<"no meaning", e.c, o>>)
Octets(e, a(_)) == IF e.c = "by" THEN <<"raw", e.m[1]>> ELSE IF e.o = "suite" THEN <<"suite", e.m[1]>> ELSE <<EncTag(e), a(1)>>
Answer(e, a(_)) ==
    LET o == e.o IN
    CASE o = "verify"    -> Accepts(a(1), Nul(a(2)), a(3))
      [] o = "popVerify" -> Accepts(a(1), PopOf(a(1)), a(2))
      [] o = "popFast"   -> AcceptsFast(Rest(e, a, 2), Nul(a(1)), a(2))
      [] o = "aggVerify" -> LET n == atoi(e.m[2]) fs == [j \in 1..n |-> a(1 + j)] IN AcceptsAgg(fs, [j \in 1..(Len(e.x) - 1 - n) |-> Nul(a(1 + n + j))], a(1), e.m[1] = "1")
      [] o \in {"equal", "eqop"} -> a(1) = a(2)
      [] o = "isZero" -> a(1) = Nil
      [] o \in {"inSub", "onCurve"} -> TRUE
      [] OTHER -> Assert(FALSE, <<"no meaning", e.c, o>>)

Init == i = 0 /\ R = [x \in {} |-> 0] /\ bad = <<>> /\ oct = [x \in {} |-> 0] /\ inv = [x \in {} |-> 0]
Clear == R' = [x \in {} |-> 0] /\ oct' = [x \in {} |-> 0] /\ inv' = [x \in {} |-> 0] /\ UNCHANGED bad
Reject == bad' = Append(bad, i + 1)
Store(e, v) == R' = IF e.d = "-" THEN R ELSE (e.d :> [v |-> v, r |-> e.r]) @@ R
Call(e) ==
    LET a(j) == R[e.x[j]].v IN
    CASE e.k = "bo" -> /\ IF (e.r = <<"1">>) = Answer(e, a) THEN UNCHANGED bad ELSE Reject
                       /\ UNCHANGED <<R, oct, inv>>
      [] e.k = "by" -> LET t == Octets(e, a) h == <<e.c, e.o, e.r[1]>> IN
                       /\ IF (t \in DOMAIN oct /\ oct[t] # e.r[1]) \/ (h \in DOMAIN inv /\ inv[h] # t) THEN Reject ELSE UNCHANGED bad
                       /\ oct' = (t :> e.r[1]) @@ oct /\ inv' = (h :> t) @@ inv
                       /\ Store(e, t)
      [] e.k \in {"sc", "g1", "g2"} -> Store(e, Form(e, a)) /\ UNCHANGED <<bad, oct, inv>>
      [] OTHER -> Reject /\ UNCHANGED <<R, oct, inv>>           \* no value, an exception, a crash
Next ==
    /\ i < Len(Log)
    /\ i' = i + 1
    /\ LET e == Log[i + 1]
       IN IF e.c = "sys" /\ e.o = "reset" THEN Clear
          ELSE IF e.c = "sys" /\ e.o = "abort" THEN UNCHANGED <<R, bad, oct, inv>>
          ELSE IF e.c = "sys" THEN (IF e.x[1] \in DOMAIN R /\ R[e.x[1]].r # e.r THEN Reject ELSE UNCHANGED bad) /\ UNCHANGED <<R, oct, inv>>
          ELSE Call(e)
    /\ (i' = Len(Log)) => PrintT("RESULT " \o ToJson([n |-> i', bad |-> bad', free |-> 0]))
Spec == Init /\ [][Next]_vars
View == i
=============================================================================
