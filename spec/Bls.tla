-------------------------------- MODULE Bls --------------------------------
(***************************************************************************)
(* Signers, verifiers and an attacker, over the symbolic scheme.  Honest   *)
(* signers 1..2 sign messages, prove possession of their keys, and sign    *)
(* whatever octets they are asked to, an encoding of a key included; the   *)
(* attacker has a secret of its own (symbol 3), forms new keys and         *)
(* signatures from everything it has seen, and offers them to verifiers.   *)
(*                                                                         *)
(* Sound says what a verifier may conclude.  Four switches remove one      *)
(* protection each, and TLC finds the attack that it prevents:             *)
(*   SAMEDST   one domain tag for messages and for proofs of possession    *)
(*   NOPOP     fast aggregate verification without proofs of possession    *)
(*   NODUP     aggregate verification that admits equal messages           *)
(*   NOBIND    a proof of possession of a fixed message, not of the key    *)
(* Every reachable state of the real protocol is also printed, with the    *)
(* history that leads to it: the check lets the library live through it,   *)
(* asks it all the questions below, and BlsTrace.tla judges the answers.   *)
(***************************************************************************)
EXTENDS Symbolic, Json, IOUtils

On(v) == v \in DOMAIN IOEnv /\ IOEnv[v] = "1"
SameDst == On("SAMEDST")
NoPop   == On("NOPOP")
NoDup   == On("NODUP")
NoBind  == On("NOBIND")
Emit    == On("EMIT")
MaxKeys == atoi(IOEnv.MAXKEYS)
MaxSigs == atoi(IOEnv.MAXSIGS)
Msgs == 1..2
A(i) == <<"s", i>>
Raw(m) == <<"raw", m>>
PopBase(f) == IF NoBind THEN <<"pop", <<"enc", Nil>>>> ELSE IF SameDst THEN <<"nul", EncOf(f)>> ELSE <<"pop", EncOf(f)>>

VARIABLES pks,      \* forms of the known keys: 1, 2 the honest ones, 3 the attacker's
          sigs,     \* forms of the known signatures
          said,     \* <<i, base>>: honest i signed base
          hist      \* what happened
vars == <<pks, sigs, said, hist>>
Elems(s) == {s[i] : i \in 1..Len(s)}
View == <<Elems(pks), Elems(sigs), said>>

Init == pks = <<Sym(A(1)), Sym(A(2)), Sym(A(3))>> /\ sigs = <<>> /\ said = {} /\ hist = <<>>
NewKey(f, h) == Len(pks) < MaxKeys /\ f \notin Elems(pks) /\ pks' = Append(pks, f) /\ hist' = Append(hist, h) /\ UNCHANGED <<sigs, said>>
NewSig(f, h) == Len(sigs) < MaxSigs /\ f \notin Elems(sigs) /\ sigs' = Append(sigs, f) /\ hist' = Append(hist, h) /\ UNCHANGED pks
By(i, b) == said' = IF i = 3 THEN said ELSE said \cup {<<i, b>>}
Keys == 1..Len(pks)
Sigs == 1..Len(sigs)
KeyNeg  == \E j \in Keys : NewKey(Minus(pks[j]), <<"kneg", j>>)
KeyAdd  == \E j, l \in Keys : j <= l /\ NewKey(Plus(pks[j], pks[l]), <<"kadd", j, l>>)
KeySub  == \E j, l \in Keys : NewKey(Diff(pks[j], pks[l]), <<"ksub", j, l>>)
SignMsg == \E i \in 1..3, m \in Msgs : NewSig(Tensor(pks[i], Nul(Raw(m))), <<"sign", i, m>>) /\ By(i, Nul(Raw(m)))
\* a message that is the encoding of some key
SignEnc == \E i \in 1..3, j \in Keys : NewSig(Tensor(pks[i], Nul(EncOf(pks[j]))), <<"senc", i, j>>) /\ By(i, Nul(EncOf(pks[j])))
Prove   == \E i \in 1..3 : NewSig(Tensor(pks[i], PopBase(pks[i])), <<"pop", i>>) /\ By(i, PopBase(pks[i]))
\* the attacker can multiply any hash point by its secret, and combine what it has seen
AtkPop  == \E j \in Keys : NewSig(Tensor(pks[3], PopBase(pks[j])), <<"apop", j>>) /\ UNCHANGED said
SigNeg  == \E s \in Sigs : NewSig(Minus(sigs[s]), <<"sneg", s>>) /\ UNCHANGED said
SigAdd  == \E s, t \in Sigs : s <= t /\ NewSig(Plus(sigs[s], sigs[t]), <<"sadd", s, t>>) /\ UNCHANGED said
SigSub  == \E s, t \in Sigs : NewSig(Diff(sigs[s], sigs[t]), <<"ssub", s, t>>) /\ UNCHANGED said
Last == On("LAST")
\* in a simulation: the end of the behaviour
Full == Len(pks) = MaxKeys /\ Len(sigs) = MaxSigs
Finish == Last /\ Full /\ (hist = <<>> \/ hist[Len(hist)] # <<"end">>) /\ hist' = Append(hist, <<"end">>) /\ UNCHANGED <<pks, sigs, said>>
Next == Finish \/ KeyNeg \/ KeyAdd \/ KeySub \/ SignMsg \/ SignEnc \/ Prove \/ AtkPop \/ SigNeg \/ SigAdd \/ SigSub
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ what a verifier may conclude
Bases == {Nul(Raw(m)) : m \in Msgs} \cup {Nul(EncOf(pks[j])) : j \in Keys}
Honest(f) == f \in {Sym(A(1)), Sym(A(2))}
Who(f) == IF f = Sym(A(1)) THEN 1 ELSE 2
Said(f, b) == <<Who(f), b>> \in said
\* a verified signature of an honest key was made by its owner
SoundVerify == \A j \in Keys, b \in Bases, s \in Sigs : Honest(pks[j]) /\ Accepts(pks[j], b, sigs[s]) => Said(pks[j], b)
\* a key whose proof of possession verifies is an honest key, or one that only the attacker's secret and zero enter
Registered == {j \in Keys : \E s \in Sigs : Accepts(pks[j], PopBase(pks[j]), sigs[s])}
SoundPop == \A j \in Registered : \/ \E i \in 1..2 : pks[j] = Sym(A(i)) /\ <<i, PopBase(pks[j])>> \in said
                                  \/ DOMAIN pks[j] \subseteq {A(3)}
\* all owners of registered honest keys signed the message of an accepted fast aggregate signature
May == IF NoPop THEN Keys ELSE Registered
SoundFast == \A J \in SUBSET May : \A b \in Bases, s \in Sigs :
    J # {} /\ Accepts(SumS([i \in 1..Cardinality(J) |-> pks[CHOOSE j \in J : Cardinality({l \in J : l < j}) = i - 1]]), b, sigs[s])
        => \A j \in J : Honest(pks[j]) => Said(pks[j], b)
\* in an aggregate over distinct messages every honest key signed its message
SoundAgg == \A j, l \in Keys, b, c \in Bases, s \in Sigs :
    AcceptsAgg(<<pks[j], pks[l]>>, <<b, c>>, sigs[s], ~NoDup) => (Honest(pks[j]) => Said(pks[j], b)) /\ (Honest(pks[l]) => Said(pks[l], c))
Sound == SoundVerify /\ SoundPop /\ SoundFast /\ SoundAgg
\* what honest signers made is accepted
Complete == \A i \in 1..2, m \in Msgs : LET s == Tensor(Sym(A(i)), Nul(Raw(m))) IN s \in Elems(sigs) => Accepts(Sym(A(i)), Nul(Raw(m)), s)
\* the history, and every question whose answer is yes: <<key, base, signature>> with base m or 10 + key
BaseNo(b) == IF b[2][1] = "raw" THEN b[2][2] ELSE 10 + CHOOSE j \in Keys : EncOf(pks[j]) = b[2]
Yes == [h |-> hist,
        v |-> {<<j, BaseNo(b), s>> : <<j, b, s>> \in {t \in Keys \X Bases \X Sigs : Accepts(pks[t[1]], t[2], sigs[t[3]])}},
        p |-> {t \in Keys \X Sigs : Accepts(pks[t[1]], PopBase(pks[t[1]]), sigs[t[2]])},
        f |-> {<<t[1], BaseNo(t[2]), t[3]>> : t \in {u \in (Keys \X Keys) \X Bases \X Sigs : AcceptsFast(<<pks[u[1][1]], pks[u[1][2]]>>, u[2], sigs[u[3]])}},
        a |-> {<<t[1], BaseNo(t[2]), t[3], BaseNo(t[4]), t[5]>> : t \in {u \in Keys \X Bases \X Keys \X Bases \X Sigs : AcceptsAgg(<<pks[u[1]], pks[u[3]]>>, <<u[2], u[4]>>, sigs[u[5]], FALSE)}}]
Shown == (Emit /\ (~Last \/ (hist # <<>> /\ hist[Len(hist)] = <<"end">>))) => PrintT("HIST " \o ToJson(Yes))
=============================================================================
