------------------------------ MODULE Symbolic ------------------------------
(***************************************************************************)
(* The signature scheme with its mathematics abstracted away.  A secret is *)
(* a linear form over independent symbols; a public key is the same form   *)
(* over the generator of G1; a signature is a linear form over pairs       *)
(* (symbol, base), a base being a hashed message or the generator of G2.   *)
(* Hash points are independent and a symbol is a number nobody guesses, so *)
(* two group elements are equal iff their forms are, and the pairing       *)
(* equation of Verify is an equality of forms.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Co(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Nil == [k \in {} |-> 0]
Sym(k) == k :> 1
Plus(f, g) == LET D == {k \in DOMAIN f \cup DOMAIN g : Co(f, k) + Co(g, k) # 0} IN [k \in D |-> Co(f, k) + Co(g, k)]
Minus(f) == [k \in DOMAIN f |-> -f[k]]
Diff(f, g) == Plus(f, Minus(g))
RECURSIVE SumS(_)
SumS(s) == IF s = <<>> THEN Nil ELSE Plus(Head(s), SumS(Tail(s)))
\* pk (x) base
Tensor(f, b) == LET K == {<<k, b>> : k \in DOMAIN f} IN [x \in K |-> f[x[1]]]

\* the two hash functions: messages are tuples <<tag, content>>; the proof of possession of a key hashes its encoding
Nul(m) == <<"nul", m>>
EncOf(f) == <<"enc", f>>
Accepts(f, b, sig) == sig = Tensor(f, b)
DistinctS(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
AcceptsAgg(fs, bs, sig, dup) ==
    /\ Len(fs) = Len(bs)
    /\ dup => DistinctS(bs)
    /\ sig = SumS([i \in 1..Len(fs) |-> Tensor(fs[i], bs[i])])
AcceptsFast(fs, b, sig) == fs # <<>> /\ Accepts(SumS(fs), b, sig)
=============================================================================
