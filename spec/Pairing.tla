------------------------------ MODULE Pairing ------------------------------
(***************************************************************************)
(* The optimal ate pairing by its definition: Miller's function f_{|x|,Q}  *)
(* on E(Fp12) (Q untwisted from E'(Fp2)), inverted when x < 0, raised to   *)
(* 3 (p^12 - 1)/q  (the implementation's final exponentiation is the cube  *)
(* of the reduced pairing, itself a pairing because 3 does not divide q).  *)
(***************************************************************************)
EXTENDS Curves

Emb(a)   == <<<<<<a, Zero>>, Fp2Zero, Fp2Zero>>, Fp6Zero>>      \* Fp  -> Fp12
Emb2(a)  == <<<<a, Fp2Zero, Fp2Zero>>, Fp6Zero>>                \* Fp2 -> Fp12
W2 == <<<<Fp2Zero, Fp2One, Fp2Zero>>, Fp6Zero>>                 \* w^2 = v
W3 == <<Fp6Zero, <<Fp2Zero, Fp2One, Fp2Zero>>>>                 \* w^3 = v w
W2Inv == Fp12Inv(W2)
W3Inv == Fp12Inv(W3)
Untwist(q) == <<Fp12Mul(Emb2(q[1]), W2Inv), Fp12Mul(Emb2(q[2]), W3Inv)>>

\* One Miller step with slope l through t: the line value at pt, and the new point.
\* (Vertical lines lie in a proper subfield and vanish in the final exponentiation.)
LineAt(t, l, pt) == Fp12Sub(Fp12Sub(pt[2], t[2]), Fp12Mul(l, Fp12Sub(pt[1], t[1])))
Next12(t, l, x2) == LET x3 == Fp12Sub(Fp12Sub(Fp12Sq(l), t[1]), x2)
                    IN <<x3, Fp12Sub(Fp12Mul(l, Fp12Sub(t[1], x3)), t[2])>>
SlopeDbl(t) == LET s == Fp12Sq(t[1])
               IN Fp12Mul(Fp12Add(Fp12Add(s, s), s), Fp12Inv(Fp12Add(t[2], t[2])))
SlopeAdd(t, q) == Fp12Mul(Fp12Sub(q[2], t[2]), Fp12Inv(Fp12Sub(q[1], t[1])))
MillerStep(st, b, q, pt) ==
    LET l1 == SlopeDbl(st.t)
        f1 == Fp12Mul(Fp12Sq(st.f), LineAt(st.t, l1, pt))
        t1 == Next12(st.t, l1, st.t[1])
    IN IF b = 0 THEN [f |-> f1, t |-> t1]
       ELSE LET l2 == SlopeAdd(t1, q)
            IN [f |-> Fp12Mul(f1, LineAt(t1, l2, pt)), t |-> Next12(t1, l2, q[1])]
Miller(p1, q2) ==
    IF IsInf(p1) \/ IsInf(q2) THEN Fp12One
    ELSE LET q  == Untwist(q2)
             pt == <<Emb(p1[1]), Emb(p1[2])>>
             fin == FoldLeft(LAMBDA st, b : MillerStep(st, b, q, pt),
                             [f |-> Fp12One, t |-> q], Tail(BitsMSF(CurveX)))
         IN IF CurveXNeg THEN Fp12Inv(fin.f) ELSE fin.f
\* (p^12 - 1)/q = (p^6 - 1)(p^2 + 1) * (p^4 - p^2 + 1)/q : the easy part by Frobenius
HardExp == ZDiv(ZAdd(ZSub(PPow(4), PPow(2)), One), Q)
EasyPart(f) == LET g == Fp12Mul(Fp12Frob(f, 6), Fp12Inv(f)) IN Fp12Mul(Fp12Frob(g, 2), g)
FinalExp(f) == Fp12Pow(EasyPart(f), ZMul(Z(3), HardExp))
MillerProd(pairs) == FoldLeft(LAMBDA acc, pr : Fp12Mul(acc, Miller(pr[1], pr[2])), Fp12One, pairs)
\* prod e(P_i, Q_i)
PairProd(pairs) == Memo(<<"PairProd", pairs>>, FinalExp(MillerProd(pairs)))
PairProdIsOne(pairs) == PairProd(pairs) = Fp12One
=============================================================================
