------------------------------- MODULE Curves -------------------------------
(***************************************************************************)
(* The groups E(Fp) and E'(Fp2) in affine form, as sets with a chord-and-  *)
(* tangent law; "Inf" is the neutral element.  The implementation works    *)
(* with Jacobian triples (x, y, z), z = 0 meaning the neutral element; the *)
(* abstraction maps Jac1/Jac2 take a triple to the group element it        *)
(* stands for, so that the specification does not depend on which triple   *)
(* represents it.                                                          *)
(***************************************************************************)
EXTENDS Fields

B1 == CurveB
B2 == <<CurveB, CurveB>>          \* B (1 + u)

\* ------------------------------------------------------------------ E(Fp)
On1(pt) == IsInf(pt) \/ ZIs(FpSq(pt[2]), FpAdd(FpMul(FpSq(pt[1]), pt[1]), B1))
Neg1(pt) == E1Neg(pt, P)
Dbl1(pt) == E1Dbl(pt, P)
Add1(a, b) == E1Add(a, b, P)
MulNat1(a, k) == E1Mul(a, k, P)                 \* k >= 0
Mul1(a, k) == Memo(<<"Mul1", a, k>>, IF ZLt(k, Zero) THEN MulNat1(Neg1(a), ZNeg(k)) ELSE MulNat1(a, k))
Sum1(s) == FoldLeft(LAMBDA acc, b : Add1(acc, b), Inf, s)
InG1(pt) == On1(pt) /\ IsInf(Mul1(pt, Q))
\* Jacobian triple |-> group element
Jac1(x, y, z) == IF FpIsZero(z) THEN Inf
                 ELSE LET i  == FpInv(z)
                          i2 == FpSq(i)
                      IN <<FpMul(x, i2), FpMul(y, FpMul(i2, i))>>

\* ---------------------------------------------------------------- E'(Fp2)
On2(pt) == IsInf(pt) \/ Fp2Sq(pt[2]) = Fp2Add(Fp2Mul(Fp2Sq(pt[1]), pt[1]), B2)
Neg2(pt) == E2Neg(pt, P)
Dbl2(pt) == E2Dbl(pt, P)
Add2(a, b) == E2Add(a, b, P)
MulNat2(a, k) == E2Mul(a, k, P)                 \* k >= 0
Mul2(a, k) == Memo(<<"Mul2", a, k>>, IF ZLt(k, Zero) THEN MulNat2(Neg2(a), ZNeg(k)) ELSE MulNat2(a, k))
Sum2(s) == FoldLeft(LAMBDA acc, b : Add2(acc, b), Inf, s)
InG2(pt) == On2(pt) /\ IsInf(Mul2(pt, Q))
Jac2(x, y, z) == IF Fp2IsZero(z) THEN Inf
                 ELSE LET i  == Fp2Inv(z)
                          i2 == Fp2Sq(i)
                      IN <<Fp2Mul(x, i2), Fp2Mul(y, Fp2Mul(i2, i))>>

\* psi = twist o Frobenius o untwist:  psi(x, y) = (conj(x) / xi^((p-1)/3), conj(y) / xi^((p-1)/2))
PsiCX == Fp2Inv(Fp2Pow(Xi, ZDiv(ZSub(P, One), Z(3))))
PsiCY == Fp2Inv(Fp2Pow(Xi, ZDiv(ZSub(P, One), Two)))
Psi(pt) == IF IsInf(pt) THEN Inf
           ELSE <<Fp2Mul(PsiCX, Fp2Conj(pt[1])), Fp2Mul(PsiCY, Fp2Conj(pt[2]))>>
=============================================================================
