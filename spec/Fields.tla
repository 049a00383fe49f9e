------------------------------- MODULE Fields -------------------------------
(***************************************************************************)
(* The BLS12 family: the prime field Fp and the tower                      *)
(*     Fp2  = Fp [u] / (u^2 + 1)                                           *)
(*     Fp6  = Fp2[v] / (v^3 - (1 + u))                                     *)
(*     Fp12 = Fp6[w] / (w^2 - v)                                           *)
(* as mathematics: nothing here is taken from the implementation's         *)
(* algorithms.  Everything is derived from the curve parameter x; Real.tla *)
(* instantiates it with BLS12-381, Toy.tla with a 34-bit curve of the same *)
(* family, Small.tla with primes so small that every element is visited.   *)
(***************************************************************************)
EXTENDS Tower

CONSTANTS
    CurveX,    \* |x|, the curve parameter is -|x| when CurveXNeg
    CurveXNeg,
    P,         \* the field modulus
    Q,         \* the prime order of G1, G2, GT
    CurveB,    \* E : y^2 = x^3 + B,  E' : y^2 = x^3 + B (1 + u)
    Radix      \* the Montgomery radix (2^384 for six 64-bit limbs)

Zero == Z(0)
One  == Z(1)
Two  == Z(2)
XVal == IF CurveXNeg THEN ZNeg(CurveX) ELSE CurveX

\* Defining relations of the family.
FamilyOK ==
    LET x2 == ZMul(XVal, XVal)
        r  == ZAdd(ZSub(ZMul(x2, x2), x2), One)
        h  == ZMul(ZSub(XVal, One), ZSub(XVal, One))
    IN /\ ZIs(r, Q)
       /\ ZIs(ZMod(ZMul(h, r), Z(3)), Zero)
       /\ ZIs(ZAdd(ZDiv(ZMul(h, r), Z(3)), XVal), P)
       /\ ZIs(ZMod(P, Z(4)), Z(3))

Seq1(n) == [i \in 1..n |-> i]

-----------------------------------------------------------------------------
\* Fp
HalfP   == ZDiv(ZSub(P, One), Two)             \* (p - 1) / 2
IsFp(a) == ZLe(Zero, a) /\ ZLt(a, P)
FpAdd(a, b) == AddMod(a, b, P)
FpSub(a, b) == SubMod(a, b, P)
FpNeg(a)    == SubMod(Zero, a, P)
FpMul(a, b) == MulMod(a, b, P)
FpSq(a)     == MulMod(a, a, P)
FpInv(a)    == InvMod(a, P)                    \* 0 |-> 0
FpPow(a, e) == PowMod(a, e, P)
FpIsZero(a) == ZIs(a, Zero)
FpIsSquare(a) == FpIsZero(a) \/ ZIs(FpPow(a, HalfP), One)
\* the square root a^((p+1)/4); meaningful when FpIsSquare(a)
FpSqrt(a)   == FpPow(a, ZDiv(ZAdd(P, One), Z(4)))
FpLargest(a) == ZLt(HalfP, a)                  \* a > (p-1)/2, i.e. a > -a
FpInvRadix  == FpInv(Radix)
\* a residue a is stored as the integer a * Radix mod p
Stored(a)   == MulMod(a, Radix, P)
Unstored(s) == MulMod(s, FpInvRadix, P)

-----------------------------------------------------------------------------
\* Fp2, elements <<c0, c1>>
Fp2Zero == <<Zero, Zero>>
Fp2One  == <<One, Zero>>
Fp2Add(a, b) == T2Add(a, b, P)
Fp2Sub(a, b) == T2Sub(a, b, P)
Fp2Neg(a)    == <<FpNeg(a[1]), FpNeg(a[2])>>
Fp2Conj(a)   == <<a[1], FpNeg(a[2])>>
Fp2Mul(a, b) == T2Mul(a, b, P)
Fp2Sq(a)     == Fp2Mul(a, a)
Fp2Scale(a, k) == <<FpMul(a[1], k), FpMul(a[2], k)>>
Fp2Norm(a)   == T2Norm(a, P)
Fp2Inv(a)    == T2Inv(a, P)
Fp2IsZero(a) == FpIsZero(a[1]) /\ FpIsZero(a[2])
Fp2Pow(a, e) == T2Pow(a, e, P)
Xi == <<One, One>>                              \* 1 + u
Fp2MulXi(a) == Fp2Mul(a, Xi)
\* a is a square in Fp2 iff its norm is a square in Fp
Fp2IsSquare(a) == FpIsSquare(Fp2Norm(a))
\* a square root of a square: the root of (c0 + sqrt(norm))/2 or (c0 - sqrt(norm))/2
Fp2Sqrt(a) ==
    LET inv2 == FpInv(Two)
        s    == FpSqrt(Fp2Norm(a))
        d0   == FpMul(FpAdd(a[1], s), inv2)
        d    == IF FpIsSquare(d0) THEN d0 ELSE FpMul(FpSub(a[1], s), inv2)
        x    == FpSqrt(d)
    IN IF FpIsZero(a[2])
       THEN IF FpIsSquare(a[1]) THEN <<FpSqrt(a[1]), Zero>>
                                ELSE <<Zero, FpSqrt(FpNeg(a[1]))>>
       ELSE <<x, FpMul(FpMul(a[2], inv2), FpInv(x))>>
\* lexicographic order compares c1 first
Fp2Largest(a) == IF FpIsZero(a[2]) THEN FpLargest(a[1]) ELSE FpLargest(a[2])

-----------------------------------------------------------------------------
\* Fp6, elements <<c0, c1, c2>> over Fp2
Fp6Zero == <<Fp2Zero, Fp2Zero, Fp2Zero>>
Fp6One  == <<Fp2One, Fp2Zero, Fp2Zero>>
Fp6Add(a, b) == T6Add(a, b, P)
Fp6Sub(a, b) == T6Sub(a, b, P)
Fp6Neg(a)    == <<Fp2Neg(a[1]), Fp2Neg(a[2]), Fp2Neg(a[3])>>
Fp6Mul(a, b) == T6Mul(a, b, P)
Fp6Sq(a)     == Fp6Mul(a, a)
Fp6MulV(a)   == T6MulV(a, P)                     \* multiplication by v
Fp6ScaleFp2(a, k) == <<Fp2Mul(a[1], k), Fp2Mul(a[2], k), Fp2Mul(a[3], k)>>
Fp6Inv(a)    == T6Inv(a, P)
Fp6Pow(a, e) == T6Pow(a, e, P)

-----------------------------------------------------------------------------
\* Fp12, elements <<c0, c1>> over Fp6
Fp12Zero == <<Fp6Zero, Fp6Zero>>
Fp12One  == <<Fp6One, Fp6Zero>>
Fp12Add(a, b) == T12Add(a, b, P)
Fp12Sub(a, b) == T12Sub(a, b, P)
Fp12Neg(a)    == <<Fp6Neg(a[1]), Fp6Neg(a[2])>>
Fp12Conj(a)   == <<a[1], Fp6Neg(a[2])>>
Fp12Mul(a, b) == T12Mul(a, b, P)
Fp12Sq(a)     == T12Mul(a, a, P)
Fp12Inv(a)    == T12Inv(a, P)
Fp12Pow(a, e) == T12Pow(a, e, P)

-----------------------------------------------------------------------------
\* The Frobenius endomorphism a |-> a^(p^k), from the definition:
\* conjugation on Fp2, and v^(p^k) = v * xi^((p^k - 1)/3), w^(p^k) = w * xi^((p^k - 1)/6).
PPow(k) == ZPow(P, Z(k))
GammaV(k) == Memo(<<"GammaV", P, k>>, Fp2Pow(Xi, ZDiv(ZSub(PPow(k), One), Z(3))))     \* 0 <= k <= 11
GammaW(k) == Memo(<<"GammaW", P, k>>, Fp2Pow(Xi, ZDiv(ZSub(PPow(k), One), Z(6))))
Fp2Frob(a, k)  == IF k % 2 = 0 THEN a ELSE Fp2Conj(a)
Fp6Frob(a, k)  == LET j == k % 12     \* period 6 on Fp6
                  IN <<Fp2Frob(a[1], j),
                       Fp2Mul(Fp2Frob(a[2], j), GammaV(j)),
                       Fp2Mul(Fp2Frob(a[3], j), Fp2Sq(GammaV(j)))>>
Fp12Frob(a, k) == LET j == k % 12
                      c == Fp6Frob(a[2], j)
                  IN <<Fp6Frob(a[1], j), Fp6ScaleFp2(c, GammaW(j))>>

\* The subgroup of order p^4 - p^2 + 1 in which cyclotomic squaring is valid,
\* and the target group GT of order q inside it.
IsCyclotomic(f) == f # Fp12Zero /\ Fp12Mul(Fp12Frob(f, 4), f) = Fp12Frob(f, 2)
\* f^q = 1.  (f^q = 1 is checked by its definition.)
InGT(f) == f # Fp12Zero /\ Fp12Pow(f, Q) = Fp12One
=============================================================================
