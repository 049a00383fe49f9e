------------------------------- MODULE Tower -------------------------------
(***************************************************************************)
(* Arithmetic of the tower                                                 *)
(*     Fp2  = Fp [u] / (u^2 + 1)           elements <<c0, c1>>             *)
(*     Fp6  = Fp2[v] / (v^3 - (1 + u))     elements <<c0, c1, c2>> of Fp2  *)
(*     Fp12 = Fp6[w] / (w^2 - v)           elements <<c0, c1>> of Fp6      *)
(* and the chord-and-tangent laws of curves y^2 = x^3 + b over Fp and Fp2  *)
(* ("Inf" = <<>> is the neutral element), for any p = 3 mod 4.  The        *)
(* definitions are the schoolbook ones; TLC evaluates those with a large   *)
(* cost by the Java methods of Towers.java, and lib/check.py runs          *)
(* SpecCheck.tla with and without those methods and compares the results.  *)
(***************************************************************************)
EXTENDS BigInts, Integers, Sequences, SequencesExt

\* bits of e >= 0, most significant first
BitsMSF(e) == LET n == ZLen(e) IN [i \in 1..n |-> ZBit(e, n - i)]

-----------------------------------------------------------------------------
T2Zero == <<Z(0), Z(0)>>
T2One  == <<Z(1), Z(0)>>
T2Add(a, b, p) == <<AddMod(a[1], b[1], p), AddMod(a[2], b[2], p)>>
T2Sub(a, b, p) == <<SubMod(a[1], b[1], p), SubMod(a[2], b[2], p)>>
T2Mul(a, b, p) == <<SubMod(ZMul(a[1], b[1]), ZMul(a[2], b[2]), p),
                    AddMod(ZMul(a[1], b[2]), ZMul(a[2], b[1]), p)>>
T2Norm(a, p) == AddMod(ZMul(a[1], a[1]), ZMul(a[2], a[2]), p)
T2Inv(a, p)  == LET n == InvMod(T2Norm(a, p), p)             \* 0 |-> 0
                IN <<MulMod(a[1], n, p), MulMod(ZNeg(a[2]), n, p)>>
T2Pow(a, e, p) == FoldLeft(LAMBDA acc, b : LET s == T2Mul(acc, acc, p) IN IF b = 1 THEN T2Mul(s, a, p) ELSE s,
                           T2One, BitsMSF(e))
T2MulXi(a, p) == T2Mul(a, <<Z(1), Z(1)>>, p)

-----------------------------------------------------------------------------
T6Zero == <<T2Zero, T2Zero, T2Zero>>
T6One  == <<T2One, T2Zero, T2Zero>>
T6Add(a, b, p) == <<T2Add(a[1], b[1], p), T2Add(a[2], b[2], p), T2Add(a[3], b[3], p)>>
T6Sub(a, b, p) == <<T2Sub(a[1], b[1], p), T2Sub(a[2], b[2], p), T2Sub(a[3], b[3], p)>>
T6Mul(a, b, p) ==
    <<T2Add(T2Mul(a[1], b[1], p), T2MulXi(T2Add(T2Mul(a[2], b[3], p), T2Mul(a[3], b[2], p), p), p), p),
      T2Add(T2Add(T2Mul(a[1], b[2], p), T2Mul(a[2], b[1], p), p), T2MulXi(T2Mul(a[3], b[3], p), p), p),
      T2Add(T2Add(T2Mul(a[1], b[3], p), T2Mul(a[2], b[2], p), p), T2Mul(a[3], b[1], p), p)>>
T6MulV(a, p) == <<T2MulXi(a[3], p), a[1], a[2]>>             \* multiplication by v
T6Inv(a, p) ==
    LET t0 == T2Sub(T2Mul(a[1], a[1], p), T2MulXi(T2Mul(a[2], a[3], p), p), p)
        t1 == T2Sub(T2MulXi(T2Mul(a[3], a[3], p), p), T2Mul(a[1], a[2], p), p)
        t2 == T2Sub(T2Mul(a[2], a[2], p), T2Mul(a[1], a[3], p), p)
        n  == T2Inv(T2Add(T2Mul(a[1], t0, p),
                     T2MulXi(T2Add(T2Mul(a[3], t1, p), T2Mul(a[2], t2, p), p), p), p), p)
    IN <<T2Mul(t0, n, p), T2Mul(t1, n, p), T2Mul(t2, n, p)>>
T6Pow(a, e, p) == FoldLeft(LAMBDA acc, b : LET s == T6Mul(acc, acc, p) IN IF b = 1 THEN T6Mul(s, a, p) ELSE s,
                           T6One, BitsMSF(e))

-----------------------------------------------------------------------------
T12Zero == <<T6Zero, T6Zero>>
T12One  == <<T6One, T6Zero>>
T12Add(a, b, p) == <<T6Add(a[1], b[1], p), T6Add(a[2], b[2], p)>>
T12Sub(a, b, p) == <<T6Sub(a[1], b[1], p), T6Sub(a[2], b[2], p)>>
T12Mul(a, b, p) == <<T6Add(T6Mul(a[1], b[1], p), T6MulV(T6Mul(a[2], b[2], p), p), p),
                     T6Add(T6Mul(a[1], b[2], p), T6Mul(a[2], b[1], p), p)>>
T12Inv(a, p)    == LET n == T6Inv(T6Sub(T6Mul(a[1], a[1], p), T6MulV(T6Mul(a[2], a[2], p), p), p), p)
                   IN <<T6Mul(a[1], n, p), T6Sub(T6Zero, T6Mul(a[2], n, p), p)>>
T12Pow(a, e, p) == FoldLeft(LAMBDA acc, b : LET s == T12Mul(acc, acc, p) IN IF b = 1 THEN T12Mul(s, a, p) ELSE s,
                            T12One, BitsMSF(e))

-----------------------------------------------------------------------------
\* y^2 = x^3 + b over Fp
Inf == <<>>
IsInf(pt) == Len(pt) = 0
E1Neg(a, p) == IF IsInf(a) THEN Inf ELSE <<a[1], SubMod(Z(0), a[2], p)>>
E1Line(a, l, x2, p) == LET x3 == SubMod(ZMul(l, l), ZAdd(a[1], x2), p)
                       IN <<x3, SubMod(ZMul(l, ZSub(a[1], x3)), a[2], p)>>
E1Dbl(a, p) == IF IsInf(a) \/ ZIs(a[2], Z(0)) THEN Inf
               ELSE E1Line(a, MulMod(MulMod(Z(3), ZMul(a[1], a[1]), p), InvMod(ZAdd(a[2], a[2]), p), p), a[1], p)
E1Add(a, b, p) == IF IsInf(a) THEN b
                  ELSE IF IsInf(b) THEN a
                  ELSE IF ZIs(a[1], b[1])
                       THEN IF ZIs(a[2], b[2]) THEN E1Dbl(a, p) ELSE Inf
                  ELSE E1Line(a, MulMod(ZSub(b[2], a[2]), InvMod(ZSub(b[1], a[1]), p), p), b[1], p)
E1Mul(a, k, p) == FoldLeft(LAMBDA acc, b : LET d == E1Dbl(acc, p) IN IF b = 1 THEN E1Add(d, a, p) ELSE d,
                           Inf, BitsMSF(k))

\* y^2 = x^3 + b over Fp2
E2Neg(a, p) == IF IsInf(a) THEN Inf ELSE <<a[1], T2Sub(T2Zero, a[2], p)>>
E2Line(a, l, x2, p) == LET x3 == T2Sub(T2Sub(T2Mul(l, l, p), a[1], p), x2, p)
                       IN <<x3, T2Sub(T2Mul(l, T2Sub(a[1], x3, p), p), a[2], p)>>
E2Dbl(a, p) == IF IsInf(a) \/ a[2] = T2Zero THEN Inf
               ELSE LET s == T2Mul(a[1], a[1], p)
                    IN E2Line(a, T2Mul(T2Add(T2Add(s, s, p), s, p), T2Inv(T2Add(a[2], a[2], p), p), p), a[1], p)
E2Add(a, b, p) == IF IsInf(a) THEN b
                  ELSE IF IsInf(b) THEN a
                  ELSE IF a[1] = b[1]
                       THEN IF a[2] = b[2] THEN E2Dbl(a, p) ELSE Inf
                  ELSE E2Line(a, T2Mul(T2Sub(b[2], a[2], p), T2Inv(T2Sub(b[1], a[1], p), p), p), b[1], p)
E2Mul(a, k, p) == FoldLeft(LAMBDA acc, b : LET d == E2Dbl(acc, p) IN IF b = 1 THEN E2Add(d, a, p) ELSE d,
                           Inf, BitsMSF(k))
=============================================================================
