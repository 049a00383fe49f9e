------------------------------- MODULE Small -------------------------------
(***************************************************************************)
(* The definitions of Tower and Fields over small primes p = 3 mod 8,      *)
(* p = 1 mod 3 (so that 1 + u is neither a square nor a cube in Fp2, as    *)
(* for BLS12-381), with every element visited: one state per element a.    *)
(***************************************************************************)
EXTENDS HashToCurve, FiniteSets, TLC, IOUtils

SmallP == Z(atoi(IOEnv.SMALLP))
N == atoi(IOEnv.SMALLP)
SmallX == Z(4)
SmallQ == Z(7)
SmallB == Z(4)
SmallRadix == Z(64)
SmallNeg == FALSE
VARIABLES a, law
Fp == {Z(i) : i \in 0..(N - 1)}
F2 == Fp \X Fp
Some2 == {<<Z(0), Z(1)>>, <<Z(1), Z(1)>>, <<Z(2), Z(N - 1)>>, <<Z(N - 1), Z(0)>>, <<Z(5), Z(3)>>}
\* the points of y^2 = x^3 + b over Fp, and of y^2 = x^3 + b (1 + u) over Fp2
E1(b) == {<<>>} \cup {pt \in Fp \X Fp : ZIs(FpSq(pt[2]), FpAdd(FpMul(FpSq(pt[1]), pt[1]), b))}
On(b, pt) == pt = <<>> \/ Fp2Sq(pt[2]) = Fp2Add(Fp2Mul(Fp2Sq(pt[1]), pt[1]), <<b, b>>)
E2(b) == {<<>>} \cup UNION {LET w == Fp2Add(Fp2Mul(Fp2Sq(x), x), <<b, b>>) IN IF Fp2IsSquare(w) THEN {<<x, Fp2Sqrt(w)>>, <<x, Fp2Neg(Fp2Sqrt(w))>>} ELSE {} : x \in F2}
Laws == {"ring", "root", "group1", "group2", "tower"}
Holds(l, x) ==
    CASE l = "ring" ->      \* Fp2 is a field
              /\ (x # Fp2Zero => Fp2Mul(x, Fp2Inv(x)) = Fp2One) /\ Fp2Inv(Fp2Zero) = Fp2Zero
              /\ Fp2Conj(x) = Fp2Pow(x, P) /\ ZIs(T2Norm(x, P), Fp2Mul(x, Fp2Conj(x))[1])
              /\ \A y \in F2 : /\ Fp2Mul(x, y) = Fp2Mul(y, x) /\ Fp2Sub(Fp2Add(x, y), y) = x
                               /\ (Fp2Mul(x, y) = Fp2Zero) = (x = Fp2Zero \/ y = Fp2Zero)
                               /\ \A w \in Some2 : Fp2Mul(x, Fp2Add(y, w)) = Fp2Add(Fp2Mul(x, y), Fp2Mul(x, w)) /\ Fp2Mul(x, Fp2Mul(y, w)) = Fp2Mul(Fp2Mul(x, y), w)
      [] l = "root" ->      \* squares, roots and the choice of one of two roots
              /\ Fp2IsSquare(x) = (\E y \in F2 : Fp2Sq(y) = x)
              /\ Fp2IsSquare(x) = (Fp2Sq(Fp2Sqrt(x)) = x)
              /\ (x # Fp2Zero => Fp2Largest(x) # Fp2Largest(Fp2Neg(x))) /\ ~Fp2Largest(Fp2Zero)
              /\ (x # Fp2Zero => Sgn2(x) # Sgn2(Fp2Neg(x)))
              /\ FpIsSquare(x[1]) = (\E y \in Fp : ZIs(FpSq(y), x[1])) /\ (FpIsSquare(x[1]) => ZIs(FpSq(FpSqrt(x[1])), x[1]))
              /\ (~FpIsZero(x[1]) => FpLargest(x[1]) # FpLargest(FpNeg(x[1])) /\ Sgn1(x[1]) # Sgn1(FpNeg(x[1])))
              /\ ZIs(Unstored(Stored(x[1])), x[1])
      [] l = "group1" ->    \* every curve y^2 = x^3 + b over Fp is an abelian group; x[1] chooses the curve, x[2] a slice of it
              FpIsZero(x[1]) \/ LET E == E1(x[1]) IN \A A \in E, B \in E :
                   ~(IF A = <<>> THEN FpIsZero(x[2]) ELSE ZIs(A[1], x[2])) \/
                   LET S == E1Add(A, B, P) IN S \in E /\ S = E1Add(B, A, P) /\ (S = <<>>) = (B = E1Neg(A, P)) /\ \A C \in E : E1Add(S, C, P) = E1Add(A, E1Add(B, C, P), P)
      [] l = "group2" ->    \* the twist over Fp2: pairs with first point above x, third from a fixed few; multiples up to the order
              LET b == Z(4) E == E2(b) w == Fp2Add(Fp2Mul(Fp2Sq(x), x), <<b, b>>) IN
              ~Fp2IsSquare(w) \/ LET A == <<x, Fp2Sqrt(w)>> D == {d \in E : d # <<>> /\ d[1][1] = Z(1)} \cup {<<>>, E2Neg(A, P), E2Dbl(A, P)} IN
                   /\ \A B \in E : LET S == E2Add(A, B, P) IN On(b, S) /\ S = E2Add(B, A, P) /\ (S = <<>>) = (B = E2Neg(A, P))
                                     /\ \A C \in D : E2Add(S, C, P) = E2Add(A, E2Add(B, C, P), P)
                   /\ E2Mul(A, Z(Cardinality(E)), P) = <<>>
                   /\ \A k \in 0..30 : E2Mul(A, Z(k + 1), P) = E2Add(E2Mul(A, Z(k), P), A, P)
                   /\ Jac2(Fp2Mul(A[1], Fp2Sq(<<Z(2), Z(3)>>)), Fp2Mul(A[2], Fp2Mul(Fp2Sq(<<Z(2), Z(3)>>), <<Z(2), Z(3)>>)), <<Z(2), Z(3)>>) = A
      [] l = "tower" ->     \* 1 + u is no square and no cube; inverses in Fp6 and Fp12 of sparse elements
              /\ Fp2Sq(x) # Xi /\ Fp2Mul(Fp2Sq(x), x) # Xi
              /\ \A i \in 1..3, w \in Some2 : LET e == [j \in 1..3 |-> IF j = i THEN x ELSE IF j = (i % 3) + 1 THEN w ELSE Fp2Zero] IN
                   /\ Fp6Mul(e, Fp6Inv(e)) = Fp6One
                   /\ LET f == <<e, [j \in 1..3 |-> IF j = 1 THEN w ELSE x]>> IN Fp12Mul(f, Fp12Inv(f)) = Fp12One /\ Fp12Frob(f, 1) = Fp12Pow(f, P) /\ Fp12Frob(f, 6) = Fp12Conj(f)
Init == a \in F2 /\ law = "ring"
Next == \E l \in Laws : law = "ring" /\ l # "ring" /\ law' = l /\ a' = a
AllHold == Holds(law, a)
=============================================================================
