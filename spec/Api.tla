-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* What each call of the library means: Want(e, R, v) is the result the    *)
(* specification requires of the call recorded in e, given the abstract    *)
(* values R of the argument registers.  A result is one of                 *)
(*    [k |-> kind, v |-> value]   exactly this value                       *)
(*    [k |-> "rel", v |-> BOOLEAN] a relation on the observed value v      *)
(*    [k |-> "any"]               the call is outside its contract         *)
(* Values are compared as mathematical objects: a field element is a       *)
(* residue whatever produced it, a group element is a point of the curve   *)
(* whatever Jacobian triple represents it.                                 *)
(***************************************************************************)
EXTENDS Keys, IOUtils, FiniteSets

Num(s) == atoi(s)
\* the Frobenius maps have a period that divides 12
Pow12(s) == ZInt(ZMod(DecZ(s), Z(12)))
Limbs(n) == ZPow(Z(2), Z(64 * n))
WidthOf(hex) == Len(hex) \div 16

\* ---------------------------------------------------------------- abstraction
FpKinds == {"fp", "fp2", "fp6", "fp12", "g1", "g2", "fpx2", "fp2x2"}
U(h) == Unstored(Hex(h))
Canon(k, r) == k \in FpKinds => \A i \in 1..Len(r) : ZLt(Hex(r[i]), P)
U2(r, i) == <<U(r[i]), U(r[i + 1])>>
U6(r, i) == <<U2(r, i), U2(r, i + 2), U2(r, i + 4)>>
Abs(k, r) ==
    CASE k = "fp"    -> U(r[1])
      [] k = "fp2"   -> U2(r, 1)
      [] k = "fp6"   -> U6(r, 1)
      [] k = "fp12"  -> <<U6(r, 1), U6(r, 7)>>
      [] k = "g1"    -> LET j == <<U(r[1]), U(r[2]), U(r[3])>> IN [j |-> j, a |-> Jac1(j[1], j[2], j[3])]
      [] k = "g2"    -> LET j == <<U2(r, 1), U2(r, 3), U2(r, 5)>> IN [j |-> j, a |-> Jac2(j[1], j[2], j[3])]
      [] k = "sc"    -> [z |-> Hex(r[1]), n |-> WidthOf(r[1])]
      [] k = "by"    -> HexBytes(r[1])
      [] k = "bo"    -> r[1] = "1"
      [] k = "in"    -> Num(r[1])
      [] k = "rawv"  -> Hex(r[1])
      [] k = "fpx2"  -> <<U(r[1]), U(r[2])>>
      [] k = "fp2x2" -> <<U2(r, 1), U2(r, 3)>>
      [] k = "divn"  -> <<Hex(r[1]), Hex(r[2])>>
      [] k = "words" -> <<Hex(r[1]), Hex(r[2])>>
      [] OTHER       -> <<>>
Same(k, x, y) ==
    CASE k = "fp" \/ k = "rawv"  -> ZIs(x, y)
      [] k = "g1" \/ k = "g2"    -> x.a = y
      [] k = "sc"                -> ZIs(x.z, y)
      [] k \in {"none", "u", "exc"} -> TRUE
      [] OTHER                   -> x = y

Is(k, x)  == [k |-> k, v |-> x]
Rel(b)    == [k |-> "rel", v |-> b]
Free       == [k |-> "any"]
NoneV     == [k |-> "none", v |-> 0]
Exc       == [k |-> "exc", v |-> 0]
B(b)      == Is("bo", b)
\* lists of n entries that repeat a and b values: how often value i of the one meets value j of the other
Cyc(a, b, n) == LET cnt(t) == IF t < n THEN (n - t - 1) \div (a * b) + 1 ELSE 0
                IN [i \in 1..a |-> [j \in 1..b |-> FoldLeft(LAMBDA acc, t : acc + IF t % a = i - 1 /\ t % b = j - 1 THEN cnt(t) ELSE 0, 0, [t \in 1..(a * b) |-> t - 1])]]
SumZ(s) == FoldLeft(LAMBDA acc, z : ZAdd(acc, z), Zero, s)
When(pre, w) == IF pre THEN w ELSE Free
\* the callback (immediate 1 is m) throws, if it is called: the exception reaches the caller and nothing else happens
\* a computation with a callback, whose k-th call throws (k = 0: none): v = <<calls made, whether the exception came through>>; there are at least lo calls
Yielded(e, v, k, lo) == /\ e.k = "words"
                        /\ \/ ZIs(v[2], One) /\ k > 0 /\ ZIs(v[1], Z(k))
                           \/ ZIs(v[2], Zero) /\ (k = 0 \/ ZLt(v[1], Z(k))) /\ ZLe(Z(lo), v[1])
YieldSum(e, v) == LET n == IF Num(e.m[3]) < Num(e.m[4]) THEN Num(e.m[3]) ELSE Num(e.m[4]) IN Rel(Yielded(e, v, Num(e.m[1]), 10 * (n \div 256)))
Interrupted(e, m, w) == IF Len(e.m) > 0 /\ e.m[1] = m /\ e.k = "exc" THEN Exc ELSE w

\* ---------------------------------------------------------------- encodings
LE1(a) == EncLE(a, 48)
LE2(a) == LE1(a[1]) \o LE1(a[2])
LE6(a) == LE2(a[1]) \o LE2(a[2]) \o LE2(a[3])
LE12(a) == LE6(a[1]) \o LE6(a[2])
Sto2(a) == <<Stored(a[1]), Stored(a[2])>>
Sto6(a) == <<Sto2(a[1]), Sto2(a[2]), Sto2(a[3])>>
Sto12(a) == <<Sto6(a[1]), Sto6(a[2])>>
LeInts(b) == [i \in 1..(Len(b) \div 48) |-> BE(Rev(Chunk(b, 48, i)))]
\* decode field coefficients from little-endian octets: flags "cm" = check_valid, to_mont
DecK(k, b, fl) ==
    LET n == LeInts(b)
        ok == \A i \in 1..Len(n) : IsFp(n[i])
        f == [i \in 1..Len(n) |-> IF SubSeq(fl, 2, 2) = "1" THEN n[i] ELSE Unstored(n[i])]
        p2(i) == <<f[i], f[i + 1]>>
        p6(i) == <<p2(i), p2(i + 2), p2(i + 4)>>
    IN IF ~ok THEN (IF SubSeq(fl, 1, 1) = "1" THEN NoneV ELSE Free)
       ELSE Is(k, CASE k = "fp" -> f[1] [] k = "fp2" -> p2(1) [] k = "fp6" -> p6(1) [] OTHER -> <<p6(1), p6(7)>>)

\* operations the four fields have in common
FieldCommon(k, o, e, A(_), zero, one, Add(_, _), Sub(_, _), Neg(_), Mul(_, _), Sq(_), Inv(_), Pow(_, _), Le(_), Sto(_)) ==
    CASE o = "zero" \/ o = "ctor" -> Is(k, zero)
      [] o = "one"    -> Is(k, one)
      [] o = "copy"   -> Is(k, A(1))
      [] o = "isZero" -> B(Same(k, A(1), zero))
      [] o = "isOne"  -> B(Same(k, A(1), one))
      [] o = "equal" \/ o = "eqop" -> B(Same(k, A(1), A(2)))
      [] o = "add" \/ o = "addA" -> Is(k, Add(A(1), A(2)))
      [] o = "dbl" \/ o = "dblA" -> Is(k, Add(A(1), A(1)))
      [] o = "sub" \/ o = "subA" -> Is(k, Sub(A(1), A(2)))
      [] o = "neg"    -> Is(k, Neg(A(1)))
      [] o = "mul" \/ o = "mulA" -> Is(k, Mul(A(1), A(2)))
      [] o = "sq" \/ o = "sqA"   -> Is(k, Sq(A(1)))
      [] o = "inv"    -> Is(k, Inv(A(1)))
      [] o = "exp"    -> Is(k, Pow(A(1), Hex(e.m[1])))
      [] o = "fromBE" -> DecK(k, Rev(A(1)), e.m[1])
      [] o = "fromLE" -> DecK(k, A(1), e.m[1])
      [] o = "fromBEd" -> DecK(k, Rev(A(1)), "11")
      [] o = "fromLEd" -> DecK(k, A(1), "11")
      [] o = "toBE" \/ o = "toBEs" -> Is("by", Rev(Le(IF e.m[1] = "1" THEN A(1) ELSE Sto(A(1)))))
      [] o = "toLE" \/ o = "toLEs" -> Is("by", Le(IF e.m[1] = "1" THEN A(1) ELSE Sto(A(1))))

Common == {"zero", "ctor", "one", "copy", "isZero", "isOne", "equal", "eqop", "add", "addA", "dbl", "dblA", "sub",
           "subA", "neg", "mul", "mulA", "sq", "sqA", "inv", "exp", "fromBE", "fromLE", "fromBEd", "fromLEd", "toBE", "toBEs", "toLE", "toLEs"}
Ord(a, b) == IF ZLt(a, b) THEN -1 ELSE IF ZIs(a, b) THEN 0 ELSE 1

WantFp(o, e, A(_), v) ==
    IF o \in Common
    THEN FieldCommon("fp", o, e, A, Zero, One, FpAdd, FpSub, FpNeg, FpMul, FpSq, FpInv, FpPow, LE1, Stored)
    ELSE
    CASE o = "raw"     -> Is("fp", U(e.m[1]))
      [] o = "isValidRaw" -> B(ZLt(Hex(e.m[1]), P))
      \* comparison and parity look at the stored form; equality of stored forms is equality of residues
      [] o = "cmp" \/ o = "ord" -> Is("in", Ord(Stored(A(1)), Stored(A(2))))
      [] o = "isOdd"   -> B(ZBit(Stored(A(1)), 0) = 1)
      [] o = "isEven"  -> B(ZBit(Stored(A(1)), 0) = 0)
      [] o = "sign"    -> B(ZBit(A(1), 0) = 0)
      [] o = "toMont"  -> Is("fp", Stored(A(1)))
      [] o = "fromMont" -> Is("fp", Unstored(A(1)))
      \* multiplication by a primitive cube root of unity w
      [] o = "phi"     -> Rel(e.k = "fp" /\ ZIs(FpAdd(FpAdd(FpSq(v), FpMul(v, A(1))), FpSq(A(1))), Zero)
                                       /\ (FpIsZero(A(1)) \/ ~ZIs(v, A(1))))
      [] o = "sqrt" \/ o = "sqrtA" -> IF FpIsSquare(A(1)) THEN Rel(e.k = "fp" /\ ZIs(FpSq(v), A(1))) ELSE NoneV
      [] o = "isQNR"   -> When(~FpIsZero(A(1)), B(~FpIsSquare(A(1))))
      [] o = "isLL"    -> B(FpLargest(A(1)))
      \* the raw value shifted right by one bit with bit 383 taken from the immediate; and doubled with the carry returned
      [] o = "div2raw" -> Is("rawv", ZAdd(ZDiv(Hex(e.m[1]), Two), IF e.m[2] = "0" THEN Zero ELSE ZPow(Two, Z(383))))
      [] o = "mul2raw" -> Rel(e.k = "rawv" /\ ZIs(v, ZMod(ZMul(Two, Hex(e.m[1])), Limbs(6)))
                                           /\ Num(e.r[2]) = ZBit(Hex(e.m[1]), 383))
      [] o = "modPrime" -> Is("fp", ZMod(Hex(e.m[1]), P))

WantFp2(o, e, A(_), v) ==
    IF o \in Common
    THEN FieldCommon("fp2", o, e, A, Fp2Zero, Fp2One, Fp2Add, Fp2Sub, Fp2Neg, Fp2Mul, Fp2Sq, Fp2Inv, Fp2Pow, LE2, Sto2)
    ELSE
    CASE o = "raw"    -> Is("fp2", <<U(e.m[1]), U(e.m[2])>>)
      [] o = "mk"     -> Is("fp2", <<A(1), A(2)>>)
      [] o = "sign"   -> B(IF FpIsZero(A(1)[1]) THEN ZBit(A(1)[2], 0) = 0 ELSE ZBit(A(1)[1], 0) = 0)
      [] o = "conj"   -> Is("fp2", Fp2Conj(A(1)))
      [] o = "mulNR"  -> Is("fp2", Fp2MulXi(A(1)))
      [] o = "mulB"   -> Is("fp2", Fp2Mul(A(1), B2))
      [] o = "mulFq"  -> Is("fp2", Fp2Scale(A(1), A(2)))
      [] o = "frob" \/ o = "frobA" -> Is("fp2", Fp2Frob(A(1), Pow12(e.m[1])))
      [] o = "sqrt" \/ o = "sqrtA" -> IF Fp2IsSquare(A(1)) THEN Rel(e.k = "fp2" /\ Fp2Sq(v) = A(1)) ELSE NoneV
      [] o = "isQNR"  -> When(~Fp2IsZero(A(1)), B(~Fp2IsSquare(A(1))))
      [] o = "isLL"   -> B(Fp2Largest(A(1)))

At1(b1) == <<Fp2Zero, b1, Fp2Zero>>
WantFp6(o, e, A(_), v) ==
    IF o \in Common
    THEN FieldCommon("fp6", o, e, A, Fp6Zero, Fp6One, Fp6Add, Fp6Sub, Fp6Neg, Fp6Mul, Fp6Sq, Fp6Inv, Fp6Pow, LE6, Sto6)
    ELSE
    CASE o = "raw"      -> Is("fp6", U6(e.m, 1))
      [] o = "mk"       -> Is("fp6", <<A(1), A(2), A(3)>>)
      [] o = "mulBy01" \/ o = "mulBy01A" -> Is("fp6", Fp6Mul(A(1), <<A(2), A(3), Fp2Zero>>))
      [] o = "mulBy1"   -> Is("fp6", Fp6Mul(A(1), At1(A(2))))
      [] o = "mulNR"    -> Is("fp6", Fp6MulV(A(1)))
      [] o = "mulBase"  -> Is("fp6", Fp6ScaleFp2(A(1), A(2)))
      [] o = "frob" \/ o = "frobA" -> Is("fp6", Fp6Frob(A(1), Pow12(e.m[1])))

WantFp12(o, e, A(_), v) ==
    IF o \in Common
    THEN FieldCommon("fp12", o, e, A, Fp12Zero, Fp12One, Fp12Add, Fp12Sub, Fp12Neg, Fp12Mul, Fp12Sq, Fp12Inv, Fp12Pow, LE12, Sto12)
    ELSE
    CASE o = "raw"    -> Is("fp12", <<U6(e.m, 1), U6(e.m, 7)>>)
      [] o = "mk"     -> Is("fp12", <<A(1), A(2)>>)
      [] o = "conj"   -> Is("fp12", Fp12Conj(A(1)))
      [] o = "isGt"   -> B(InGT(A(1)))
      [] o = "cycSq" \/ o = "cycSqA" -> When(IsCyclotomic(A(1)), Is("fp12", Fp12Sq(A(1))))
      [] o = "cycExp" -> When(IsCyclotomic(A(1)), Is("fp12", Fp12Pow(A(1), Hex(e.m[1]))))
      \* multiplication by c0 + c1 v + c4 v w
      [] o = "mulBy014A" -> Is("fp12", Fp12Mul(A(1), <<<<A(2), A(3), Fp2Zero>>, At1(A(4))>>))
      [] o = "frob" \/ o = "frobA" -> Is("fp12", Fp12Frob(A(1), Pow12(e.m[1])))
      \* (a + b s)^2 in Fp2[s]/(s^2 - xi)
      [] o = "fp4Sq"  -> Is("fp2x2", <<Fp2Add(Fp2Sq(A(1)), Fp2MulXi(Fp2Sq(A(2)))),
                                       LET m == Fp2Mul(A(1), A(2)) IN Fp2Add(m, m)>>)

\* ---------------------------------------------------------------- groups
GroupCommon(k, o, e, n, A(_), gen, one, On(_), In(_), Neg(_), Add(_, _), Mul(_, _), Clear(_), Map(_), enc(_), dec(_), Le(_), Sto(_), w, Jac(_, _, _)) ==
    LET N == Len(e.x)
        a(i) == A(i).a
        AllOn == \A i \in 1..N : On(a(i))
        flag(x) == IF e.m[1] = "1" THEN x ELSE Sto(x)
        rv(big, b) == IF big THEN Rev(b) ELSE b
        \* decode cnt coordinates of w octets each
        coord(big, b, i, fl) == DecK(IF w = 48 THEN "fp" ELSE "fp2", rv(big, Chunk(b, w, i)), "1" \o SubSeq(fl, 2, 2))
        decJ(big, b, fl) ==
            LET c == [i \in 1..3 |-> coord(big, b, i, fl)]
            IN IF \E i \in 1..3 : c[i].k = "none" THEN NoneV
               ELSE LET pt == Jac(c[1].v, c[2].v, c[3].v)
                    IN IF SubSeq(fl, 1, 1) = "1" /\ ~On(pt) THEN NoneV ELSE Is(k, pt)
        decA(big, b, fl) ==
            LET c == [i \in 1..2 |-> coord(big, b, i, fl)]
            IN IF \E i \in 1..2 : c[i].k = "none" THEN NoneV
               ELSE IF AllZero(b) THEN Is(k, Inf)
               ELSE LET pt == <<c[1].v, c[2].v>>
                    IN IF SubSeq(fl, 1, 1) = "1" /\ ~On(pt) THEN NoneV ELSE Is(k, pt)
        encA(big) == IF IsInf(a(1)) THEN [i \in 1..(2 * w) |-> 0]
                     ELSE rv(big, Le(flag(a(1)[1]))) \o rv(big, Le(flag(a(1)[2])))
        encJ(big) == LET j == A(1).j IN rv(big, Le(flag(j[1]))) \o rv(big, Le(flag(j[2]))) \o rv(big, Le(flag(j[3])))
    IN
    CASE o = "zero"   -> Is(k, Inf)
      [] o = "one" \/ o = "base" -> Is(k, gen)
      [] o = "copy"   -> Is(k, a(1))
      [] o = "isZero" -> B(IsInf(a(1)))
      [] o = "equal"  -> B(a(1) = a(2))
      [] o = "inSub"  -> When(AllOn, B(In(a(1))))
      [] o = "onCurve" -> B(On(a(1)))
      [] o = "isAffine" -> B(A(1).j[3] = one)
      [] o = "affine" -> Is(k, a(1))
      [] o = "add" \/ o = "addA" -> When(AllOn, Is(k, Add(a(1), a(2))))
      [] o = "dbl" \/ o = "dblA" -> When(AllOn, Is(k, Add(a(1), a(1))))
      [] o = "neg"    -> Is(k, Neg(a(1)))
      [] o = "sub" \/ o = "subA" -> When(AllOn, Is(k, Add(a(1), Neg(a(2)))))
      [] o = "clear"  -> When(AllOn, Is(k, Clear(a(1))))
      [] o = "scale"  -> When(AllOn, Is(k, Mul(a(1), Hex(e.m[1]))))
      [] o = "scaleS" -> When(On(a(1)), Is(k, Mul(a(1), A(2).z)))
      \* sum of k_i P_i, points first; unequal lengths are padded with zeros (immediate 2: number of points)
      [] o = "wsum"   -> LET np == IF Len(e.m) > 1 THEN Num(e.m[2]) ELSE N \div 2
                             c  == IF np < N - np THEN np ELSE N - np
                         IN When(\A i \in 1..np : On(a(i)),
                                 Interrupted(e, "2", Is(k, FoldLeft(LAMBDA acc, i : Add(acc, Mul(a(i), A(np + i).z)), Inf, Seq1(c)))))
      [] o = "wsumC"  -> LET np == Num(e.m[2])
                             M  == Cyc(np, N - np, IF Num(e.m[3]) < Num(e.m[4]) THEN Num(e.m[3]) ELSE Num(e.m[4]))
                         IN When(\A i \in 1..np : On(a(i)),
                                 Is(k, FoldLeft(LAMBDA acc, i : Add(acc, Mul(a(i), SumZ([j \in 1..(N - np) |-> ZMul(Z(M[i][j]), A(np + j).z)]))), Inf, Seq1(np))))
      [] o = "map"    -> Is(k, Map(A(1)))
      [] o = "ordset" -> Is("in", Cardinality({A(i).j : i \in 1..N}))
      [] o = "fromJBE" -> decJ(TRUE, A(1), e.m[1])
      [] o = "fromJLE" -> decJ(FALSE, A(1), e.m[1])
      [] o = "fromABE" -> decA(TRUE, A(1), e.m[1])
      [] o = "fromALE" -> decA(FALSE, A(1), e.m[1])
      [] o = "fromJBEd" -> decJ(TRUE, A(1), "01")
      [] o = "fromJLEd" -> decJ(FALSE, A(1), "01")
      [] o = "fromABEd" -> decA(TRUE, A(1), "01")
      [] o = "fromALEd" -> decA(FALSE, A(1), "01")
      [] o = "toABE" \/ o = "toABEs" -> Is("by", encA(TRUE))
      [] o = "toALE" \/ o = "toALEs" -> Is("by", encA(FALSE))
      [] o = "toJBE" \/ o = "toJBEs" -> Is("by", encJ(TRUE))
      [] o = "toJLE" \/ o = "toJLEs" -> Is("by", encJ(FALSE))
      [] o = "toC" \/ o = "toCs" -> When(AllOn, Is("by", enc(a(1))))
      [] o = "fromC"  -> LET d == dec(A(1)) IN IF d = None THEN NoneV ELSE Is(k, d[1])

WantG1(o, e, A(_), v) ==
    CASE o = "raw" -> Is("g1", Jac1(U(e.m[1]), U(e.m[2]), U(e.m[3])))
      [] o = "mk"  -> Is("g1", Jac1(A(1), A(2), A(3)))
      \* (driver) one component of the triple raised by one, or z negated
      [] o = "bump" -> LET j == [n \in 1..3 |-> IF n = Num(e.m[1]) + 1 THEN FpAdd(A(1).j[n], One) ELSE IF n = 3 /\ Num(e.m[1]) = 3 THEN FpNeg(A(1).j[n]) ELSE A(1).j[n]] IN Is("g1", Jac1(j[1], j[2], j[3]))
      \* (x, y) |-> (w x, y) with w a primitive cube root of unity
      [] o = "glv" -> LET pt == A(1).a
                      IN IF IsInf(pt) THEN Is("g1", Inf)
                         ELSE Rel(e.k = "g1" /\ ~IsInf(v.a) /\ ZIs(v.a[2], pt[2])
                                  /\ ZIs(FpAdd(FpAdd(FpSq(v.a[1]), FpMul(v.a[1], pt[1])), FpSq(pt[1])), Zero)
                                  /\ (FpIsZero(pt[1]) \/ ~ZIs(v.a[1], pt[1])))
      [] o = "swu" -> Is("fpx2", Swu1(A(1)))
      [] o = "yieldC" -> YieldSum(e, v)
      [] OTHER -> GroupCommon("g1", o, e, 3, A, Gen1, One, On1, InG1, Neg1, Add1, Mul1, Clear1, Map1, EncC1, DecC1, LE1, Stored, 48, Jac1)
OnIso2(pt) == IsInf(pt) \/ Fp2Sq(pt[2]) = Fp2Add(Fp2Mul(Fp2Add(Fp2Sq(pt[1]), SwuA2), pt[1]), SwuC2)
PsiK(pt, n) == FoldLeft(LAMBDA acc, i : Psi(acc), pt, Seq1(n))
WantG2(o, e, A(_), v) ==
    CASE o = "raw" -> Is("g2", Jac2(U2(e.m, 1), U2(e.m, 3), U2(e.m, 5)))
      [] o = "mk"  -> Is("g2", Jac2(A(1), A(2), A(3)))
      [] o = "bump" -> LET i == Num(e.m[1])
                           up(c) == IF i % 2 = 0 THEN <<FpAdd(c[1], One), c[2]>> ELSE <<c[1], FpAdd(c[2], One)>>
                           j == [n \in 1..3 |-> IF n = (i \div 2) + 1 THEN up(A(1).j[n]) ELSE IF n = 3 /\ i = 6 THEN Fp2Neg(A(1).j[n]) ELSE A(1).j[n]]
                       IN Is("g2", Jac2(j[1], j[2], j[3]))
      [] o = "psi" -> Is("g2", Psi(A(1).a))
      [] o = "frob" -> Is("g2", PsiK(A(1).a, Pow12(e.m[1])))
      [] o = "swu" -> Is("fp2x2", Swu2(A(1)))
      \* a step of the map to the curve: the argument is an affine point of E2'
      [] o = "iso" -> When(A(1).j[3] = Fp2One /\ OnIso2(A(1).a), Is("g2", Iso2(A(1).a)))
      [] o = "yieldC" -> YieldSum(e, v)
      [] OTHER -> GroupCommon("g2", o, e, 3, A, Gen2, Fp2One, On2, InG2, Neg2, Add2, Mul2, Clear2, Map2, EncC2, DecC2, LE2, Sto2, 96, Jac2)

\* ---------------------------------------------------------------- pairing
E0 == PairProd(<< <<Gen1, Gen2>> >>)
Pairs(e, A(_)) == [i \in 1..(Len(e.x) \div 2) |-> <<A(2*i - 1).a, A(2*i).a>>]
\* the pairing is specified on E(Fp) x G2
PairsIn(ps) == \A i \in 1..Len(ps) : On1(ps[i][1]) /\ InG2(ps[i][2])
WantPair(o, e, A(_), v) ==
    CASE o = "calc" -> LET ps == Pairs(e, A) IN When(PairsIn(ps), Interrupted(e, "t", Is("fp12", PairProd(ps))))
      [] o = "twostep" -> LET ps == Pairs(e, A)
                          IN When(PairsIn(ps) /\ \E i \in 1..Len(ps) : ~IsInf(ps[i][1]) /\ ~IsInf(ps[i][2]), Is("fp12", PairProd(ps)))
      \* without add_pair the caller supplies affine points
      [] o = "direct" -> LET ps == Pairs(e, A)
                         IN When(PairsIn(ps) /\ \A i \in 1..Len(ps) : /\ ~IsInf(ps[i][1]) /\ ZIs(A(2*i - 1).j[3], One)
                                                                     /\ ~IsInf(ps[i][2]) /\ A(2*i).j[3] = Fp2One,
                                 Is("fp12", PairProd(ps)))
      [] o = "calcW" ->    \* discrete logarithms a1 b1 a2 b2 ... of the arguments: e(aG1, bG2) = e(G1, G2)^(ab)
             LET ps == Pairs(e, A)
                 s  == FoldLeft(LAMBDA acc, i : AddMod(acc, ZMul(Hex(e.m[2*i - 1]), Hex(e.m[2*i])), Q), Zero, Seq1(Len(ps)))
             IN When(\A i \in 1..Len(ps) : ps[i] = <<Mul1(Gen1, Hex(e.m[2*i - 1])), Mul2(Gen2, Hex(e.m[2*i]))>>,
                     Is("fp12", Fp12Pow(E0, s)))
      [] o = "yieldC" ->
             LET ps == Pairs(e, A)
                 np == Len(ps)
                 M  == Cyc(np, 1, Num(e.m[2]))
                 n  == FoldLeft(LAMBDA acc, i : IF IsInf(ps[i][1]) \/ IsInf(ps[i][2]) THEN acc ELSE acc + M[i][1], 0, Seq1(np))
             IN When(n > 0 \/ e.m[3] = "0", Rel(Yielded(e, v, Num(e.m[1]), IF n >= 20 THEN 1 ELSE 0)))
      [] o = "calcC" ->
             LET ps == Pairs(e, A)
                 np == Len(ps)
                 M  == Cyc(np, 1, Num(e.m[1]))
                 s  == SumZ([i \in 1..np |-> ZMul(Z(M[i][1]), ZMul(Hex(e.m[2*i]), Hex(e.m[2*i + 1])))])
             IN When(\A i \in 1..np : ps[i] = <<Mul1(Gen1, Hex(e.m[2*i])), Mul2(Gen2, Hex(e.m[2*i + 1]))>>,
                     Is("fp12", Fp12Pow(E0, ZMod(s, Q))))
      [] o = "finalA" -> When(A(1) # Fp12Zero, Is("fp12", FinalExp(A(1))))
      [] o = "npairs" -> Is("in", Cardinality({i \in 1..(Len(e.x) \div 2) : ~IsInf(A(2*i - 1).a) /\ ~IsInf(A(2*i).a)}))

\* ---------------------------------------------------------------- signatures and keys
Idx(m) == ToBE(Hex(m), 4)
Reg(e, A(_), i, n) == [j \in 1..n |-> A(i + j - 1).a]
Byt(e, A(_), i, n) == [j \in 1..n |-> A(i + j - 1)]
HexSeq(m, i) == [j \in 1..(Len(m) - i + 1) |-> Hex(m[i + j - 1])]
Masked(e, A(_)) == SelectSeq(Seq1(Len(e.x)), LAMBDA i : e.m[1] = "-" \/ SubSeq(e.m[1], i, i) = "1")
WantSig(o, e, A(_), v) ==
    LET N == Len(e.x) IN
    CASE o = "sk"      -> Is("sc", KeyGen(A(1)))
      [] o = "child"   -> Is("sc", ChildSk(A(1).z, ToBE(DecZ(e.m[1]), 4)))
      [] o = "childU"  -> When(ZLt(A(1).z, Q), Is("sc", ChildSkU(A(1).z, ToBE(DecZ(e.m[1]), 4))))
      [] o = "childG1" -> When(On1(A(1).a), Is("g1", ChildG1U(A(1).a, ToBE(DecZ(e.m[1]), 4))))
      [] o = "childG2" -> When(On2(A(1).a), Is("g2", ChildG2U(A(1).a, ToBE(DecZ(e.m[1]), 4))))
      [] o = "pk"      -> Is("g1", PublicKey(A(1).z))
      [] o = "skFrom"  -> LET n == BE(A(1)) IN Is("sc", IF e.m[1] = "1" THEN ZMod(n, Q) ELSE IF ZLt(n, Q) THEN n ELSE Zero)
      [] o = "skFromd" -> LET n == BE(A(1)) IN Is("sc", IF ZLt(n, Q) THEN n ELSE Zero)
      [] o = "skTo"    -> Is("by", ToBE(A(1).z, 32))
      [] o = "fromMsg" -> Is("g2", HashToG2(A(1), A(2)))
      [] o = "sign"    -> Is("g2", Sign(A(1).z, A(2)))
      \* optional immediate: the secret key of the public key, letting the equation be evaluated without a pairing
      [] o = "verify"  -> IF Len(e.m) > 0 /\ WitnessOK(<<A(1).a>>, <<Hex(e.m[1])>>)
                          THEN B(VerifyW(A(1).a, Hex(e.m[1]), A(2), A(3).a))
                          ELSE B(Verify(A(1).a, A(2), A(3).a))
      [] o = "popProve" -> Is("g2", PopProve(A(1).z))
      [] o = "popVerify" -> IF Len(e.m) > 0 /\ WitnessOK(<<A(1).a>>, <<Hex(e.m[1])>>)
                            THEN B(PopVerifyW(A(1).a, Hex(e.m[1]), A(2).a))
                            ELSE B(PopVerify(A(1).a, A(2).a))
      [] o = "popFast" -> LET pk == Sum1(Reg(e, A, 3, N - 2))
                          IN IF N = 2 THEN B(FALSE)
                             ELSE When(\A i \in 3..N : On1(A(i).a),
                                  IF Len(e.m) > 0 /\ WitnessOK(<<pk>>, <<Hex(e.m[1])>>)
                                  THEN B(VerifyW(pk, Hex(e.m[1]), A(1), A(2).a))
                                  ELSE B(Verify(pk, A(1), A(2).a)))
      [] o = "aggVerify" -> LET n == Num(e.m[2])
                                pks == Reg(e, A, 2, n)
                                msgs == Byt(e, A, 2 + n, N - 1 - n)
                                dup == e.m[1] = "1"
                                ws == HexSeq(e.m, 3)
                            IN IF Len(e.m) > 2 /\ WitnessOK(pks, ws)
                               THEN B(AggVerifyW(pks, ws, msgs, A(1).a, dup))
                               ELSE B(AggVerify(pks, msgs, A(1).a, dup))
      [] o = "aggSk"  -> When(\A i \in 1..N : ZLt(A(i).z, Q),
                              Is("sc", FoldLeft(LAMBDA acc, i : AddMod(acc, A(i).z, Q), Zero, Seq1(N))))
      [] o = "aggPk"  -> When(\A i \in 1..N : On1(A(i).a), Is("g1", Sum1(Reg(e, A, 1, N))))
      [] o = "aggSig" -> When(\A i \in 1..N : On2(A(i).a), Is("g2", Sum2(Reg(e, A, 1, N))))
      [] o = "aggPkT"  -> LET s == Masked(e, A) IN When(\A i \in 1..N : On1(A(i).a), Is("g1", Sum1([i \in 1..Len(s) |-> A(s[i]).a])))
      [] o = "aggSigT" -> LET s == Masked(e, A) IN When(\A i \in 1..N : On2(A(i).a), Is("g2", Sum2([i \in 1..Len(s) |-> A(s[i]).a])))
      [] o \in {"aggPkC", "aggSkC", "aggSigC"} ->
             LET M == Cyc(N, 1, Num(e.m[1]))
             IN (CASE o = "aggPkC"  -> When(\A i \in 1..N : On1(A(i).a), Is("g1", Sum1([i \in 1..N |-> Mul1(A(i).a, Z(M[i][1]))])))
                  [] o = "aggSigC" -> When(\A i \in 1..N : On2(A(i).a), Is("g2", Sum2([i \in 1..N |-> Mul2(A(i).a, Z(M[i][1]))])))
                  [] o = "aggSkC"  -> When(\A i \in 1..N : ZLt(A(i).z, Q), Is("sc", ZMod(SumZ([i \in 1..N |-> ZMul(A(i).z, Z(M[i][1]))]), Q))))
      [] o \in {"aggPkTC", "aggSigTC"} ->
             LET L == Len(e.m[1])
                 M == Cyc(N, L, Num(e.m[2]))
                 c(i) == FoldLeft(LAMBDA acc, j : acc + IF SubSeq(e.m[1], j, j) = "1" THEN M[i][j] ELSE 0, 0, Seq1(L))
             IN IF o = "aggPkTC" THEN When(\A i \in 1..N : On1(A(i).a), Is("g1", Sum1([i \in 1..N |-> Mul1(A(i).a, Z(c(i)))])))
                ELSE When(\A i \in 1..N : On2(A(i).a), Is("g2", Sum2([i \in 1..N |-> Mul2(A(i).a, Z(c(i)))])))
      [] o = "popFastC" -> LET M == Cyc(N - 2, 1, Num(e.m[1]))
                               pk == Sum1([i \in 1..(N - 2) |-> Mul1(A(i + 2).a, Z(M[i][1]))])
                           IN When((\A i \in 3..N : On1(A(i).a)) /\ WitnessOK(<<pk>>, <<Hex(e.m[2])>>), B(VerifyW(pk, Hex(e.m[2]), A(1), A(2).a)))
      [] o = "aggVerifyC" -> LET a == Num(e.m[2])
                                 n == Num(e.m[3])
                                 b == N - 1 - a
                                 M == Cyc(a, b, n)
                                 ws == HexSeq(e.m, 4)
                                 ms == Byt(e, A, 2 + a, b)
                             IN IF WitnessOK(Reg(e, A, 2, a), ws)
                                THEN B(/\ ValidSig(A(1).a)
                                       /\ (e.m[1] = "1") => n <= b /\ Distinct(SubSeq(ms, 1, n))
                                       /\ VerifyEqW([j \in 1..b |-> ZMod(SumZ([i \in 1..a |-> ZMul(Z(M[i][j]), ws[i])]), Q)], HashAll(ms), A(1).a))
                                ELSE When(\E i \in 1..a : i <= n /\ ~ValidPk(A(1 + i).a), B(FALSE))
      [] o = "suite"  -> Is("by", IF e.m[1] = "pop" THEN SuitePop ELSE SuiteNul)

\* ---------------------------------------------------------------- key derivation functions and SHA-256
WantKdf(o, e, A(_), v) ==
    LET L == Num(e.m[1]) IN
    CASE o = "hmac"    -> Is("by", Hmac(A(1), A(2)))
      [] o = "extract" -> Is("by", HkdfExtract(A(1), A(2)))
      [] o = "expand"  -> When(L > 0 /\ Len(A(1)) = 32, IF L > 8160 THEN NoneV ELSE Is("by", HkdfExpand(A(1), A(2), L)))
      [] o = "full"    -> When(L > 0 /\ L <= 8160, Is("by", Hkdf(A(1), A(2), A(3), L)))
      [] o = "xmd"     -> IF L > 8160 THEN NoneV ELSE Is("by", Xmd(A(1), A(2), L))
      [] o = "lamportSk" -> Is("by", LamportSk(A(1), A(2)))
      [] o = "lamportPk" -> Is("by", LamportPk(A(1).z, ToBE(DecZ(e.m[1]), 4)))

\* ---------------------------------------------------------------- inputs of gigabytes: octets, N zeros, octets
WantBig(o, e, A(_), v) ==
    LET N == DecZ(e.m[1])
        H(i) == HashToG2Z(A(i), N, A(i + 1), SuiteNul)
        Ver(pk, w, h, sig) == ValidSig(sig) /\ VerifyEqW(<<w>>, <<h>>, sig)
    IN
    CASE o = "fromMsg" -> Is("g2", HashToG2Z(A(1), N, A(2), A(3)))
      [] o = "sign"    -> Is("g2", Mul2(H(2), A(1).z))
      [] o \in {"verify", "agg"} -> When(WitnessOK(<<A(1).a>>, <<Hex(e.m[2])>>), B(Ver(A(1).a, Hex(e.m[2]), H(2), A(4).a)))
      [] o = "popFast" -> LET pk == Sum1(Reg(e, A, 4, Len(e.x) - 3))
                          IN When(WitnessOK(<<pk>>, <<Hex(e.m[2])>>), B(Ver(pk, Hex(e.m[2]), H(1), A(3).a)))
      [] o = "xmd"     -> Is("by", XmdZ(A(1), N, A(2), A(3), Num(e.m[2])))
      [] o = "dst"     -> Is("g2", HashToG2(A(1), Memo(<<"dst", A(2), N, A(3)>>, Sha256Zeros(OversizePrefix \o A(2), N, A(3)))))
      [] o = "hmac"    -> Is("by", HmacZ(A(1), A(2), N, A(3)))
      [] o = "key"     -> Is("by", Hmac(Memo(<<"big", A(1), A(2), N>>, Sha256Zeros(A(1), N, A(2))), A(3)))
      [] o = "sk"      -> Is("sc", KeyGenFromZ(A(1), N, A(2)))

\* ---------------------------------------------------------------- scalars
WantSc(o, e, A(_), v) ==
    CASE o = "raw"   -> Is("sc", Hex(e.m[1]))
      [] o = "toLE"  -> Is("by", EncLE(A(1).z, 8 * A(1).n))
      [] o = "toBE"  -> Is("by", EncBE(A(1).z, 8 * A(1).n))
      [] o = "fromLE" -> Is("sc", BE(Rev(A(1))))
      [] o = "fromBE" -> Is("sc", BE(A(1)))
      [] o = "bits"  -> Is("in", ZLen(A(1).z))
      [] o = "cmp"   -> Is("in", Ord(A(1).z, A(2).z))
      [] o = "equal" -> B(ZIs(A(1).z, A(2).z))
      [] o = "rsh" \/ o = "rshA" -> Is("sc", ZDiv(A(1).z, ZPow(Two, DecZ(e.m[1]))))
      \* the sum, or an exception when the result does not have room for it
      [] o = "add"   -> LET s == ZAdd(A(1).z, A(2).z)
                            w == Num(e.m[1])
                        IN IF A(1).n > w \/ A(2).n > w THEN Exc
                           ELSE IF ZLt(s, Limbs(w)) THEN Is("sc", s) ELSE Exc
      [] o = "mul"   -> When(Num(e.m[1]) >= A(1).n + A(2).n, Is("sc", ZMul(A(1).z, A(2).z)))
      \* quotient and remainder; the leading limb of the divisor is not zero
      [] o = "divn"  -> When(ZLe(Limbs(A(2).n - 1), A(2).z),
                             Is("divn", <<ZDiv(A(1).z, A(2).z), ZMod(A(1).z, A(2).z)>>))

\* ---------------------------------------------------------------- hexadecimal text
HexCh(i) == IF i < 10 THEN 48 + i ELSE 87 + i
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 99
HexEnc(b) == <<48, 120>> \o [i \in 1..(2 * Len(b)) |-> LET x == b[(i + 1) \div 2] IN HexCh(IF i % 2 = 1 THEN x \div 16 ELSE x % 16)]
Strip(s) == IF Len(s) >= 2 /\ s[1] = 48 /\ s[2] = 120 THEN SubSeq(s, 3, Len(s)) ELSE s
IsHexText(s) == \A i \in 1..Len(s) : HexVal(s[i]) < 16
HexDec(s) == [i \in 1..(Len(s) \div 2) |-> 16 * HexVal(s[2*i - 1]) + HexVal(s[2*i])]
WantHex(o, e, A(_), v) ==
    CASE o = "enc" \/ o = "encN" -> Is("by", HexEnc(A(1)))
      [] o = "dec" -> LET s == Strip(A(1)) IN IF Len(s) % 2 = 1 THEN Is("by", <<>>) ELSE When(IsHexText(s), Is("by", HexDec(s)))
      [] o = "decN" -> LET s == Strip(A(1)) IN When(IsHexText(s) /\ Len(s) = 2 * Num(e.m[1]), Is("by", HexDec(s)))

\* ---------------------------------------------------------------- the word- and limb-level routines underneath
W64 == Limbs(1)
WantWord(o, e, A(_), v) ==
    LET w(i) == Hex(e.m[i]) IN
    CASE o = "add" -> LET s == ZAdd(ZAdd(w(1), w(2)), w(3)) IN Is("words", <<ZMod(s, W64), ZDiv(s, W64)>>)
      [] o = "sub" -> LET s == ZSub(ZSub(w(1), w(2)), w(3)) IN Is("words", <<ZMod(s, W64), IF ZLt(s, Zero) THEN One ELSE Zero>>)
      [] o = "mul" -> LET s == ZMul(w(1), w(2)) IN Is("words", <<ZDiv(s, W64), ZMod(s, W64)>>)
\* raw operands, alias mode last: 0 distinct, 1 z = x, 2 z = y, 3 z = x = y
WantLow(o, e, A(_), v) ==
    LET x == Hex(e.m[1])
        y == IF Len(e.m) = 3 /\ e.m[3] # "3" THEN Hex(e.m[2]) ELSE x
        cx == ZLt(x, P)
        cy == ZLt(y, P)
        P2 == ZAdd(P, P)
        lz == ZLt(x, P2) /\ ZLt(y, P2)
        cong(s) == Rel(e.k = "rawv" /\ ZIs(ZMod(v, P), ZMod(s, P)))
    IN
    CASE o = "add"  -> When(cx /\ cy, Is("rawv", FpAdd(x, y)))
      [] o = "sub"  -> When(cx /\ cy, Is("rawv", FpSub(x, y)))
      [] o = "dbl"  -> When(cx, Is("rawv", FpAdd(x, x)))
      [] o = "neg"  -> When(cx, Is("rawv", FpNeg(x)))
      [] o = "mul"  -> When(lz, Is("rawv", FpMul(FpMul(x, y), FpInvRadix)))
      [] o = "sq"   -> When(lz, Is("rawv", FpMul(FpMul(x, x), FpInvRadix)))
      [] o = "ladd" -> When(cx /\ cy, cong(ZAdd(x, y)))
      [] o = "lsub" -> When(cx /\ cy /\ ZLe(y, x), cong(ZSub(x, y)))
      [] o = "ldbl" -> When(cx, cong(ZAdd(x, x)))

ConstFp(n) == CASE n = "MODULUS" -> Is("rawv", P)
                [] n = "R1" -> Is("rawv", ZMod(Radix, P))
                [] n = "R2" -> Is("rawv", MulMod(Radix, Radix, P))
                [] n = "B"  -> Is("rawv", Stored(CurveB))
                [] n = "twoInv" -> Is("rawv", Stored(FpInv(Two)))
                [] OTHER -> Free
WantConst(o, e, A(_), v) ==
    CASE o = "fp" -> ConstFp(e.m[1])
      [] o = "sc" -> Is("sc", CASE e.m[1] = "Q" -> Q
                                [] e.m[1] = "pPlus1Over4" -> ZDiv(ZAdd(P, One), Z(4))
                                [] e.m[1] = "pMinus1Over2" -> HalfP
                                [] e.m[1] = "pMinus3Over4" -> ZDiv(ZSub(P, Z(3)), Z(4))
                                [] e.m[1] = "INP" -> ZSub(W64, InvMod(P, W64))
                                [] e.m[1] = "cofactorEFF1" -> HEff1
                                [] OTHER -> CurveX)
      [] o = "fp2" -> LET n == e.m[1]
                          i == Num(e.m[2])
                      IN Is("fp2", CASE n = "negativeOne2" -> Fp2Neg(Fp2One)
                                     [] n = "B" -> B2
                                     [] n = "psiX" -> PsiCX
                                     [] n = "psiY" -> PsiCY
                                     [] n = "frob61" -> GammaV(i)
                                     [] n = "frob62" -> Fp2Sq(GammaV(i))
                                     [] OTHER -> GammaW(i))

Want(e, R, v) ==
    LET A(i) == R[e.x[i]].v
        c == e.c
        o == e.o
    IN
    CASE c = "fp"   -> WantFp(o, e, A, v)
      [] c = "fp2"  -> WantFp2(o, e, A, v)
      [] c = "fp6"  -> WantFp6(o, e, A, v)
      [] c = "fp12" -> WantFp12(o, e, A, v)
      [] c = "g1"   -> WantG1(o, e, A, v)
      [] c = "g2"   -> WantG2(o, e, A, v)
      [] c = "pair" -> WantPair(o, e, A, v)
      [] c = "sig"  -> WantSig(o, e, A, v)
      [] c = "kdf"  -> WantKdf(o, e, A, v)
      [] c = "sha"  -> Is("by", CASE o = "rep" -> Memo(<<"rep", A(1), e.m[1]>>, Sha256Rep(A(1), DecZ(e.m[1])))
                                  [] o = "big" -> Memo(<<"big", A(1), A(2), e.m[1]>>, Sha256Zeros(A(1), DecZ(e.m[1]), A(2)))
                                  [] o = "hex" -> LET t == HexEnc(A(1)) IN SubSeq(t, 3, Len(t))
                                  [] OTHER -> Sha256(A(1)))
      [] c = "big"  -> WantBig(o, e, A, v)
      [] c = "sc"   -> WantSc(o, e, A, v)
      [] c = "by"   -> Is("by", IF e.m[1] = "-" THEN <<>> ELSE HexBytes(e.m[1]))
      [] c = "hex"  -> WantHex(o, e, A, v)
      [] c = "word" -> WantWord(o, e, A, v)
      [] c = "low"  -> WantLow(o, e, A, v)
      [] c = "const" -> WantConst(o, e, A, v)
\* the observed call, with observed value v, satisfies the specification w
Judge(e, w, v) ==
    IF w.k = "any" THEN TRUE
    ELSE /\ Canon(e.k, e.r)
         /\ IF w.k = "rel" THEN w.v ELSE e.k = w.k /\ Same(e.k, v, w.v)
=============================================================================
