---------------------------- MODULE HashToCurve ----------------------------
(***************************************************************************)
(* RFC 9380: hash_to_field, the simplified SWU map to the isogenous curves *)
(* E1', E2', the 11- and 3-isogenies, cofactor clearing, and               *)
(* hash_to_curve for G2 (BLS12381G2_XMD:SHA-256_SSWU_RO_).                 *)
(***************************************************************************)
EXTENDS Curves, IsoTables, Sha256

\* E1' : y^2 = x^3 + A1 x + C1 and Z1;  E2' : y^2 = x^3 + A2 x + C2 and Z2
SwuA1 == Hex("144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d")
SwuC1 == Hex("12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0")
SwuZ1 == Z(11)
SwuA2 == <<Zero, Z(240)>>
SwuC2 == <<Z(1012), Z(1012)>>
SwuZ2 == Fp2Neg(<<Two, One>>)

\* sgn0
Sgn1(a) == ZBit(a, 0)
Sgn2(a) == IF FpIsZero(a[1]) THEN ZBit(a[2], 0) ELSE ZBit(a[1], 0)

Swu1(u) ==
    LET t   == FpMul(SwuZ1, FpSq(u))
        d   == FpInv(FpAdd(FpSq(t), t))
        x1  == IF FpIsZero(d) THEN FpMul(SwuC1, FpInv(FpMul(SwuZ1, SwuA1)))
               ELSE FpMul(FpMul(FpNeg(SwuC1), FpInv(SwuA1)), FpAdd(One, d))
        g(x) == FpAdd(FpMul(FpAdd(FpSq(x), SwuA1), x), SwuC1)
        x   == IF FpIsSquare(g(x1)) THEN x1 ELSE FpMul(t, x1)
        y   == FpSqrt(g(x))
    IN <<x, IF Sgn1(u) = Sgn1(y) THEN y ELSE FpNeg(y)>>
Swu2(u) ==
    LET t   == Fp2Mul(SwuZ2, Fp2Sq(u))
        d   == Fp2Inv(Fp2Add(Fp2Sq(t), t))
        x1  == IF Fp2IsZero(d) THEN Fp2Mul(SwuC2, Fp2Inv(Fp2Mul(SwuZ2, SwuA2)))
               ELSE Fp2Mul(Fp2Mul(Fp2Neg(SwuC2), Fp2Inv(SwuA2)), Fp2Add(Fp2One, d))
        g(x) == Fp2Add(Fp2Mul(Fp2Add(Fp2Sq(x), SwuA2), x), SwuC2)
        x   == IF Fp2IsSquare(g(x1)) THEN x1 ELSE Fp2Mul(t, x1)
        y   == Fp2Sqrt(g(x))
    IN <<x, IF Sgn2(u) = Sgn2(y) THEN y ELSE Fp2Neg(y)>>

Horner1(c, x) == FoldLeft(LAMBDA acc, i : FpAdd(FpMul(acc, x), c[Len(c) + 1 - i]), Zero, Seq1(Len(c)))
Horner2(c, x) == FoldLeft(LAMBDA acc, i : Fp2Add(Fp2Mul(acc, x), c[Len(c) + 1 - i]), Fp2Zero, Seq1(Len(c)))
\* a zero denominator is a point of the kernel: its image is the neutral element
Iso1(pt) == LET xd == Horner1(Iso1XDen, pt[1])
                yd == Horner1(Iso1YDen, pt[1])
            IN IF FpIsZero(xd) \/ FpIsZero(yd) THEN Inf
               ELSE <<FpMul(Horner1(Iso1XNum, pt[1]), FpInv(xd)),
                      FpMul(pt[2], FpMul(Horner1(Iso1YNum, pt[1]), FpInv(yd)))>>
Iso2(pt) == LET xd == Horner2(Iso2XDen, pt[1])
                yd == Horner2(Iso2YDen, pt[1])
            IN IF Fp2IsZero(xd) \/ Fp2IsZero(yd) THEN Inf
               ELSE <<Fp2Mul(Horner2(Iso2XNum, pt[1]), Fp2Inv(xd)),
                      Fp2Mul(pt[2], Fp2Mul(Horner2(Iso2YNum, pt[1]), Fp2Inv(yd)))>>
\* effective cofactors of RFC 9380, 8.8
HEff1 == ZSub(One, XVal)
HEff2 == Hex("bc69f08f2ee75b3584c6a0ea91b352888e2a8e9145ad7689986ff031508ffe1329c2f178731db956d82bf015d1212b02ec0ec69d7477c1ae954cbc06689f6a359894c0adebbf6b4e8020005aaa95551")
Clear1(pt) == Mul1(pt, HEff1)
Clear2(pt) == Mul2(pt, HEff2)
Map1(u) == Clear1(Iso1(Swu1(u)))
Map2(u) == Clear2(Iso2(Swu2(u)))

OS2IP(b) == BE(b)
BytesToFp2(b) ==        \* b : 256 octets
    LET e(i) == ZMod(OS2IP(SubSeq(b, 64*i - 63, 64*i)), P)
    IN << <<e(1), e(2)>>, <<e(3), e(4)>> >>
Encode2(b) == LET u == BytesToFp2(b) IN Clear2(Add2(Iso2(Swu2(u[1])), Iso2(Swu2(u[2]))))
HashToFp2(msg, dst) == BytesToFp2(Xmd(msg, dst, 256))
HashToG2(msg, dst) == Memo(<<"HashToG2", msg, dst>>, Encode2(Xmd(msg, dst, 256)))
\* the message b \o 0^n \o c
HashToG2Z(b, n, c, dst) == Memo(<<"HashToG2Z", b, n, c, dst>>, Encode2(XmdZ(b, n, c, dst, 256)))
=============================================================================
