-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The specification itself is checked: the laws that its definitions must *)
(* obey, and published test vectors, on BLS12-381 with pseudo-random and   *)
(* edge arguments.  One chain of states per law; state n of a chain is the *)
(* law on its n-th arguments.  (Small.tla visits every element over a      *)
(* small prime, Toy.tla a small curve of the family.)                      *)
(***************************************************************************)
EXTENDS Keys, Real, TLC, FiniteSets, IOUtils

VARIABLES law, n
Depth == atoi(IOEnv.LAWDEPTH)

\* arguments derived from SHA-256
H(t, k) == Sha256(Str("laws") \o ToBE(Z(t), 2) \o ToBE(Z(k), 4))
RZ(t, k)  == BE(H(t, k) \o H(t + 300, k))                     \* 512 bits
RQ(t, k)  == ZMod(RZ(t, k), Q)
Edge == <<Zero, One, Two, ZSub(P, One), HalfP, ZAdd(HalfP, One), CurveX, ZMod(Radix, P)>>
RP(t, k)  == IF k % 5 = 4 THEN Edge[1 + (ZInt(ZMod(RZ(t, k), Z(8))))] ELSE ZMod(RZ(t, k), P)
RF2(t, k) == <<RP(t, k), RP(t + 1, k)>>
RF6(t, k) == <<RF2(t, k), RF2(t + 2, k), RF2(t + 4, k)>>
RF12(t, k) == <<RF6(t, k), RF6(t + 6, k)>>
\* points of the whole curves (not only of the subgroups)
C1(t, k) == Iso1(Swu1(RP(t, k)))
C2(t, k) == Iso2(Swu2(RF2(t, k)))
G1p(t, k) == Mul1(Gen1, RQ(t, k))
G2p(t, k) == Mul2(Gen2, RQ(t, k))
X2 == ZMul(XVal, XVal)
H1 == ZDiv(ZMul(ZSub(XVal, One), ZSub(XVal, One)), Z(3))      \* #E(Fp) = H1 q
T1 == ZAdd(XVal, One)                                         \* trace of Frobenius
Bytes(k, len) == LET b == Xmd(ToBE(Z(k), 4), Str("laws"), len) IN b

Names == {"family", "field2", "field6", "field12", "frob", "sqrt", "curve1", "curve2", "psi", "swu", "iso", "clear", "hash", "pairing", "gt", "codec", "sha", "vectors", "keys", "sign", "montgomery"}
Holds(l, k) ==
    CASE l = "family" -> FamilyOK /\ On1(Gen1) /\ On2(Gen2) /\ InG1(Gen1) /\ InG2(Gen2) /\ ~IsInf(Gen1) /\ ~IsInf(Gen2)
                         /\ ~Fp2IsSquare(Xi) /\ Fp2Pow(Xi, ZDiv(ZSub(ZMul(P, P), One), Z(3))) # Fp2One       \* Fp6 and Fp12 are fields
      [] l = "field2" -> LET a == RF2(1, k) b == RF2(3, k) c == RF2(5, k)
                         IN /\ Fp2Mul(a, Fp2Add(b, c)) = Fp2Add(Fp2Mul(a, b), Fp2Mul(a, c))
                            /\ Fp2Mul(a, Fp2Mul(b, c)) = Fp2Mul(Fp2Mul(a, b), c)
                            /\ Fp2Mul(a, Fp2Inv(a)) = IF Fp2IsZero(a) THEN Fp2Zero ELSE Fp2One
                            /\ Fp2Sub(Fp2Add(a, b), b) = a /\ Fp2Frob(a, 1) = Fp2Pow(a, P)
      [] l = "field6" -> LET a == RF6(1, k) b == RF6(11, k) c == RF6(21, k)
                         IN /\ Fp6Mul(a, Fp6Add(b, c)) = Fp6Add(Fp6Mul(a, b), Fp6Mul(a, c))
                            /\ Fp6Mul(a, Fp6Mul(b, c)) = Fp6Mul(Fp6Mul(a, b), c)
                            /\ Fp6Mul(a, Fp6Inv(a)) = IF a = Fp6Zero THEN Fp6Zero ELSE Fp6One
                            /\ Fp6MulV(a) = Fp6Mul(a, <<Fp2Zero, Fp2One, Fp2Zero>>)
      [] l = "field12" -> LET a == RF12(1, k) b == RF12(21, k) c == RF12(41, k)
                          IN /\ Fp12Mul(a, Fp12Add(b, c)) = Fp12Add(Fp12Mul(a, b), Fp12Mul(a, c))
                             /\ Fp12Mul(a, Fp12Mul(b, c)) = Fp12Mul(Fp12Mul(a, b), c)
                             /\ Fp12Mul(a, Fp12Inv(a)) = Fp12One
                             /\ Fp12Conj(a) = Fp12Frob(a, 6)
      \* Frobenius is exponentiation by p
      [] l = "frob" -> LET a == RF12(1, k) IN /\ Fp12Frob(a, 1 + (k % 3)) = Fp12Pow(a, PPow(1 + (k % 3)))
                                              /\ Fp12Frob(Fp12Frob(a, k), 5) = Fp12Frob(a, k + 5)
                                              /\ Fp6Frob(a[1], 1) = Fp6Pow(a[1], P)
                                              /\ Fp12Frob(a, 12) = a
      [] l = "sqrt" -> LET a == RF2(1, k) u == RP(7, k)
                       IN /\ Fp2IsSquare(Fp2Sq(a)) /\ Fp2Sqrt(Fp2Sq(a)) \in {a, Fp2Neg(a)}
                          /\ Fp2IsSquare(a) = (Fp2Sq(Fp2Sqrt(a)) = a)
                          /\ FpIsSquare(FpSq(u)) /\ FpSqrt(FpSq(u)) \in {u, FpNeg(u)}
                          /\ FpIsSquare(u) = ZIs(FpSq(FpSqrt(u)), u)
                          /\ (~Fp2IsZero(a) => Fp2Largest(a) # Fp2Largest(Fp2Neg(a)))
      \* E(Fp) is a group of order H1 q
      [] l = "curve1" -> LET a == C1(1, k) b == C1(2, k) c == IF k % 3 = 0 THEN a ELSE IF k % 3 = 1 THEN Neg1(b) ELSE C1(3, k)
                         IN /\ On1(a) /\ On1(b) /\ On1(Add1(a, b))
                            /\ Add1(Add1(a, b), c) = Add1(a, Add1(b, c)) /\ Add1(a, b) = Add1(b, a)
                            /\ Add1(a, Neg1(a)) = Inf /\ Mul1(a, RQ(4, k)) = Add1(Mul1(a, ZSub(RQ(4, k), RQ(5, k))), Mul1(a, RQ(5, k)))
                            /\ IsInf(Mul1(a, ZMul(H1, Q)))
                            /\ Jac1(FpMul(a[1], FpSq(RP(6, k))), FpMul(a[2], FpMul(FpSq(RP(6, k)), RP(6, k))), RP(6, k)) = IF FpIsZero(RP(6, k)) THEN Inf ELSE a
      \* E'(Fp2) is a group; psi satisfies psi^2 - t psi + p = 0
      [] l = "curve2" -> LET a == C2(1, k) b == C2(2, k) c == IF k % 3 = 0 THEN a ELSE IF k % 3 = 1 THEN Neg2(b) ELSE C2(3, k)
                         IN /\ On2(a) /\ On2(b) /\ On2(Add2(a, b))
                            /\ Add2(Add2(a, b), c) = Add2(a, Add2(b, c)) /\ Add2(a, b) = Add2(b, a)
                            /\ Add2(a, Neg2(a)) = Inf /\ Mul2(a, RQ(4, k)) = Add2(Mul2(a, ZSub(RQ(4, k), RQ(5, k))), Mul2(a, RQ(5, k)))
      [] l = "psi" -> LET a == C2(1, k) b == C2(2, k) g == G2p(3, k)
                      IN /\ On2(Psi(a)) /\ Psi(Add2(a, b)) = Add2(Psi(a), Psi(b))
                         /\ Add2(Psi(Psi(a)), Mul2(a, P)) = Mul2(Psi(a), T1)
                         /\ Psi(g) = Mul2(g, XVal)
      [] l = "swu" -> LET u == RP(1, k) v == RF2(2, k) a == Swu1(u) b == Swu2(v)
                      IN /\ ZIs(FpSq(a[2]), FpAdd(FpMul(FpAdd(FpSq(a[1]), SwuA1), a[1]), SwuC1)) /\ Sgn1(a[2]) = Sgn1(u)
                         /\ Fp2Sq(b[2]) = Fp2Add(Fp2Mul(Fp2Add(Fp2Sq(b[1]), SwuA2), b[1]), SwuC2) /\ Sgn2(b[2]) = Sgn2(v)
                         /\ (~FpIsZero(u) => Swu1(FpNeg(u)) = <<a[1], FpNeg(a[2])>>)
      \* the isogenies are homomorphisms onto the curves (on E1', E2' the slope of doubling involves A)
      [] l = "iso" -> LET a == Swu1(RP(1, k)) b == Swu1(RP(2, k)) c == Swu2(RF2(3, k)) d == Swu2(RF2(5, k))
                      IN /\ On1(Iso1(a)) /\ On2(Iso2(c))
                         /\ (~ZIs(a[1], b[1]) => Iso1(Add1(a, b)) = Add1(Iso1(a), Iso1(b)))
                         /\ (c[1] # d[1] => Iso2(Add2(c, d)) = Add2(Iso2(c), Iso2(d)))
                         /\ Iso1(<<a[1], FpNeg(a[2])>>) = Neg1(Iso1(a)) /\ Iso2(<<c[1], Fp2Neg(c[2])>>) = Neg2(Iso2(c))
      \* clearing the cofactor: into the subgroup, a homomorphism
      [] l = "clear" -> LET a == C1(1, k) b == C2(2, k) IN /\ InG1(Clear1(a)) /\ InG2(Clear2(b)) /\ ~IsInf(Clear1(a)) /\ ~IsInf(Clear2(b))
                                                           \* HEff2 = 3 (x^2 - 1) h2: as (x^2 - x - 1) + (x - 1) psi + psi^2 o 2  (Budroni and Pintore)
                                                           /\ Clear2(b) = Add2(Mul2(b, ZSub(ZSub(X2, XVal), One)),
                                                                               Add2(Mul2(Psi(b), ZSub(XVal, One)), Psi(Psi(Add2(b, b)))))
      [] l = "hash" -> LET m == Bytes(k, k) IN InG2(HashToG2(m, SuiteNul)) /\ HashToG2(m, SuiteNul) # HashToG2(m, SuitePop)
      [] l = "pairing" -> LET a == RQ(1, k) b == RQ(2, k) p1 == G1p(1, k) q2 == G2p(2, k)
                              e == PairProd(<< <<p1, q2>> >>) r == C1(3, k)
                          IN /\ e = Fp12Pow(PairProd(<< <<Gen1, Gen2>> >>), MulMod(a, b, Q)) /\ (FpIsZero(a) \/ FpIsZero(b) \/ e # Fp12One)
                             /\ PairProd(<< <<p1, q2>>, <<Neg1(p1), q2>> >>) = Fp12One
                             /\ PairProd(<< <<Inf, q2>> >>) = Fp12One /\ PairProd(<< <<p1, Inf>> >>) = Fp12One
                             \* a point of E(Fp) outside G1 pairs like some point of G1; bilinear there too
                             /\ PairProd(<< <<Add1(p1, r), q2>> >>) = Fp12Mul(e, PairProd(<< <<r, q2>> >>))
                             /\ VerifyEq(<<p1>>, <<q2>>, Mul2(q2, a)) /\ VerifyEqW(<<a>>, <<q2>>, Mul2(q2, a))
      [] l = "gt" -> LET e == PairProd(<< <<Gen1, G2p(2, k)>> >>)
                     IN InGT(e) /\ IsCyclotomic(e) /\ ~InGT(RF12(3, k)) /\ Fp12Conj(e) = Fp12Inv(e)
                        \* the cube of the reduced pairing
                        /\ FinalExp(RF12(1, k)) = LET f == RF12(1, k) IN Fp12Pow(f, ZMul(Z(3), ZDiv(ZSub(PPow(12), One), Q)))
      [] l = "codec" -> LET a == IF k % 7 = 0 THEN Inf ELSE C1(1, k) b == IF k % 7 = 0 THEN Inf ELSE C2(1, k)
                            e1 == H(3, k) \o SubSeq(H(4, k), 1, 16) e2 == e1 \o H(5, k) \o SubSeq(H(6, k), 1, 16)
                            w1 == <<(e1[1] % 26) + 128 + 32 * (k % 2)>> \o Tail(e1) w2 == <<(e2[1] % 26) + 128 + 32 * (k % 2)>> \o Tail(e2)
                        IN /\ DecC1(EncC1(a)) = <<a>> /\ DecC2(EncC2(b)) = <<b>>
                           /\ (DecC1(w1) # None => EncC1(DecC1(w1)[1]) = w1 /\ On1(DecC1(w1)[1]))
                           /\ (DecC2(w2) # None => EncC2(DecC2(w2)[1]) = w2 /\ On2(DecC2(w2)[1]))
                           /\ BE(ToBE(RP(7, k), 48)) = RP(7, k) /\ HexBytes(BytesHex(e1)) = e1
      \* the padding and the compression function of FIPS 180-4 against the evaluation of Sha256
      [] l = "sha" -> Sha256(Bytes(1000, k)) = Sha256Def(Bytes(1000, k)) /\ Sha256Rep(Bytes(40, k), Z(k)) = Sha256Def(FoldLeft(LAMBDA a, j : a \o Bytes(40, k), <<>>, [j \in 1..k |-> j])) /\ Len(Padded(Bytes(7, k))) % 64 = 0
                        /\ LET a == Bytes(11, k % 70) c == Bytes(13, (k * 7) % 90) m == a \o Zeros(3 * k) \o c
                           IN /\ Sha256Zeros(a, Z(3 * k), c) = Sha256Def(m) /\ HmacZ(c, a, Z(3 * k), c) = Hmac(c, m)
                              /\ XmdZ(a, Z(3 * k), c, a, 96) = Xmd(m, a, 96) /\ (k > 0 => KeyGenFromZ(Zeros(32) \o a, Z(k), c) = KeyGen(Zeros(32) \o a \o Zeros(k) \o c))
                              /\ (k % 10 = 0 => HashToG2Z(a, Z(3 * k), c, a) = HashToG2(m, a))
      [] l = "vectors" ->
            /\ Sha256(Str("abc")) = HexBytes("ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad")
            /\ Sha256(<<>>) = HexBytes("e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855")
            /\ Hmac([i \in 1..20 |-> 11], Str("Hi There")) = HexBytes("b0344c61d8db38535ca8afceaf0bf12b881dc200c9833da726e9376c2e32cff7")   \* RFC 4231
            /\ Hkdf(HexBytes("000102030405060708090a0b0c"), [i \in 1..22 |-> 11], HexBytes("f0f1f2f3f4f5f6f7f8f9"), 42)
                 = HexBytes("3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf34007208d5b887185865")                          \* RFC 5869
            /\ Xmd(<<>>, Str("QUUX-V01-CS02-with-expander-SHA256-128"), 32) = HexBytes("68a985b87eb6b46952128911f2a4412bbc302a9d759667f87f7a21d803f07235")   \* RFC 9380 K.1
            /\ Xmd(Str("abc"), Str("QUUX-V01-CS02-with-expander-SHA256-128"), 32) = HexBytes("d8ccab23b5985ccea865c6c97b6e5b8350e794e603b4b97902f53a8a0d605615")
            /\ HashToG2(<<>>, Str("QUUX-V01-CS02-with-BLS12381G2_XMD:SHA-256_SSWU_RO_"))[1]                                              \* RFC 9380 J.10.1
                 = <<Hex("0141ebfbdca40eb85b87142e130ab689c673cf60f1a3e98d69335266f30d9b8d4ac44c1038e9dcdd5393faf5c41fb78a"),
                     Hex("05cb8437535e20ecffaef7752baddf98034139c38452458baeefab379ba13dff5bf5dd71b72418717047f5b0f37da03d")>>
            /\ LET m == KeyGen(HexBytes("3141592653589793238462643383279502884197169399375105820974944592"))                               \* EIP-2333, 2020-05 (salt not hashed first)
               IN /\ ZIs(m, DecZ("36167147331491996618072159372207345412841461318189449162487002442599770291484"))
                  /\ ZIs(ChildSk(m, ToBE(DecZ("3141592653"), 4)), DecZ("41787458189896526028601807066547832426569899195138584349427756863968330588237"))
      \* unhardened derivation commutes with taking public keys
      [] l = "keys" -> LET sk == RQ(1, k) i == ToBE(RQ(2, k), 4)
                       IN PublicKey(ChildSkU(sk, i)) = ChildG1U(PublicKey(sk), i)
      \* what is signed verifies, alone and aggregated; nothing else does
      [] l = "sign" -> LET s1 == RQ(1, k) s2 == RQ(2, k) m1 == Bytes(k, 5) m2 == Bytes(k + 1, 40) p1 == PublicKey(s1) p2 == PublicKey(s2)
                           g1 == Sign(s1, m1) g2 == Sign(s2, m2)
                       IN /\ Verify(p1, m1, g1) /\ ~Verify(p1, m2, g1) /\ ~Verify(p2, m1, g1) /\ ~Verify(p1, m1, g2)
                          /\ AggVerify(<<p1, p2>>, <<m1, m2>>, Add2(g1, g2), TRUE) /\ ~AggVerify(<<p1, p2>>, <<m2, m1>>, Add2(g1, g2), TRUE)
                          /\ ~AggVerify(<<p1, p2>>, <<m1, m1>>, Add2(g1, Sign(s2, m1)), TRUE) /\ AggVerify(<<p1, p2>>, <<m1, m1>>, Add2(g1, Sign(s2, m1)), FALSE)
                          /\ PopVerify(p1, PopProve(s1)) /\ ~PopVerify(p2, PopProve(s1)) /\ ~Verify(p1, AffineLE1(p1), PopProve(s1))
      [] l = "montgomery" -> LET a == RP(1, k) b == RP(2, k)
                             IN ZIs(Unstored(Stored(a)), a) /\ ZIs(FpMul(FpMul(Stored(a), Stored(b)), FpInvRadix), Stored(FpMul(a, b)))
Init == law \in Names /\ n = 0
Next == n < (IF law \in {"family", "vectors"} THEN 0 ELSE IF law \in {"field2", "field6", "field12", "montgomery", "sha", "sqrt"} THEN 10 * Depth ELSE IF law \in {"pairing", "sign", "gt"} THEN Depth ELSE 3 * Depth)
        /\ n' = n + 1 /\ law' = law
AllHold == Holds(law, n)
=============================================================================
