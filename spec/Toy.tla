-------------------------------- MODULE Toy --------------------------------
(***************************************************************************)
(* The BLS12 curve with x = -56: p = 10647363907, q = 9831361, the same    *)
(* tower, b = 4, cofactor 3 19^2.  The definitions of Fields, Curves and   *)
(* Pairing are independent of the size, so that here every class of        *)
(* E(Fp) / G1 and a long stretch of multiples can be visited.              *)
(***************************************************************************)
EXTENDS Pairing, TLC
ToyX == Z(56)
ToyNeg == TRUE
ToyP == DecZ("10647363907")
ToyQ == Z(9831361)
ToyB == Z(4)
ToyRadix == ZPow(Z(2), Z(64))
G1g == <<Z(1122684788), DecZ("6154782551")>>
G2g == <<<<Z(1234808534), Z(470430817)>>, <<DecZ("7777831499"), DecZ("5740309038")>>>>
\* generators of E(Fp)[19] and E(Fp)[3]
TA == <<DecZ("7108826659"), DecZ("3285603265")>>
TB == <<DecZ("9158083528"), DecZ("5539793899")>>
T3 == <<Z(0), Z(2)>>
H2 == DecZ("11531095051717")
VARIABLES law, n
Size == [family |-> 1, torsion |-> 19 * 19 * 3, multiples |-> 120, psi |-> 60, cyclotomic |-> 40]
Init == law \in DOMAIN Size /\ n = 0
Next == n + 1 < Size[law] /\ n' = n + 1 /\ law' = law
E0 == PairProd(<< <<G1g, G2g>> >>)
Tor(k) == Add1(Add1(MulNat1(TA, Z(k % 19)), MulNat1(TB, Z((k \div 19) % 19))), MulNat1(T3, Z(k \div 361)))
Holds(l, k) ==
    CASE l = "family" -> FamilyOK /\ On1(G1g) /\ On2(G2g) /\ InG1(G1g) /\ InG2(G2g) /\ ~Fp2IsSquare(Xi) /\ Fp2Pow(Xi, ZDiv(ZSub(ZMul(P, P), One), Z(3))) # Fp2One
                         /\ E0 # Fp12One /\ Fp12Pow(E0, Q) = Fp12One
                         /\ IsInf(Mul1(TA, Z(19))) /\ IsInf(Mul1(TB, Z(19))) /\ \A j \in 0..18 : TB # Mul1(TA, Z(j))
      \* every element of the cofactor group: not in G1 (but for the neutral one), pairs to one, and does not change a pairing
      [] l = "torsion" -> LET t == Tor(k) IN
            /\ On1(t) /\ IsInf(Mul1(t, Z(1083))) /\ (InG1(t) = (k = 0)) /\ (k = 0) = IsInf(t)
            /\ PairProd(<< <<t, G2g>> >>) = Fp12One
            /\ PairProd(<< <<Add1(G1g, t), G2g>> >>) = E0
      [] l = "multiples" -> LET a == Z(k) b == Z(k * k + 77777) IN
            /\ PairProd(<< <<Mul1(G1g, a), Mul2(G2g, b)>> >>) = Fp12Pow(E0, ZMul(a, b))
            /\ PairProd(<< <<Mul1(G1g, ZSub(Q, a)), G2g>>, <<G1g, Mul2(G2g, a)>> >>) = Fp12One
      [] l = "psi" -> LET a == Mul2(G2g, Z(k)) IN
            /\ Psi(a) = Mul2(a, XVal) /\ On2(Psi(a)) /\ IsInf(Mul2(a, Q))
      [] OTHER -> LET f == EasyPart(Fp12Add(Fp12Pow(E0, Z(k)), Untwist(G2g)[1])) IN
            /\ IsCyclotomic(f) /\ InGT(FinalExp(f)) /\ Fp12Conj(f) = Fp12Inv(f)
            /\ FinalExp(f) = Fp12Pow(f, ZMul(Z(3), ZDiv(ZSub(PPow(12), One), Q)))
AllHold == Holds(law, n)
=============================================================================
