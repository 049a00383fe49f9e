-------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* Octet encodings.  A decoder yields a value or "none" (rejection).       *)
(***************************************************************************)
EXTENDS Curves

Rev(b) == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]
EncBE(a, n) == ToBE(a, n)
EncLE(a, n) == Rev(ToBE(a, n))
Chunk(b, n, i) == SubSeq(b, n * (i - 1) + 1, n * i)          \* the i-th n-octet piece
FpLen == 48

\* The ZCash compressed form: 3 flag bits (compressed, infinity, sort) and x.
FlagC(b) == b[1] \div 128
FlagI(b) == (b[1] \div 64) % 2
FlagS(b) == (b[1] \div 32) % 2
Unflag(b) == <<b[1] % 32>> \o Tail(b)
AllZero(b) == \A i \in 1..Len(b) : b[i] = 0

EncC1(pt) == IF IsInf(pt) THEN <<192>> \o [i \in 1..47 |-> 0]
             ELSE LET x == EncBE(pt[1], 48)
                  IN <<x[1] + 128 + (IF FpLargest(pt[2]) THEN 32 ELSE 0)>> \o Tail(x)
EncC2(pt) == IF IsInf(pt) THEN <<192>> \o [i \in 1..95 |-> 0]
             ELSE LET x == EncBE(pt[1][2], 48) \o EncBE(pt[1][1], 48)
                  IN <<x[1] + 128 + (IF Fp2Largest(pt[2]) THEN 32 ELSE 0)>> \o Tail(x)
None == <<>>                        \* a decoder yields <<value>> or None
DecC1(b) ==
    IF FlagC(b) = 0 THEN None
    ELSE IF FlagI(b) = 1
         THEN IF FlagS(b) = 0 /\ AllZero(Unflag(b)) THEN <<Inf>> ELSE None
    ELSE LET x == BE(Unflag(b))
             g == FpAdd(FpMul(FpSq(x), x), B1)
             y == FpSqrt(g)
         IN IF ~IsFp(x) THEN None
            ELSE IF ~FpIsSquare(g) THEN None
            ELSE <<<<x, IF FpLargest(y) = (FlagS(b) = 1) THEN y ELSE FpNeg(y)>>>>
DecC2(b) ==
    IF FlagC(b) = 0 THEN None
    ELSE IF FlagI(b) = 1
         THEN IF FlagS(b) = 0 /\ AllZero(Unflag(b)) THEN <<Inf>> ELSE None
    ELSE LET u == Unflag(b)
             x == <<BE(Chunk(u, 48, 2)), BE(Chunk(u, 48, 1))>>
             g == Fp2Add(Fp2Mul(Fp2Sq(x), x), B2)
             y == Fp2Sqrt(g)
         IN IF ~IsFp(x[1]) \/ ~IsFp(x[2]) THEN None
            ELSE IF ~Fp2IsSquare(g) THEN None
            ELSE <<<<x, IF Fp2Largest(y) = (FlagS(b) = 1) THEN y ELSE Fp2Neg(y)>>>>
\* the lexicographically largest of y, -y is selected by the sort flag; when y = 0 both coincide
=============================================================================
