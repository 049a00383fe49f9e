----------------------------- MODULE SpecCheck -----------------------------
(***************************************************************************)
(* The operators TLC evaluates by Java methods, on many small arguments.   *)
(* lib/engine.py runs this module twice, with the methods and without them *)
(* (then TLC evaluates the TLA+ definitions), and compares what is printed.*)
(***************************************************************************)
EXTENDS Tower, TLC

VARIABLE i
\* ---- pseudo-random small arguments, the same in both runs
Rnd(s) == (((s * 421 + 1663) % 7875) * 211 + 1663) % 7875
RECURSIVE RndN(_, _)
RndN(s, n) == IF n = 0 THEN s ELSE RndN(Rnd(s), n - 1)
N(x) == ZInt(x)
E2(e) == <<N(e[1]), N(e[2])>>
E6(e) == <<E2(e[1]), E2(e[2]), E2(e[3])>>
E12(e) == <<E6(e[1]), E6(e[2])>>
PT1(e) == IF IsInf(e) THEN <<>> ELSE E2(e)
PT2(e) == IF IsInf(e) THEN <<>> ELSE <<E2(e[1]), E2(e[2])>>
Primes == <<3, 7, 11, 19, 43, 103, 727>>             \* p = 3 mod 4
El(s, k, p) == Z(RndN(s, k) % p)
R2(s, p)  == <<El(s, 1, p), El(s, 2, p)>>
R6(s, p)  == <<R2(s, p), R2(s + 1, p), R2(s + 2, p)>>
R12(s, p) == <<R6(s, p), R6(s + 5, p)>>
Corner2(s, p) == LET c == <<0, 1, p - 1, (p + 1) \div 2, 2>> IN <<Z(c[1 + (s % 5)]), Z(c[1 + ((s \div 5) % 5)])>>
Corner6(s, p) == <<Corner2(s, p), Corner2(Rnd(s), p), Corner2(Rnd(s + 9), p)>>
Pick2(s, p)  == IF s % 3 = 0 THEN Corner2(Rnd(s), p) ELSE R2(s, p)
Pick6(s, p)  == IF s % 3 = 0 THEN Corner6(Rnd(s), p) ELSE R6(s, p)
Pick12(s, p) == <<Pick6(s, p), Pick6(Rnd(s + 3), p)>>

Ints(s) ==
    LET a == Rnd(s) - 3900  b == 1 + (Rnd(s + 7) % 60)  c == Rnd(s + 11) % 40  u == Rnd(s + 2)
    IN <<a, b, c, N(ZAdd(Z(a), Z(b))), N(ZSub(Z(a), Z(b))), N(ZMul(Z(a), Z(b))), N(ZNeg(Z(a))), N(ZMod(Z(a), Z(b))), N(ZDiv(Z(a), Z(b))),
         N(ZPow(Z(b), Z(c % 5))), ZLt(Z(a), Z(b)), ZLe(Z(b), Z(c)), ZIs(Z(b), Z(c)), ZIs(Z(b), Z(b)), ZBit(Z(u), c % 14), ZLen(Z(u)), ZLen(Z(0)),
         N(ZXor(Z(u), Z(c))), N(ZAnd(Z(u), Z(c + 77))), N(AddMod(Z(u), Z(c), Z(b))), N(SubMod(Z(c), Z(u), Z(b))), N(MulMod(Z(u), Z(c), Z(b))),
         N(MulMod(Z(a), Z(c), Z(b))), N(PowMod(Z(c), Z(u), Z(727))), N(PowMod(Z(c), Z(0), Z(b))), N(InvMod(Z(u), Z(103))), N(InvMod(Z(0), Z(7)))>>
Octets(s) ==
    LET h == <<"", "0", "7f", "00ff", "abc", "0123", "deadbe", "01020304", "7fffffff", "0abcdef1">>
        d == <<"", "0", "9", "10", "255", "4096", "65537", "1000000007", "2147483647", "00012">>
        b == <<<<>>, <<0>>, <<255>>, <<1, 2>>, <<0, 0, 1>>, <<127, 255, 255, 255>>, <<16>>, <<255, 255>>, <<9, 10, 160>>, <<1, 0, 0>>>>
        k == 1 + (s % 10)
    IN <<N(Hex(h[k])), N(DecZ(d[k])), N(BE(b[k])), BytesHex(b[k]), ToBE(Z(Rnd(s) * 200), s % 5), ToBE(Z(0), 3), ZHex(Z(Rnd(s) * 31)), ZHex(Z(0)), ZHex(Z(16)),
         HexBytes(IF Len(h[k]) % 2 = 0 THEN h[k] ELSE "0fa0" )>>
Towers(s, p) ==
    LET a == Pick12(s, p) b == Pick12(s + 41, p) e == Z(Rnd(s) % 97) z == Z(p)
    IN <<E2(T2Add(a[1][1], b[1][1], z)), E2(T2Sub(a[1][1], b[1][1], z)), E2(T2Mul(a[1][1], b[1][1], z)), E2(T2Inv(a[1][2], z)), E2(T2Pow(a[1][2], e, z)), E2(T2Pow(b[1][2], Z(0), z)),
         E6(T6Add(a[1], b[1], z)), E6(T6Sub(a[1], b[1], z)), E6(T6Mul(a[1], b[1], z)), E6(T6Pow(a[2], e, z)), E6(T6Inv(a[2], z)),
         E12(T12Add(a, b, z)), E12(T12Sub(a, b, z)), E12(T12Mul(a, b, z)), E12(T12Mul(a, a, z)), E12(T12Pow(a, e, z)), E12(T12Inv(b, z))>>
\* any pair (x, y) lies on some curve y^2 = x^3 + b; the laws do not mention b
P1(s, p) == IF s % 7 = 0 THEN Inf ELSE IF s % 7 = 1 THEN <<El(s, 1, p), Z(0)>> ELSE <<El(s, 1, p), El(s, 2, p)>>
P2(s, p) == IF s % 7 = 0 THEN Inf ELSE IF s % 7 = 1 THEN <<R2(s, p), T2Zero>> ELSE <<Pick2(s, p), R2(s + 3, p)>>
Groups(s, p) ==
    LET z == Z(p) a == P1(s, p) b == IF s % 5 = 0 THEN a ELSE IF s % 5 = 1 THEN E1Neg(a, z) ELSE P1(s + 1, p)
        c == P2(s, p) d == IF s % 5 = 0 THEN c ELSE IF s % 5 = 1 THEN E2Neg(c, z) ELSE P2(s + 1, p) k == Z(Rnd(s) % 130)
    IN <<PT1(E1Add(a, b, z)), PT1(E1Dbl(a, z)), PT1(E1Mul(a, k, z)), PT1(E1Mul(a, Z(0), z)),
         PT2(E2Add(c, d, z)), PT2(E2Dbl(c, z)), PT2(E2Mul(c, k, z)), PT2(E2Mul(c, Z(0), z))>>
Row(n) == LET p == Primes[1 + (n % Len(Primes))]
          IN <<Ints(n), Octets(n), Towers(n, p), Groups(n, p)>>
Init == i = 0
Next == i < 700 /\ i' = i + 1 /\ PrintT(<<"ROW", i, Row(i)>>)
=============================================================================
