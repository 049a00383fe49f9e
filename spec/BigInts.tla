------------------------------ MODULE BigInts ------------------------------
(***************************************************************************)
(* Unbounded integers for TLC, whose own integers are 32 bits wide.  Every *)
(* definition below is the meaning of the operator; TLC evaluates them by  *)
(* the Java methods of java/tlc2/overrides/BigInts.java (BigInteger),      *)
(* which SpecCheck.tla compares with these definitions.  Values of      *)
(* sort "Z" are kept apart from TLC's integers (used for indices):  Z(i)   *)
(* injects, ZInt(z) projects.                                              *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

\* e, remembered under the key k, which determines its value
Memo(k, e) == e
Z(i)   == i
ZInt(z) == z
ZAdd(a, b) == a + b
ZSub(a, b) == a - b
ZMul(a, b) == a * b
ZNeg(a)    == 0 - a
ZMod(a, m) == a % m
ZDiv(a, m) == a \div m           \* floor, m > 0
ZPow(a, e) == a ^ e
ZLt(a, b)  == a < b
ZLe(a, b)  == a <= b
ZIs(a, b)  == a = b
ZBit(a, i) == (a \div (2 ^ i)) % 2
RECURSIVE ZLen(_)
ZLen(a)    == IF a = 0 THEN 0 ELSE 1 + ZLen(a \div 2)    \* a >= 0
RECURSIVE ZXor(_, _)
ZXor(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a
              ELSE ((a + b) % 2) + 2 * ZXor(a \div 2, b \div 2)
RECURSIVE ZAnd(_, _)
ZAnd(a, b) == IF a = 0 \/ b = 0 THEN 0
              ELSE ((a % 2) * (b % 2)) + 2 * ZAnd(a \div 2, b \div 2)

AddMod(a, b, m) == (a + b) % m
SubMod(a, b, m) == (a - b) % m
MulMod(a, b, m) == (a * b) % m
RECURSIVE PowMod(_, _, _)
PowMod(a, e, m) == IF e = 0 THEN 1 % m
                   ELSE LET h == PowMod(a, e \div 2, m)
                        IN IF e % 2 = 0 THEN (h * h) % m ELSE (h * h * a) % m
InvMod(a, m) == IF a % m = 0 THEN 0          \* 0 has inverse 0 by convention
                ELSE CHOOSE x \in 1..(m - 1) : (a * x) % m = 1

\* Octet strings are sequences of 0..255.
HexDigit(c) == CHOOSE i \in 0..15 : SubSeq("0123456789abcdef", i + 1, i + 1) = c
RECURSIVE HexFrom(_, _)
HexFrom(s, acc) == IF Len(s) = 0 THEN acc
                   ELSE HexFrom(SubSeq(s, 2, Len(s)), acc * 16 + HexDigit(SubSeq(s, 1, 1)))
Hex(s) == HexFrom(s, 0)
RECURSIVE DecZ(_)
DecZ(s) == IF Len(s) = 0 THEN 0            \* decimal digits
           ELSE DecZ(SubSeq(s, 1, Len(s) - 1)) * 10 + HexDigit(SubSeq(s, Len(s), Len(s)))
HexBytes(s) == [i \in 1..(Len(s) \div 2) |-> HexDigit(SubSeq(s, 2*i - 1, 2*i - 1)) * 16
                                             + HexDigit(SubSeq(s, 2*i, 2*i))]
RECURSIVE BytesHex(_)
BytesHex(b) == IF Len(b) = 0 THEN ""
               ELSE LET d(i) == SubSeq("0123456789abcdef", i + 1, i + 1)
                    IN d(Head(b) \div 16) \o d(Head(b) % 16) \o BytesHex(Tail(b))
RECURSIVE BE(_)
BE(b) == IF Len(b) = 0 THEN 0 ELSE BE(SubSeq(b, 1, Len(b) - 1)) * 256 + b[Len(b)]
ToBE(a, n) == [i \in 1..n |-> (a \div (256 ^ (n - i))) % 256]   \* low n octets of a >= 0
RECURSIVE ZHex(_)
ZHex(a) == LET d(i) == SubSeq("0123456789abcdef", i + 1, i + 1)
           IN IF a < 16 THEN d(a) ELSE ZHex(a \div 16) \o d(a % 16)
=============================================================================
