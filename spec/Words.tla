------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* The algorithms on machine words that the arithmetic is made of, with    *)
(* words of WB bits instead of 64, one transition per round of the outer   *)
(* loop, for EVERY operand: Montgomery multiplication without a carry      *)
(* word, Montgomery squaring, the almost-inverse, long division, the sum   *)
(* over windows of exponents.  What these algorithms drop -- carries out   *)
(* of the top word, bits shifted out -- is recorded in `lost`, and must    *)
(* never be other than zero; the invariants are the ones that make the     *)
(* result right.  How much room the modulus must leave in its top word is  *)
(* a parameter (SPARE bits): with too little room TLC must find the        *)
(* operands that break the algorithm (the modulus of BLS12-381 leaves 3).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils

ALG == IOEnv.ALG
WB == atoi(IOEnv.WB)            \* bits of a word
L == atoi(IOEnv.LEN)            \* words of a number
SPARE == atoi(IOEnv.SPARE)      \* bits of the top word that the modulus leaves free
B == 2^WB
R == B^L
VARIABLES x, y, p, s
vars == <<x, y, p, s>>

\* ---- words and numbers
Word(v, i) == (v \div B^i) % B
RECURSIVE Bits(_)
Bits(v) == IF v = 0 THEN 0 ELSE 1 + Bits(v \div 2)
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
\* moduli: odd, SPARE free bits in the top word, the next one set (so the top word is as in a modulus of the full length)
Moduli == {m \in ((R \div 2^(SPARE + 1)) + 1)..((R \div 2^SPARE) - 1) : m % 2 = 1}
\* minus the inverse of m modulo a word
Neg1(m) == CHOOSE k \in 0..(B - 1) : (k * m + 1) % B = 0

\* ---- the carry rules of the word operations, as programs on words compute them
AddC(a, b, c) == LET t == (a + b + c) % B IN <<t, IF t < a \/ (c # 0 /\ t = a) THEN 1 ELSE 0>>
SubC(a, b, c) == LET t == (a - b - c) % B IN <<t, IF t > a \/ (c # 0 /\ t = a) THEN 1 ELSE 0>>
SubN(a, b, c) == LET d == (a - b) % B IN <<(d - c) % B, IF a < b \/ (c # 0 /\ d = 0) THEN 1 ELSE 0>>
AddN(a, b, c) == LET r0 == (a + b) % B r1 == (r0 + c) % B IN <<r1, IF r0 < a \/ r1 < r0 THEN 1 ELSE 0>>
Mul1(a, d, c) == LET r0 == (a * d) % B t == (r0 + c) % B IN <<t, (a * d) \div B + (IF t < c THEN 1 ELSE 0)>>
Carries ==
    /\ \A c \in {0, 1} : /\ AddC(x, y, c) = <<(x + y + c) % B, (x + y + c) \div B>>
                          /\ AddN(x, y, c) = <<(x + y + c) % B, (x + y + c) \div B>>
                          /\ SubC(x, y, c) = <<(x - y - c) % B, IF x - y - c < 0 THEN 1 ELSE 0>>
                          /\ SubN(x, y, c) = <<(x - y - c) % B, IF x - y - c < 0 THEN 1 ELSE 0>>
    /\ \A c \in 0..(B - 1) : Mul1(x, y, c) = <<(x * y + c) % B, (x * y + c) \div B>>
    /\ \A c \in 0..(B - 1), d \in 0..(B - 1) : x * y + c + d < B * B        \* two additions to a product never overflow two words

\* ---- Montgomery multiplication, one word of x per round: t + x_i y + m p, divided by a word
\*      within a round two chains of carries run side by side (c for x_i y, k for m p); they meet in the top word
RECURSIVE Chain(_, _, _, _, _, _, _)
Chain(j, xi, m, t, c, k, out) ==      \* out: the words so far; the result's top word is what is left
    IF j = L THEN [t |-> out + ((c + k) % B) * B^(L - 1), lost |-> (c + k) \div B]
    ELSE LET u == xi * Word(y, j) + Word(t, j) + c   v == m * Word(p, j) + (u % B) + k IN
         Chain(j + 1, xi, m, t, u \div B, v \div B, IF j = 0 THEN 0 ELSE out + (v % B) * B^(j - 1))
Round(t, xi) == LET m == (((xi * Word(y, 0) + Word(t, 0)) % B) * Neg1(p)) % B IN Chain(0, xi, m, t, 0, 0, 0)
MulInit == s = [pc |-> "mul", i |-> 0, t |-> 0, lost |-> 0]
MulNext == /\ s.pc = "mul"
           /\ IF s.i < L THEN LET r == Round(s.t, Word(x, s.i)) IN s' = [s EXCEPT !.i = @ + 1, !.t = r.t, !.lost = @ + r.lost]
              ELSE s' = [s EXCEPT !.pc = "done", !.t = IF @ >= p THEN @ - p ELSE @]
MulInv == /\ s.lost = 0
          /\ s.pc = "mul" => s.t < p + y /\ (s.t * B^(s.i) - (x % B^(s.i)) * y) % p = 0
          /\ s.pc = "done" => s.t < p /\ (s.t * R - x * y) % p = 0

\* ---- squaring: the products x_i x_j, i < j, are taken once and doubled, so a carry can need a third word
RECURSIVE SqChain(_, _, _, _, _, _, _)
SqChain(j, i, m, t, cu, k, acc) ==    \* cu: the carry of the x side (two words), k: that of the m p side
    IF j = L THEN [t |-> acc.t + (((cu % B) + k) % B) * B^(L - 1), lost |-> acc.lost + (cu \div B) + ((cu % B) + k) \div B]
    ELSE LET xi == Word(x, i)   xj == Word(x, j)
             w == (IF j < i THEN 0 ELSE IF j = i THEN xi * xj ELSE 2 * xi * xj) + Word(t, j) + (IF j <= i THEN 0 ELSE cu)
             v == m * Word(p, j) + (w % B) + k IN
         SqChain(j + 1, i, m, t, IF j < i THEN 0 ELSE w \div B, v \div B, [acc EXCEPT !.t = IF j = 0 THEN 0 ELSE @ + (v % B) * B^(j - 1)])
SqRound(t, i) == LET m == ((((IF i = 0 THEN Word(x, 0) * Word(x, 0) ELSE 0) + Word(t, 0)) % B) * Neg1(p)) % B IN SqChain(0, i, m, t, 0, 0, [t |-> 0, lost |-> 0])
SqNext == /\ s.pc = "mul"
          /\ IF s.i < L THEN LET r == SqRound(s.t, s.i) IN s' = [s EXCEPT !.i = @ + 1, !.t = r.t, !.lost = @ + r.lost]
             ELSE s' = [s EXCEPT !.pc = "done", !.t = IF @ >= p THEN @ - p ELSE @]
\* in round i all of x_i (x_i + 2 x_{i+1} B + ...) B^i is added
SqInv == /\ s.lost = 0
         /\ s.pc = "mul" => LET lo == x % B^(s.i) IN (s.t * B^(s.i) - (2 * x * lo - lo * lo)) % p = 0
         /\ s.pc = "done" => s.t < p /\ (s.t * R - x * x) % p = 0

\* ---- the almost-inverse of x (in Montgomery form): a x = 2^k, then 2^(2 n - k) makes it the inverse in Montgomery form
Mont(a, b) == LET t == CHOOSE t \in 0..(p - 1) : (t * R - a * b) % p = 0 IN t
InvInit == s = [pc |-> "gcd", u |-> p, v |-> x, r |-> 0, t |-> 1, k |-> 0, lost |-> 0]
InvNext ==
    \/ /\ s.pc = "gcd" /\ s.v # 0 /\ s.k < 2 * L * WB
       /\ s' = [(IF s.u % 2 = 0 THEN [s EXCEPT !.u = @ \div 2, !.t = 2 * @]
                 ELSE IF s.v % 2 = 0 THEN [s EXCEPT !.v = @ \div 2, !.r = 2 * @]
                 ELSE IF s.u > s.v THEN [s EXCEPT !.u = (@ - s.v) \div 2, !.r = @ + s.t, !.t = 2 * @]
                 ELSE [s EXCEPT !.v = (@ - s.u) \div 2, !.t = @ + s.r, !.r = 2 * @]) EXCEPT !.k = @ + 1]
    \/ /\ s.pc = "gcd" /\ s.v = 0
       /\ s' = [s EXCEPT !.pc = "fix", !.u = p - (IF s.r >= p THEN s.r - p ELSE s.r)]
    \/ /\ s.pc = "fix"
       /\ LET n == L * WB  r2 == (R * R) % p  f == IF s.k <= n THEN 1 ELSE 0
              u1 == IF f = 1 THEN Mont(s.u, r2) ELSE s.u   k1 == s.k + f * n   u2 == Mont(u1, r2) IN
          s' = [s EXCEPT !.pc = "done", !.k = k1, !.u = Mont(u2, 2^(2 * n - k1)), !.lost = IF 2 * n - k1 < 0 \/ 2 * n - k1 >= n THEN 1 ELSE 0]
InvInv == /\ s.lost = 0
          /\ s.pc = "gcd" => /\ s.u * s.t + s.v * s.r = p /\ s.r < R /\ s.t < R /\ s.r < 2 * p /\ s.t < 2 * p
                             /\ (s.u * 2^(s.k) + s.r * x) % p = 0 /\ (s.v * 2^(s.k) - s.t * x) % p = 0
                             /\ Gcd(s.u, s.v) = 1
          /\ s.pc = "fix" => s.k >= Bits(p) /\ s.k <= 2 * Bits(p) /\ s.u <= p /\ (s.u * x - 2^(s.k)) % p = 0
          /\ s.pc = "done" => s.u < p /\ (s.u * x - R * R) % p = 0
          /\ (s.pc = "gcd" /\ s.k = 2 * L * WB) => s.v = 0

\* ---- long division of x (up to L words) by y (exactly p words, top word not zero), digit by digit
\*      a, b: the normalised operands; the divisor's top word has WB - 1 bits
Shl(v, n) == v * 2^n
RECURSIVE Correct(_, _, _)
Correct(q, b2, a3) == IF q * b2 > a3 THEN Correct(q - 1, b2, a3) ELSE q
DivInit == s = [pc |-> "norm", a |-> x, b |-> y, c |-> 0, d |-> 0, sa |-> L, sb |-> p, i |-> 0, n |-> 0, lost |-> 0, path |-> <<>>]
DivNext ==
    \/ /\ s.pc = "norm"
       /\ LET k == Bits(Word(y, p - 1)) % WB   n == IF k < WB - 1 THEN WB - 1 - k ELSE 0
              a == Shl(x, n)   b == Shl(y, n)   sa == L + (IF a >= B^L THEN 1 ELSE 0)   sb == p + (IF b >= B^p THEN 1 ELSE 0) IN
          s' = [s EXCEPT !.a = a, !.b = b, !.sa = sa, !.sb = sb, !.n = n, !.i = sa - 1, !.pc = IF sa < sb THEN "last" ELSE "top", !.path = <<sa - L, sb - p>>]
    \/ /\ s.pc = "top"          \* the top digit, by subtraction
       /\ LET sh == s.b * B^(s.sa - s.sb)   q == s.a \div sh IN
          s' = [s EXCEPT !.a = @ - q * sh, !.c = q * B^(s.sa - s.sb), !.lost = IF q >= B \/ sh >= B^(s.sa) THEN 1 ELSE 0, !.pc = "digit", !.path = Append(@, Min(q, 2))]
    \/ /\ s.pc = "digit" /\ s.i >= s.sb
       /\ LET i == s.i   t == s.sb - 1
              bt == Word(s.b, t)   b1 == IF t = 0 THEN 0 ELSE Word(s.b, t - 1)
              ai == Word(s.a, i)   a1 == Word(s.a, i - 1)   a2 == IF i < 2 THEN 0 ELSE Word(s.a, i - 2)
              q0 == IF ai = bt THEN B - 1 ELSE (ai * B + a1) \div bt
              q1 == Correct(q0, bt * B + b1, (ai * B + a1) * B + a2)
              e == i - t - 1
              d == s.a - q1 * s.b * B^e      \* may be negative: then one divisor is added back
              q == IF d < 0 THEN q1 - 1 ELSE q1 IN
          s' = [s EXCEPT !.a = IF d < 0 THEN d + s.b * B^e ELSE d, !.c = @ + q * B^e, !.i = i - 1,
                         !.lost = IF q0 >= B \/ q < 0 \/ d + s.b * B^e < 0 THEN 1 ELSE 0,
                         !.path = Append(@, <<IF ai = bt THEN 1 ELSE 0, Min(q0 - q1, 3), IF d < 0 THEN 1 ELSE 0, IF q = 0 THEN 0 ELSE IF q = B - 1 THEN 2 ELSE 1>>)]
    \/ /\ (s.pc = "digit" /\ s.i < s.sb) \/ s.pc = "last"
       /\ s' = [s EXCEPT !.pc = "done", !.d = (s.a % B^(s.sb)) \div 2^(s.n), !.lost = IF s.a >= B^(s.sb) THEN 1 ELSE 0]
DivInv == /\ s.lost = 0
          /\ s.pc \in {"top", "digit", "last"} => s.a + s.c * s.b = x * 2^(s.n) /\ s.b = y * 2^(s.n) /\ Bits(Word(s.b, s.sb - 1)) = WB - 1
          /\ s.pc = "digit" => s.a < s.b * B^(s.i - s.sb + 1)
          /\ s.pc = "done" => s.c = x \div y /\ s.d = x % y
\* one line for every way through the algorithm: operands from which the programs for the real words are made
DivPaths == s.pc # "done" \/ ~(IOEnv.PATHS = "1") \/ LET k == <<p, L, s.n, s.path>> seen == TLCGet(1) IN k \in seen \/ (TLCSet(1, seen \cup {k}) /\ PrintT(<<"PATH", WB, L, p, x, y>>))

\* ---- the sum of x P1 + y P2 over windows of p bits: buckets, running sums, Horner's rule; points as pairs of coefficients
PAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
BITS == WB * L
Digit(v, j) == (v \div 2^(p * j)) % 2^p
Bucket(j, d) == PAdd(IF Digit(x, j) = d THEN <<1, 0>> ELSE <<0, 0>>, IF Digit(y, j) = d THEN <<0, 1>> ELSE <<0, 0>>)
RECURSIVE Running(_, _, _, _)
Running(j, d, sum, acc) == IF d = 0 THEN acc ELSE LET z == PAdd(sum, Bucket(j, d)) IN Running(j, d - 1, z, PAdd(acc, z))
WinInit == s = [pc |-> "win", j |-> (BITS - 1) \div p, acc |-> <<0, 0>>, lost |-> 0]
WinNext == /\ s.pc = "win"
           /\ s' = [s EXCEPT !.acc = PAdd(<<2^p * @[1], 2^p * @[2]>>, Running(s.j, 2^p - 1, <<0, 0>>, <<0, 0>>)), !.j = @ - 1, !.pc = IF s.j = 0 THEN "done" ELSE "win"]
WinInv == s.lost = 0 /\ (s.pc = "done" => s.acc = <<x, y>>)

\* ---- choice of the algorithm
Init ==
    CASE ALG = "carries" -> x \in 0..(B - 1) /\ y \in 0..(B - 1) /\ p = 0 /\ s = [pc |-> "done"]
      [] ALG = "mul" -> p \in Moduli /\ x \in 0..(p - 1) /\ y \in 0..(p - 1) /\ MulInit
      \* one factor need not be reduced as long as the sum with the modulus fits (a power of two in the inversion)
      [] ALG = "mulwide" -> p \in Moduli /\ x \in 0..(p - 1) /\ y \in {2^i : i \in 0..(L * WB - 1)} /\ MulInit
      [] ALG = "square" -> p \in Moduli /\ x \in 0..(p - 1) /\ y = x /\ MulInit
      [] ALG = "inverse" -> p \in Moduli /\ x \in {v \in 1..(p - 1) : Gcd(v, p) = 1} /\ y = 0 /\ InvInit
      [] ALG = "div" -> TLCSet(1, {}) /\ p \in 1..L /\ y \in (B^(p - 1))..(B^p - 1) /\ x \in 0..(B^L - 1) /\ DivInit
      [] ALG = "window" -> p \in 1..(BITS + 1) /\ x \in 0..(R - 1) /\ y \in {0, 1, R - 1, R \div 2, R \div 3} /\ WinInit
Next == /\ UNCHANGED <<x, y, p>>
        /\ (CASE ALG \in {"mul", "mulwide"} -> MulNext [] ALG = "square" -> SqNext [] ALG = "inverse" -> InvNext
              [] ALG = "div" -> DivNext [] ALG = "window" -> WinNext [] OTHER -> FALSE)
Right == (CASE ALG = "carries" -> Carries [] ALG \in {"mul", "mulwide"} -> MulInv [] ALG = "square" -> SqInv [] ALG = "inverse" -> InvInv
            [] ALG = "div" -> DivInv /\ DivPaths [] ALG = "window" -> WinInv)
\* every run ends, and ends with a result
Ends == s.pc = "done" \/ ENABLED Next
=============================================================================
