------------------------------- MODULE Sha256 -------------------------------
(***************************************************************************)
(* FIPS 180-4 SHA-256, RFC 2104 HMAC, RFC 5869 HKDF and the RFC 9380       *)
(* expand_message_xmd, on octet strings (sequences of 0..255) of any       *)
(* length.  Sha256 is evaluated by java.security.MessageDigest when TLC    *)
(* runs with the overrides; Sha256Def is the definition, compared with it  *)
(* by Laws.tla.                                                       *)
(***************************************************************************)
EXTENDS BigInts, Integers, Sequences, SequencesExt

LOCAL W32 == Hex("100000000")
LOCAL Rotr(x, n) == ZAdd(ZDiv(x, ZPow(Z(2), Z(n))), ZMul(ZMod(x, ZPow(Z(2), Z(n))), ZPow(Z(2), Z(32 - n))))
LOCAL Shr(x, n)  == ZDiv(x, ZPow(Z(2), Z(n)))
LOCAL Not32(x)   == ZSub(ZSub(W32, Z(1)), x)
LOCAL Xor3(a, b, c) == ZXor(ZXor(a, b), c)
LOCAL Add32(a, b) == AddMod(a, b, W32)

K256 == LET h == <<"428a2f98","71374491","b5c0fbcf","e9b5dba5","3956c25b","59f111f1","923f82a4","ab1c5ed5",
  "d807aa98","12835b01","243185be","550c7dc3","72be5d74","80deb1fe","9bdc06a7","c19bf174",
  "e49b69c1","efbe4786","0fc19dc6","240ca1cc","2de92c6f","4a7484aa","5cb0a9dc","76f988da",
  "983e5152","a831c66d","b00327c8","bf597fc7","c6e00bf3","d5a79147","06ca6351","14292967",
  "27b70a85","2e1b2138","4d2c6dfc","53380d13","650a7354","766a0abb","81c2c92e","92722c85",
  "a2bfe8a1","a81a664b","c24b8b70","c76c51a3","d192e819","d6990624","f40e3585","106aa070",
  "19a4c116","1e376c08","2748774c","34b0bcb5","391c0cb3","4ed8aa4a","5b9cca4f","682e6ff3",
  "748f82ee","78a5636f","84c87814","8cc70208","90befffa","a4506ceb","bef9a3f7","c67178f2">>
        IN [i \in 1..64 |-> Hex(h[i])]
H256 == LET h == <<"6a09e667","bb67ae85","3c6ef372","a54ff53a","510e527f","9b05688c","1f83d9ab","5be0cd19">>
        IN [i \in 1..8 |-> Hex(h[i])]
LOCAL S0(x) == Xor3(Rotr(x, 7), Rotr(x, 18), Shr(x, 3))
LOCAL S1(x) == Xor3(Rotr(x, 17), Rotr(x, 19), Shr(x, 10))
LOCAL B0(x) == Xor3(Rotr(x, 2), Rotr(x, 13), Rotr(x, 22))
LOCAL B1(x) == Xor3(Rotr(x, 6), Rotr(x, 11), Rotr(x, 25))
LOCAL Ch(e, f, g)  == ZXor(ZAnd(e, f), ZAnd(Not32(e), g))
LOCAL Maj(a, b, c) == Xor3(ZAnd(a, b), ZAnd(a, c), ZAnd(b, c))
LOCAL Schedule(blk) ==
    FoldLeft(LAMBDA w, i : Append(w, Add32(Add32(S1(w[i - 2]), w[i - 7]), Add32(S0(w[i - 15]), w[i - 16]))),
             [i \in 1..16 |-> BE(SubSeq(blk, 4*i - 3, 4*i))], [i \in 1..48 |-> i + 16])
LOCAL Compress(h, blk) ==
    LET w == Schedule(blk)
        r == FoldLeft(LAMBDA s, i :
                 LET t1 == Add32(Add32(s[8], B1(s[5])), Add32(Ch(s[5], s[6], s[7]), Add32(K256[i], w[i])))
                     t2 == Add32(B0(s[1]), Maj(s[1], s[2], s[3]))
                 IN <<Add32(t1, t2), s[1], s[2], s[3], Add32(s[4], t1), s[5], s[6], s[7]>>,
                 h, [i \in 1..64 |-> i])
    IN [i \in 1..8 |-> Add32(h[i], r[i])]
Zeros(n) == [i \in 1..n |-> 0]
PadLen(n) == (55 - n) % 64
Padded(m) == m \o <<128>> \o Zeros(PadLen(Len(m))) \o ToBE(Z(8 * Len(m)), 8)
Sha256Def(m) ==
    LET pm == Padded(m)
        h  == FoldLeft(LAMBDA st, i : Compress(st, SubSeq(pm, 64*i - 63, 64*i)), H256, [i \in 1..(Len(pm) \div 64) |-> i])
    IN FoldLeft(LAMBDA acc, x : acc \o ToBE(x, 4), <<>>, h)
Sha256(m) == Sha256Def(m)
\* the digest of b repeated n times (n may be far too large for the definition to be evaluated directly)
Sha256Rep(b, n) == Sha256Def(FoldLeft(LAMBDA acc, i : acc \o b, <<>>, [i \in 1..ZInt(n) |-> i]))

\* the digest of b \o 0^n \o c: inputs of gigabytes are written <<b, n, c>>
Sha256Zeros(b, n, c) == Sha256Def(b \o Zeros(ZInt(n)) \o c)

\* ---------------------------------------------------------------- HMAC
XorPad(k, c) == [i \in 1..64 |-> ZInt(ZXor(k[i], c))]
HmacKey(key) == LET k == IF Len(key) > 64 THEN Sha256(key) ELSE key IN k \o Zeros(64 - Len(k))
Hmac(key, m) == LET k == HmacKey(key)
                IN Sha256(XorPad(k, 92) \o Sha256(XorPad(k, 54) \o m))
HmacZ(key, b, n, c) == LET k == HmacKey(key)
                       IN Sha256(XorPad(k, 92) \o Sha256Zeros(XorPad(k, 54) \o b, n, c))
\* ---------------------------------------------------------------- HKDF
HkdfExtract(salt, ikm) == Hmac(salt, ikm)
HkdfExpandBlocks(prk, info, n) ==
    FoldLeft(LAMBDA st, i : LET t == Hmac(prk, st.t \o info \o <<i>>) IN [t |-> t, out |-> st.out \o t],
             [t |-> <<>>, out |-> <<>>], [i \in 1..n |-> i]).out
HkdfExpand(prk, info, L) == SubSeq(HkdfExpandBlocks(prk, info, (L + 31) \div 32), 1, L)
Hkdf(salt, ikm, info, L) == HkdfExpand(HkdfExtract(salt, ikm), info, L)
\* ---------------------------------------------------------------- expand_message_xmd
XorBytes(a, b) == [i \in 1..Len(a) |-> ZInt(ZXor(a[i], b[i]))]
OversizePrefix == <<72,50,67,45,79,86,69,82,83,73,90,69,45,68,83,84,45>>    \* "H2C-OVERSIZE-DST-"
XmdDst(dst) == IF Len(dst) > 255 THEN Sha256(OversizePrefix \o dst) ELSE dst
XmdFrom(b0, dp, L) ==
    LET ell == (L + 31) \div 32
        st  == FoldLeft(LAMBDA s, i : LET b == Sha256(XorBytes(b0, s.b) \o <<i>> \o dp)
                                      IN [b |-> b, out |-> s.out \o b],
                        [b |-> Zeros(32), out |-> <<>>], [i \in 1..ell |-> i])
    IN SubSeq(st.out, 1, L)
Xmd(msg, dst0, L) ==
    LET dst == XmdDst(dst0)
        dp  == dst \o <<Len(dst)>>
    IN XmdFrom(Sha256(Zeros(64) \o msg \o ToBE(Z(L), 2) \o <<0>> \o dp), dp, L)
XmdZ(b, n, c, dst0, L) ==
    LET dst == XmdDst(dst0)
        dp  == dst \o <<Len(dst)>>
    IN XmdFrom(Sha256Zeros(Zeros(64) \o b, n, c \o ToBE(Z(L), 2) \o <<0>> \o dp), dp, L)
=============================================================================
