-------------------------------- MODULE Keys --------------------------------
(***************************************************************************)
(* Keys and the BLS signature scheme (minimal-pubkey-size: keys in G1,     *)
(* signatures in G2): KeyGen, EIP-2333 and unhardened child derivation,    *)
(* Sign, Verify, AggregateVerify and proofs of possession.                 *)
(***************************************************************************)
EXTENDS Codec, HashToCurve, Pairing

CONSTANTS Gen1, Gen2            \* the generators

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharCode(c) == 31 + CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c
Str(s) == [i \in 1..Len(s) |-> CharCode(SubSeq(s, i, i))]
SuiteNul == Str("BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_")
SuitePop == Str("BLS_POP_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_")

\* ------------------------------------------------------------- KeyGen
KeyGenSalt == Str("BLS-SIG-KEYGEN-SALT-")
RECURSIVE KeyGenFrom(_, _)
KeyGenFrom(ikm, salt) ==
    LET sk == ZMod(BE(Hkdf(salt, ikm \o <<0>>, <<0, 48>>, 48)), Q)
    IN IF ZIs(sk, Zero) THEN KeyGenFrom(ikm, Sha256(salt)) ELSE sk
KeyGenFromZ(b, n, c) == ZMod(BE(HkdfExpand(HmacZ(KeyGenSalt, b, n, c \o <<0>>), <<0, 48>>, 48)), Q)
\* seeds shorter than 32 octets are refused: the zero scalar is returned
KeyGen(seed) == IF Len(seed) < 32 THEN Zero ELSE KeyGenFrom(seed, KeyGenSalt)

\* ------------------------------------------------------------- EIP-2333
LamportSk(ikm, salt) == Hkdf(salt, ikm, <<>>, 8160)
Flip(b) == [i \in 1..Len(b) |-> 255 - b[i]]
HashChunks(lam) == FoldLeft(LAMBDA acc, i : acc \o Sha256(Chunk(lam, 32, i)), <<>>, Seq1(255))
LamportPk(sk, idx) ==       \* idx : 4 octets
    LET ikm == ToBE(sk, 32)
    IN Sha256(HashChunks(LamportSk(ikm, idx)) \o HashChunks(LamportSk(Flip(ikm), idx)))
ChildSk(sk, idx) == KeyGen(LamportPk(sk, idx))

\* ------------------------------------------------------------- unhardened derivation
ChildOffset(enc, idx) == ZMod(BE(Sha256(enc \o idx)), Q)
PublicKey(sk) == Mul1(Gen1, sk)
ChildSkU(sk, idx) == AddMod(sk, ChildOffset(EncC1(PublicKey(sk)), idx), Q)
ChildG1U(pk, idx) == Add1(pk, Mul1(Gen1, ChildOffset(EncC1(pk), idx)))
ChildG2U(pk, idx) == Add2(pk, Mul2(Gen2, ChildOffset(EncC2(pk), idx)))

\* ------------------------------------------------------------- signatures
ValidPk(pk)   == InG1(pk)
ValidSig(sig) == InG2(sig)
Sign(sk, msg) == Mul2(HashToG2(msg, SuiteNul), sk)
AffineLE1(pk) == IF IsInf(pk) THEN [i \in 1..96 |-> 0] ELSE EncLE(pk[1], 48) \o EncLE(pk[2], 48)
PopProve(sk)  == Mul2(HashToG2(AffineLE1(PublicKey(sk)), SuitePop), sk)

\* the verification equation: prod e(pk_i, h_i) = e(G, sig)
VerifyEq(pks, hs, sig) ==
    PairProdIsOne(<< <<Neg1(Gen1), sig>> >> \o [i \in 1..Len(pks) |-> <<pks[i], hs[i]>>])
\* the same equation when pk_i = w_i G, by non-degeneracy (checked on the toy curve): sum w_i h_i = sig
VerifyEqW(ws, hs, sig) == Sum2([i \in 1..Len(ws) |-> Mul2(hs[i], ws[i])]) = sig
WitnessOK(pks, ws) == Len(pks) = Len(ws) /\ \A i \in 1..Len(pks) : PublicKey(ws[i]) = pks[i]

Verify(pk, msg, sig) ==
    ValidPk(pk) /\ ValidSig(sig) /\ VerifyEq(<<pk>>, <<HashToG2(msg, SuiteNul)>>, sig)
VerifyW(pk, w, msg, sig) ==
    ValidSig(sig) /\ VerifyEqW(<<w>>, <<HashToG2(msg, SuiteNul)>>, sig)
PopVerify(pk, sig) ==
    ValidPk(pk) /\ ValidSig(sig) /\ VerifyEq(<<pk>>, <<HashToG2(AffineLE1(pk), SuitePop)>>, sig)
PopVerifyW(pk, w, sig) ==
    ValidSig(sig) /\ VerifyEqW(<<w>>, <<HashToG2(AffineLE1(pk), SuitePop)>>, sig)
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
AggPre(pks, msgs, sig, dup) ==
    /\ ValidSig(sig)
    /\ Len(pks) = Len(msgs)
    /\ dup => Distinct(msgs)
    /\ \A i \in 1..Len(pks) : ValidPk(pks[i])
HashAll(msgs) == [i \in 1..Len(msgs) |-> HashToG2(msgs[i], SuiteNul)]
AggVerify(pks, msgs, sig, dup) == AggPre(pks, msgs, sig, dup) /\ VerifyEq(pks, HashAll(msgs), sig)
AggVerifyW(pks, ws, msgs, sig, dup) == AggPre(pks, msgs, sig, dup) /\ VerifyEqW(ws, HashAll(msgs), sig)
=============================================================================
