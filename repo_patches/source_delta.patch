From fa921942d661c6bea910fb10f8dc7ecc8c060d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 01/13] fix: propagate the carry through a word addition or
 subtraction with an all-ones operand

Add64 reported no carry for x + (2^64-1) + 1 and Sub64 no borrow for
x - (2^64-1) - 1, as the result equals x in both cases.
---
 src/arithmetic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arithmetic.cpp b/src/arithmetic.cpp
index acbe906..bc43a51 100644
--- a/src/arithmetic.cpp
+++ b/src/arithmetic.cpp
@@ -440,7 +440,7 @@ tuple<uint64_t, uint64_t> Add64(
 )
 {
     uint64_t sum = (x + y) + carry;
-    uint64_t carryOut = (sum < x);
+    uint64_t carryOut = (sum < x) || (carry && sum == x);
     return {sum, carryOut};
 }
 
@@ -456,7 +456,7 @@ tuple<uint64_t, uint64_t> Sub64(
 )
 {
     uint64_t diff = x - y - borrow;
-    uint64_t borrowOut = (diff > x);
+    uint64_t borrowOut = (diff > x) || (borrow && diff == x);
     return {diff, borrowOut};
 }
 
-- 
2.43.0


From dcfee52757f505b10462ba12f89ff0c02a48fd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 02/13] fix: keep carries out of the high word in the portable
 squaring helpers

madd1s, madd1sb, madd2s and madd2sb added carries into hi and dropped the
overflow instead of adding it to superhi, so _square was wrong when the high
word of 2*a*b was all ones (for example a = 2^63, b = 2^64-1).
---
 src/arithmetic.cpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/arithmetic.cpp b/src/arithmetic.cpp
index bc43a51..9a58d2f 100644
--- a/src/arithmetic.cpp
+++ b/src/arithmetic.cpp
@@ -546,17 +546,20 @@ tuple<uint64_t, uint64_t, uint64_t> madd2s(
     const uint64_t& e
 )
 {
-    uint64_t carry, sum, superhi, hi, lo, _;
+    uint64_t carry, sum, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
 
     tie(sum, carry) = Add64(c, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     tie(lo, carry) = Add64(lo, sum, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
-    tie(hi, _) = Add64(hi, 0, d);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
+    tie(hi, carry) = Add64(hi, 0, d);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
@@ -567,14 +570,16 @@ tuple<uint64_t, uint64_t, uint64_t> madd1s(
     const uint64_t& e
 )
 {
-    uint64_t carry, superhi, hi, lo, _;
+    uint64_t carry, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
     tie(lo, carry) = Add64(lo, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
-    tie(hi, _) = Add64(hi, 0, d);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
+    tie(hi, carry) = Add64(hi, 0, d);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
@@ -585,16 +590,18 @@ tuple<uint64_t, uint64_t, uint64_t> madd2sb(
     const uint64_t& e
 )
 {
-    uint64_t carry, sum, superhi, hi, lo, _;
+    uint64_t carry, sum, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
 
     tie(sum, carry) = Add64(c, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     tie(lo, carry) = Add64(lo, sum, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
@@ -604,13 +611,14 @@ tuple<uint64_t, uint64_t, uint64_t> madd1sb(
     const uint64_t& e
 )
 {
-    uint64_t carry, superhi, hi, lo, _;
+    uint64_t carry, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
     tie(lo, carry) = Add64(lo, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
-- 
2.43.0


From e393c79a43e02530f57312f93a8c5d84dd34147a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 03/13] fix: fp6::frobeniusMap for powers congruent to 3 modulo
 6

The branch overwrote c0.c0 with -c1.c1, kept c1.c0 and ignored the Frobenius
already applied to c1 and c2.  frobeniusMapAssign has the correct formula.
---
 src/fp.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fp.cpp b/src/fp.cpp
index c57d117..a7a82a4 100644
--- a/src/fp.cpp
+++ b/src/fp.cpp
@@ -1128,9 +1128,11 @@ fp6 fp6::frobeniusMap(const uint64_t& power) const
         }
         case 3:
         {
-            _negate(&c.c0.c0, &c1.c1);
-            c.c1.c1 = c1.c0;
-            c.c2 = c2.negate();
+            fp t;
+            _negate(&t, &c.c1.c1);
+            c.c1.c1 = c.c1.c0;
+            c.c1.c0 = t;
+            c.c2 = c.c2.negate();
             break;
         }
         default:
-- 
2.43.0


From 102c539067f748253d373d555b5acf55dc50f97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 04/13] fix: reduce the power modulo 12 in fp12::frobeniusMap

Powers of 12 and more read past the end of frobeniusCoeffs12; fp2 and fp6
already reduce the power.
---
 src/fp.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fp.cpp b/src/fp.cpp
index a7a82a4..925adc5 100644
--- a/src/fp.cpp
+++ b/src/fp.cpp
@@ -1491,7 +1491,7 @@ fp12 fp12::frobeniusMap(const uint64_t& power) const
     fp12 c;
     c.c0 = c0.frobeniusMap(power);
     c.c1 = c1.frobeniusMap(power);
-    switch(power)
+    switch(power % 12)
     {
         case 0:
         {
@@ -1504,7 +1504,7 @@ fp12 fp12::frobeniusMap(const uint64_t& power) const
         }
         default:
         {
-            c.c1 = c.c1.mulByBaseField(frobeniusCoeffs12[power]);
+            c.c1 = c.c1.mulByBaseField(frobeniusCoeffs12[power % 12]);
             break;
         }
     }
@@ -1515,7 +1515,7 @@ void fp12::frobeniusMapAssign(const uint64_t& power)
 {
     c0.frobeniusMapAssign(power);
     c1.frobeniusMapAssign(power);
-    switch(power)
+    switch(power % 12)
     {
         case 0:
         {
@@ -1528,7 +1528,7 @@ void fp12::frobeniusMapAssign(const uint64_t& power)
         }
         default:
         {
-            c1 = c1.mulByBaseField(frobeniusCoeffs12[power]);
+            c1 = c1.mulByBaseField(frobeniusCoeffs12[power % 12]);
             break;
         }
     }
-- 
2.43.0


From 0b46db869dbdcac1bd60731a34edf356caa26f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 05/13] fix: compressed encoding of the identity in every
 representation

The identity was recognised by its affine coordinates being (0, 0), so a
triple (x, y, 0) such as zero() was encoded as if it were a finite point.
---
 src/g.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/g.cpp b/src/g.cpp
index b15760a..bb9d0da 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -178,14 +178,14 @@ void g1::toAffineBytesLE(const span<uint8_t, 96> out, const from_mont fm /* = fr
 void g1::toCompressedBytesBE(const span<uint8_t, 48> out) const
 {
     // check: https://github.com/zcash/librustzcash/blob/6e0364cd42a2b3d2b958a54771ef51a8db79dd29/pairing/src/bls12_381/README.md#serialization
-    g1 p = affine();
     // check if point is at infinity
-    if(p.x.isZero() && p.y.isZero())
+    if(isZero())
     {
         memset(out.data(), 0, 48);
         out[0] |= 0xC0;
         return;
     }
+    g1 p = affine();
     memcpy(out.data(), p.x.toBytesBE().data(), 48);
     // checks if y component is larger than its negation
     if(p.y.isLexicographicallyLargest())
@@ -896,14 +896,14 @@ void g2::toAffineBytesLE(const span<uint8_t, 192> out, const from_mont fm /* = f
 void g2::toCompressedBytesBE(const span<uint8_t, 96> out) const
 {
     // check: https://github.com/zcash/librustzcash/blob/6e0364cd42a2b3d2b958a54771ef51a8db79dd29/pairing/src/bls12_381/README.md#serialization
-    g2 p = affine();
     // check if point is at infinity
-    if(p.x.isZero() && p.y.isZero())
+    if(isZero())
     {
         memset(out.data(), 0, 96);
         out[0] |= 0xC0;
         return;
     }
+    g2 p = affine();
     memcpy(out.data(), p.x.c1.toBytesBE().data(), 48);
     memcpy(out.data() + 48, p.x.c0.toBytesBE().data(), 48);
     // check y component
-- 
2.43.0


From 4150a7fc2a491bd67b7da73dad5f590682537251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 06/13] fix: reject compressed points whose x coordinate is not
 reduced

The range check ran after toMont(), whose result is always reduced, so x and
x + p decoded to the same point.
---
 src/g.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/g.cpp b/src/g.cpp
index bb9d0da..3cac325 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -113,11 +113,11 @@ optional<g1> g1::fromCompressedBytesBE(const span<const uint8_t, 48> in)
     scalar::fromBytesBE(in, p.x.d);
     // erase 3 msbs from given input and perform validity check
     p.x.d[5] &= 0x1FFFFFFFFFFFFFFF;
-    p.x = p.x.toMont();
     if(!p.x.isValid())
     {
         return {};
     }
+    p.x = p.x.toMont();
     // BLS 12-381 curve equation:
     //      y^2 = x^3 + B
     //  =>  y   = +/- sqrt(x^3 + B)
@@ -831,11 +831,11 @@ optional<g2> g2::fromCompressedBytesBE(const span<const uint8_t, 96> in)
     p.x.c0 = *c0;
     // erase 3 msbs from given input and perform validity check
     p.x.c1.d[5] &= 0x1FFFFFFFFFFFFFFF;
-    p.x.c1 = p.x.c1.toMont();
     if(!p.x.c1.isValid())
     {
         return {};
     }
+    p.x.c1 = p.x.c1.toMont();
     // BLS 12-381 curve equation:
     //      y^2 = x^3 + B
     //  =>  y   = +/- sqrt(x^3 + B)
-- 
2.43.0


From 8300386f19b5644627bedbc82d0beccab681a9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 07/13] fix: accept only the canonical compressed encoding of
 the identity

With the infinity flag set, the sort flag and the x coordinate were ignored,
so that 2^381 and more octet strings decoded to the identity.
---
 src/g.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/g.cpp b/src/g.cpp
index 3cac325..2f114da 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -1,4 +1,5 @@
 #include <bls12-381/bls12-381.hpp>
+#include <algorithm>
 
 using namespace std;
 
@@ -105,6 +106,11 @@ optional<g1> g1::fromCompressedBytesBE(const span<const uint8_t, 48> in)
     // check if point is infinity
     if(((in[0] >> 6) & 1) == 1)
     {
+        // all other bits must be zero
+        if(in[0] != 0xC0 || any_of(in.begin() + 1, in.end(), [](uint8_t b) { return b != 0; }))
+        {
+            return {};
+        }
         return zero();
     }
     // reconstruct point from x coordinate
@@ -818,6 +824,11 @@ optional<g2> g2::fromCompressedBytesBE(const span<const uint8_t, 96> in)
     // check if point is infinity
     if(((in[0] >> 6) & 1) == 1)
     {
+        // all other bits must be zero
+        if(in[0] != 0xC0 || any_of(in.begin() + 1, in.end(), [](uint8_t b) { return b != 0; }))
+        {
+            return {};
+        }
         return zero();
     }
     // reconstruct point from x coordinate
-- 
2.43.0


From 4fec8cac1ffef25b8065b4e99ebd10aefbee6858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 08/13] fix: scalar::add stores the carry in the limb after the
 operands

It was stored one limb too high, and refused when the result had exactly one
limb more than the operands.
---
 include/bls12-381/scalar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bls12-381/scalar.hpp b/include/bls12-381/scalar.hpp
index f53a259..fabfe83 100644
--- a/include/bls12-381/scalar.hpp
+++ b/include/bls12-381/scalar.hpp
@@ -114,11 +114,11 @@ std::array<uint64_t, NC> add(const std::array<uint64_t, NA>& a, const std::array
     }
     if(carry > 0)
     {
-        if(NC <= N+1)
+        if(NC <= N)
         {
             throw std::invalid_argument("std::array c not large enough to store result!");
         }
-        c[N+1] = static_cast<uint64_t>(carry);
+        c[N] = static_cast<uint64_t>(carry);
     }
     return c;
 };
-- 
2.43.0


From 79bcf8153565c171109eaeec11426e0aeb3e33a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 09/13] fix: g1::mapToCurve of field elements that map into the
 isogeny kernel

The denominators vanish there, and clearing the cofactor of the resulting
(0, 0), which is not on the curve, did not give the identity.
---
 src/g.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/g.cpp b/src/g.cpp
index 2f114da..f9b5836 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -545,6 +545,11 @@ g1 g1::mapToCurve(const fp& e)
     fp x, y, z = fp::one();
     tie(x, y) = swuMapG1(e);
     isogenyMapG1(x, y);
+    // the kernel of the isogeny is mapped to the point at infinity
+    if(x.isZero() && y.isZero())
+    {
+        return zero();
+    }
     g1 p({x, y, z});
     p = p.clearCofactor();
     return p;
-- 
2.43.0


From 788df18059ea792487def5f986992970cca9a0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 10/13] fix: fromMessage with a domain separation tag of more
 than 255 bytes

xmd_sh256 refused such tags, fromMessage ignored the error and hashed an
uninitialised buffer to the curve.
---
 src/signatures.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/signatures.cpp b/src/signatures.cpp
index 7dbc161..7f73090 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -453,10 +453,21 @@ int xmd_sh256(
     const unsigned int SHA256HashSize = 32;
     const unsigned int SHA256_Message_Block_Size = 64;
     const unsigned ell = (buf_len + SHA256HashSize - 1) / SHA256HashSize;
-    if (buf_len < 0 || ell > 255 || dst_len > 255)
+    if (buf_len < 0 || ell > 255)
     {
         return -1;
     }
+    // domain separation tags longer than 255 bytes are hashed (RFC 9380, section 5.3.3)
+    if (dst_len > 255)
+    {
+        const string prefix = "H2C-OVERSIZE-DST-";
+        uint8_t hashed_dst[SHA256HashSize];
+        sha256 d;
+        d.update(reinterpret_cast<const uint8_t*>(prefix.data()), prefix.size());
+        d.update(dst, dst_len);
+        d.digest(hashed_dst);
+        return xmd_sh256(buf, buf_len, in, in_len, hashed_dst, SHA256HashSize);
+    }
     const uint8_t Z_pad[SHA256_Message_Block_Size] = { 0, };
     const uint8_t l_i_b_0_str[] = {
         static_cast<uint8_t>(buf_len >> 8),
-- 
2.43.0


From 6769614f62689395d40303e633a6ba45d4f40712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 11/13] fix: hexToBytes of a string_view of less than two
 characters

It read s[0] of an empty view (a null pointer for a default constructed one).
---
 src/scalar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scalar.cpp b/src/scalar.cpp
index 908ffa2..93250bb 100644
--- a/src/scalar.cpp
+++ b/src/scalar.cpp
@@ -8,7 +8,7 @@ namespace bls12_381
 vector<uint8_t> hexToBytes(std::string_view s)
 {
     uint64_t start_idx = 0;
-    if(s[0] == '0' && s[1] == 'x')
+    if(s.length() >= 2 && s[0] == '0' && s[1] == 'x')
     {
         start_idx = 2;
     }
-- 
2.43.0


From 68171a1921720e205fec9567d5a3db3da2428e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 12/13] fix: bn_divn_low with a divisor that normalization
 makes longer than the dividend

---
 src/scalar.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/scalar.cpp b/src/scalar.cpp
index 93250bb..72e0326 100644
--- a/src/scalar.cpp
+++ b/src/scalar.cpp
@@ -265,6 +265,13 @@ void bn_divn_low(uint64_t *c, uint64_t *d, uint64_t *a, int sa, uint64_t *b, int
     n = sa - 1;
     t = sb - 1;
 
+    // The normalization can make y longer than x: the quotient is zero.
+    if(n < t)
+    {
+        bn_rshb_low(d, a, sb, norm);
+        return;
+    }
+
     // Shift y so that the most significant digit of y is aligned with the most significant digit of x.
     dv_lshd(b, b, sb + (n - t), (n - t));
 
-- 
2.43.0


From f578f763f8027a5f9265134bbf4cf91dd937d51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:13 +0000
Subject: [PATCH 13/13] fix: fromMessage of a message of 2^31 bytes or more

xmd_sh256 took the lengths as int: a message of 2^32 bytes was hashed as the
empty message, and one of 2^31 bytes crashed.
---
 include/bls12-381/signatures.hpp | 4 ++--
 src/signatures.cpp               | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bls12-381/signatures.hpp b/include/bls12-381/signatures.hpp
index 098b539..f1c6192 100644
--- a/include/bls12-381/signatures.hpp
+++ b/include/bls12-381/signatures.hpp
@@ -20,9 +20,9 @@ int xmd_sh256(
     uint8_t *buf,
     int buf_len,
     const uint8_t *in,
-    int in_len,
+    size_t in_len,
     const uint8_t *dst,
-    int dst_len
+    size_t dst_len
 );
 
 // Implements HMAC based on SHA256 as specified in RFC 2104: https://www.rfc-editor.org/rfc/rfc2104
diff --git a/src/signatures.cpp b/src/signatures.cpp
index 7f73090..ced1db5 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -445,9 +445,9 @@ int xmd_sh256(
     uint8_t *buf,
     int buf_len,
     const uint8_t *in,
-    int in_len,
+    size_t in_len,
     const uint8_t *dst,
-    int dst_len
+    size_t dst_len
 )
 {
     const unsigned int SHA256HashSize = 32;
-- 
2.43.0

