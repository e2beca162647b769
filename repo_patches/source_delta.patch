From 558f09154129cf04c897f8762d611f1c9043815b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:41 +0000
Subject: [PATCH 01/47] fix: RangeSet iterator minus an offset moved forwards
 instead of backwards

---
 include/lsst/sphgeom/RangeSet.h | 2 +-
 src/RangeSet.cc                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lsst/sphgeom/RangeSet.h b/include/lsst/sphgeom/RangeSet.h
index e0e7ac4..ea173bc 100644
--- a/include/lsst/sphgeom/RangeSet.h
+++ b/include/lsst/sphgeom/RangeSet.h
@@ -149,7 +149,7 @@ public:
         Iterator operator--(int) { Iterator i(*this); p -= 2; return i; }
 
         Iterator operator+(ptrdiff_t n) const { return Iterator(p + 2 * n); }
-        Iterator operator-(ptrdiff_t n) const { return Iterator(p + 2 * n); }
+        Iterator operator-(ptrdiff_t n) const { return Iterator(p - 2 * n); }
 
         Iterator & operator+=(ptrdiff_t n) { p += 2 * n; return *this; }
         Iterator & operator-=(ptrdiff_t n) { p -= 2 * n; return *this; }
diff --git a/src/RangeSet.cc b/src/RangeSet.cc
index 30b8f02..c64a13e 100644
--- a/src/RangeSet.cc
+++ b/src/RangeSet.cc
@@ -70,7 +70,7 @@ struct RangeIter {
     RangeIter operator--(int) { RangeIter i(*this); ptr -= 2; return i; }
 
     RangeIter operator+(ptrdiff_t n) const { return RangeIter(ptr + 2 * n); }
-    RangeIter operator-(ptrdiff_t n) const { return RangeIter(ptr + 2 * n); }
+    RangeIter operator-(ptrdiff_t n) const { return RangeIter(ptr - 2 * n); }
 
     RangeIter & operator+=(ptrdiff_t n) { ptr += 2 * n; return *this; }
     RangeIter & operator-=(ptrdiff_t n) { ptr -= 2 * n; return *this; }
-- 
2.43.0


From 7f85abc2c3fe0099852e326dcc60f91e37f9a16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:17 +0000
Subject: [PATCH 02/47] fix: expanding a longitude interval by another that
 covers its complement missed or over-grew the union

---
 src/NormalizedAngleInterval.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NormalizedAngleInterval.cc b/src/NormalizedAngleInterval.cc
index 7bd2433..2d3bc52 100644
--- a/src/NormalizedAngleInterval.cc
+++ b/src/NormalizedAngleInterval.cc
@@ -217,7 +217,7 @@ NormalizedAngleInterval & NormalizedAngleInterval::expandTo(
                 // Both endpoints of x are in this interval. This interval
                 // either contains x, in which case this interval is the
                 // desired union, or the union is the full interval.
-                if (wraps() != x.wraps()) {
+                if (!contains(x)) {
                     *this = full();
                 }
             } else {
-- 
2.43.0


From f7841431c5b2ca49fdf53e9ae05d71517382b2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 03/47] fix: BigInteger addition of opposite signs left leading
 zero digits when the operand was larger

---
 src/BigInteger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cc b/src/BigInteger.cc
index 99e345c..2c7fbfc 100644
--- a/src/BigInteger.cc
+++ b/src/BigInteger.cc
@@ -103,7 +103,7 @@ unsigned _sub(std::uint32_t * const m,
     // If we subtracted anything from the most significant digit in m1, strip
     // any leading zeroes that may have been introduced.
     if (i == size1) {
-        while (m1[i - 1] == 0) { --i; }
+        while (m[i - 1] == 0) { --i; }
         return i;
     }
     // Otherwise, copy the remaining digits from m1 to m.
-- 
2.43.0


From cf8b7c170238d0f928ac91d34ba330063e4d22a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 04/47] fix: BigInteger::multiplyPow2 zeroed the wrong digits
 for shifts above 32 that are no multiple of 32

---
 src/BigInteger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cc b/src/BigInteger.cc
index 2c7fbfc..b533c25 100644
--- a/src/BigInteger.cc
+++ b/src/BigInteger.cc
@@ -246,7 +246,7 @@ BigInteger & BigInteger::multiplyPow2(unsigned n) {
         }
         _digits[z] = high << s;
         for (unsigned i = z; i != 0; --i) {
-            _digits[i] = 0;
+            _digits[i - 1] = 0;
         }
         _size = (_digits[size] == 0) ? size: size + 1;
     }
-- 
2.43.0


From 26b2f9130ff4f077f01ee725239290cbe24b91f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 05/47] fix: BigInteger::multiply gave wrong products for
 self-multiplication and for longer multipliers

---
 src/BigInteger.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/BigInteger.cc b/src/BigInteger.cc
index b533c25..7e7e416 100644
--- a/src/BigInteger.cc
+++ b/src/BigInteger.cc
@@ -33,6 +33,7 @@
 #include "lsst/sphgeom/BigInteger.h"
 
 #include <algorithm>
+#include <vector>
 
 
 namespace lsst {
@@ -114,8 +115,8 @@ unsigned _sub(std::uint32_t * const m,
 }
 
 // `_mul` computes the product of m1 and m2 and stores the result in m,
-// which may equal either m1 or m2. It assumes that m1 has at least as many
-// digits as m2, and returns the the number of digits in the product.
+// which may equal m1 but must not overlap m2. It returns the the number of
+// digits in the product.
 unsigned _mul(std::uint32_t * const m,
               std::uint32_t const * const m1,
               std::uint32_t const * const m2,
@@ -126,8 +127,8 @@ unsigned _mul(std::uint32_t * const m,
     // digit counts. A requirement for anything fancier involves enough
     // complexity that switching to GMP is definitely warranted.
     //
-    // The only small subtlety here is that because m is allowed to alias m1
-    // or m2, we compute products of m2 from most to least significant digit of
+    // The only small subtlety here is that because m is allowed to alias m1,
+    // we compute products of m2 from most to least significant digit of
     // m1. This way no as yet unprocessed input digits are overwritten.
     unsigned const size = size1 + size2;
     for (unsigned i = size1; i < size; ++i) {
@@ -260,10 +261,12 @@ BigInteger & BigInteger::multiply(BigInteger const & b) {
         return *this;
     }
     _checkCapacity(_size + b._size);
-    if (_size >= b._size) {
-        _size = _mul(_digits, _digits, b._digits, _size, b._size);
+    if (this == &b) {
+        // The multiplier must not be overwritten by the product.
+        std::vector<std::uint32_t> digits(_digits, _digits + _size);
+        _size = _mul(_digits, _digits, digits.data(), _size, _size);
     } else {
-        _size = _mul(_digits, b._digits, _digits, b._size, _size);
+        _size = _mul(_digits, _digits, b._digits, _size, b._size);
     }
     return *this;
 }
-- 
2.43.0


From 32dd2826093ab3ddf6995b78f3e3963e9f373bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 06/47] fix: BigInteger operations that failed for lack of
 capacity changed the sign of the value; avoid overflow in setTo

---
 include/lsst/sphgeom/BigInteger.h |  3 ++-
 src/BigInteger.cc                 | 13 +++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/lsst/sphgeom/BigInteger.h b/include/lsst/sphgeom/BigInteger.h
index b64ea99..7474410 100644
--- a/include/lsst/sphgeom/BigInteger.h
+++ b/include/lsst/sphgeom/BigInteger.h
@@ -89,7 +89,8 @@ public:
     /// `setTo` sets this integer to the given signed 64 bit integer value.
     void setTo(std::int64_t x) {
         if (x < 0) {
-            setTo(static_cast<std::uint64_t>(-x));
+            // Avoid overflow when x is the smallest 64 bit integer.
+            setTo(0 - static_cast<std::uint64_t>(x));
             _sign = -1;
         } else {
             setTo(static_cast<std::uint64_t>(x));
diff --git a/src/BigInteger.cc b/src/BigInteger.cc
index 7e7e416..7b69fae 100644
--- a/src/BigInteger.cc
+++ b/src/BigInteger.cc
@@ -211,7 +211,12 @@ BigInteger & BigInteger::subtract(BigInteger const & b) {
         // Avoid code duplication by computing a - b = -(-a + b).
         // This only works if a and b are distinct.
         negate();
-        add(b);
+        try {
+            add(b);
+        } catch (...) {
+            negate();
+            throw;
+        }
         negate();
     } else {
         setToZero();
@@ -255,12 +260,12 @@ BigInteger & BigInteger::multiplyPow2(unsigned n) {
 }
 
 BigInteger & BigInteger::multiply(BigInteger const & b) {
-    _sign *= b._sign;
-    if (_sign == 0) {
-        _size = 0;
+    if (_sign == 0 || b._sign == 0) {
+        setToZero();
         return *this;
     }
     _checkCapacity(_size + b._size);
+    _sign *= b._sign;
     if (this == &b) {
         // The multiplier must not be overwritten by the product.
         std::vector<std::uint32_t> digits(_digits, _digits + _size);
-- 
2.43.0


From 48dc91c044044364ce9fff6dda9b2e0d4a017364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:26 +0000
Subject: [PATCH 07/47] fix: normalizing a vector with a NaN y component read
 and wrote memory outside the vector

---
 src/Vector3d.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Vector3d.cc b/src/Vector3d.cc
index f3dc349..0c9a611 100644
--- a/src/Vector3d.cc
+++ b/src/Vector3d.cc
@@ -59,8 +59,8 @@ double Vector3d::normalize() {
         {0, 1, 2, UNUSED},
         {0, 2, 1, UNUSED},
         {1, 0, 2, UNUSED},
-        {UNUSED, UNUSED, UNUSED, UNUSED},
-        {UNUSED, UNUSED, UNUSED, UNUSED},
+        {0, 1, 2, UNUSED}, // only possible for NaN components
+        {0, 1, 2, UNUSED}, // only possible for NaN components
         {2, 0, 1, UNUSED},
         {1, 2, 0, UNUSED},
         {2, 1, 0, UNUSED}
-- 
2.43.0


From f8c71b9f67fb3ccb7ea96f37595f1fb8b30b2509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:29 +0000
Subject: [PATCH 08/47] fix: longitude/latitude of very short or very long
 vectors under- or overflowed

---
 src/LonLat.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/LonLat.cc b/src/LonLat.cc
index 9a1932b..f02314d 100644
--- a/src/LonLat.cc
+++ b/src/LonLat.cc
@@ -42,10 +42,18 @@ namespace lsst {
 namespace sphgeom {
 
 Angle LonLat::latitudeOf(Vector3d const & v) {
-    double d2 = v(0) * v(0) + v(1) * v(1);
+    double d = std::sqrt(v(0) * v(0) + v(1) * v(1));
     double lat = 0.0;
     if (v(2) != 0.0) {
-        lat = std::atan2(v(2), sqrt(d2));
+        if (d < 1.0e-140 || d > 1.0e+150) {
+            // The squares may have underflowed or overflowed. Use a vector
+            // with the same direction and components of magnitude at most 1.
+            Vector3d u = v;
+            u.normalize();
+            lat = std::atan2(u(2), std::hypot(u(0), u(1)));
+        } else {
+            lat = std::atan2(v(2), d);
+        }
         if (std::fabs(lat) > 0.5 * PI) {
             lat = ::copysign(0.5 * PI, lat);
         }
@@ -54,9 +62,8 @@ Angle LonLat::latitudeOf(Vector3d const & v) {
 }
 
 NormalizedAngle LonLat::longitudeOf(Vector3d const & v) {
-    double d2 = v(0) * v(0) + v(1) * v(1);
     double lon = 0.0;
-    if (d2 != 0.0) {
+    if (v(0) != 0.0 || v(1) != 0.0) {
         lon = std::atan2(v(1), v(0));
         if (lon < 0.0) {
             lon += 2*PI;
-- 
2.43.0


From bb2141fac038c772f6edb9a91020d9a6142ae506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:28 +0000
Subject: [PATCH 09/47] fix: a full ellipse did not contain points with a zero
 coordinate

---
 src/Ellipse.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Ellipse.cc b/src/Ellipse.cc
index 31cfef8..cb8d90e 100644
--- a/src/Ellipse.cc
+++ b/src/Ellipse.cc
@@ -165,6 +165,11 @@ Ellipse::Ellipse(UnitVector3d const & center,
 }
 
 bool Ellipse::contains(UnitVector3d const & v) const {
+    if (isFull()) {
+        // The tangents of a full ellipse's axes may be infinite, in which
+        // case the computation below is not well defined for all v.
+        return true;
+    }
     UnitVector3d const c = getCenter();
     double vdotc = v.dot(c);
     Vector3d u;
-- 
2.43.0


From fea1a1d20c96fac2826d8dfac2d344df3330a912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 10/47] fix: the 3-d bounding box of a circle centered very
 close to a coordinate axis was too small

---
 src/Circle.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Circle.cc b/src/Circle.cc
index 13f3fdf..83cd350 100644
--- a/src/Circle.cc
+++ b/src/Circle.cc
@@ -256,7 +256,10 @@ Box3d Circle::getBoundingBox3d() const {
     double c = cos(_openingAngle);
     for (int i = 0; i < 3; ++i) {
         double ci = _center(i);
-        double di = std::sqrt(1.0 - ci * ci);
+        // Note that √(1 - cᵢ²) is inaccurate when |cᵢ| is close to 1.
+        double cj = _center((i + 1) % 3);
+        double ck = _center((i + 2) % 3);
+        double di = std::sqrt(cj * cj + ck * ck);
         double bmin = 1.0, bmax = -1.0;
         if (2.0 - 2.0 * ci <= _squaredChordLength) {
             bmax = 1.0;
-- 
2.43.0


From b4df3e4099062aec62693b6dc58aeeb4d5dbcb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 11/47] fix: the 3-d bounding box of a polygon with an edge
 very close to a coordinate plane was too small

---
 src/ConvexPolygonImpl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ConvexPolygonImpl.h b/src/ConvexPolygonImpl.h
index ad57d03..fdc5ce7 100644
--- a/src/ConvexPolygonImpl.h
+++ b/src/ConvexPolygonImpl.h
@@ -194,7 +194,10 @@ Box3d boundingBox3d(VertexIterator const begin, VertexIterator const end) {
         UnitVector3d n(j->robustCross(*k));
         for (int i = 0; i < 3; ++i) {
             double ni = n(i);
-            double d = std::fabs(1.0 - ni * ni);
+            // Note that 1 - nᵢ² is inaccurate when |nᵢ| is close to 1.
+            double nj = n((i + 1) % 3);
+            double nk = n((i + 2) % 3);
+            double d = nj * nj + nk * nk;
             if (d > 0.0) {
                 Vector3d e(i == 0 ? -d : n.x() * ni,
                            i == 1 ? -d : n.y() * ni,
-- 
2.43.0


From 654dc7b695350097d5906db3a67227f436f5f70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:53 +0000
Subject: [PATCH 12/47] fix: without optimized paths the operand sizes of a
 compound region were encoded as doubles

---
 include/lsst/sphgeom/codec.h | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/lsst/sphgeom/codec.h b/include/lsst/sphgeom/codec.h
index dea0c62..e0c2e4e 100644
--- a/include/lsst/sphgeom/codec.h
+++ b/include/lsst/sphgeom/codec.h
@@ -98,16 +98,14 @@ inline void encodeU64(std::uint64_t item, std::vector<std::uint8_t> & buffer) {
     auto ptr = reinterpret_cast<std::uint8_t const *>(&item);
     buffer.insert(buffer.end(), ptr, ptr + 8);
 #else
-    union { std::uint64_t u; double d; };
-    d = item;
-    buffer.push_back(static_cast<std::uint8_t>(u));
-    buffer.push_back(static_cast<std::uint8_t>(u >> 8));
-    buffer.push_back(static_cast<std::uint8_t>(u >> 16));
-    buffer.push_back(static_cast<std::uint8_t>(u >> 24));
-    buffer.push_back(static_cast<std::uint8_t>(u >> 32));
-    buffer.push_back(static_cast<std::uint8_t>(u >> 40));
-    buffer.push_back(static_cast<std::uint8_t>(u >> 48));
-    buffer.push_back(static_cast<std::uint8_t>(u >> 56));
+    buffer.push_back(static_cast<std::uint8_t>(item));
+    buffer.push_back(static_cast<std::uint8_t>(item >> 8));
+    buffer.push_back(static_cast<std::uint8_t>(item >> 16));
+    buffer.push_back(static_cast<std::uint8_t>(item >> 24));
+    buffer.push_back(static_cast<std::uint8_t>(item >> 32));
+    buffer.push_back(static_cast<std::uint8_t>(item >> 40));
+    buffer.push_back(static_cast<std::uint8_t>(item >> 48));
+    buffer.push_back(static_cast<std::uint8_t>(item >> 56));
 #endif
 }
 
-- 
2.43.0


From 8472643034d6a351c635477a56caaef3a133631c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:22 +0000
Subject: [PATCH 13/47] fix: decoding a compound region read beyond the end of
 the buffer when an operand size was too large

---
 src/CompoundRegion.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/CompoundRegion.cc b/src/CompoundRegion.cc
index cae1d51..d45e8b1 100644
--- a/src/CompoundRegion.cc
+++ b/src/CompoundRegion.cc
@@ -50,7 +50,7 @@ namespace {
 // A version of decodeU64 from codec.h that checks for buffer overruns and
 // increments the buffer pointer it is given.
 std::uint64_t consumeDecodeU64(std::uint8_t const *&buffer, std::uint8_t const *end) {
-    if (buffer + 8 > end) {
+    if (end - buffer < 8) {
         throw std::runtime_error("Encoded CompoundRegion is truncated.");
     }
     std::uint64_t result = decodeU64(buffer);
@@ -104,7 +104,7 @@ std::vector<std::uint8_t> CompoundRegion::_encode(std::uint8_t tc) const {
 std::array<std::unique_ptr<Region>, 2> CompoundRegion::_decode(
     std::uint8_t tc, std::uint8_t const *buffer, std::size_t nBytes) {
     std::uint8_t const *end = buffer + nBytes;
-    if (nBytes == 0) {
+    if (buffer == nullptr || nBytes == 0) {
         throw std::runtime_error("Encoded CompoundRegion is truncated.");
     }
     if (buffer[0] != tc) {
@@ -113,9 +113,15 @@ std::array<std::unique_ptr<Region>, 2> CompoundRegion::_decode(
     ++buffer;
     std::array<std::unique_ptr<Region>, 2> result;
     std::uint64_t nBytes1 = consumeDecodeU64(buffer, end);
+    if (nBytes1 > static_cast<std::uint64_t>(end - buffer)) {
+        throw std::runtime_error("Encoded CompoundRegion is truncated.");
+    }
     result[0] = Region::decode(buffer, nBytes1);
     buffer += nBytes1;
     std::uint64_t nBytes2 = consumeDecodeU64(buffer, end);
+    if (nBytes2 > static_cast<std::uint64_t>(end - buffer)) {
+        throw std::runtime_error("Encoded CompoundRegion is truncated.");
+    }
     result[1] = Region::decode(buffer, nBytes2);
     buffer += nBytes2;
     if (buffer != end) {
@@ -125,7 +131,7 @@ std::array<std::unique_ptr<Region>, 2> CompoundRegion::_decode(
 }
 
 std::unique_ptr<CompoundRegion> CompoundRegion::decode(std::uint8_t const *buffer, size_t n) {
-    if (n == 0) {
+    if (buffer == nullptr || n == 0) {
         throw std::runtime_error("Encoded CompoundRegion is truncated.");
     }
     switch (buffer[0]) {
-- 
2.43.0


From 668623c361ebbafdbf7e54a2c5892f85da2b79ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:22 +0000
Subject: [PATCH 14/47] fix: decoding a polygon from an empty buffer read its
 first byte

---
 src/ConvexPolygon.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ConvexPolygon.cc b/src/ConvexPolygon.cc
index 598ee8a..133f39f 100644
--- a/src/ConvexPolygon.cc
+++ b/src/ConvexPolygon.cc
@@ -368,8 +368,8 @@ std::vector<std::uint8_t> ConvexPolygon::encode() const {
 std::unique_ptr<ConvexPolygon> ConvexPolygon::decode(std::uint8_t const * buffer,
                                                      size_t n)
 {
-    if (buffer == nullptr || *buffer != TYPE_CODE ||
-        n < 1 + 24*3 || (n - 1) % 24 != 0) {
+    if (buffer == nullptr || n < 1 + 24*3 || (n - 1) % 24 != 0 ||
+        *buffer != TYPE_CODE) {
         throw std::runtime_error("Byte-string is not an encoded ConvexPolygon");
     }
     std::unique_ptr<ConvexPolygon> poly(new ConvexPolygon);
-- 
2.43.0


From 3486925f0e0a1f8522f34a52f66f5efca869114f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:49 +0000
Subject: [PATCH 15/47] fix: the hull of 3 coplanar points that surround the
 origin was not rejected

---
 src/ConvexPolygon.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ConvexPolygon.cc b/src/ConvexPolygon.cc
index 133f39f..ef31c7d 100644
--- a/src/ConvexPolygon.cc
+++ b/src/ConvexPolygon.cc
@@ -124,16 +124,16 @@ std::vector<UnitVector3d>::iterator findTriangle(
         // discard v and continue.
         int v0v = orientation(n, v0, *v);
         int vv1 = orientation(n, *v, v1);
-        if (v0v == vv1) {
+        int v0v1 = orientation(n, v0, v1);
+        if (v0v == v0v1 && vv1 == v0v1) {
             continue;
         }
-        int v0v1 = orientation(n, v0, v1);
         // If v1 is in the interior of (v0, v), replace v1 with v and continue.
-        if (v0v1 == -vv1) {
+        if (v0v == v0v1) {
             v1 = *v; continue;
         }
         // If v0 is in the interior of (v, v1), replace v0 with v and continue.
-        if (-v0v == v0v1) {
+        if (vv1 == v0v1) {
             v0 = *v; continue;
         }
         // Otherwise, (v0, v1) ∪ (v1, v) and (v, v0) ∪ (v0, v1) both span
-- 
2.43.0


From a77e0d74bbe437f105ad21f03619dfdd92cf963a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:49 +0000
Subject: [PATCH 16/47] fix: the convex hull kept input points in the interior
 of its edges as vertices

---
 src/ConvexPolygon.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ConvexPolygon.cc b/src/ConvexPolygon.cc
index ef31c7d..4665bc0 100644
--- a/src/ConvexPolygon.cc
+++ b/src/ConvexPolygon.cc
@@ -180,13 +180,19 @@ void computeHull(std::vector<UnitVector3d> & points) {
         VertexIterator fromCCW = hullEnd;
         // Compute the orientation of the first point in the current hull
         // with respect to v.
-        bool const firstCCW = orientation(*v, *i, *j) > 0;
+        int ccw = orientation(*v, *i, *j);
+        bool const firstCCW = ccw > 0;
         bool prevCCW = firstCCW;
+        // v is outside the current hull iff some hull vertex has clockwise
+        // orientation with respect to v or none is counter-clockwise.
+        bool haveCW = ccw < 0;
         // Compute the orientation of points in the current hull with respect
         // to v, starting with the second point. Update toCCW / fromCCW when
         // we transition to / from counter-clockwise orientation.
         for (i = j, ++j; j != hullEnd; i = j, ++j) {
-            if (orientation(*v, *i, *j) > 0) {
+            ccw = orientation(*v, *i, *j);
+            haveCW = haveCW || ccw < 0;
+            if (ccw > 0) {
                 if (!prevCCW) {
                     toCCW = i;
                     prevCCW = true;
@@ -217,6 +223,10 @@ void computeHull(std::vector<UnitVector3d> & points) {
             // so that -v is inside the current hull.
             throw std::invalid_argument(FOUND_ANTIPODAL_POINT);
         }
+        // If v is on the boundary of the current hull, it can be ignored.
+        if (!haveCW) {
+            continue;
+        }
         // Insert v into the current hull at fromCCW, and remove
         // all vertices between fromCCW and toCCW.
         if (toCCW < fromCCW) {
-- 
2.43.0


From 98a1065f78b7a032eb5e3f06c322e411008b4dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:56 +0000
Subject: [PATCH 17/47] fix: the centroid of a very thin polygon was dominated
 by rounding errors or raised an error

---
 src/ConvexPolygonImpl.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ConvexPolygonImpl.h b/src/ConvexPolygonImpl.h
index fdc5ce7..d94c54b 100644
--- a/src/ConvexPolygonImpl.h
+++ b/src/ConvexPolygonImpl.h
@@ -60,6 +60,8 @@ UnitVector3d centroid(VertexIterator const begin, VertexIterator const end) {
     // John E. Brock
     // 1974, Naval Postgraduate School, Monterey Calif.
     Vector3d cm;
+    Vector3d sum;
+    double perimeter = 0.0;
     VertexIterator i = std::prev(end);
     VertexIterator j = begin;
     for (; j != end; i = j, ++j) {
@@ -68,6 +70,13 @@ UnitVector3d centroid(VertexIterator const begin, VertexIterator const end) {
         double c = (*i).dot(*j);
         double a = (s == 0.0 && c == 0.0) ? 0.0 : std::atan2(s, c);
         cm += v * a;
+        sum += *j;
+        perimeter += a;
+    }
+    // If the polygon is so thin that rounding errors dominate the above,
+    // approximate its center of mass with the center of its vertices.
+    if (cm.getNorm() <= 1.0e-14 * perimeter) {
+        return UnitVector3d(sum);
     }
     return UnitVector3d(cm);
 }
-- 
2.43.0


From fc9f64b850875c4bd2c576ac10ff7c1938bafa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:56 +0000
Subject: [PATCH 18/47] fix: the hull of a single point formed a reference
 beyond the end of the point array

---
 src/ConvexPolygon.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ConvexPolygon.cc b/src/ConvexPolygon.cc
index 4665bc0..2fbff21 100644
--- a/src/ConvexPolygon.cc
+++ b/src/ConvexPolygon.cc
@@ -67,7 +67,6 @@ std::vector<UnitVector3d>::iterator findPlane(
     }
     // Starting with the first point v0, find a distinct second point v1.
     UnitVector3d & v0 = points[0];
-    UnitVector3d & v1 = points[1];
     std::vector<UnitVector3d>::iterator const end = points.end();
     std::vector<UnitVector3d>::iterator v = points.begin() + 1;
     for (; v != end; ++v) {
@@ -81,7 +80,7 @@ std::vector<UnitVector3d>::iterator findPlane(
     if (v == end) {
         throw std::invalid_argument(NOT_ENOUGH_POINTS);
     }
-    v1 = *v;
+    points[1] = *v;
     return ++v;
 }
 
-- 
2.43.0


From ee2e459f95ded298d1e25c0f3fd8b1e994749409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:57 +0000
Subject: [PATCH 19/47] fix: keep the bounding circle of an ellipse alive while
 finding its pixels

PixelFinder stores a pointer to the region it is given, which was left
pointing to a destroyed temporary.
---
 src/PixelFinder.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PixelFinder.h b/src/PixelFinder.h
index 718d184..5ad7644 100644
--- a/src/PixelFinder.h
+++ b/src/PixelFinder.h
@@ -161,8 +161,10 @@ RangeSet findPixels(Region const & r, size_t maxRanges, int level) {
         Finder<Circle, InteriorOnly> find(s, *circle, level, maxRanges);
         find();
     } else if (auto ellipse = dynamic_cast<Ellipse const *>(&r)) {
+        // The finder refers to the region it is given while it runs.
+        Circle const boundingCircle = ellipse->getBoundingCircle();
         Finder<Circle, InteriorOnly> find(
-            s, ellipse->getBoundingCircle(), level, maxRanges);
+            s, boundingCircle, level, maxRanges);
         find();
     } else if (auto box = dynamic_cast<Box const *>(&r)) {
         Finder<Box, InteriorOnly> find(s, *box, level, maxRanges);
-- 
2.43.0


From 8b165c2543881f5e9da77ad3223c5f6598ba8feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:04 +0000
Subject: [PATCH 20/47] fix: visit all root pixels when the range limit reduces
 the level below zero

Root pixels remaining when more than one level-0 reduction was needed were
skipped, so the envelope did not cover the region.
---
 src/PixelFinder.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/PixelFinder.h b/src/PixelFinder.h
index 5ad7644..0f458d9 100644
--- a/src/PixelFinder.h
+++ b/src/PixelFinder.h
@@ -90,10 +90,11 @@ public:
                uint64_t index,
                int level)
     {
-        if (level > _level) {
+        if (level > _level && level > 0) {
             // Nothing to do - the subdivision level has been reduced
             // or a pixel that completely contains the search region
-            // has been found.
+            // has been found. Note that root pixels have no parent that
+            // could have been found before, so they are never skipped.
             return;
         }
         // Determine the relationship between the pixel and the search region.
@@ -107,7 +108,7 @@ public:
             // the search region.
             _insert(index, level);
             return;
-        } else if (level == _level) {
+        } else if (level >= _level) {
             // The tree traversal has reached a leaf.
             if (!InteriorOnly) {
                 _insert(index, level);
-- 
2.43.0


From 50f5709ed38861bd510a5485ede6848497702b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:11 +0000
Subject: [PATCH 21/47] fix: never return indexes outside of the universe from
 envelope()

Merging ranges to satisfy the range limit could produce a block that
extends past the first or last root pixel.
---
 src/HtmPixelization.cc  | 4 +++-
 src/Mq3cPixelization.cc | 4 +++-
 src/Q3cPixelization.cc  | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/HtmPixelization.cc b/src/HtmPixelization.cc
index 5d97abe..fc2f899 100644
--- a/src/HtmPixelization.cc
+++ b/src/HtmPixelization.cc
@@ -224,7 +224,9 @@ std::uint64_t HtmPixelization::index(UnitVector3d const & v) const {
 }
 
 RangeSet HtmPixelization::_envelope(Region const & r, size_t maxRanges) const {
-    return detail::findPixels<HtmPixelFinder, false>(r, maxRanges, _level);
+    // Limiting the number of ranges can add indexes that are not valid.
+    return detail::findPixels<HtmPixelFinder, false>(r, maxRanges, _level)
+            .intersection(universe());
 }
 
 RangeSet HtmPixelization::_interior(Region const & r, size_t maxRanges) const {
diff --git a/src/Mq3cPixelization.cc b/src/Mq3cPixelization.cc
index 269c990..0433675 100644
--- a/src/Mq3cPixelization.cc
+++ b/src/Mq3cPixelization.cc
@@ -343,7 +343,9 @@ std::unique_ptr<Region> Mq3cPixelization::pixel(std::uint64_t i) const {
 #endif
 
 RangeSet Mq3cPixelization::_envelope(Region const & r, size_t maxRanges) const {
-    return detail::findPixels<Mq3cPixelFinder, false>(r, maxRanges, _level);
+    // Limiting the number of ranges can add indexes that are not valid.
+    return detail::findPixels<Mq3cPixelFinder, false>(r, maxRanges, _level)
+            .intersection(universe());
 }
 
 RangeSet Mq3cPixelization::_interior(Region const & r, size_t maxRanges) const {
diff --git a/src/Q3cPixelization.cc b/src/Q3cPixelization.cc
index 686b824..7ee0fda 100644
--- a/src/Q3cPixelization.cc
+++ b/src/Q3cPixelization.cc
@@ -341,7 +341,9 @@ std::unique_ptr<Region> Q3cPixelization::pixel(std::uint64_t i) const {
 #endif
 
 RangeSet Q3cPixelization::_envelope(Region const & r, size_t maxRanges) const {
-    return detail::findPixels<Q3cPixelFinder, false>(r, maxRanges, _level);
+    // Limiting the number of ranges can add indexes that are not valid.
+    return detail::findPixels<Q3cPixelFinder, false>(r, maxRanges, _level)
+            .intersection(universe());
 }
 
 RangeSet Q3cPixelization::_interior(Region const & r, size_t maxRanges) const {
-- 
2.43.0


From 2ed539e18b4ea32a13fc80f7ae02ba41c08fc6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:18 +0000
Subject: [PATCH 22/47] fix: find the interior pixels of an ellipse with a
 circle inside of it

The interior of the bounding circle includes pixels that are not inside
the ellipse.
---
 src/PixelFinder.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/PixelFinder.h b/src/PixelFinder.h
index 0f458d9..2074ffd 100644
--- a/src/PixelFinder.h
+++ b/src/PixelFinder.h
@@ -35,8 +35,10 @@
 
 #include "lsst/sphgeom/RangeSet.h"
 #include "lsst/sphgeom/CompoundRegion.h"
+#include "lsst/sphgeom/constants.h"
 #include "ConvexPolygonImpl.h"
 
+#include <algorithm>
 #include <typeinfo>
 
 namespace lsst {
@@ -162,10 +164,16 @@ RangeSet findPixels(Region const & r, size_t maxRanges, int level) {
         Finder<Circle, InteriorOnly> find(s, *circle, level, maxRanges);
         find();
     } else if (auto ellipse = dynamic_cast<Ellipse const *>(&r)) {
-        // The finder refers to the region it is given while it runs.
-        Circle const boundingCircle = ellipse->getBoundingCircle();
-        Finder<Circle, InteriorOnly> find(
-            s, boundingCircle, level, maxRanges);
+        // Approximate the ellipse with its bounding circle when looking for
+        // intersecting pixels, and with a circle inside the ellipse when
+        // looking for interior pixels. The finder refers to the region it is
+        // given while it runs.
+        Circle const circle =
+            InteriorOnly ? Circle(ellipse->getCenter(),
+                                  std::min(ellipse->getAlpha(), ellipse->getBeta()) -
+                                          2.0 * Angle(MAX_ASIN_ERROR))
+                         : ellipse->getBoundingCircle();
+        Finder<Circle, InteriorOnly> find(s, circle, level, maxRanges);
         find();
     } else if (auto box = dynamic_cast<Box const *>(&r)) {
         Finder<Box, InteriorOnly> find(s, *box, level, maxRanges);
-- 
2.43.0


From 03e6c31ec55e14527d63b6d3b05f76e8ee9a9e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:38 +0000
Subject: [PATCH 23/47] fix: respect the range limit when finding the pixels of
 compound regions

The union or intersection of two range sets within the limit can have more
ranges than either.
---
 src/PixelFinder.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/PixelFinder.h b/src/PixelFinder.h
index 2074ffd..ef88a7b 100644
--- a/src/PixelFinder.h
+++ b/src/PixelFinder.h
@@ -152,6 +152,27 @@ private:
 };
 
 
+// `limitRanges` simplifies the pixel indexes found for a compound region until
+// there are at most `maxRanges` ranges (0 means that there is no limit), in the
+// same way as PixelFinder: outwards when looking for intersecting pixels and
+// inwards when looking for interior pixels.
+template <bool InteriorOnly>
+void limitRanges(RangeSet & ranges, size_t maxRanges) {
+    if (maxRanges == 0) {
+        return;
+    }
+    for (std::uint32_t shift = 2; ranges.size() > maxRanges; shift += 2) {
+        if (InteriorOnly) {
+            ranges.complement();
+        }
+        ranges.simplify(shift);
+        if (InteriorOnly) {
+            ranges.complement();
+        }
+    }
+}
+
+
 // `findPixels` implements pixel-finding for an arbitrary Region, given a
 // PixelFinder subclass for a specific pixelization.
 template <
@@ -188,12 +209,14 @@ RangeSet findPixels(Region const & r, size_t maxRanges, int level) {
         auto rs1 = findPixels<Finder, InteriorOnly>(region1, maxRanges, level);
         auto rs2 = findPixels<Finder, InteriorOnly>(region2, maxRanges, level);
         s = rs1.join(rs2);
+        limitRanges<InteriorOnly>(s, maxRanges);
     } else if (auto intersection_region = dynamic_cast<IntersectionRegion const *>(&r)) {
         Region const &region1 = intersection_region->getOperand(0);
         Region const &region2 = intersection_region->getOperand(1);
         auto rs1 = findPixels<Finder, InteriorOnly>(region1, maxRanges, level);
         auto rs2 = findPixels<Finder, InteriorOnly>(region2, maxRanges, level);
         s = rs1.intersection(rs2);
+        limitRanges<InteriorOnly>(s, maxRanges);
     } else {
         throw std::runtime_error(std::string("PixelFinder: Unsupported type ") + typeid(r).name());
     }
-- 
2.43.0


From 9c3c7a15ddb1a6169800da386b46eec84b8b74ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:35 +0000
Subject: [PATCH 24/47] fix: negative chunk ids are not valid

Ids just below zero were attributed to stripe 0 by integer division.
---
 src/Chunker.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Chunker.cc b/src/Chunker.cc
index 56a7b28..c6f33db 100644
--- a/src/Chunker.cc
+++ b/src/Chunker.cc
@@ -291,7 +291,7 @@ std::vector<std::int32_t> Chunker::getAllSubChunks(std::int32_t chunkId) const {
 
 bool Chunker::valid(std::int32_t chunkId) const {
     std::int32_t const s = getStripe(chunkId);
-    return s >= 0 and s < _numStripes and
+    return chunkId >= 0 and s >= 0 and s < _numStripes and
            getChunk(chunkId, s) < _stripes.at(s).numChunksPerStripe;
 }
 
-- 
2.43.0


From 850f0b85c84dd7016a1eace1ed134ec756b27fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:40 +0000
Subject: [PATCH 25/47] fix: no chunk or sub-chunk intersects an empty region

The NaN bounds of an empty bounding box were converted to integers, which is
undefined, and used as array indexes.
---
 src/Chunker.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Chunker.cc b/src/Chunker.cc
index c6f33db..2043f56 100644
--- a/src/Chunker.cc
+++ b/src/Chunker.cc
@@ -111,6 +111,9 @@ std::vector<std::int32_t> Chunker::getChunksIntersecting(Region const & r) const
     std::vector<std::int32_t> chunkIds;
     // Find the stripes that intersect the bounding box of r.
     Box b = r.getBoundingBox().dilatedBy(Angle(BOX_EPSILON));
+    if (b.isEmpty()) {
+        return chunkIds;
+    }
     double ya = std::floor((b.getLat().getA() + Angle(0.5 * PI)) / _subStripeHeight);
     double yb = std::floor((b.getLat().getB() + Angle(0.5 * PI)) / _subStripeHeight);
     std::int32_t minSS = std::min(static_cast<std::int32_t>(ya), _numSubStripes - 1);
@@ -158,6 +161,9 @@ std::vector<SubChunks> Chunker::getSubChunksIntersecting(
     std::vector<SubChunks> chunks;
     // Find the stripes that intersect the bounding box of r.
     Box b = r.getBoundingBox().dilatedBy(Angle(BOX_EPSILON));
+    if (b.isEmpty()) {
+        return chunks;
+    }
     double ya = std::floor((b.getLat().getA() + Angle(0.5 * PI)) / _subStripeHeight);
     double yb = std::floor((b.getLat().getB() + Angle(0.5 * PI)) / _subStripeHeight);
     std::int32_t minSS = std::min(static_cast<std::int32_t>(ya), _numSubStripes - 1);
-- 
2.43.0


From f935cd954722b8bd58e8fd7e6a08539df61d74d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:18 +0000
Subject: [PATCH 26/47] fix: reject chunker configurations whose counts or ids
 overflow

The product of the two constructor arguments overflowed before it was checked
(Chunker(65536, 65536) was accepted as having no sub-stripes), and chunk and
sub-chunk ids overflowed for some of the accepted configurations.
---
 src/Chunker.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/Chunker.cc b/src/Chunker.cc
index 2043f56..2ad4d52 100644
--- a/src/Chunker.cc
+++ b/src/Chunker.cc
@@ -32,6 +32,9 @@
 
 #include "lsst/sphgeom/Chunker.h"
 
+#include <limits>
+#include <stdexcept>
+
 namespace lsst {
 namespace sphgeom {
 
@@ -65,17 +68,22 @@ Chunker::Chunker(std::int32_t numStripes,
                  std::int32_t numSubStripesPerStripe) :
     _numStripes(numStripes),
     _numSubStripesPerStripe(numSubStripesPerStripe),
-    _numSubStripes(numStripes * numSubStripesPerStripe),
-    _maxSubChunksPerSubStripeChunk(0),
-    _subStripeHeight(Angle(PI) / _numSubStripes)
+    _numSubStripes(0),
+    _maxSubChunksPerSubStripeChunk(0)
 {
     if (numStripes < 1 || numSubStripesPerStripe < 1) {
         throw std::runtime_error("The number of stripes and sub-stripes "
                                  "per stripe must be positive");
     }
-    if (numStripes * numSubStripesPerStripe > 180*3600) {
+    if (static_cast<std::int64_t>(numStripes) * numSubStripesPerStripe > 180*3600) {
         throw std::runtime_error("Sub-stripes are too small");
     }
+    std::int64_t const maxId = std::numeric_limits<std::int32_t>::max();
+    if (2 * static_cast<std::int64_t>(numStripes) * numStripes > maxId) {
+        throw std::runtime_error("Chunk IDs do not fit in 32 bits");
+    }
+    _numSubStripes = numStripes * numSubStripesPerStripe;
+    _subStripeHeight = Angle(PI) / _numSubStripes;
     Angle const stripeHeight = Angle(PI) / _numStripes;
     _stripes.reserve(_numStripes);
     _subStripes.reserve(_numSubStripes);
@@ -95,6 +103,9 @@ Chunker::Chunker(std::int32_t numStripes,
                                 (ss + 1) * _subStripeHeight - Angle(0.5 * PI));
             SubStripe subStripe;
             std::int32_t const nsc = computeNumSegments(ssLat, _subStripeHeight) / nc;
+            if (static_cast<std::int64_t>(numSubStripesPerStripe) * nsc > maxId) {
+                throw std::runtime_error("Sub-chunk IDs do not fit in 32 bits");
+            }
             stripe.numSubChunksPerChunk += nsc;
             subStripe.numSubChunksPerChunk = nsc;
             if (nsc > _maxSubChunksPerSubStripeChunk) {
-- 
2.43.0


From e47ecc423a396bf0bd9257bf16cdcd9bfcbadcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:24 +0000
Subject: [PATCH 27/47] fix: reject stripe, chunk and sub-chunk numbers that do
 not exist

Bounding boxes were computed from entries beyond the end of the stripe tables.
---
 src/Chunker.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Chunker.cc b/src/Chunker.cc
index 2ad4d52..74f9a41 100644
--- a/src/Chunker.cc
+++ b/src/Chunker.cc
@@ -291,6 +291,9 @@ std::vector<std::int32_t> Chunker::getAllChunks() const {
 }
 
 std::vector<std::int32_t> Chunker::getAllSubChunks(std::int32_t chunkId) const {
+    if (!valid(chunkId)) {
+        throw std::out_of_range("Invalid chunk ID");
+    }
     std::vector<std::int32_t> subChunkIds;
     std::int32_t s = getStripe(chunkId);
     subChunkIds.reserve(_stripes.at(s).numSubChunksPerChunk);
@@ -313,6 +316,10 @@ bool Chunker::valid(std::int32_t chunkId) const {
 }
 
 Box Chunker::getChunkBoundingBox(std::int32_t stripe, std::int32_t chunk) const {
+    if (stripe < 0 || stripe >= _numStripes || chunk < 0 ||
+        chunk >= _stripes[stripe].numChunksPerStripe) {
+        throw std::out_of_range("Invalid stripe or chunk number");
+    }
     Angle chunkWidth = _stripes[stripe].chunkWidth;
     NormalizedAngleInterval lon(chunkWidth * chunk,
                                 chunkWidth * (chunk + 1));
@@ -324,6 +331,11 @@ Box Chunker::getChunkBoundingBox(std::int32_t stripe, std::int32_t chunk) const
 }
 
 Box Chunker::getSubChunkBoundingBox(std::int32_t subStripe, std::int32_t subChunk) const {
+    if (subStripe < 0 || subStripe >= _numSubStripes || subChunk < 0 ||
+        subChunk >= _subStripes[subStripe].numSubChunksPerChunk *
+                    _stripes[subStripe / _numSubStripesPerStripe].numChunksPerStripe) {
+        throw std::out_of_range("Invalid sub-stripe or sub-chunk number");
+    }
     Angle subChunkWidth = _subStripes[subStripe].subChunkWidth;
     NormalizedAngleInterval lon(subChunkWidth * subChunk,
                                 subChunkWidth * (subChunk + 1));
-- 
2.43.0


From 66c33e7073326a25b24361b65e048b5ce1a03edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:28 +0000
Subject: [PATCH 28/47] fix: expanding a circle by one that it nearly contains
 lost points of the larger circle

---
 src/Circle.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Circle.cc b/src/Circle.cc
index 83cd350..816d51d 100644
--- a/src/Circle.cc
+++ b/src/Circle.cc
@@ -169,8 +169,11 @@ Circle & Circle::expandTo(Circle const & x) {
         *this = x;
         return *this;
     }
-    // The circles intersect or are disjoint.
-    Angle o = 0.5 * (cc + _openingAngle + x._openingAngle);
+    // The circles intersect or are disjoint, or one of them nearly contains
+    // the other. In the latter case, the opening angle of the bounding circle
+    // must not be smaller than that of the larger circle.
+    Angle o = std::max(0.5 * (cc + _openingAngle + x._openingAngle),
+                       std::max(_openingAngle, x._openingAngle));
     if (o + 2.0 * Angle(MAX_ASIN_ERROR) >= Angle(PI)) {
         *this = full();
         return *this;
@@ -181,7 +184,7 @@ Circle & Circle::expandTo(Circle const & x) {
     // with normal n that span from _center.rotatedAround(n, -_openingAngle)
     // to x._center.rotatedAround(n, x._openingAngle). The MBC center is the
     // midpoint of this interval.
-    Angle r = o - _openingAngle;
+    Angle r = std::min<Angle>(o - _openingAngle, cc);
     // Rotate _center by angle r around n to obtain the MBC center. This is
     // done using Rodriques' formula, simplified by taking advantage of the
     // orthogonality of _center and n.
-- 
2.43.0


From 81f0d8e91eb1d0d5fa63920b64442b91eea7299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:33 +0000
Subject: [PATCH 29/47] fix: ellipses with a very short semi-axis became empty
 due to rounding

---
 src/Ellipse.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Ellipse.cc b/src/Ellipse.cc
index cb8d90e..78e4d00 100644
--- a/src/Ellipse.cc
+++ b/src/Ellipse.cc
@@ -158,8 +158,14 @@ Ellipse::Ellipse(UnitVector3d const & center,
                   center.x(), center.y(), center.z());
     _a = alpha - Angle(0.5 * PI);
     _b = beta - Angle(0.5 * PI);
-    double d = std::min(1.0, std::max(-1.0, cos(alpha) / cos(beta)));
-    _gamma = Angle(std::acos(d));
+    // Compute γ from cos γ = cos α / cos β. To maintain high accuracy for
+    // small angles, note that cos²β - cos²α = sin(α + β) sin(α - β).
+    double d = std::max(0.0, sin(alpha + beta) * sin(alpha - beta));
+    _gamma = Angle(std::atan2(std::sqrt(d), std::fabs(cos(alpha))));
+    if (isEmpty()) {
+        // γ is greater than α due to rounding.
+        _gamma = Angle(0.5 * PI) + _a;
+    }
     _tana = std::fabs(tan(_a));
     _tanb = std::fabs(tan(_b));
 }
-- 
2.43.0


From 1a7300152a3ed8a758e565e79094e977fa9715ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:37 +0000
Subject: [PATCH 30/47] fix: small ellipses given by their foci had an
 inaccurate semi-minor axis

---
 src/Ellipse.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Ellipse.cc b/src/Ellipse.cc
index 78e4d00..cbb37ac 100644
--- a/src/Ellipse.cc
+++ b/src/Ellipse.cc
@@ -93,9 +93,10 @@ Ellipse::Ellipse(UnitVector3d const & f1, UnitVector3d const & f2, Angle alpha)
     _S = Matrix3d(b0.x(), b0.y(), b0.z(),
                   b1.x(), b1.y(), b1.z(),
                   b2.x(), b2.y(), b2.z());
-    // Compute _b.
-    double r = std::min(1.0, std::max(-1.0, cos(alpha) / cos(_gamma)));
-    _b = Angle(std::acos(r) - 0.5 * PI);
+    // Compute _b from cos β = cos α / cos γ. To maintain high accuracy for
+    // small angles, note that cos²γ - cos²α = sin(α + γ) sin(α - γ).
+    double d = std::max(0.0, sin(alpha + _gamma) * sin(alpha - _gamma));
+    _b = Angle(std::atan2(std::sqrt(d), cos(alpha)) - 0.5 * PI);
     if (_a.asRadians() <= 0.0 && _b > _a) {
         _b = _a;
     } else if (_a.asRadians() > 0.0 && _b < _a) {
-- 
2.43.0


From 4bd4cb438c4a63525e9a6785979990402ad9e153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:30 +0000
Subject: [PATCH 31/47] fix: circles expanded to a point so that they cover
 almost the whole sphere could miss the point

---
 src/Circle.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Circle.cc b/src/Circle.cc
index 816d51d..a2d94e0 100644
--- a/src/Circle.cc
+++ b/src/Circle.cc
@@ -141,6 +141,11 @@ Circle & Circle::expandTo(UnitVector3d const & x) {
         NormalizedAngle cx(_center, x);
         Angle o = 0.5 * (cx + _openingAngle);
         Angle r = 0.5 * (cx - _openingAngle);
+        if (o + 4.0 * Angle(MAX_ASIN_ERROR) >= Angle(PI)) {
+            // Squared chord lengths close to 4 are not precise enough.
+            *this = full();
+            return *this;
+        }
         // Rotate _center by angle r around n to obtain the MBC center. This is
         // done using Rodriques' formula, simplified by taking advantage of the
         // orthogonality of _center and n.
@@ -174,7 +179,7 @@ Circle & Circle::expandTo(Circle const & x) {
     // must not be smaller than that of the larger circle.
     Angle o = std::max(0.5 * (cc + _openingAngle + x._openingAngle),
                        std::max(_openingAngle, x._openingAngle));
-    if (o + 2.0 * Angle(MAX_ASIN_ERROR) >= Angle(PI)) {
+    if (o + 4.0 * Angle(MAX_ASIN_ERROR) >= Angle(PI)) {
         *this = full();
         return *this;
     }
-- 
2.43.0


From 666e363d6eb6aca63897dab6d9ea7967385afef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:18 +0000
Subject: [PATCH 32/47] fix: RangeSet.isValid returned the cardinality of the
 set in Python

---
 python/lsst/sphgeom/_rangeSet.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/sphgeom/_rangeSet.cc b/python/lsst/sphgeom/_rangeSet.cc
index c6559ba..e09fccb 100644
--- a/python/lsst/sphgeom/_rangeSet.cc
+++ b/python/lsst/sphgeom/_rangeSet.cc
@@ -206,7 +206,7 @@ void defineClass(py::class_<RangeSet, std::shared_ptr<RangeSet>> &cls) {
     cls.def("cardinality", &RangeSet::cardinality);
     // max_size() and swap() are omitted. The former is a C++ container
     // requirement, and the latter doesn't seem relevant to Python.
-    cls.def("isValid", &RangeSet::cardinality);
+    cls.def("isValid", &RangeSet::isValid);
     cls.def("ranges", &ranges);
 
     cls.def("__str__",
-- 
2.43.0


From 4823be7da131cad13412d0257457f9ff7607649e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:18 +0000
Subject: [PATCH 33/47] fix: Q3cPixelization.neighborhood could not return its
 result to Python

---
 python/lsst/sphgeom/_q3cPixelization.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/lsst/sphgeom/_q3cPixelization.cc b/python/lsst/sphgeom/_q3cPixelization.cc
index 8c9ec8f..79be402 100644
--- a/python/lsst/sphgeom/_q3cPixelization.cc
+++ b/python/lsst/sphgeom/_q3cPixelization.cc
@@ -27,6 +27,7 @@
  * along with this program.  If not, see <http://www.gnu.org/licenses/>.
  */
 #include "pybind11/pybind11.h"
+#include "pybind11/stl.h"
 
 #include "lsst/sphgeom/python.h"
 
-- 
2.43.0


From 0efe04992f7e1bbd17d126c883c4154a43a62f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:18 +0000
Subject: [PATCH 34/47] fix: comparing a pixelization with an object of another
 type raised a TypeError

---
 python/lsst/sphgeom/_htmPixelization.cc  | 6 ++++--
 python/lsst/sphgeom/_mq3cPixelization.cc | 6 ++++--
 python/lsst/sphgeom/_q3cPixelization.cc  | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/python/lsst/sphgeom/_htmPixelization.cc b/python/lsst/sphgeom/_htmPixelization.cc
index 7b89487..306b18e 100644
--- a/python/lsst/sphgeom/_htmPixelization.cc
+++ b/python/lsst/sphgeom/_htmPixelization.cc
@@ -54,11 +54,13 @@ void defineClass(py::class_<HtmPixelization, Pixelization> &cls) {
     cls.def("__eq__",
             [](HtmPixelization const &self, HtmPixelization const &other) {
                 return self.getLevel() == other.getLevel();
-            });
+            },
+            py::is_operator());
     cls.def("__ne__",
             [](HtmPixelization const &self, HtmPixelization const &other) {
                 return self.getLevel() != other.getLevel();
-            });
+            },
+            py::is_operator());
     cls.def("__repr__", [](HtmPixelization const &self) {
         return py::str("HtmPixelization({!s})").format(self.getLevel());
     });
diff --git a/python/lsst/sphgeom/_mq3cPixelization.cc b/python/lsst/sphgeom/_mq3cPixelization.cc
index c2f8509..20194ee 100644
--- a/python/lsst/sphgeom/_mq3cPixelization.cc
+++ b/python/lsst/sphgeom/_mq3cPixelization.cc
@@ -55,11 +55,13 @@ void defineClass(py::class_<Mq3cPixelization, Pixelization> &cls) {
     cls.def("__eq__",
             [](Mq3cPixelization const &self, Mq3cPixelization const &other) {
                 return self.getLevel() == other.getLevel();
-            });
+            },
+            py::is_operator());
     cls.def("__ne__",
             [](Mq3cPixelization const &self, Mq3cPixelization const &other) {
                 return self.getLevel() != other.getLevel();
-            });
+            },
+            py::is_operator());
     cls.def("__repr__", [](Mq3cPixelization const &self) {
         return py::str("Mq3cPixelization({!s})").format(self.getLevel());
     });
diff --git a/python/lsst/sphgeom/_q3cPixelization.cc b/python/lsst/sphgeom/_q3cPixelization.cc
index 79be402..12e68a5 100644
--- a/python/lsst/sphgeom/_q3cPixelization.cc
+++ b/python/lsst/sphgeom/_q3cPixelization.cc
@@ -53,11 +53,13 @@ void defineClass(py::class_<Q3cPixelization, Pixelization> &cls) {
     cls.def("__eq__",
             [](Q3cPixelization const &self, Q3cPixelization const &other) {
                 return self.getLevel() == other.getLevel();
-            });
+            },
+            py::is_operator());
     cls.def("__ne__",
             [](Q3cPixelization const &self, Q3cPixelization const &other) {
                 return self.getLevel() != other.getLevel();
-            });
+            },
+            py::is_operator());
     cls.def("__repr__", [](Q3cPixelization const &self) {
         return py::str("Q3cPixelization({!s})").format(self.getLevel());
     });
-- 
2.43.0


From 31864eb65ac0d9cc7bd0c510d99d5ab7bf955094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:18 +0000
Subject: [PATCH 35/47] fix: UnitVector3d.x with an argument computed a dot
 product in Python

---
 python/lsst/sphgeom/_unitVector3d.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/python/lsst/sphgeom/_unitVector3d.cc b/python/lsst/sphgeom/_unitVector3d.cc
index 62b949a..a3ce574 100644
--- a/python/lsst/sphgeom/_unitVector3d.cc
+++ b/python/lsst/sphgeom/_unitVector3d.cc
@@ -90,7 +90,6 @@ void defineClass(py::class_<UnitVector3d, std::shared_ptr<UnitVector3d>> &cls) {
     cls.def("x", &UnitVector3d::x);
     cls.def("y", &UnitVector3d::y);
     cls.def("z", &UnitVector3d::z);
-    cls.def("x", &UnitVector3d::dot);
     cls.def("dot", &UnitVector3d::dot);
     cls.def("cross", &UnitVector3d::cross);
     cls.def("robustCross", &UnitVector3d::robustCross);
-- 
2.43.0


From 02078d752fa472a551e56a112620e62381d95617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 36/47] fix: Mq3cPixelization.neighborhood could not return its
 result to Python

---
 python/lsst/sphgeom/_mq3cPixelization.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/lsst/sphgeom/_mq3cPixelization.cc b/python/lsst/sphgeom/_mq3cPixelization.cc
index 20194ee..686beb6 100644
--- a/python/lsst/sphgeom/_mq3cPixelization.cc
+++ b/python/lsst/sphgeom/_mq3cPixelization.cc
@@ -27,6 +27,7 @@
  * along with this program.  If not, see <http://www.gnu.org/licenses/>.
  */
 #include "pybind11/pybind11.h"
+#include "pybind11/stl.h"
 
 #include "lsst/sphgeom/python.h"
 
-- 
2.43.0


From 600236f8c80e35174e9dbc3ce9dd6e6ffcdba8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 37/47] fix: comparing a HealpixPixelization with an object of
 another type returned None

---
 python/lsst/sphgeom/_healpixPixelization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/lsst/sphgeom/_healpixPixelization.py b/python/lsst/sphgeom/_healpixPixelization.py
index abb0880..16577a1 100644
--- a/python/lsst/sphgeom/_healpixPixelization.py
+++ b/python/lsst/sphgeom/_healpixPixelization.py
@@ -171,6 +171,7 @@ class HealpixPixelization(PixelizationABC):
     def __eq__(self, other):
         if isinstance(other, HealpixPixelization):
             return self._level == other._level
+        return NotImplemented
 
     def __repr__(self):
         return f"HealpixPixelization({self._level})"
-- 
2.43.0


From 15fcbe7a3aaee8321219909cbea66d230ecf4765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:12 +0000
Subject: [PATCH 38/47] fix: objects of unsuitable types counted as members of
 every interval, region and range set in Python

---
 include/lsst/sphgeom/python/interval.h | 6 ++----
 python/lsst/sphgeom/_box.cc            | 9 +++------
 python/lsst/sphgeom/_box3d.cc          | 6 ++----
 python/lsst/sphgeom/_circle.cc         | 6 ++----
 python/lsst/sphgeom/_rangeSet.cc       | 6 +++---
 python/lsst/sphgeom/_region.cc         | 3 +--
 6 files changed, 13 insertions(+), 23 deletions(-)

diff --git a/include/lsst/sphgeom/python/interval.h b/include/lsst/sphgeom/python/interval.h
index ffd0e6b..54e1856 100644
--- a/include/lsst/sphgeom/python/interval.h
+++ b/include/lsst/sphgeom/python/interval.h
@@ -69,13 +69,11 @@ void defineInterval(PyClass& cls) {
     cls.def("getSize", [](Class const& self) { return self.getSize(); });
 
     cls.def("__contains__", [](Class const& self,
-                               Scalar other) { return self.contains(other); },
-            py::is_operator());
+                               Scalar other) { return self.contains(other); });
     cls.def("__contains__",
             [](Class const& self, Class const& other) {
                 return self.contains(other);
-            },
-            py::is_operator());
+            });
 
     cls.def("contains", [](Class const& self, Scalar other) {
         return self.contains(other);
diff --git a/python/lsst/sphgeom/_box.cc b/python/lsst/sphgeom/_box.cc
index d3d7476..06e5d91 100644
--- a/python/lsst/sphgeom/_box.cc
+++ b/python/lsst/sphgeom/_box.cc
@@ -84,14 +84,11 @@ void defineClass(py::class_<Box, std::unique_ptr<Box>, Region> &cls) {
     cls.def("__ne__", (bool (Box::*)(LonLat const &) const) & Box::operator!=,
             py::is_operator());
     cls.def("__contains__",
-            (bool (Box::*)(LonLat const &) const) & Box::contains,
-            py::is_operator());
-    cls.def("__contains__", (bool (Box::*)(Box const &) const) & Box::contains,
-            py::is_operator());
+            (bool (Box::*)(LonLat const &) const) & Box::contains);
+    cls.def("__contains__", (bool (Box::*)(Box const &) const) & Box::contains);
     // Rewrap this base class method since there are overloads in this subclass
     cls.def("__contains__",
-            (bool (Box::*)(UnitVector3d const &) const) & Box::contains,
-            py::is_operator());
+            (bool (Box::*)(UnitVector3d const &) const) & Box::contains);
 
     cls.def("getLon", &Box::getLon);
     cls.def("getLat", &Box::getLat);
diff --git a/python/lsst/sphgeom/_box3d.cc b/python/lsst/sphgeom/_box3d.cc
index d22181a..f75eddf 100644
--- a/python/lsst/sphgeom/_box3d.cc
+++ b/python/lsst/sphgeom/_box3d.cc
@@ -71,11 +71,9 @@ void defineClass(py::class_<Box3d, std::shared_ptr<Box3d>> &cls) {
             (bool (Box3d::*)(Vector3d const &) const) & Box3d::operator!=,
             py::is_operator());
     cls.def("__contains__",
-            (bool (Box3d::*)(Vector3d const &) const) & Box3d::contains,
-            py::is_operator());
+            (bool (Box3d::*)(Vector3d const &) const) & Box3d::contains);
     cls.def("__contains__",
-            (bool (Box3d::*)(Box3d const &) const) & Box3d::contains,
-            py::is_operator());
+            (bool (Box3d::*)(Box3d const &) const) & Box3d::contains);
     cls.def("__len__", [](Box3d const &self) { return py::int_(3); });
     cls.def("__getitem__", [](Box3d const &self, py::int_ row) {
         return self(static_cast<int>(python::convertIndex(3, row)));
diff --git a/python/lsst/sphgeom/_circle.cc b/python/lsst/sphgeom/_circle.cc
index 7714d59..3aaa10a 100644
--- a/python/lsst/sphgeom/_circle.cc
+++ b/python/lsst/sphgeom/_circle.cc
@@ -68,12 +68,10 @@ void defineClass(py::class_<Circle, std::unique_ptr<Circle>, Region> &cls) {
     cls.def("__eq__", &Circle::operator==, py::is_operator());
     cls.def("__ne__", &Circle::operator!=, py::is_operator());
     cls.def("__contains__",
-            (bool (Circle::*)(Circle const &) const) & Circle::contains,
-            py::is_operator());
+            (bool (Circle::*)(Circle const &) const) & Circle::contains);
     // Rewrap this base class method since there are overloads in this subclass
     cls.def("__contains__",
-            (bool (Circle::*)(UnitVector3d const &) const) & Circle::contains,
-            py::is_operator());
+            (bool (Circle::*)(UnitVector3d const &) const) & Circle::contains);
 
     cls.def("isEmpty", &Circle::isEmpty);
     cls.def("isFull", &Circle::isFull);
diff --git a/python/lsst/sphgeom/_rangeSet.cc b/python/lsst/sphgeom/_rangeSet.cc
index e09fccb..0d3b3b7 100644
--- a/python/lsst/sphgeom/_rangeSet.cc
+++ b/python/lsst/sphgeom/_rangeSet.cc
@@ -164,13 +164,13 @@ void defineClass(py::class_<RangeSet, std::shared_ptr<RangeSet>> &cls) {
             "rangeSet"_a);
     cls.def("__contains__",
             (bool (RangeSet::*)(uint64_t) const) & RangeSet::contains,
-            "integer"_a, py::is_operator());
+            "integer"_a);
     cls.def("__contains__",
             (bool (RangeSet::*)(uint64_t, uint64_t) const) & RangeSet::contains,
-            "first"_a, "last"_a, py::is_operator());
+            "first"_a, "last"_a);
     cls.def("__contains__",
             (bool (RangeSet::*)(RangeSet const &) const) & RangeSet::contains,
-            "rangeSet"_a, py::is_operator());
+            "rangeSet"_a);
 
     cls.def("isWithin",
             (bool (RangeSet::*)(uint64_t) const) & RangeSet::isWithin,
diff --git a/python/lsst/sphgeom/_region.cc b/python/lsst/sphgeom/_region.cc
index 11cb15b..d0b541c 100644
--- a/python/lsst/sphgeom/_region.cc
+++ b/python/lsst/sphgeom/_region.cc
@@ -61,8 +61,7 @@ void defineClass(py::class_<Region, std::unique_ptr<Region>> &cls) {
             "x"_a, "y"_a, "z"_a);
     cls.def("contains", py::vectorize((bool (Region::*)(double, double) const)&Region::contains),
             "lon"_a, "lat"_a);
-    cls.def("__contains__", py::overload_cast<UnitVector3d const &>(&Region::contains, py::const_),
-            py::is_operator());
+    cls.def("__contains__", py::overload_cast<UnitVector3d const &>(&Region::contains, py::const_));
     // The per-subclass relate() overloads are used to implement
     // double-dispatch in C++, and are not needed in Python.
     cls.def("relate",
-- 
2.43.0


From 00304305736610643383e35d777817ea46e8a449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:12 +0000
Subject: [PATCH 39/47] fix: indexing a Matrix3d with an unsuitable object gave
 NotImplemented

---
 python/lsst/sphgeom/_matrix3d.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/sphgeom/_matrix3d.cc b/python/lsst/sphgeom/_matrix3d.cc
index dd4d293..e1fc4dd 100644
--- a/python/lsst/sphgeom/_matrix3d.cc
+++ b/python/lsst/sphgeom/_matrix3d.cc
@@ -69,7 +69,7 @@ void defineClass(py::class_<Matrix3d, std::shared_ptr<Matrix3d>> &cls) {
             "col"_a);
 
     cls.def("__len__", [](Matrix3d const &self) { return py::int_(3); });
-    cls.def("__getitem__", &getRow, py::is_operator());
+    cls.def("__getitem__", &getRow);
     cls.def("__getitem__",
             [](Matrix3d const &self, py::tuple t) {
                 if (t.size() > 2) {
-- 
2.43.0


From 4e3d4a0b5cceecd8f4352d8ecbfb770fdf8c2315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 40/47] fix: HEALPix envelope and interior of boxes with all
 longitudes were empty

---
 python/lsst/sphgeom/_healpixPixelization.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/lsst/sphgeom/_healpixPixelization.py b/python/lsst/sphgeom/_healpixPixelization.py
index 16577a1..e99d692 100644
--- a/python/lsst/sphgeom/_healpixPixelization.py
+++ b/python/lsst/sphgeom/_healpixPixelization.py
@@ -141,13 +141,14 @@ class HealpixPixelization(PixelizationABC):
             vertices = np.array([[v.x(), v.y(), v.z()] for v in region.getVertices()])
             pixels = hpg.query_polygon_vec(nside, vertices)
         elif isinstance(region, Box):
+            # Degrees are used because only the interval from 0 to 360 degrees
+            # is recognized as the full longitude range; 2 pi radians are not.
             pixels = hpg.query_box(
                 nside,
-                region.getLon().getA().asRadians(),
-                region.getLon().getB().asRadians(),
-                region.getLat().getA().asRadians(),
-                region.getLat().getB().asRadians(),
-                degrees=False,
+                region.getLon().getA().asDegrees(),
+                region.getLon().getB().asDegrees(),
+                region.getLat().getA().asDegrees(),
+                region.getLat().getB().asDegrees(),
             )
         elif isinstance(region, Ellipse):
             # hpgeom supports query_ellipse given center, alpha, beta,
-- 
2.43.0


From 69566346f3a59fb06ceaecb05cb90e331f7e4a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 41/47] fix: HEALPix envelope and interior of empty regions
 raised an error

---
 python/lsst/sphgeom/_healpixPixelization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/lsst/sphgeom/_healpixPixelization.py b/python/lsst/sphgeom/_healpixPixelization.py
index e99d692..b6573f2 100644
--- a/python/lsst/sphgeom/_healpixPixelization.py
+++ b/python/lsst/sphgeom/_healpixPixelization.py
@@ -128,7 +128,10 @@ class HealpixPixelization(PixelizationABC):
         pixels : `np.ndarray`
             Array of pixels at resolution nside, nest ordering.
         """
-        if isinstance(region, Circle):
+        if isinstance(region, (Box, Circle, Ellipse)) and region.isEmpty():
+            # hpgeom rejects intervals and radii that denote nothing.
+            pixels = np.zeros(0, dtype=np.int64)
+        elif isinstance(region, Circle):
             center = LonLat(region.getCenter())
             pixels = hpg.query_circle(
                 nside,
-- 
2.43.0


From 093d24bf97e4d702ea5da57b931d64b498408918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:41 +0000
Subject: [PATCH 42/47] fix: HEALPix envelope of regions smaller than the high
 resolution pixels was empty

---
 python/lsst/sphgeom/_healpixPixelization.py | 30 ++++++++++++++++-----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/python/lsst/sphgeom/_healpixPixelization.py b/python/lsst/sphgeom/_healpixPixelization.py
index b6573f2..b3453f0 100644
--- a/python/lsst/sphgeom/_healpixPixelization.py
+++ b/python/lsst/sphgeom/_healpixPixelization.py
@@ -29,7 +29,7 @@ __all__ = ["HealpixPixelization"]
 import hpgeom as hpg
 import numpy as np
 
-from ._sphgeom import Box, Circle, ConvexPolygon, Ellipse, LonLat, RangeSet, Region, UnitVector3d
+from ._sphgeom import Angle, Box, Circle, ConvexPolygon, Ellipse, LonLat, RangeSet, Region, UnitVector3d
 from .pixelization_abc import PixelizationABC
 
 
@@ -85,7 +85,9 @@ class HealpixPixelization(PixelizationABC):
         if maxRanges > 0:
             # If this is important, the rangeset can be consolidated.
             raise NotImplementedError("HealpixPixelization: maxRanges not implemented")
-        pixels_highres = self._interior_pixels_from_region(self._nside_highres, region)
+        # Regions that are smaller or thinner than the high resolution pixels
+        # may contain none of their centers, so include all that overlap.
+        pixels_highres = self._interior_pixels_from_region(self._nside_highres, region, inclusive=True)
 
         # Dilate the high resolution pixels by one to ensure that the full
         # region is completely covered at high resolution.
@@ -113,7 +115,7 @@ class HealpixPixelization(PixelizationABC):
 
         return RangeSet(pixels)
 
-    def _interior_pixels_from_region(self, nside: int, region: Region):
+    def _interior_pixels_from_region(self, nside: int, region: Region, inclusive: bool = False):
         """Get interior pixels from a region.
 
         Parameters
@@ -122,12 +124,24 @@ class HealpixPixelization(PixelizationABC):
             Healpix nside to retrieve interior pixels.
         region : `lsst.sphgeom.Region`
             Sphgeom region to find interior pixels.
+        inclusive : `bool`, optional
+            Include all pixels that overlap the region (and possibly a few
+            more), not only those whose center is in the region?
 
         Returns
         -------
         pixels : `np.ndarray`
             Array of pixels at resolution nside, nest ordering.
         """
+        kwargs = {}
+        pad = 0.0
+        if inclusive:
+            # The overlap test is done at a resolution of fact*nside, which
+            # is limited to 2**29.
+            kwargs = {"inclusive": True, "fact": max(1, min(4, 2**29 // nside))}
+            # hpgeom needs circles and boxes to have a positive extent.
+            pad = 1.0e-12
+
         if isinstance(region, (Box, Circle, Ellipse)) and region.isEmpty():
             # hpgeom rejects intervals and radii that denote nothing.
             pixels = np.zeros(0, dtype=np.int64)
@@ -137,13 +151,15 @@ class HealpixPixelization(PixelizationABC):
                 nside,
                 center.getLon().asRadians(),
                 center.getLat().asRadians(),
-                region.getOpeningAngle().asRadians(),
+                region.getOpeningAngle().asRadians() + pad,
                 degrees=False,
+                **kwargs,
             )
         elif isinstance(region, ConvexPolygon):
             vertices = np.array([[v.x(), v.y(), v.z()] for v in region.getVertices()])
-            pixels = hpg.query_polygon_vec(nside, vertices)
+            pixels = hpg.query_polygon_vec(nside, vertices, **kwargs)
         elif isinstance(region, Box):
+            region = region.dilatedBy(Angle(pad), Angle(pad))
             # Degrees are used because only the interval from 0 to 360 degrees
             # is recognized as the full longitude range; 2 pi radians are not.
             pixels = hpg.query_box(
@@ -152,6 +168,7 @@ class HealpixPixelization(PixelizationABC):
                 region.getLon().getB().asDegrees(),
                 region.getLat().getA().asDegrees(),
                 region.getLat().getB().asDegrees(),
+                **kwargs,
             )
         elif isinstance(region, Ellipse):
             # hpgeom supports query_ellipse given center, alpha, beta,
@@ -164,8 +181,9 @@ class HealpixPixelization(PixelizationABC):
                 nside,
                 center.getLon().asRadians(),
                 center.getLat().asRadians(),
-                _circle.getOpeningAngle().asRadians(),
+                _circle.getOpeningAngle().asRadians() + pad,
                 degrees=False,
+                **kwargs,
             )
         else:
             raise ValueError("Invalid region.")
-- 
2.43.0


From 290394ba7cc55adfaf256098837e25fc4a7522a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 43/47] fix: HEALPix envelope missed pixels of large circles,
 and holes in circles counted as interior

---
 python/lsst/sphgeom/_healpixPixelization.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/python/lsst/sphgeom/_healpixPixelization.py b/python/lsst/sphgeom/_healpixPixelization.py
index b3453f0..f469712 100644
--- a/python/lsst/sphgeom/_healpixPixelization.py
+++ b/python/lsst/sphgeom/_healpixPixelization.py
@@ -145,6 +145,15 @@ class HealpixPixelization(PixelizationABC):
         if isinstance(region, (Box, Circle, Ellipse)) and region.isEmpty():
             # hpgeom rejects intervals and radii that denote nothing.
             pixels = np.zeros(0, dtype=np.int64)
+        elif isinstance(region, Circle) and region.getOpeningAngle().asRadians() > 0.5 * np.pi:
+            # hpgeom misses pixels of some circles larger than a hemisphere,
+            # and looking at pixel centers and corners misses small holes, so
+            # take all pixels but those of the complement.
+            pixels = np.setdiff1d(
+                np.arange(hpg.nside_to_npixel(nside)),
+                self._interior_pixels_from_region(nside, region.complemented(), inclusive=not inclusive),
+                assume_unique=True,
+            )
         elif isinstance(region, Circle):
             center = LonLat(region.getCenter())
             pixels = hpg.query_circle(
@@ -175,16 +184,7 @@ class HealpixPixelization(PixelizationABC):
             # and orientation. However, until we figure out how to get
             # the orientation out of the Ellipse region, we will use the
             # bounding circle as was done with healpy.
-            _circle = region.getBoundingCircle()
-            center = LonLat(_circle.getCenter())
-            pixels = hpg.query_circle(
-                nside,
-                center.getLon().asRadians(),
-                center.getLat().asRadians(),
-                _circle.getOpeningAngle().asRadians() + pad,
-                degrees=False,
-                **kwargs,
-            )
+            pixels = self._interior_pixels_from_region(nside, region.getBoundingCircle(), inclusive)
         else:
             raise ValueError("Invalid region.")
 
-- 
2.43.0


From 8a5ce3c5fd46ed0637837c3bc9eff62b7cdf2bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:11 +0000
Subject: [PATCH 44/47] fix: HEALPix interior of a circle with a radius of zero
 raised an error

---
 python/lsst/sphgeom/_healpixPixelization.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/lsst/sphgeom/_healpixPixelization.py b/python/lsst/sphgeom/_healpixPixelization.py
index f469712..a7942f8 100644
--- a/python/lsst/sphgeom/_healpixPixelization.py
+++ b/python/lsst/sphgeom/_healpixPixelization.py
@@ -134,13 +134,12 @@ class HealpixPixelization(PixelizationABC):
             Array of pixels at resolution nside, nest ordering.
         """
         kwargs = {}
-        pad = 0.0
+        # hpgeom needs circles and boxes to have a positive extent.
+        pad = 1.0e-12
         if inclusive:
             # The overlap test is done at a resolution of fact*nside, which
             # is limited to 2**29.
             kwargs = {"inclusive": True, "fact": max(1, min(4, 2**29 // nside))}
-            # hpgeom needs circles and boxes to have a positive extent.
-            pad = 1.0e-12
 
         if isinstance(region, (Box, Circle, Ellipse)) and region.isEmpty():
             # hpgeom rejects intervals and radii that denote nothing.
-- 
2.43.0


From fdc5caa141db88b270adf3d52edfc59045c6beeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 45/47] fix: HEALPix interior contained pixels whose curved
 edges leave the region

---
 python/lsst/sphgeom/_healpixPixelization.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/python/lsst/sphgeom/_healpixPixelization.py b/python/lsst/sphgeom/_healpixPixelization.py
index a7942f8..1ed1624 100644
--- a/python/lsst/sphgeom/_healpixPixelization.py
+++ b/python/lsst/sphgeom/_healpixPixelization.py
@@ -103,14 +103,16 @@ class HealpixPixelization(PixelizationABC):
             raise NotImplementedError("HealpixPixelization: maxRanges not implemented")
         pixels = self._interior_pixels_from_region(self._nside, region)
 
-        # Check that the corners of the pixels are entirely enclosed in
-        # the region
+        # Check that the boundaries of the pixels are entirely enclosed in
+        # the region. Pixel edges are curved, so checking the corners only is
+        # not enough.
+        step = 8
 
-        # Returns arrays [npixels, ncorners], where ncorners is 4.
-        corners_lon, corners_lat = hpg.boundaries(self._nside, pixels, step=1, degrees=False)
+        # Returns arrays [npixels, npoints], where npoints is 4*step.
+        bounds_lon, bounds_lat = hpg.boundaries(self._nside, pixels, step=step, degrees=False)
 
-        corners_int = region.contains(corners_lon.ravel(), corners_lat.ravel()).reshape((len(pixels), 4))
-        interior = np.sum(corners_int, axis=1) == 4
+        bounds_int = region.contains(bounds_lon.ravel(), bounds_lat.ravel()).reshape((len(pixels), 4 * step))
+        interior = np.all(bounds_int, axis=1)
         pixels = pixels[interior]
 
         return RangeSet(pixels)
-- 
2.43.0


From c4b1d6a537e1457e34415587d84d23c0c8a0edf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 46/47] fix: HEALPix interior ignored small or thin holes in
 large ellipses and boxes

---
 python/lsst/sphgeom/_healpixPixelization.py | 26 ++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/python/lsst/sphgeom/_healpixPixelization.py b/python/lsst/sphgeom/_healpixPixelization.py
index 1ed1624..a2967b2 100644
--- a/python/lsst/sphgeom/_healpixPixelization.py
+++ b/python/lsst/sphgeom/_healpixPixelization.py
@@ -29,7 +29,18 @@ __all__ = ["HealpixPixelization"]
 import hpgeom as hpg
 import numpy as np
 
-from ._sphgeom import Angle, Box, Circle, ConvexPolygon, Ellipse, LonLat, RangeSet, Region, UnitVector3d
+from ._sphgeom import (
+    Angle,
+    Box,
+    Circle,
+    ConvexPolygon,
+    Ellipse,
+    LonLat,
+    NormalizedAngleInterval,
+    RangeSet,
+    Region,
+    UnitVector3d,
+)
 from .pixelization_abc import PixelizationABC
 
 
@@ -103,6 +114,19 @@ class HealpixPixelization(PixelizationABC):
             raise NotImplementedError("HealpixPixelization: maxRanges not implemented")
         pixels = self._interior_pixels_from_region(self._nside, region)
 
+        # What large ellipses and boxes leave out may be too small or too thin
+        # to be noticed at the boundaries of the pixels.
+        hole = None
+        if isinstance(region, Ellipse) and region.getAlpha().asRadians() > 0.5 * np.pi:
+            hole = region.complemented()
+        elif isinstance(region, Box) and np.pi < region.getLon().getSize().asRadians() < 2.0 * np.pi:
+            lon = region.getLon()
+            hole = Box(NormalizedAngleInterval(lon.getB(), lon.getA()), region.getLat())
+        if hole is not None:
+            pixels = np.setdiff1d(
+                pixels, self._interior_pixels_from_region(self._nside, hole, inclusive=True), assume_unique=True
+            )
+
         # Check that the boundaries of the pixels are entirely enclosed in
         # the region. Pixel edges are curved, so checking the corners only is
         # not enough.
-- 
2.43.0


From 3c9e0e93230a75ca47b77c3b08067f4c429c38c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 47/47] fix: HealpixPixelization accepted fractional levels

---
 python/lsst/sphgeom/_healpixPixelization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/lsst/sphgeom/_healpixPixelization.py b/python/lsst/sphgeom/_healpixPixelization.py
index a2967b2..517e6be 100644
--- a/python/lsst/sphgeom/_healpixPixelization.py
+++ b/python/lsst/sphgeom/_healpixPixelization.py
@@ -26,6 +26,8 @@
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 __all__ = ["HealpixPixelization"]
 
+import operator
+
 import hpgeom as hpg
 import numpy as np
 
@@ -56,6 +58,8 @@ class HealpixPixelization(PixelizationABC):
     MAX_LEVEL = 17
 
     def __init__(self, level: int):
+        # Fractional levels are no levels.
+        level = operator.index(level)
         if level < 0:
             raise ValueError("HealPix level must be >= 0.")
 
-- 
2.43.0

