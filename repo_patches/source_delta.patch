From 674fc28a9a107950f0bb17fd4b6b34a170680bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 01/27] fix: compile `quaternion` feature without `vector`

---
 src/quaternion.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index 668a5c3..177a499 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -135,6 +135,7 @@ impl Quaternion {
     }
 
     /// Compute a quaternion for the given axis vector and angle.
+    #[cfg(feature = "vector")]
     #[cfg_attr(docsrs, doc(cfg(feature = "vector")))]
     pub fn axis_angle<C>(v: Vector3d<C>, theta: C) -> Self
     where
@@ -153,6 +154,7 @@ impl Quaternion {
     }
 
     /// Rotate a 3D vector using this quaternion, assumes the quaternion is of unit length.
+    #[cfg(feature = "vector")]
     #[cfg_attr(docsrs, doc(cfg(feature = "vector")))]
     pub fn rotate<C>(self, v: Vector3d<C>) -> F32x3
     where
-- 
2.43.0


From dd178c73d887ce5b3630c07cce2a9c28e70a7c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:22 +0000
Subject: [PATCH 02/27] fix: `trunc` of values of 2^23 and above, infinities
 and NaN

---
 src/float/trunc.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/float/trunc.rs b/src/float/trunc.rs
index 0c29a43..066d23b 100644
--- a/src/float/trunc.rs
+++ b/src/float/trunc.rs
@@ -1,6 +1,6 @@
 //! Floating point whole number for a single-precision float.
 
-use super::{F32, MANTISSA_MASK};
+use super::{F32, MANTISSA_BITS, MANTISSA_MASK};
 
 impl F32 {
     /// Returns the integer part of a number.
@@ -13,6 +13,11 @@ impl F32 {
             return F32::ZERO.copysign(self);
         }
 
+        // the mantissa has no fractional bits left: already an integer, infinite or NaN
+        if exponent >= MANTISSA_BITS as i32 {
+            return self;
+        }
+
         let exponent_clamped = i32::max(exponent, 0) as u32;
 
         // find the part of the fraction that would be left over
-- 
2.43.0


From 26fb21df12c626a8f9a068b2d510089c5f3579c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:22 +0000
Subject: [PATCH 03/27] fix: `fract` of values of 2^23 and above, infinities
 and NaN

---
 src/float/fract.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/float/fract.rs b/src/float/fract.rs
index c99a0b5..b2c3613 100644
--- a/src/float/fract.rs
+++ b/src/float/fract.rs
@@ -14,6 +14,16 @@ impl F32 {
             return self;
         }
 
+        // infinities and NaN have no fractional part
+        if !self.is_finite() {
+            return Self::NAN;
+        }
+
+        // the mantissa has no fractional bits left: already an integer
+        if exponent >= MANTISSA_BITS as i32 {
+            return Self(0.0).copysign(self);
+        }
+
         // find the part of the fraction that would be left over
         let fractional_part = x_bits.overflowing_shl(exponent as u32).0 & MANTISSA_MASK;
 
-- 
2.43.0


From 614501796c8643470b6fd58070a40ce4593c0812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:23 +0000
Subject: [PATCH 04/27] fix: `floor`/`ceil` of values outside of the `i32`
 range and NaN

---
 src/float/floor.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/float/floor.rs b/src/float/floor.rs
index 31025ee..cc5a286 100644
--- a/src/float/floor.rs
+++ b/src/float/floor.rs
@@ -5,13 +5,13 @@ use super::F32;
 impl F32 {
     /// Returns the largest integer less than or equal to a number.
     pub fn floor(self) -> Self {
-        let mut res = (self.0 as i32) as f32;
+        let mut res = self.trunc();
 
-        if self.0 < res {
-            res -= 1.0;
+        if self < res {
+            res -= Self::ONE;
         }
 
-        Self(res)
+        res
     }
 }
 
-- 
2.43.0


From 4dc55b5e8136b4fc59ac80636b23af63943ad50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:23 +0000
Subject: [PATCH 05/27] fix: `round` of values outside of the `i32` range, NaN,
 0.49999997 and odd integers above 2^23

---
 src/float/round.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/float/round.rs b/src/float/round.rs
index 2db3f9b..ac69791 100644
--- a/src/float/round.rs
+++ b/src/float/round.rs
@@ -5,7 +5,13 @@ use super::F32;
 impl F32 {
     /// Returns the nearest integer to a number.
     pub fn round(self) -> Self {
-        Self(((self.0 + Self(0.5).copysign(self).0) as i32) as f32)
+        let whole = self.trunc();
+
+        if (self - whole).abs() >= 0.5 {
+            whole + Self::ONE.copysign(self)
+        } else {
+            whole
+        }
     }
 }
 
-- 
2.43.0


From 6e5ce961ff54f043e88b464569e0af610211757b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 06/27] fix: `powf` treated powers of two below one as integer
 exponents and lost large exponents

---
 src/float.rs | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/src/float.rs b/src/float.rs
index 2da35fc..f64968a 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -208,19 +208,7 @@ impl F32 {
 
     /// Is this floating point value equivalent to an integer?
     pub(crate) fn is_integer(&self) -> bool {
-        let exponent = self.extract_exponent_value();
-        let self_bits = self.to_bits();
-
-        // if exponent is negative we shouldn't remove anything, this stops an opposite shift.
-        let exponent_clamped = i32::max(exponent, 0) as u32;
-
-        // find the part of the fraction that would be left over
-        let fractional_part = (self_bits).overflowing_shl(exponent_clamped).0 & MANTISSA_MASK;
-
-        // if fractional part contains anything, we know it *isn't* an integer.
-        // if zero there will be nothing in the fractional part
-        // if it is whole, there will be nothing in the fractional part
-        fractional_part == 0
+        self.trunc() == *self
     }
 
     /// Is this floating point value even?
-- 
2.43.0


From adbf5cb12d8b29da01b850a7a5341b1c040d1a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 07/27] fix: `exp` of NaN, and of results just above `f32::MAX`

---
 src/float/exp.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/float/exp.rs b/src/float/exp.rs
index ef68faf..2f2f64c 100644
--- a/src/float/exp.rs
+++ b/src/float/exp.rs
@@ -14,6 +14,10 @@ impl F32 {
 
     /// Exp approximation for `f32`.
     pub(crate) fn exp_ln2_approx(self, partial_iter: u32) -> Self {
+        if self.is_nan() {
+            return self;
+        }
+
         if self == Self::ZERO {
             return Self::ONE;
         }
@@ -46,7 +50,7 @@ impl F32 {
             return Self::ZERO;
         }
 
-        if fract_exponent > ((EXPONENT_BIAS + 1) as i32) {
+        if fract_exponent > (EXPONENT_BIAS as i32) {
             return Self::INFINITY;
         }
 
-- 
2.43.0


From abf5c347a914cccbf0f392b43af63860fcd33d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 08/27] fix: `ln` of values below one used the 12% accurate
 fast inverse

---
 src/float/ln.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/float/ln.rs b/src/float/ln.rs
index f3990e3..2d4c9c0 100644
--- a/src/float/ln.rs
+++ b/src/float/ln.rs
@@ -14,6 +14,15 @@ impl F32 {
     // ln(1.0->2.0) polynomial
     #[allow(clippy::excessive_precision)]
     pub fn ln(self) -> Self {
+        if self == Self::ZERO {
+            return Self::NEG_INFINITY;
+        }
+
+        // subnormals have no reciprocal in range: rescale by 2^23
+        if self > Self::ZERO && self < Self::MIN_POSITIVE {
+            return (self * 8_388_608.0).ln() - 23.0 * LN_2;
+        }
+
         // x may essentially be 1.0 but, as clippy notes, these kinds of
         // floating point comparisons can fail when the bit pattern is not the sames
         if (self - Self::ONE).abs() < f32::EPSILON {
@@ -24,7 +33,11 @@ impl F32 {
 
         // Note: we could use the fast inverse approximation here found in super::inv::inv_approx, but
         // the precision of such an approximation is assumed not good enough.
-        let x_working = if x_less_than_1 { self.inv() } else { self };
+        let x_working = if x_less_than_1 {
+            Self::ONE / self
+        } else {
+            self
+        };
 
         // according to the SO post ln(x) = ln((2^n)*y)= ln(2^n) + ln(y) = ln(2) * n + ln(y)
         // get exponent value
-- 
2.43.0


From 6ff4628c9477fb5b0620a5d0145d3a50e23f6449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 09/27] fix: `ln` of negative numbers and infinity

---
 src/float/ln.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/float/ln.rs b/src/float/ln.rs
index 2d4c9c0..571669b 100644
--- a/src/float/ln.rs
+++ b/src/float/ln.rs
@@ -14,6 +14,14 @@ impl F32 {
     // ln(1.0->2.0) polynomial
     #[allow(clippy::excessive_precision)]
     pub fn ln(self) -> Self {
+        if self.is_nan() || self < Self::ZERO {
+            return Self::NAN;
+        }
+
+        if self == Self::INFINITY {
+            return self;
+        }
+
         if self == Self::ZERO {
             return Self::NEG_INFINITY;
         }
-- 
2.43.0


From 2bd54b9bfccc6ca74a006e300a75ef63e3c945a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 10/27] fix: `powf` of zero and infinity with a zero exponent

---
 src/float/powf.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/float/powf.rs b/src/float/powf.rs
index 3320644..bbfa0e7 100644
--- a/src/float/powf.rs
+++ b/src/float/powf.rs
@@ -5,6 +5,10 @@ use super::F32;
 impl F32 {
     /// Approximates a number raised to a floating point power.
     pub fn powf(self, n: Self) -> Self {
+        if n == Self::ZERO {
+            return Self::ONE;
+        }
+
         // using x^n = exp(ln(x^n)) = exp(n*ln(x))
         if self >= Self::ZERO {
             (n * self.ln()).exp()
-- 
2.43.0


From 43defbe8c7a1a8344bc4573af26476401c8afaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 11/27] fix: `powi` overflowed on large exponents and never
 returned for `i32::MIN`

---
 src/float/powi.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/float/powi.rs b/src/float/powi.rs
index b867125..b9ad8b3 100644
--- a/src/float/powi.rs
+++ b/src/float/powi.rs
@@ -12,7 +12,7 @@ impl F32 {
     /// Approximates a number raised to an integer power.
     pub fn powi(self, n: i32) -> Self {
         let mut base = self;
-        let mut abs_n = i32::abs(n);
+        let mut abs_n = n.unsigned_abs();
         let mut result = 1.0;
 
         if n < 0 {
@@ -33,7 +33,7 @@ impl F32 {
         if !(0.5..2.0).contains(&self.abs().0) {
             // Approximation if we end up outside of the range of floating point values,
             // then we end early
-            let approx_final_exponent = self.extract_exponent_value() * n;
+            let approx_final_exponent = self.extract_exponent_value().saturating_mul(n);
             let max_representable_exponent = 127;
             let min_representable_exponent = -126 - (MANTISSA_BITS as i32);
             if approx_final_exponent > max_representable_exponent
-- 
2.43.0


From 75f6df5a3daff2b13e2e6ea0591508b3dd180088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 12/27] fix: `powi` ended early with zero or infinity for
 representable results, and of NaN

---
 src/float/powi.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/float/powi.rs b/src/float/powi.rs
index b9ad8b3..307ad7b 100644
--- a/src/float/powi.rs
+++ b/src/float/powi.rs
@@ -23,6 +23,10 @@ impl F32 {
             return Self::ONE;
         }
 
+        if self.is_nan() {
+            return self;
+        }
+
         // 0.0 == 0.0 and -0.0 according to IEEE standards.
         if self == Self::ZERO && n > 0 {
             return self;
@@ -33,7 +37,10 @@ impl F32 {
         if !(0.5..2.0).contains(&self.abs().0) {
             // Approximation if we end up outside of the range of floating point values,
             // then we end early
-            let approx_final_exponent = self.extract_exponent_value().saturating_mul(n);
+            // (rounding the exponent towards zero, so as to never end early with a representable result)
+            let exponent = self.extract_exponent_value();
+            let exponent = if exponent < 0 { exponent + 1 } else { exponent };
+            let approx_final_exponent = exponent.saturating_mul(n);
             let max_representable_exponent = 127;
             let min_representable_exponent = -126 - (MANTISSA_BITS as i32);
             if approx_final_exponent > max_representable_exponent
-- 
2.43.0


From 0b509f75b36faf748700c813b386a1dc2de1d507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 13/27] fix: `sqrt` of negative zero and infinity

---
 src/float/sqrt.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/float/sqrt.rs b/src/float/sqrt.rs
index 73c109b..c0d5344 100644
--- a/src/float/sqrt.rs
+++ b/src/float/sqrt.rs
@@ -9,8 +9,11 @@ impl F32 {
     ///
     /// Returns [`Self::NAN`] if `self` is a negative number.
     pub fn sqrt(self) -> Self {
-        if self >= Self::ZERO {
-            Self::from_bits((self.to_bits() + 0x3f80_0000) >> 1)
+        if self == Self::INFINITY {
+            self
+        } else if self >= Self::ZERO {
+            // without the sign, as `-0.0 >= 0.0`
+            Self::from_bits((self.without_sign().to_bits() + 0x3f80_0000) >> 1)
         } else {
             Self::NAN
         }
-- 
2.43.0


From c7ee7f554d3830873b3af8002ca71b76337159bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 14/27] fix: `invsqrt` of negative numbers and NaN, and so
 `asin` out of its domain

---
 src/float/invsqrt.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/float/invsqrt.rs b/src/float/invsqrt.rs
index d85e9ce..eadf279 100644
--- a/src/float/invsqrt.rs
+++ b/src/float/invsqrt.rs
@@ -6,8 +6,15 @@ use super::F32;
 
 impl F32 {
     /// Approximate inverse square root with an average deviation of ~5%.
+    ///
+    /// Returns [`Self::NAN`] if `self` is a negative number.
     pub fn invsqrt(self) -> Self {
-        Self::from_bits(0x5f37_5a86 - (self.to_bits() >> 1))
+        if self >= Self::ZERO {
+            // without the sign, as `-0.0 >= 0.0`
+            Self::from_bits(0x5f37_5a86 - (self.without_sign().to_bits() >> 1))
+        } else {
+            Self::NAN
+        }
     }
 }
 
-- 
2.43.0


From baeefa4c01f11c3adad0d41a8aa97be3f73a4adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 15/27] fix: `inv` of negative numbers

---
 src/float/inv.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/float/inv.rs b/src/float/inv.rs
index 1751be0..2ae079b 100644
--- a/src/float/inv.rs
+++ b/src/float/inv.rs
@@ -14,8 +14,8 @@ impl F32 {
         // The constant 0x7f00_0000 corresponds to the bit pattern for 1.0 in IEEE 754 format.
         // Subtracting the bits of the original number from this constant effectively inverts the exponent,
         // resulting in an approximation of the reciprocal.
-        match 0x7f00_0000_u32.checked_sub(self.0.to_bits()) {
-            Some(result) => Self(f32::from_bits(result)),
+        match 0x7f00_0000_u32.checked_sub(self.without_sign().to_bits()) {
+            Some(result) => Self(f32::from_bits(result)).copysign(self),
             // Check if the value is too large for the approximation, NaN (e.g. 0x7fC0_0000) or infinity.
             None => {
                 if self.0.is_infinite() {
@@ -29,7 +29,7 @@ impl F32 {
                     Self(f32::NAN)
                 } else {
                     // Values larger than the threshold result in zero for 1/x
-                    Self(0.0)
+                    Self(0.0).copysign(self)
                 }
             }
         }
-- 
2.43.0


From 3239b2077b6760cb16ae017ae93c12cca19721ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 16/27] fix: `recip` of infinity and numbers above 1.6e38

---
 src/float/recip.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/float/recip.rs b/src/float/recip.rs
index 3e14841..2858cec 100644
--- a/src/float/recip.rs
+++ b/src/float/recip.rs
@@ -10,6 +10,11 @@ impl F32 {
         let sx = if x < 0.0 { F32(-1.0) } else { F32(1.0) };
         x *= sx;
 
+        // too large for the initial approximation
+        if x > f32::from_bits(0x7EF1_27EA) {
+            return Self::ZERO.copysign(self);
+        }
+
         let mut v = F32(f32::from_bits(0x7EF1_27EAu32.wrapping_sub(x.to_bits())));
         let w = x * v;
 
-- 
2.43.0


From 5895ee3c1f7437e833cda0a3ae45b0bde33d205e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 17/27] fix: `atan` of infinity and numbers above 1.8e19
 returned NaN

---
 src/float/atan.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/float/atan.rs b/src/float/atan.rs
index a54e2a7..ca41910 100644
--- a/src/float/atan.rs
+++ b/src/float/atan.rs
@@ -21,6 +21,11 @@ impl F32 {
         const SIGN_MASK: u32 = 0x8000_0000;
         const B: f32 = 0.596_227;
 
+        // `x²` would overflow, and the result be NaN
+        if self.abs() > 1e18 {
+            return Self::ONE.copysign(self);
+        }
+
         // Extract the sign bit
         let ux_s = SIGN_MASK & self.to_bits();
 
-- 
2.43.0


From 6d88f403a83ed459c5407a0b18ee6660d50aadd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 18/27] fix: `atan2` of two zeros returned NaN instead of the
 documented `0`

---
 src/float/atan2.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/float/atan2.rs b/src/float/atan2.rs
index f071be9..c254fee 100644
--- a/src/float/atan2.rs
+++ b/src/float/atan2.rs
@@ -27,6 +27,10 @@ impl F32 {
         let y = self;
         let x = rhs;
 
+        if x == Self::ZERO && y == Self::ZERO {
+            return Self::ZERO;
+        }
+
         // Extract sign bits from floating point values
         let ux_s = SIGN_MASK & x.to_bits();
         let uy_s = SIGN_MASK & y.to_bits();
-- 
2.43.0


From ab71c564bfc3b775d374143e90b4a2c9dfa9041c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:27 +0000
Subject: [PATCH 19/27] fix: `atan2` of large, tiny and infinite operands
 returned NaN

---
 src/float/atan2.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/float/atan2.rs b/src/float/atan2.rs
index c254fee..2947d40 100644
--- a/src/float/atan2.rs
+++ b/src/float/atan2.rs
@@ -31,6 +31,23 @@ impl F32 {
             return Self::ZERO;
         }
 
+        // Rescale operands whose squares would overflow or underflow
+        let max = if y.abs() > x.abs() { y } else { x }.abs();
+        let (y, x) = if max.is_infinite() {
+            let unit = |n: Self| {
+                if n.is_infinite() {
+                    Self::ONE.copysign(n)
+                } else {
+                    n * Self::ZERO
+                }
+            };
+            (unit(y), unit(x))
+        } else if max > 1e15 || max < 1e-15 {
+            (y / max, x / max)
+        } else {
+            (y, x)
+        };
+
         // Extract sign bits from floating point values
         let ux_s = SIGN_MASK & x.to_bits();
         let uy_s = SIGN_MASK & y.to_bits();
-- 
2.43.0


From b68306655aa47ab46bab4c887714d0ba3726d2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 20/27] fix: `atan2_norm` returned 4.0, outside of its
 documented range

---
 src/float/atan2.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/float/atan2.rs b/src/float/atan2.rs
index 2947d40..d84e73b 100644
--- a/src/float/atan2.rs
+++ b/src/float/atan2.rs
@@ -62,7 +62,14 @@ impl F32 {
 
         // Translate it to the proper quadrant
         let uatan_2q = (ux_s ^ uy_s) | atan_1q.to_bits();
-        Self(q) + Self::from_bits(uatan_2q)
+        let n = Self(q) + Self::from_bits(uatan_2q);
+
+        // the sum may round up to the end of the half-open range
+        if n >= 4.0 {
+            Self::ZERO
+        } else {
+            n
+        }
     }
 }
 
-- 
2.43.0


From 9d72c7f21b8bf43dfb9544fcbdb981ec3d9729d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 21/27] fix: `to_euler` returned a pitch of zero at gimbal lock

---
 src/quaternion.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index 177a499..69bbee4 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -204,7 +204,14 @@ impl Quaternion {
     pub fn to_euler(&self) -> (f32, f32, f32) {
         let r = F32(2. * (self.0 * self.1 + self.2 * self.3))
             .atan2(F32(1. - 2. * (self.1 * self.1 + self.2 * self.2)));
-        let p = F32(2. * (self.0 * self.2 - self.1 * self.3)).asin();
+        // rounding may take the sine just out of the domain of `asin`
+        let sin_p = F32(2. * (self.0 * self.2 - self.1 * self.3));
+        let p = if sin_p.abs() > 1.0 {
+            F32::ONE.copysign(sin_p)
+        } else {
+            sin_p
+        }
+        .asin();
         let y = F32(2. * (self.0 * self.3 + self.1 * self.2))
             .atan2(F32(1. - 2. * (self.2 * self.2 + self.3 * self.3)));
 
-- 
2.43.0


From 024874f6c3bdb219d862677c5d6962c4a860c3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 22/27] fix: `from_two_vectors` of (nearly) opposite vectors

---
 src/quaternion.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index 69bbee4..16fa904 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -67,7 +67,15 @@ impl Quaternion {
         C: Component + Into<f32>,
     {
         // Implementation from http://lolengine.net/blog/2014/02/24/quaternion-from-two-vectors-final
-        let n_uv = F32(u.dot(u).into() * v.dot(v).into()).sqrt();
+        let sq_uv = u.dot(u).into() * v.dot(v).into();
+        let mut n_uv = F32(sq_uv).sqrt();
+
+        // `sqrt` is off by up to 6%, but (nearly) opposite vectors cancel out `n_uv` below:
+        // refine it using Newton's method
+        for _ in 0..3 {
+            n_uv = 0.5 * (n_uv + sq_uv / n_uv);
+        }
+
         let mut realpart = n_uv + u.dot(v).into();
 
         let w = if realpart < 1e-6 * n_uv {
-- 
2.43.0


From ac4be3ce573b829a3f255caa85b60d3f4af6ec52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 23/27] fix: formatting of `F32` ignored the width, precision
 and other flags

---
 src/float.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/float.rs b/src/float.rs
index f64968a..b52188c 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -274,7 +274,7 @@ impl AddAssign<F32> for f32 {
 impl Display for F32 {
     #[inline]
     fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(fmt, "{}", self.0)
+        Display::fmt(&self.0, fmt)
     }
 }
 
@@ -380,7 +380,7 @@ impl FromStr for F32 {
 impl LowerExp for F32 {
     #[inline]
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "{:e}", self.0)
+        LowerExp::fmt(&self.0, f)
     }
 }
 
@@ -577,7 +577,7 @@ impl Sum for F32 {
 impl UpperExp for F32 {
     #[inline]
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "{:E}", self.0)
+        UpperExp::fmt(&self.0, f)
     }
 }
 
-- 
2.43.0


From 9fe0bea674d943e3297628c454351687ddda57b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 24/27] fix: `cosh` exceeded its documented maximum error

---
 src/float/cosh.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/float/cosh.rs b/src/float/cosh.rs
index 4bcf7bc..2816e39 100644
--- a/src/float/cosh.rs
+++ b/src/float/cosh.rs
@@ -9,8 +9,9 @@ impl F32 {
     /// ## Arguments
     /// * `self` - The angle in radians.
     pub fn cosh(self) -> Self {
-        let exp_x = self.exp();
-        let exp_neg_x = (-self).exp();
+        // one more term than `exp`, which isn't precise enough for the documented error
+        let exp_x = self.exp_ln2_approx(5);
+        let exp_neg_x = (-self).exp_ln2_approx(5);
         (exp_x + exp_neg_x) / 2.0
     }
 }
-- 
2.43.0


From 962af1cc81c946087846f31521c68d9c06f3c611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 25/27] fix: `sin`/`cos` of large arguments left [-1, 1]

---
 src/float/cos.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/float/cos.rs b/src/float/cos.rs
index 7925883..1fc80f1 100644
--- a/src/float/cos.rs
+++ b/src/float/cos.rs
@@ -224,8 +224,8 @@ use core::f32::consts::FRAC_1_PI;
 impl F32 {
     /// Approximates `cos(x)` in radians with a maximum error of `0.002`.
     pub fn cos(self) -> Self {
-        let mut x = self;
-        x *= FRAC_1_PI / 2.0;
+        // turns, without the whole ones: their sum with 0.25 may not be representable
+        let mut x = (self * (FRAC_1_PI / 2.0)).fract();
         x -= 0.25 + (x + 0.25).floor().0;
         x *= 16.0 * (x.abs() - 0.5);
         x += 0.225 * x * (x.abs() - 1.0);
-- 
2.43.0


From 8d9a88beb0a293a226c223063d062eaf56a2cc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 26/27] fix: `mean` of more than `i32::MAX` items overflowed
 its counter

---
 src/statistics/mean.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statistics/mean.rs b/src/statistics/mean.rs
index 9f07aca..4082b65 100644
--- a/src/statistics/mean.rs
+++ b/src/statistics/mean.rs
@@ -14,7 +14,7 @@ where
     type Result = f32;
 
     fn mean(self) -> f32 {
-        let mut num_items = 0;
+        let mut num_items = 0usize;
         let mut sum = 0.0;
 
         for item in self {
-- 
2.43.0


From 78158724f88a987023fad78b590e2056dd3f409a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:19 +0000
Subject: [PATCH 27/27] fix: `from_two_vectors` of integer vectors overflowed

---
 src/quaternion.rs | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index 16fa904..384f7a3 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -67,7 +67,19 @@ impl Quaternion {
         C: Component + Into<f32>,
     {
         // Implementation from http://lolengine.net/blog/2014/02/24/quaternion-from-two-vectors-final
-        let sq_uv = u.dot(u).into() * v.dot(v).into();
+        // integer components would overflow in the products below
+        let u = F32x3 {
+            x: u.x.into(),
+            y: u.y.into(),
+            z: u.z.into(),
+        };
+        let v = F32x3 {
+            x: v.x.into(),
+            y: v.y.into(),
+            z: v.z.into(),
+        };
+
+        let sq_uv = u.dot(u) * v.dot(v);
         let mut n_uv = F32(sq_uv).sqrt();
 
         // `sqrt` is off by up to 6%, but (nearly) opposite vectors cancel out `n_uv` below:
@@ -76,34 +88,26 @@ impl Quaternion {
             n_uv = 0.5 * (n_uv + sq_uv / n_uv);
         }
 
-        let mut realpart = n_uv + u.dot(v).into();
+        let mut realpart = n_uv + u.dot(v);
 
         let w = if realpart < 1e-6 * n_uv {
             realpart = F32(0.);
 
-            if F32(u.x.into()).abs() > F32(u.z.into()).abs() {
+            if F32(u.x).abs() > F32(u.z).abs() {
                 Vector3d {
-                    x: -u.y.into(),
-                    y: u.x.into(),
+                    x: -u.y,
+                    y: u.x,
                     z: 0.,
                 }
             } else {
                 Vector3d {
                     x: 0.,
-                    y: -u.z.into(),
-                    z: u.y.into(),
+                    y: -u.z,
+                    z: u.y,
                 }
             }
         } else {
-            F32x3 {
-                x: u.x.into(),
-                y: u.y.into(),
-                z: u.z.into(),
-            } * F32x3 {
-                x: v.x.into(),
-                y: v.y.into(),
-                z: v.z.into(),
-            }
+            u * v
         };
 
         let q = Quaternion(realpart.0, w.x, w.y, w.z);
-- 
2.43.0

