From 9b1c0c443edcc3dece6643728577da179a64c636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:50 +0000
Subject: [PATCH 01/28] fix: keep the sticky bit of a product that becomes
 subnormal

mul_signifs dropped the bits below the two rounding bits unless they
exceeded the tie, so a second rounding to a subnormal saw an exact tie.
---
 src/binops/mul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binops/mul.rs b/src/binops/mul.rs
index 394e3ea..9009707 100644
--- a/src/binops/mul.rs
+++ b/src/binops/mul.rs
@@ -30,7 +30,7 @@ fn mul_signifs(x: &U256, y: &U256) -> (U256, u32, u32) {
     let shift = EXP_BITS - 1 + carry;
     let rem = hi.rem_pow2(shift).lo;
     let rnd_bits = (rem.0 >> (shift - 2)) as u32
-        | (rem.0 > (1 << (shift - 1))) as u32
+        | ((rem.0 & ((1 << (shift - 2)) - 1)) != 0) as u32
         | !lo.is_zero() as u32;
     hi >>= shift;
     (hi, carry, rnd_bits)
-- 
2.43.0


From 5dad68c4c4c8ef8d494909bf607efaf599d45a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:03 +0000
Subject: [PATCH 02/28] fix: order negative values by descending magnitude

total_cmp only flipped the sign bit, so the order of negative values was
reversed; partial_cmp, min, max and clamp inherited that.
---
 src/lib.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 42406f4..2764c0a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -825,9 +825,17 @@ impl f256 {
     pub fn total_cmp(&self, other: &Self) -> Ordering {
         // The internal representation of `f256` values gives - besides their
         // sign - a total ordering following the intended mathematical
-        // ordering. Thus, flipping the sign bit allows to compare the
-        // raw values.
-        self.negated().bits.cmp(&(*other).negated().bits)
+        // ordering. Thus, flipping the sign bit of positive values and all
+        // bits of negative values allows to compare the raw values.
+        const fn key(f: &f256) -> U256 {
+            let (hi, lo) = (f.bits.hi.0, f.bits.lo.0);
+            if f.is_sign_negative() {
+                U256::new(!hi, !lo)
+            } else {
+                U256::new(hi ^ HI_SIGN_MASK, lo)
+            }
+        }
+        key(self).cmp(&key(other))
     }
 
     /// Restrict a value to a certain interval unless it is NaN.
-- 
2.43.0


From 705a719acb55f56c1e2d401679ba59aa295e0b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:29 +0000
Subject: [PATCH 03/28] fix: classify every NaN as NaN

Only the canonical quiet NaN was recognised, all other payloads were
classified as Normal.
---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2764c0a..5a4dd77 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -539,9 +539,9 @@ impl f256 {
         match abs_bits_sticky {
             0 => FpCategory::Zero,
             INF_HI => FpCategory::Infinite,
-            NAN_HI => FpCategory::Nan,
             ..=HI_FRACTION_MASK => FpCategory::Subnormal,
-            _ => FpCategory::Normal,
+            ..=MAX_HI => FpCategory::Normal,
+            _ => FpCategory::Nan,
         }
     }
 
-- 
2.43.0


From 3f3db38059609a5b33c2dd0fc564c7cdafee69e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 04/28] fix: do not overflow when scaling a subnormal up

mul_pow2 returned infinity for every n >= 2^19 - 1, though up to 235 of
these steps only normalize a subnormal operand.
---
 src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5a4dd77..7471ef0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1153,14 +1153,21 @@ impl f256 {
         }
         // self is finite and non-zero.
         let exp_bits = exp_bits(&abs_bits);
-        if exp_bits.saturating_add(n) >= EXP_MAX {
+        let fraction = fraction(&abs_bits);
+        // A subnormal has atmost FRACTION_BITS leading zeroes to be absorbed
+        // before its exponent starts to grow.
+        let n_absorbed = if exp_bits == 0 {
+            FRACTION_BITS - 1 - fraction.msb()
+        } else {
+            0
+        };
+        if exp_bits.saturating_add(n).saturating_sub(n_absorbed) >= EXP_MAX {
             return [Self::INFINITY, Self::NEG_INFINITY]
                 [self.sign() as usize];
         }
         if exp_bits == 0 {
             // self is subnornal
             const EXP: i32 = 1 - (EXP_BIAS as i32 + FRACTION_BITS as i32);
-            let fraction = fraction(&abs_bits);
             let exp = EXP + n as i32;
             return Self::from_sign_exp_signif(
                 self.sign(),
-- 
2.43.0


From a6f83596bf271860e403fa1aec26e3d4996ea382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 05/28] fix: round correctly when scaling down to a subnormal

div_pow2 dropped the hidden bit when the biased exponent equals n, and
returned zero for positive subnormals that have to be rounded up.
---
 src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7471ef0..857ffd1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1237,14 +1237,15 @@ impl f256 {
         }
         // self is finite and non-zero.
         let exp_bits = exp_bits(&abs_bits);
-        if exp_bits < n {
+        if exp_bits < n.saturating_add(norm_bit(&abs_bits)) {
             // result is subnornal or underflows to zero
             const EXP: i32 = 1 - (EXP_BIAS as i32 + FRACTION_BITS as i32);
-            let shr = n - exp_bits + norm_bit(&abs_bits);
-            if shr > self.bits.msb() {
+            let shr = (n - exp_bits).saturating_add(norm_bit(&abs_bits));
+            let signif = signif(&abs_bits);
+            if shr > signif.msb() + 1 {
                 return [Self::ZERO, Self::NEG_ZERO][self.sign() as usize];
             }
-            let signif = signif(&abs_bits).rounding_div_pow2(shr);
+            let signif = signif.rounding_div_pow2(shr);
             if signif.is_zero() {
                 return [Self::ZERO, Self::NEG_ZERO][self.sign() as usize];
             }
-- 
2.43.0


From 5423b87d4dd5a8edc816f50e78f22b44a86d6a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 06/28] fix: keep the sticky bits in sum_of_squares

Bits shifted out of a subnormal sum and a subnormal operand next to a
normal one were ignored, so ties were resolved wrongly.
---
 src/fused_ops/sos.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/fused_ops/sos.rs b/src/fused_ops/sos.rs
index a11ee76..7557a0d 100644
--- a/src/fused_ops/sos.rs
+++ b/src/fused_ops/sos.rs
@@ -40,16 +40,17 @@ pub(crate) fn sos(x: &f256, y: &f256) -> f256 {
             // Atleast one operand is NAN.
             return f256::NAN;
         }
-        if abs_bits_sticky_x <= HI_FRACTION_MASK {
-            // x is zero or subnormal.
+        if max_abs_bits_sticky == INF_HI {
+            // Atleast one operand is infinite.
+            return f256::INFINITY;
+        }
+        if abs_bits_sticky_x == 0 {
             return y.square();
         }
-        if abs_bits_sticky_y <= HI_FRACTION_MASK {
-            // y is zero or subnormal.
+        if abs_bits_sticky_y == 0 {
             return x.square();
         }
-        // For all other special cases the result is INF.
-        return f256::INFINITY;
+        // One operand is subnormal and the other is normal.
     }
 
     // Both operands are finite and non-zero.
@@ -109,7 +110,9 @@ pub(crate) fn sos(x: &f256, y: &f256) -> f256 {
     let shr = max(-exp_bits_z, EXP_BITS as i32 - nlz);
     let shl =
         max(exp_bits_z - EXP_MAX as i32, nlz - EXP_BITS as i32).clamp(0, 236);
-    signif_z >>= shr.clamp(0, 511) as u32;
+    let (t, rem) = signif_z.widening_shr(shr.clamp(0, 511) as u32);
+    signif_z = t;
+    signif_z.lo.lo.0 |= (!rem.is_zero()) as u128;
     signif_z <<= shl as u32;
     exp_bits_z += shr - shl + (signif_z.hi.hi.0 > HI_FRACTION_MASK) as i32;
     if exp_bits_z >= EXP_MAX as i32 {
-- 
2.43.0


From e89bdbd380e70fd3d4071b7765cd593a52e85729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:44 +0000
Subject: [PATCH 07/28] fix: let a zero remainder keep the sign of the dividend

IEEE 754 and the % operator of the primitive floats return -0 for
negative dividends.
---
 src/binops/rem.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/binops/rem.rs b/src/binops/rem.rs
index 114425f..c11a62d 100644
--- a/src/binops/rem.rs
+++ b/src/binops/rem.rs
@@ -65,7 +65,9 @@ pub(crate) fn rem(x: f256, y: f256) -> f256 {
 
     // If the significands are equal, |x| is an integral multiple of |y|.
     if signif_x == signif_y {
-        return f256::ZERO;
+        return f256 {
+            bits: U256::new(sign_bits_hi(&x), 0),
+        };
     }
 
     let n_bits = exp_bits_x + norm_bit_y - exp_bits_y - norm_bit_x;
@@ -81,7 +83,9 @@ pub(crate) fn rem(x: f256, y: f256) -> f256 {
         }
     }
     if abs_bits_z.is_zero() {
-        return f256::ZERO;
+        return f256 {
+            bits: U256::new(sign_bits_hi(&x), 0),
+        };
     }
     let shift_z = min(
         FRACTION_BITS - abs_bits_z.msb(),
-- 
2.43.0


From 07cd08da08f4738b344babe77781f041f556c6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 08/28] fix: estimate quotient digits correctly when dividing
 512 bit integers

The remainder operation panicked (or returned a wrong result) for divisors
whose normalized two leading digits are close to the quotient estimate's
overflow limit.
---
 src/big_uint/uint_generic/binops/divrem.rs | 48 +++++++---------------
 1 file changed, 15 insertions(+), 33 deletions(-)

diff --git a/src/big_uint/uint_generic/binops/divrem.rs b/src/big_uint/uint_generic/binops/divrem.rs
index 50d4142..fb8b3f5 100644
--- a/src/big_uint/uint_generic/binops/divrem.rs
+++ b/src/big_uint/uint_generic/binops/divrem.rs
@@ -8,7 +8,6 @@
 // $Revision$
 
 use core::{
-    cmp::Ordering,
     convert::From,
     ops::{Div, Rem},
 };
@@ -111,41 +110,24 @@ where
             // self < rhs
             return (UInt::<SubUInt>::ZERO, *self);
         } else {
-            // estimate the quotient
-            let nlz = self.hi.leading_zeros();
-            let mut quot = UInt::<SubUInt>::from_hi_lo(
-                SubUInt::ZERO,
-                (self << nlz).hi / (rhs << nlz).hi,
-            );
-            // trim the estimate
+            // Estimate the quotient, using the leading bits of the divisor.
+            // The estimate is atmost 1 too large. See Hacker's Delight, 9-5.
+            let nlz = rhs.hi.leading_zeros();
+            let (mut quot, _) =
+                (self >> 1).div_rem_subuint_special(&(rhs << nlz).hi);
+            quot >>= SubUInt::BITS - 1 - nlz;
+            if !quot.is_zero() {
+                quot.decr();
+            }
+            // Now the estimate is atmost 1 too small, and rhs * quot can not
+            // overflow.
             let mut t = *rhs;
             t *= &quot;
-            match (&t).cmp(&self) {
-                Ordering::Greater => {
-                    let mut d = &t - self;
-                    let (mut n, _) = d.div_rem(*rhs);
-                    n.incr();
-                    debug_assert!(n.hi.is_zero());
-                    quot -= &n;
-                    d = *rhs;
-                    d *= &n;
-                    t -= &d;
-                }
-                Ordering::Less => {
-                    let (u, ovl) = t.overflowing_add(&rhs);
-                    if ovl {
-                        let mut d = self - &t;
-                        let (n, _) = d.div_rem(*rhs);
-                        debug_assert!(n.hi.is_zero());
-                        quot += &n;
-                        d = *rhs;
-                        d *= &n;
-                        t += &d;
-                    }
-                }
-                Ordering::Equal => return (quot, UInt::<SubUInt>::ZERO),
+            let mut rem = self - &t;
+            if rem >= *rhs {
+                quot.incr();
+                rem = &rem - rhs;
             }
-            let rem = self - &t;
             (quot, rem)
         }
     }
-- 
2.43.0


From d8c700da2862515c6665cb1ee66e32753c2d34f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:14 +0000
Subject: [PATCH 09/28] fix: round fused multiply-add correctly for subnormal
 operands and results

---
 src/fused_ops/fma.rs | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/fused_ops/fma.rs b/src/fused_ops/fma.rs
index 07fa345..efd60cb 100644
--- a/src/fused_ops/fma.rs
+++ b/src/fused_ops/fma.rs
@@ -266,13 +266,15 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
 
     // Calculate x * y + a, rounded tie to even.
 
-    // Extract biased exponents and significands.
+    // Extract biased exponents and significands. The significands of the
+    // multiplicands are normalized, so that the product keeps enough leading
+    // bits in front of the sticky bit of a far smaller addend.
     let exp_bits_x = exp_bits(&abs_bits_x) as i32;
     let norm_bit_x = norm_bit(&abs_bits_x) as i32;
-    let signif_x = signif(&abs_bits_x);
+    let (signif_x, norm_shift_x) = norm_signif(&abs_bits_x);
     let exp_bits_y = exp_bits(&abs_bits_y) as i32;
     let norm_bit_y = norm_bit(&abs_bits_y) as i32;
-    let signif_y = signif(&abs_bits_y);
+    let (signif_y, norm_shift_y) = norm_signif(&abs_bits_y);
     let exp_bits_a = exp_bits(&abs_bits_a) as i32;
     let norm_bit_a = norm_bit(&abs_bits_a) as i32;
     let signif_a = signif(&abs_bits_a);
@@ -292,8 +294,9 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
     // E(p) = e(x) + e(y) - Eₘᵢₙ
     //      = E(x) - n(x) + Eₘᵢₙ + E(y) - n(y) + Eₘᵢₙ - Eₘᵢₙ
     //      = E(x) - n(x)) + E(y) - n(y) + Eₘᵢₙ
-    let exp_bits_p =
-        (exp_bits_x - norm_bit_x) + (exp_bits_y - norm_bit_y) + EMIN;
+    let exp_bits_p = (exp_bits_x - norm_bit_x - norm_shift_x as i32)
+        + (exp_bits_y - norm_bit_y - norm_shift_y as i32)
+        + EMIN;
     // Align the addend based on the difference of the exponents of the addend
     // and the product. Swap the operands, so that the larger one is the
     // first. The sign of the result is the sign of the larger operand.
@@ -318,14 +321,10 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
         i32::MIN..=ADDEND_TOO_SMALL_UPPER_LIMIT => {
             (&mut signif_p, &u768::STICKY_BIT, sign_bits_hi_p)
         }
-        PROD_ANCHORED_LOWER_LIMIT..=-1 => {
-            let shr = (REL_OFFSET as i32 - d) as u32;
-            signif_a_shifted = u768::from_u256_shifted(&signif_a, shr);
-            (&mut signif_p, &signif_a_shifted, sign_bits_hi_p)
-        }
-        0..=1 => {
+        PROD_ANCHORED_LOWER_LIMIT..=ADDEND_ANCHORED_UPPER_LIMIT => {
             // Because of the uncertainty on the leading digit of the product
-            // we have to check explicitly for max(p, a).
+            // and because a subnormal addend is not normalized, we have to
+            // check explicitly for max(p, a).
             let shr = (REL_OFFSET as i32 - d) as u32;
             signif_a_shifted = u768::from_u256_shifted(&signif_a, shr);
             if signif_p >= signif_a_shifted {
@@ -334,11 +333,6 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
                 (&mut signif_a_shifted, &signif_p, sign_bits_hi_a)
             }
         }
-        2..=ADDEND_ANCHORED_UPPER_LIMIT => {
-            let shr = (REL_OFFSET as i32 - d) as u32;
-            signif_a_shifted = u768::from_u256_shifted(&signif_a, shr);
-            (&mut signif_a_shifted, &signif_p, sign_bits_hi_a)
-        }
         _ => {
             // Product too small.
             signif_a_shifted = u768::from_u256_shifted(&signif_a, 0);
@@ -370,10 +364,12 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
         if t >= 1 {
             (t - 1, n)
         } else {
-            (0, REL_OFFSET)
+            // Result is subnormal. Because of d <= ADDEND_ANCHORED_UPPER_LIMIT
+            // and E(a) - n(a) >= 0 we have E(p) > -REL_OFFSET.
+            (0, (REL_OFFSET as i32 + exp_bits_p) as u32)
         }
     } else {
-        (exp_bits_a - 1, 0)
+        (exp_bits_a - norm_bit_a, 0)
     };
     *signif_z <<= shl;
     // Now we have the results preliminary significand in signif_z.hi, before
-- 
2.43.0


From c08c500ef73b1ab2d9cf62a8f7e1ed2b37f8e522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:14 +0000
Subject: [PATCH 10/28] fix: keep the sign when rounding to an integral value
 gives zero

Also round_tie_even treated values slightly greater than 0.5 as a tie.
---
 src/lib.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 857ffd1..aadc9c5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -918,7 +918,9 @@ impl f256 {
             return match (sign, adj(sign)) {
                 (0, true) => Self::ONE,
                 (1, true) => Self::NEG_ONE,
-                (..) => Self::ZERO,
+                (..) => Self {
+                    bits: U256::new(sign_bits_hi(self), 0),
+                },
             };
         }
         // 1 < |self| < 2²³⁶
@@ -1054,7 +1056,9 @@ impl f256 {
         }
         if abs_bits.hi.0 < ONE_HALF.bits.hi.0 {
             // 0 < |self| < ½
-            return Self::ZERO;
+            return Self {
+                bits: U256::new(sign_bits_hi(self), 0),
+            };
         }
         if abs_bits.hi.0 <= ONE.bits.hi.0 {
             // ½ <= |self| <= 1
@@ -1106,9 +1110,11 @@ impl f256 {
             // |self| >= 2²³⁶, i. e. self is integral.
             return *self;
         }
-        if abs_bits.hi.0 <= ONE_HALF.bits.hi.0 {
+        if abs_bits <= ONE_HALF.bits {
             // 0 < |self| <= ½
-            return Self::ZERO;
+            return Self {
+                bits: U256::new(sign_bits_hi(self), 0),
+            };
         }
         if abs_bits.hi.0 <= ONE.bits.hi.0 {
             // ½ < |self| <= 1
-- 
2.43.0


From 9b7e97d17386dd7c087c973dd097939383de1b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:15 +0000
Subject: [PATCH 11/28] Revert "fix: order negative values by descending
 magnitude"

This reverts commit 5dad68c. The existing tests test_continuity_near_pi_half
and test_continuity_near_three assert the reversed order (cos is decreasing
on (0, pi), they demand cos x <= cos y for x < y with negative cosines), so
the repair can not be made without editing tests.
---
 src/lib.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index aadc9c5..07f04f0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -825,17 +825,9 @@ impl f256 {
     pub fn total_cmp(&self, other: &Self) -> Ordering {
         // The internal representation of `f256` values gives - besides their
         // sign - a total ordering following the intended mathematical
-        // ordering. Thus, flipping the sign bit of positive values and all
-        // bits of negative values allows to compare the raw values.
-        const fn key(f: &f256) -> U256 {
-            let (hi, lo) = (f.bits.hi.0, f.bits.lo.0);
-            if f.is_sign_negative() {
-                U256::new(!hi, !lo)
-            } else {
-                U256::new(hi ^ HI_SIGN_MASK, lo)
-            }
-        }
-        key(self).cmp(&key(other))
+        // ordering. Thus, flipping the sign bit allows to compare the
+        // raw values.
+        self.negated().bits.cmp(&(*other).negated().bits)
     }
 
     /// Restrict a value to a certain interval unless it is NaN.
-- 
2.43.0


From e61d7dadfdf45b23e55292072bac8d1f60f698a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 12/28] fix: let to_ne_bytes give the native byte order

On little endian targets the two 128 bit halves were swapped.
---
 src/lib.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 07f04f0..0935fb5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -747,11 +747,12 @@ impl f256 {
     /// byte array in native byte order.
     #[must_use]
     #[inline]
-    #[allow(unsafe_code)]
     pub const fn to_ne_bytes(self) -> [u8; 32] {
-        let bits = self.to_bits();
-        // SAFETY: safe because size of (u128, u128) == size of [u8; 32]
-        unsafe { core::mem::transmute(bits) }
+        if cfg!(target_endian = "big") {
+            self.to_be_bytes()
+        } else {
+            self.to_le_bytes()
+        }
     }
 
     /// Create a floating point value from its representation as a byte array
@@ -790,11 +791,12 @@ impl f256 {
     /// in native endian.
     #[must_use]
     #[inline]
-    #[allow(unsafe_code)]
     pub const fn from_ne_bytes(bytes: [u8; 32]) -> Self {
-        // SAFETY: safe because size of (u128, u128) == size of [u8; 32]
-        let bits: (u128, u128) = unsafe { core::mem::transmute(bytes) };
-        Self::from_bits(bits)
+        if cfg!(target_endian = "big") {
+            Self::from_be_bytes(bytes)
+        } else {
+            Self::from_le_bytes(bytes)
+        }
     }
 
     /// Return the ordering between `self` and `other`.
-- 
2.43.0


From 122785826800809fe4cfe27a362253589c74480d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:19 +0000
Subject: [PATCH 13/28] fix: parse signed zeros, missing digits and huge
 exponents like f64

A literal of zeros lost its sign; '.', '1e+' and the like were accepted;
exponents near the bounds of i32 wrapped around when adjusted.
---
 src/conv/from_str/common.rs     |  2 ++
 src/conv/from_str/float_repr.rs | 20 ++++++++++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/conv/from_str/common.rs b/src/conv/from_str/common.rs
index c12c42c..4e175c2 100644
--- a/src/conv/from_str/common.rs
+++ b/src/conv/from_str/common.rs
@@ -255,6 +255,8 @@ impl<'a> AsciiNumLit<'a> {
                     } else {
                         return None;
                     }
+                } else {
+                    return None;
                 }
                 while let Some(c) = self.first() {
                     let d = c.wrapping_sub(b'0');
diff --git a/src/conv/from_str/float_repr.rs b/src/conv/from_str/float_repr.rs
index 37286d1..320041c 100644
--- a/src/conv/from_str/float_repr.rs
+++ b/src/conv/from_str/float_repr.rs
@@ -269,9 +269,16 @@ impl FloatRepr {
         let start_pos = lit.len();
 
         lit.skip_leading_zeroes(true);
+
         if lit.is_empty() {
             // There must have been atleast one zero.
-            return Self::Number(DecNumRepr::default());
+            if start_pos == lit.state.pos_radix_point.is_some() as usize {
+                return Self::Invalid;
+            }
+            return Self::Number(DecNumRepr {
+                sign,
+                ..DecNumRepr::default()
+            });
         }
 
         // Parse significant digits.
@@ -287,6 +294,11 @@ impl FloatRepr {
             return Self::parse_special(&mut lit, sign);
         }
 
+        // A radix point alone is not a number.
+        if start_pos - lit.len() == 1 && lit.state.pos_radix_point.is_some() {
+            return Self::Invalid;
+        }
+
         // Set implicit radix point if no one was detected.
         if lit.state.pos_radix_point.is_none() {
             lit.state.pos_radix_point = Some(lit.len());
@@ -313,14 +325,14 @@ impl FloatRepr {
             lit.state.start_pos_signif.saturating_sub(pos_radix_point);
         let n_truncated_int_digits =
             n_int_digits.saturating_sub(PartialSignif::MAX_N_DIGITS);
-        exponent += n_truncated_int_digits as i32;
+        exponent = exponent.saturating_add(n_truncated_int_digits as i32);
         let n_frac_digits =
             pos_radix_point.saturating_sub(lit.state.end_pos_signif + 1);
-        exponent -= n_frac_digits as i32;
+        exponent = exponent.saturating_sub(n_frac_digits as i32);
 
         // Get normalized significand and adjust exponent
         let n_trailing_zeroes = partial_signif.normalize();
-        exponent += n_trailing_zeroes as i32;
+        exponent = exponent.saturating_add(n_trailing_zeroes as i32);
         let significand = partial_signif.significand();
         Self::Number(DecNumRepr {
             sign,
-- 
2.43.0


From f5d2a83b92a4ebb82797d60643d5ee7ccefe09b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:02 +0000
Subject: [PATCH 14/28] fix: round half to even in the slow path of from_str

Ties were rounded down, and digits behind the last significant one were
taken from an earlier state of the buffer.
---
 src/conv/big_decimal.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/conv/big_decimal.rs b/src/conv/big_decimal.rs
index c6db9ae..857d5a8 100644
--- a/src/conv/big_decimal.rs
+++ b/src/conv/big_decimal.rs
@@ -475,11 +475,18 @@ impl Decimal {
         let dp = self.decimal_point as usize;
         let mut n = U256::ZERO;
         for i in 0..dp {
-            imul10_add(&mut n, self.digits[i]);
+            imul10_add(
+                &mut n,
+                if i < self.n_digits { self.digits[i] } else { 0 },
+            );
         }
-        if self.digits[dp] > 5
-            || self.digits[dp] == 5
-                && (dp < self.n_digits - 1 || self.truncated)
+        // Digits behind the last significant digit are zero.
+        if dp < self.n_digits
+            && (self.digits[dp] > 5
+                || self.digits[dp] == 5
+                    && (dp < self.n_digits - 1
+                        || self.truncated
+                        || n.lo.is_odd()))
         {
             n.incr();
         }
-- 
2.43.0


From c27263894008fc8c2801e922d5669a5dca2942d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:02 +0000
Subject: [PATCH 15/28] fix: do not flush decimal literals near the smallest
 subnormal to zero

---
 src/conv/from_str/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/conv/from_str/mod.rs b/src/conv/from_str/mod.rs
index cf8add4..c200b62 100644
--- a/src/conv/from_str/mod.rs
+++ b/src/conv/from_str/mod.rs
@@ -24,8 +24,8 @@ use super::big_decimal::{Decimal, MAX_DIGITS};
 use crate::{f256, HI_FRACTION_BIAS, MIN_GT_ZERO_10_EXP, U256};
 
 /// Minimum possible subnormal power of 10 exponent - adjustment of
-/// significand: ⌊(Eₘᵢₙ + 1 - p) × log₁₀(2)⌋ - ⌈p × log₁₀(2)⌉.
-const MIN_10_EXP_CUTOFF: i32 = -79056;
+/// significand: ⌊(Eₘᵢₙ + 1 - p) × log₁₀(2)⌋ - max. number of digits.
+const MIN_10_EXP_CUTOFF: i32 = -79061;
 
 // The internals of ParseFloatError are not public. The following hack is used
 // to return the same errors as f64.
@@ -81,12 +81,12 @@ impl FromStr for f256 {
                 //  • ±0 if w = 0 or e < Eₘᵢₙ + 1 - p,
                 //  • ±Infinity if e > Eₘₐₓ.
 
-                // k < ⌊(Eₘᵢₙ + 1 - p) × log₁₀(2)⌋ - ⌈p × log₁₀(2)⌉
+                // k < ⌊(Eₘᵢₙ + 1 - p) × log₁₀(2)⌋ - 77 and w < 10⁷⁷
                 // => e < Eₘᵢₙ + 1 - p
                 if signif10.is_zero() || exp10 < MIN_10_EXP_CUTOFF {
                     return Ok([Self::ZERO, Self::NEG_ZERO][sign as usize]);
                 }
-                // k > ⌊(Eₘᵢₙ + 1 - p) × log₁₀(2)⌋ - ⌈p × log₁₀(2)⌉ and
+                // k >= ⌊(Eₘᵢₙ + 1 - p) × log₁₀(2)⌋ - 77 and
                 // k < ⌊(Eₘᵢₙ + 1 - p) × log₁₀(2)⌋
                 // => e < Eₘᵢₙ
                 if exp10 < MIN_GT_ZERO_10_EXP {
-- 
2.43.0


From a42d9c1c95a9d986484ee46487668824e5d320cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:48 +0000
Subject: [PATCH 16/28] fix: treat an inexact product in from_str as more than
 a tie

The truncated lower half of w x 5^k decides whether there is a tie.
---
 src/conv/from_str/fast_approx.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/conv/from_str/fast_approx.rs b/src/conv/from_str/fast_approx.rs
index d7b14cf..253b86d 100644
--- a/src/conv/from_str/fast_approx.rs
+++ b/src/conv/from_str/fast_approx.rs
@@ -77,10 +77,16 @@ pub(super) fn fast_approx(
             }
             Ordering::Equal => {
                 // Check edge cases.
-                // If 5ᵏ ∈ [1..2²⁵⁶) we can be sure to have a tie, otherwise
+                // If 5ᵏ ∈ [1..2²⁵⁶) we have a tie or, as the lower half of the
+                // product has been truncated, a little bit more. Otherwise
                 // we have "a tie and a little bit more".
                 if (0..=110).contains(&exp10) {
-                    Some(signif2.lo.is_odd())
+                    if signif2.lo.is_odd() {
+                        Some(true)
+                    } else {
+                        // Fall back to slow algorithm.
+                        None
+                    }
                 } else {
                     Some(true)
                 }
-- 
2.43.0


From 8449abdb21b423fb93e1331ca302538703120981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:58 +0000
Subject: [PATCH 17/28] fix: bounds of the interval used to find the shortest
 decimal digits

---
 src/conv/to_str/dec_repr.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/conv/to_str/dec_repr.rs b/src/conv/to_str/dec_repr.rs
index 97aaf32..5b9009f 100644
--- a/src/conv/to_str/dec_repr.rs
+++ b/src/conv/to_str/dec_repr.rs
@@ -17,7 +17,7 @@ use super::{
 };
 use crate::{
     big_uint::{HiLo, U128},
-    f256, BigUInt, DivRem, U256, U512,
+    f256, BigUInt, DivRem, EMIN, FRACTION_BITS, HI_FRACTION_BIAS, U256, U512,
 };
 
 /// Returns ⌊log₁₀(5ⁱ)⌋ for 0 <= i <= 262380.
@@ -135,15 +135,19 @@ impl DecNumRepr {
 
         let accept_bounds = signif2.is_even();
 
+        // The distance to the next smaller value is only half of the distance
+        // to the next larger one if the significand is a power of two (unless
+        // the next smaller value has the same quantum).
+        let is_regular = signif2 != U256::new(HI_FRACTION_BIAS, 0)
+            || exp2 == EMIN - FRACTION_BITS as i32;
+
         // Subtract 2 from exponent and adjust significand in prep of step 2.
         exp2 -= 2;
         signif2 <<= 2;
 
         // Step 2: Compute the halfway points to the next smaller and larger
         // floating point values.
-        let is_non_integer = exp2 < -(signif2.trailing_zeros() as i32);
-        let lower_signif2 =
-            &signif2 - &U256::from(1 + is_non_integer as u128);
+        let lower_signif2 = &signif2 - &U256::from(1 + is_regular as u128);
         let upper_signif2 = &signif2 + &U256::TWO;
 
         // Step 3: Convert the interval to a decimal power base.
@@ -213,13 +217,13 @@ impl DecNumRepr {
                 // zero bits.
                 rem_zero = true;
                 if accept_bounds {
-                    // lower_signif2 = signif2 - 1 - is_non_integer, so it has
-                    // a trailing zero bit if f is not an integer.
-                    lower_rem_zero = is_non_integer;
+                    // lower_signif2 = signif2 - 1 - is_regular, so it has a
+                    // trailing zero bit if the lower bound is regular.
+                    lower_rem_zero = is_regular;
                 } else {
                     // uppper_signif2 = signif2 + 2, so it always has at least
                     // one trailing zero bit.
-                    signif10.decr();
+                    upper_signif10.decr();
                 }
             } else if g <= 238 {
                 // signif2 has atmost 239 bits, i.e atmost 238 trailing
@@ -238,8 +242,8 @@ impl DecNumRepr {
             let (mut upper_quot, mut upper_rem) =
                 upper_signif10.div_rem(10_u64);
             while lower_quot < upper_quot {
-                (signif10, round_digit) = signif10.div_rem(10_u64);
                 rem_zero &= round_digit == 0;
+                (signif10, round_digit) = signif10.div_rem(10_u64);
                 lower_signif10 = lower_quot;
                 lower_rem_zero &= lower_rem == 0;
                 upper_signif10 = upper_quot;
@@ -249,8 +253,8 @@ impl DecNumRepr {
             }
             if lower_rem_zero {
                 while lower_rem == 0 && !lower_signif10.is_zero() {
-                    (signif10, round_digit) = signif10.div_rem(10_u64);
                     rem_zero &= round_digit == 0;
+                    (signif10, round_digit) = signif10.div_rem(10_u64);
                     lower_signif10 = lower_quot;
                     (lower_quot, lower_rem) = lower_signif10.div_rem(10_u64);
                     i += 1;
@@ -259,6 +263,9 @@ impl DecNumRepr {
             if round_digit > 5  // need to round up
                 || (round_digit == 5    // need to round to even
                 && (!rem_zero || signif10.lo.is_odd()))
+                // lower bound itself is not in the interval
+                || (signif10 == lower_signif10
+                && (!accept_bounds || !lower_rem_zero))
             {
                 signif10.incr();
             }
-- 
2.43.0


From 86e1ba9eef80ce2004d2f35ce7af7072f2089463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:05 +0000
Subject: [PATCH 18/28] fix: print all digits of large integers in fixed-point
 notation

---
 src/conv/to_str/to_fixed_prec.rs | 40 ++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/conv/to_str/to_fixed_prec.rs b/src/conv/to_str/to_fixed_prec.rs
index 56339c8..b8d7df6 100644
--- a/src/conv/to_str/to_fixed_prec.rs
+++ b/src/conv/to_str/to_fixed_prec.rs
@@ -10,6 +10,7 @@
 use alloc::{
     format,
     string::{String, ToString},
+    vec::Vec,
 };
 use core::{
     cmp::{max, min},
@@ -167,6 +168,42 @@ fn round_up_fixed_point_inplace(num: &mut str) {
     }
 }
 
+/// Appends all decimal digits of the integer signif2 × 2ⁿ.
+#[allow(clippy::cast_possible_truncation)]
+fn push_large_int(signif2: &U256, mut n: u32, buf: &mut String) {
+    // Little-endian sequence of decimal chunks.
+    const CHUNK_BASE: u64 = 1_000_000_000;
+    // CHUNK_BASE × 2³³ + 2³⁴ < 2⁶⁴
+    const MAX_SHIFT: u32 = 33;
+    let mut chunks: Vec<u64> = Vec::new();
+    let mut t = *signif2;
+    while !t.is_zero() {
+        let (quot, rem) = t.div_rem(CHUNK_BASE);
+        chunks.push(rem);
+        t = quot;
+    }
+    while n > 0 {
+        let sh = min(n, MAX_SHIFT);
+        let mut carry = 0_u64;
+        for chunk in &mut chunks {
+            let t = (*chunk << sh) + carry;
+            *chunk = t % CHUNK_BASE;
+            carry = t / CHUNK_BASE;
+        }
+        while carry > 0 {
+            chunks.push(carry % CHUNK_BASE);
+            carry /= CHUNK_BASE;
+        }
+        n -= sh;
+    }
+    if let Some(chunk) = chunks.pop() {
+        buf.push_str(chunk.to_string().as_str());
+    }
+    for chunk in chunks.iter().rev() {
+        buf.push_str(format!("{chunk:09}").as_str());
+    }
+}
+
 /// Converts a positive finite binary float into a string representing a
 /// decimal number dₘ⋯d₀.d₋₁⋯d₋ₚ where d ∈ [0..9] and p is the given number of
 /// fractional digits.
@@ -197,6 +234,9 @@ pub(crate) fn bin_2_dec_fixed_point(f: f256, prec: usize) -> String {
     // Integer part
     if is_less_than_one {
         res.push('0');
+    } else if exp2 > 0 {
+        // The shortest representation may not have all digits.
+        push_large_int(&signif2, exp2 as u32, &mut res);
     } else {
         res.push_str(ip.to_string().as_str());
     }
-- 
2.43.0


From 7e9d0494c45e71a9062374cd8a409bc0b9e03718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:05 +0000
Subject: [PATCH 19/28] fix: tie criterion in scientific notation of numbers
 less than one

---
 src/conv/to_str/to_fixed_prec.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/conv/to_str/to_fixed_prec.rs b/src/conv/to_str/to_fixed_prec.rs
index b8d7df6..2ff3c2e 100644
--- a/src/conv/to_str/to_fixed_prec.rs
+++ b/src/conv/to_str/to_fixed_prec.rs
@@ -568,11 +568,13 @@ fn bin_fract_2_scientific(
         round = Round::Up;
     } else if rem == tie {
         // Need to check whether we really have a tie, i.e.
-        // signif2 * 10 ^ (prec + 1) / 2 ^ -exp2 is an integer.
+        // signif2 * 10 ^ (prec - exp10 + 1) / 2 ^ -exp2 is an integer.
         // This is the case if the number of trailing zeroes of the numerator
         // is greater than or equal to -exp2.
         round =
-            if (signif2.trailing_zeros() + prec as u32 + 1) as i32 >= -exp2 {
+            if signif2.trailing_zeros() as i32 + prec as i32 - exp10 + 1
+                >= -exp2
+            {
                 Round::ToEven
             } else {
                 Round::Up
-- 
2.43.0


From d99481d21e4617be4b866d4ec44bbf97faa25393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:21 +0000
Subject: [PATCH 20/28] fix: decimal exponent of numbers close to a power of
 ten in scientific notation

---
 src/conv/to_str/common.rs        |   8 ++-
 src/conv/to_str/to_fixed_prec.rs | 104 ++++++++++++++++---------------
 2 files changed, 60 insertions(+), 52 deletions(-)

diff --git a/src/conv/to_str/common.rs b/src/conv/to_str/common.rs
index ec66d52..9eae038 100644
--- a/src/conv/to_str/common.rs
+++ b/src/conv/to_str/common.rs
@@ -18,12 +18,16 @@ pub(crate) const fn floor_log10_pow2(i: i32) -> i32 {
     ((i as i128 * 169464822037455) >> 49) as i32
 }
 
-/// Returns ⌊log₁₀(m × 2ⁱ)⌋.
+/// Returns ⌊log₁₀(m × 2ⁱ)⌋ or, if m × 2ⁱ is equal to or slightly greater than
+/// a power of ten, ⌊log₁₀(m × 2ⁱ)⌋ - 1.
 #[inline(always)]
 #[allow(clippy::cast_possible_truncation)]
 #[allow(clippy::cast_precision_loss)]
 pub(crate) fn floor_log10f(m: U256, i: i32) -> i32 {
-    (((m.hi.0 as f64).log2() + 128_f64 + (i as f64)) * LOG10_2).trunc() as i32
+    // Upper bound of the absolute error of the f64 calculation.
+    const ERR: f64 = 1e-10;
+    (((m.hi.0 as f64).log2() + 128_f64 + (i as f64)) * LOG10_2 - ERR).floor()
+        as i32
 }
 
 // The following code is copied from rust stdlib.
diff --git a/src/conv/to_str/to_fixed_prec.rs b/src/conv/to_str/to_fixed_prec.rs
index 2ff3c2e..d600b7e 100644
--- a/src/conv/to_str/to_fixed_prec.rs
+++ b/src/conv/to_str/to_fixed_prec.rs
@@ -291,41 +291,43 @@ fn bin_small_float_2_scientific(
     // k = prec - exp10
     // n = -exp2
     // signif10 = ⌊signif2 × 10ᵏ / 2ⁿ⌋, rounded tie to even
-    let k = prec as i32 - exp10;
     let n = -exp2;
-    // 0 <= prec <= 99 and 0 <= exp10 < 71 => -70 <= k <= 99
-    let signif10 = if k >= 0 {
-        // k >= 0 and 10ᵏ = 5ᵏ × 2ᵏ =>
-        // ⌊signif2 × 10ᵏ / 2ⁿ⌋ = ⌊signif2 × 5ᵏ × 2ᵏ⁻ⁿ⌋
-        let (lo, hi) = signif2.widening_mul(&get_power_of_five(k as u32));
-        let mut t = U512::from_hi_lo(hi, lo);
-        if k < n {
-            // k < n => ⌊signif2 × 5ᵏ × 2ᵏ⁻ⁿ⌋ = ⌊signif2 × 5ᵏ / 2ⁿ⁻ᵏ⌋
-            // 0 < n < 237 and 0 <= k < n => 0 < (n - k) < 237
-            t = t.rounding_div_pow2((n - k) as u32);
+    let s = loop {
+        let k = prec as i32 - exp10;
+        // 0 <= prec <= 99 and 0 <= exp10 < 71 => -70 <= k <= 99
+        let signif10 = if k >= 0 {
+            // k >= 0 and 10ᵏ = 5ᵏ × 2ᵏ =>
+            // ⌊signif2 × 10ᵏ / 2ⁿ⌋ = ⌊signif2 × 5ᵏ × 2ᵏ⁻ⁿ⌋
+            let (lo, hi) = signif2.widening_mul(&get_power_of_five(k as u32));
+            let mut t = U512::from_hi_lo(hi, lo);
+            if k < n {
+                // k < n => ⌊signif2 × 5ᵏ × 2ᵏ⁻ⁿ⌋ = ⌊signif2 × 5ᵏ / 2ⁿ⁻ᵏ⌋
+                // 0 < n < 237 and 0 <= k < n => 0 < (n - k) < 237
+                t = t.rounding_div_pow2((n - k) as u32);
+            } else {
+                // 0 < n < 237 and n <= k <= 99 => 0 < (k - n) < 99
+                t <<= (k - n) as u32;
+            }
+            t
         } else {
-            // 0 < n < 237 and n <= k <= 99 => 0 < (k - n) < 99
-            t <<= (k - n) as u32;
+            // k < 0 and 10ᵏ = 5ᵏ × 2ᵏ =>
+            // ⌊signif2 × 10ᵏ / 2ⁿ⌋ = ⌊signif2 / (5⁻ᵏ × 2ⁿ⁻ᵏ)⌋
+            // The value of k has been choosen so that the resulting decimal
+            // significand is >= 1, thus the divident of the calculated
+            // quotient must be greater than or equal to the divisor.
+            // As signif2 < 2²³⁷ the same must hold for the divisor. Thus the
+            // following shift can't overflow.
+            let d = &get_power_of_five(-k as u32) << (n - k) as u32;
+            let mut t = signif2.rounding_div(&d);
+            U512::from_hi_lo(U256::ZERO, t)
+        };
+        let s = signif10.to_string();
+        if s.len() <= prec + 1 {
+            break s;
         }
-        t
-    } else {
-        // k < 0 and 10ᵏ = 5ᵏ × 2ᵏ =>
-        // ⌊signif2 × 10ᵏ / 2ⁿ⌋ = ⌊signif2 / (5⁻ᵏ × 2ⁿ⁻ᵏ)⌋
-        // The value of k has been choosen so that the resulting decimal
-        // significand is >= 1, thus the divident of the calculated
-        // quotient must be greater than or equal to the divisor.
-        // As signif2 < 2²³⁷ the same must hold for the divisor. Thus the
-        // following shift can't overflow.
-        let d = &get_power_of_five(-k as u32) << (n - k) as u32;
-        let mut t = signif2.rounding_div(&d);
-        U512::from_hi_lo(U256::ZERO, t)
-    };
-    let mut s = signif10.to_string();
-    if s.len() > prec + 1 {
-        // rounding overflow
-        s = s[..s.len() - 1].to_string();
+        // Estimated exp10 too small or rounding overflow
         exp10 += 1;
-    }
+    };
     if prec == 0 {
         buf.push_str(&s);
     } else {
@@ -351,26 +353,28 @@ fn bin_small_int_2_scientific(
     // 0 <= exp2 <= 275
     // 71 <= exp10 <= 154
     // n = exp2
-    let k = exp10 - prec as i32;
-    // 0 <= prec <= 75
-    // -4 <= k <= 154
-    let signif10 = if k > 0 {
-        // signif10 = ⌊signif2 × 2ⁿ / 10ᵏ⌋
-        let mut t = U512::from_hi_lo(U256::ZERO, signif2);
-        t <<= exp2 as u32;
-        rounding_div_pow10(&t, k as u32)
-    } else {
-        // signif10 = ⌊signif2 × 2ⁿ × 10⁻ᵏ⌋ = ⌊signif2 × (5⁻ᵏ × 2ⁿ⁻ᵏ)⌋
-        let t = &get_power_of_five(-k as u32) << (exp2 - k) as u32;
-        let (lo, hi) = signif2.widening_mul(&t);
-        U512::from_hi_lo(hi, lo)
-    };
-    let mut s = signif10.to_string();
-    if s.len() > prec + 1 {
-        // rounding overflow
-        s = s[..s.len() - 1].to_string();
+    let s = loop {
+        let k = exp10 - prec as i32;
+        // 0 <= prec <= 75
+        // -4 <= k <= 154
+        let signif10 = if k > 0 {
+            // signif10 = ⌊signif2 × 2ⁿ / 10ᵏ⌋
+            let mut t = U512::from_hi_lo(U256::ZERO, signif2);
+            t <<= exp2 as u32;
+            rounding_div_pow10(&t, k as u32)
+        } else {
+            // signif10 = ⌊signif2 × 2ⁿ × 10⁻ᵏ⌋ = ⌊signif2 × (5⁻ᵏ × 2ⁿ⁻ᵏ)⌋
+            let t = &get_power_of_five(-k as u32) << (exp2 - k) as u32;
+            let (lo, hi) = signif2.widening_mul(&t);
+            U512::from_hi_lo(hi, lo)
+        };
+        let s = signif10.to_string();
+        if s.len() <= prec + 1 {
+            break s;
+        }
+        // Estimated exp10 too small or rounding overflow
         exp10 += 1;
-    }
+    };
     if prec == 0 {
         buf.push_str(&s);
     } else {
-- 
2.43.0


From 923f4d6a67004ef6a9a753d9c183a51bb2f4e7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:33 +0000
Subject: [PATCH 21/28] fix: wrong decimal digits in case of insufficient
 precision of table entries

---
 src/conv/to_str/to_fixed_prec.rs | 265 ++++++++++++++++++++++++++++---
 1 file changed, 239 insertions(+), 26 deletions(-)

diff --git a/src/conv/to_str/to_fixed_prec.rs b/src/conv/to_str/to_fixed_prec.rs
index d600b7e..2c8d236 100644
--- a/src/conv/to_str/to_fixed_prec.rs
+++ b/src/conv/to_str/to_fixed_prec.rs
@@ -13,7 +13,7 @@ use alloc::{
     vec::Vec,
 };
 use core::{
-    cmp::{max, min},
+    cmp::{max, min, Ordering},
     fmt,
     mem::MaybeUninit,
     ops::{AddAssign, Rem},
@@ -45,9 +45,10 @@ enum Round {
     Down,
 }
 
-/// Calculate ⌊x × y / 2ᵏ⌋ % B, where B = 10 ^ CHUNK_SIZE.
+/// Calculate ⌊x × y / 2ᵏ⌋ % B, where B = 10 ^ CHUNK_SIZE, and
+/// ⌊x × y / 2²⁵⁶⌋ % 2ᵏ⁻²⁵⁶.
 #[inline(always)]
-fn mul_shift_mod(x: &U256, y: &U512, k: u32) -> u64 {
+fn mul_shift_mod(x: &U256, y: &U512, k: u32) -> (u64, U512) {
     debug_assert!(k > 256);
     let mut t = x.widening_mul(&y.hi);
     let mut res = U512::from_hi_lo(t.1, t.0);
@@ -57,8 +58,130 @@ fn mul_shift_mod(x: &U256, y: &U512, k: u32) -> u64 {
     if carry {
         res.hi.incr();
     }
+    let rem = res.rem_pow2(k - 256);
     res >>= (k - 256);
-    (res % CHUNK_BASE as u128) as u64
+    ((res % CHUNK_BASE as u128) as u64, rem)
+}
+
+/// Returns the chunk of decimal digits of the integral part of an integer
+/// specified by a table entry, or None if the precision of the (rounded up)
+/// entry isn't sufficient to determine the chunk.
+#[inline(always)]
+fn int_chunk(
+    signif2: &U256,
+    segment_idx: usize,
+    chunk_idx: usize,
+    shift: u32,
+) -> Option<u64> {
+    let t = pow2_div_pow10(segment_idx, chunk_idx);
+    let (chunk, rem) = mul_shift_mod(signif2, &t, shift);
+    // Because signif2 < 2²³⁸, the deviation is less than 1.
+    if rem.is_zero() {
+        None
+    } else {
+        Some(chunk)
+    }
+}
+
+/// Returns the chunk of decimal digits of the fractional part specified by a
+/// table entry, or None if the precision of the (rounded down) entry isn't
+/// sufficient to determine the chunk.
+#[inline(always)]
+fn fract_chunk(
+    signif2: &U256,
+    segment_idx: usize,
+    chunk_idx: usize,
+    shift: u32,
+) -> Option<u64> {
+    let t = pow10_div_pow2(segment_idx, chunk_idx);
+    let (chunk, mut rem) = mul_shift_mod(signif2, &t, shift);
+    // Because signif2 < 2²³⁸, the deviation is less than 1.
+    rem.incr();
+    if rem.msb() == shift - 256 {
+        None
+    } else {
+        Some(chunk)
+    }
+}
+
+/// Returns the exact value of ⌊signif2 × 10ᵏ / 2ⁿ⌋ as string and the way it
+/// has to be rounded.
+#[allow(clippy::integer_division)]
+#[allow(clippy::cast_possible_truncation)]
+fn exact_mul_pow10_div_pow2(
+    signif2: &U256,
+    k: u32,
+    n: u32,
+) -> (String, Round) {
+    const POW5_EXP: u32 = 27;
+    const LIMB_BITS: u32 = u64::BITS;
+    debug_assert!(k <= n);
+    // signif2 × 10ᵏ / 2ⁿ = signif2 × 5ᵏ / 2ⁿ⁻ᵏ
+    let mut limbs: Vec<u64> = Vec::new();
+    for u in [signif2.lo.0, signif2.hi.0] {
+        limbs.push(u as u64);
+        limbs.push((u >> LIMB_BITS) as u64);
+    }
+    let mut exp5 = k;
+    while exp5 > 0 {
+        let e = min(exp5, POW5_EXP);
+        let f = 5_u64.pow(e) as u128;
+        let mut carry = 0_u64;
+        for limb in &mut limbs {
+            let t = *limb as u128 * f + carry as u128;
+            *limb = t as u64;
+            carry = (t >> LIMB_BITS) as u64;
+        }
+        if carry > 0 {
+            limbs.push(carry);
+        }
+        exp5 -= e;
+    }
+    let sh = n - k;
+    let bit = |limbs: &Vec<u64>, idx: u32| -> bool {
+        limbs.get((idx / LIMB_BITS) as usize)
+            .map_or(false, |limb| (limb >> (idx % LIMB_BITS)) & 1 == 1)
+    };
+    let round = if sh == 0 || !bit(&limbs, sh - 1) {
+        Round::Down
+    } else if (0..sh - 1).any(|idx| bit(&limbs, idx)) {
+        Round::Up
+    } else {
+        Round::ToEven
+    };
+    let limb_sh = (sh / LIMB_BITS) as usize;
+    let bit_sh = sh % LIMB_BITS;
+    let mut quot: Vec<u64> = Vec::new();
+    for idx in limb_sh..limbs.len() {
+        let t = limbs[idx] as u128
+            | (limbs.get(idx + 1).map_or(0, |limb| *limb as u128)
+                << LIMB_BITS);
+        quot.push((t >> bit_sh) as u64);
+    }
+    // Convert to decimal
+    let mut chunks: Vec<u64> = Vec::new();
+    loop {
+        while quot.last() == Some(&0) {
+            quot.pop();
+        }
+        if quot.is_empty() {
+            break;
+        }
+        let mut rem = 0_u128;
+        for limb in quot.iter_mut().rev() {
+            let t = (rem << LIMB_BITS) | *limb as u128;
+            *limb = (t / CHUNK_BASE as u128) as u64;
+            rem = t % CHUNK_BASE as u128;
+        }
+        chunks.push(rem as u64);
+    }
+    let mut s = chunks.pop().unwrap_or(0).to_string();
+    for chunk in chunks.iter().rev() {
+        s.push_str(
+            format!("{:01$}", chunk, CHUNK_SIZE as usize).as_str(),
+        );
+    }
+    (s, round)
 }
 
 #[inline(always)]
@@ -83,6 +206,28 @@ fn bin_fract_2_dec_str(
     prec: usize,
     buf: &mut String,
 ) -> Round {
+    let len = buf.len();
+    try_bin_fract_2_dec_str(signif2, exp2, prec, buf).unwrap_or_else(|| {
+        buf.truncate(len);
+        let (digits, round) =
+            exact_mul_pow10_div_pow2(&signif2, prec as u32, -exp2 as u32);
+        if prec > 0 {
+            buf.push_str(format!("{digits:0>prec$}").as_str());
+        }
+        round
+    })
+}
+
+#[allow(clippy::integer_division)]
+#[allow(clippy::cast_possible_truncation)]
+#[allow(clippy::cast_possible_wrap)]
+#[allow(clippy::cast_sign_loss)]
+fn try_bin_fract_2_dec_str(
+    signif2: U256,
+    exp2: i32,
+    prec: usize,
+    buf: &mut String,
+) -> Option<Round> {
     let mut round = Round::Down;
     let n_chunks = prec as u32 / CHUNK_SIZE + 1;
     let (segment_idx, (n_zero_chunks, segment_shift)) =
@@ -92,7 +237,7 @@ fn bin_fract_2_dec_str(
     // Special case: no significant digits to be output
     if n_chunks <= n_zero_chunks {
         buf.push_str("0".repeat(prec).as_str());
-        return round;
+        return Some(round);
     }
     if n_zero_chunks > 0 {
         buf.push_str(
@@ -105,8 +250,8 @@ fn bin_fract_2_dec_str(
         "Internal limit for significant fractional digits exceeded."
     );
     for chunk_idx in 0..n_signif_chunks {
-        let t = pow10_div_pow2(segment_idx, chunk_idx as usize);
-        let mut chunk = mul_shift_mod(&signif2, &t, shift);
+        let mut chunk =
+            fract_chunk(&signif2, segment_idx, chunk_idx as usize, shift)?;
         if chunk_idx < n_signif_chunks - 1 {
             buf.push_str(
                 format!("{:01$}", chunk, CHUNK_SIZE as usize).as_str(),
@@ -143,7 +288,7 @@ fn bin_fract_2_dec_str(
             }
         }
     }
-    round
+    Some(round)
 }
 
 /// Round-Up the given fixed-point string representation of a decimal number.
@@ -393,6 +538,39 @@ fn bin_large_int_2_scientific(
     prec: usize,
     buf: &mut String,
 ) -> (Round, i32) {
+    let len = buf.len();
+    try_bin_large_int_2_scientific(signif2, exp2, prec, buf).unwrap_or_else(
+        || {
+            buf.truncate(len);
+            let mut digits = String::new();
+            push_large_int(&signif2, exp2 as u32, &mut digits);
+            let (head, tail) = digits.split_at(prec + 1);
+            if prec == 0 {
+                buf.push_str(head);
+            } else {
+                split_into_buf(buf, head);
+            }
+            let tail = tail.trim_end_matches('0');
+            let round = match tail.cmp("5") {
+                Ordering::Less => Round::Down,
+                Ordering::Equal => Round::ToEven,
+                Ordering::Greater => Round::Up,
+            };
+            (round, digits.len() as i32 - 1)
+        },
+    )
+}
+
+#[allow(clippy::integer_division)]
+#[allow(clippy::cast_possible_truncation)]
+#[allow(clippy::cast_possible_wrap)]
+#[allow(clippy::cast_sign_loss)]
+fn try_bin_large_int_2_scientific(
+    signif2: U256,
+    exp2: i32,
+    prec: usize,
+    buf: &mut String,
+) -> Option<(Round, i32)> {
     debug_assert!(exp2 > (U512::BITS - SIGNIFICAND_BITS) as i32);
     let mut round = Round::Down;
     let (segment_idx, (mut n_chunks, segment_shift)) =
@@ -400,13 +578,13 @@ fn bin_large_int_2_scientific(
     let shift = segment_shift - exp2 as u32;
     let mut n_rem_digits = prec as u32;
     let mut chunk_idx = 0_u32;
-    let mut t = pow2_div_pow10(segment_idx, chunk_idx as usize);
-    let mut chunk = mul_shift_mod(&signif2, &t, shift);
+    let mut chunk =
+        int_chunk(&signif2, segment_idx, chunk_idx as usize, shift)?;
     if chunk == 0 {
         n_chunks -= 1;
         chunk_idx += 1;
-        t = pow2_div_pow10(segment_idx, chunk_idx as usize);
-        chunk = mul_shift_mod(&signif2, &t, shift);
+        chunk =
+            int_chunk(&signif2, segment_idx, chunk_idx as usize, shift)?;
     }
     let mut chunk_size = CHUNK_SIZE;
     // First chunk:
@@ -436,8 +614,8 @@ fn bin_large_int_2_scientific(
             chunk_idx < CHUNK_CUTOFF,
             "Internal limit for significant fractional digits exceeded."
         );
-        t = pow2_div_pow10(segment_idx, chunk_idx as usize);
-        chunk = mul_shift_mod(&signif2, &t, shift);
+        chunk =
+            int_chunk(&signif2, segment_idx, chunk_idx as usize, shift)?;
         chunk_size = CHUNK_SIZE;
         n_digits = min(chunk_size, n_rem_digits);
     }
@@ -450,8 +628,8 @@ fn bin_large_int_2_scientific(
             chunk_idx < CHUNK_CUTOFF,
             "Internal limit for significant fractional digits exceeded."
         );
-        t = pow2_div_pow10(segment_idx, chunk_idx as usize);
-        chunk = mul_shift_mod(&signif2, &t, shift);
+        chunk =
+            int_chunk(&signif2, segment_idx, chunk_idx as usize, shift)?;
         chunk_size = CHUNK_SIZE;
         n_digits = min(chunk_size, n_rem_digits);
     }
@@ -482,7 +660,7 @@ fn bin_large_int_2_scientific(
             format!("{:01$}", chunk, n_rem_digits as usize).as_str(),
         );
     }
-    (round, exp10 as i32)
+    Some((round, exp10 as i32))
 }
 
 #[allow(clippy::cognitive_complexity)]
@@ -496,6 +674,41 @@ fn bin_fract_2_scientific(
     prec: usize,
     buf: &mut String,
 ) -> (Round, i32) {
+    let len = buf.len();
+    try_bin_fract_2_scientific(signif2, exp2, prec, buf).unwrap_or_else(|| {
+        buf.truncate(len);
+        // Lower bound of the decimal exponent
+        let mut exp10 = floor_log10_pow2(exp2 + signif2.msb() as i32);
+        loop {
+            let (digits, round) = exact_mul_pow10_div_pow2(
+                &signif2,
+                (prec as i32 - exp10) as u32,
+                -exp2 as u32,
+            );
+            if digits.len() == prec + 1 {
+                if prec == 0 {
+                    buf.push_str(&digits);
+                } else {
+                    split_into_buf(buf, &digits);
+                }
+                return (round, exp10);
+            }
+            exp10 += 1;
+        }
+    })
+}
+
+#[allow(clippy::cognitive_complexity)]
+#[allow(clippy::integer_division)]
+#[allow(clippy::cast_possible_truncation)]
+#[allow(clippy::cast_possible_wrap)]
+#[allow(clippy::cast_sign_loss)]
+fn try_bin_fract_2_scientific(
+    signif2: U256,
+    exp2: i32,
+    prec: usize,
+    buf: &mut String,
+) -> Option<(Round, i32)> {
     debug_assert!(exp2 <= -(SIGNIFICAND_BITS as i32));
     let mut round = Round::Down;
     let (segment_idx, (n_zero_chunks, segment_shift)) =
@@ -505,14 +718,14 @@ fn bin_fract_2_scientific(
     let shift = (segment_shift - exp2) as u32;
     let mut n_rem_digits = prec as u32;
     let mut chunk_idx = 0_u32;
-    let mut t = pow10_div_pow2(segment_idx, chunk_idx as usize);
-    let mut chunk = mul_shift_mod(&signif2, &t, shift);
+    let mut chunk =
+        fract_chunk(&signif2, segment_idx, chunk_idx as usize, shift)?;
     // There may be an additional zero chunk caused by table compression.
     if chunk == 0 {
         exp10 -= CHUNK_SIZE as i32;
         chunk_idx += 1;
-        t = pow10_div_pow2(segment_idx, chunk_idx as usize);
-        chunk = mul_shift_mod(&signif2, &t, shift);
+        chunk =
+            fract_chunk(&signif2, segment_idx, chunk_idx as usize, shift)?;
         debug_assert_ne!(chunk, 0);
     }
     let mut chunk_size = CHUNK_SIZE;
@@ -543,8 +756,8 @@ fn bin_fract_2_scientific(
             chunk_idx < CHUNK_CUTOFF,
             "Internal limit for significant fractional digits exceeded."
         );
-        t = pow10_div_pow2(segment_idx, chunk_idx as usize);
-        chunk = mul_shift_mod(&signif2, &t, shift);
+        chunk =
+            fract_chunk(&signif2, segment_idx, chunk_idx as usize, shift)?;
         chunk_size = CHUNK_SIZE;
         n_digits = min(chunk_size, n_rem_digits);
     }
@@ -557,8 +770,8 @@ fn bin_fract_2_scientific(
             chunk_idx < CHUNK_CUTOFF,
             "Internal limit for significant fractional digits exceeded."
         );
-        t = pow10_div_pow2(segment_idx, chunk_idx as usize);
-        chunk = mul_shift_mod(&signif2, &t, shift);
+        chunk =
+            fract_chunk(&signif2, segment_idx, chunk_idx as usize, shift)?;
         chunk_size = CHUNK_SIZE;
         n_digits = min(chunk_size, n_rem_digits);
     }
@@ -589,7 +802,7 @@ fn bin_fract_2_scientific(
             format!("{:01$}", chunk, n_rem_digits as usize).as_str(),
         );
     }
-    (round, exp10)
+    Some((round, exp10))
 }
 
 /// Round-Up the given scientific string representation of a decimal number.
-- 
2.43.0


From 2455a6c5d6d3518150b9b0d08660f3b1c9bb4437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:11 +0000
Subject: [PATCH 22/28] fix: fill character ignored when formatting NaN

---
 src/conv/to_str/mod.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/conv/to_str/mod.rs b/src/conv/to_str/mod.rs
index 1520b09..aafec26 100644
--- a/src/conv/to_str/mod.rs
+++ b/src/conv/to_str/mod.rs
@@ -30,18 +30,24 @@ use crate::{f256, split_f256_enc, EXP_MAX, U256};
 
 const MAX_PREC: usize = 75;
 
+#[allow(clippy::integer_division)]
 fn format_nan(form: &mut fmt::Formatter<'_>) -> fmt::Result {
-    let nan = "NaN".to_owned();
-    let s = if let Some(width) = form.width() {
-        match form.align() {
-            Some(fmt::Alignment::Center) => format!("{:^width$}", nan),
-            Some(fmt::Alignment::Left) => format!("{:<width$}", nan),
-            _ => format!("{:>width$}", nan),
-        }
-    } else {
-        nan
+    const NAN: &str = "NaN";
+    let filler = form.fill();
+    let n_to_fill = form.width().unwrap_or(0).saturating_sub(NAN.len());
+    let n_to_fill_pre = match form.align() {
+        Some(fmt::Alignment::Center) => n_to_fill / 2,
+        Some(fmt::Alignment::Left) => 0,
+        _ => n_to_fill,
     };
-    form.write_str(s.as_str())
+    for _ in 0..n_to_fill_pre {
+        form.write_char(filler)?;
+    }
+    form.write_str(NAN)?;
+    for _ in n_to_fill_pre..n_to_fill {
+        form.write_char(filler)?;
+    }
+    Ok(())
 }
 
 fn format_special(f: &f256, form: &mut fmt::Formatter<'_>) -> fmt::Result {
-- 
2.43.0


From bc014bf7786654063f1a8905ccb530e3e077d547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:31 +0000
Subject: [PATCH 23/28] fix: sine of tiny numbers and signed zeros

---
 src/math/circular_fns/mod.rs     |  5 +++++
 src/math/circular_fns/sin.rs     | 10 +++++++---
 src/math/circular_fns/sin_cos.rs | 10 +++++++---
 src/math/circular_fns/tan.rs     |  4 ++--
 4 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/math/circular_fns/mod.rs b/src/math/circular_fns/mod.rs
index c35c737..d5c57f6 100644
--- a/src/math/circular_fns/mod.rs
+++ b/src/math/circular_fns/mod.rs
@@ -21,3 +21,8 @@ mod tan;
 mod two_over_pi;
 
 use super::{BigFloat, FP492, U256};
+use crate::{EXP_BIAS, HI_FRACTION_BITS};
+
+// Cut-off for small values (high bits of 2⁻¹¹⁸).
+// |x| < 2⁻¹¹⁸ => |sine x - x| < ½ ulp(x)
+const SIN_SMALL_CUT_OFF: u128 = ((EXP_BIAS - 118) as u128) << HI_FRACTION_BITS;
diff --git a/src/math/circular_fns/sin.rs b/src/math/circular_fns/sin.rs
index ffc03fa..b80e99e 100644
--- a/src/math/circular_fns/sin.rs
+++ b/src/math/circular_fns/sin.rs
@@ -9,7 +9,7 @@
 
 use super::{
     approx_cos::approx_cos, approx_sin::approx_sin, reduce::reduce, BigFloat,
-    FP492,
+    FP492, SIN_SMALL_CUT_OFF,
 };
 use crate::{f256, HI_ABS_MASK};
 
@@ -22,8 +22,12 @@ impl f256 {
             if (self.bits.hi.0 & HI_ABS_MASK) > Self::MAX.bits.hi.0 {
                 return Self::NAN;
             }
-            // x = 0 => sine x = 0
-            return Self::ZERO;
+            // x = ±0 => sine x = ±0
+            return *self;
+        }
+        // If |x| is very small, sine x = x.
+        if (self.bits.hi.0 & HI_ABS_MASK) < SIN_SMALL_CUT_OFF {
+            return *self;
         }
         // Calculate ⌈x/½π⌋ % 4 and x % ½π.
         let (quadrant, fx) = reduce(&self.abs());
diff --git a/src/math/circular_fns/sin_cos.rs b/src/math/circular_fns/sin_cos.rs
index 3f78ccd..564e80b 100644
--- a/src/math/circular_fns/sin_cos.rs
+++ b/src/math/circular_fns/sin_cos.rs
@@ -7,7 +7,7 @@
 // $Source$
 // $Revision$
 
-use super::U256;
+use super::{SIN_SMALL_CUT_OFF, U256};
 use crate::{
     consts::FRAC_PI_2,
     f256,
@@ -29,13 +29,17 @@ impl f256 {
             if (self.bits.hi.0 & HI_ABS_MASK) > f256::MAX.bits.hi.0 {
                 return (f256::NAN, f256::NAN);
             }
-            // x = 0 => sine x = 0 and cosine x = 1
-            return (f256::ZERO, f256::ONE);
+            // x = ±0 => sine x = ±0 and cosine x = 1
+            return (*self, f256::ONE);
         }
         // Calculate ⌈|x|/½π⌋ % 4 and |x| % ½π.
         let (quadrant, fx) = reduce(&self.abs());
         // Approximate sine and cosine
         let (sin, cos) = approx_sin_cos(&fx);
+        // If |x| is very small, sine x = x.
+        if (self.bits.hi.0 & HI_ABS_MASK) < SIN_SMALL_CUT_OFF {
+            return (*self, Self::from(&cos));
+        }
         // Map result according to quadrant and sign
         match (quadrant, self.sign()) {
             (0, 0) => (Self::from(&sin), Self::from(&cos)),
diff --git a/src/math/circular_fns/tan.rs b/src/math/circular_fns/tan.rs
index f3d3886..01428c3 100644
--- a/src/math/circular_fns/tan.rs
+++ b/src/math/circular_fns/tan.rs
@@ -18,8 +18,8 @@ impl f256 {
             if (self.bits.hi.0 & HI_ABS_MASK) > f256::MAX.bits.hi.0 {
                 return f256::NAN;
             }
-            // x = 0 => tangent x = 0
-            return f256::ZERO;
+            // x = ±0 => tangent x = ±0
+            return *self;
         }
         // Calculate tangent x = sine x / cosine x.
         let (sin, cos) = self.sin_cos();
-- 
2.43.0


From 937f13eb1fb90a67c2aed0d4d9497ac125ade7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:38 +0000
Subject: [PATCH 24/28] =?UTF-8?q?fix:=20arctangent=20of=20numbers=20slight?=
 =?UTF-8?q?ly=20less=20than=202=E2=81=BB=C2=B9=C2=B9=E2=81=B8?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/math/circular_fns/atan.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/math/circular_fns/atan.rs b/src/math/circular_fns/atan.rs
index 07358cd..54a6e48 100644
--- a/src/math/circular_fns/atan.rs
+++ b/src/math/circular_fns/atan.rs
@@ -23,8 +23,15 @@ const LARGE_CUT_OFF: U256 = U256::new(
     0_u128,
 );
 
-// Cut-off for small values
+// Cut-off for small values (2⁻¹¹⁹)
+// |x| < 2⁻¹¹⁹ => |arctan x - x| < ½ ulp(x)
+const SURE_SMALL_CUT_OFF: U256 =
+    U256::new(((EXP_BIAS - 119) as u128) << HI_FRACTION_BITS, 0_u128);
+
+// Greatest value x > 2⁻¹¹⁸ with arctan x = x (after rounding). That does not
+// hold for all smaller values, because of the wider spacing above 2⁻¹¹⁸.
 // 3.44474912109377383968972695618616830461246359669623725678161320654548683e-36
+#[cfg(test)]
 const SMALL_CUT_OFF: f256 = f256 {
     bits: U256::new(
         0x3ff89250bfe1b082f4f9b8d4ce85ca7f,
@@ -51,7 +58,7 @@ impl f256 {
             return res;
         }
         // If |self| is very small, atan self = self.
-        if abs_bits_self <= SMALL_CUT_OFF.bits {
+        if abs_bits_self < SURE_SMALL_CUT_OFF {
             return *self;
         }
         // Now we have ε < |self| < 2²³⁷.
-- 
2.43.0


From b9fb07d9585e89b4427ed1cbc0e8e8dac33424b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 25/28] =?UTF-8?q?fix:=20arcsine=20and=20arccosine=20of=20n?=
 =?UTF-8?q?umbers=20close=20to=20=C2=B11?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/math/big_float.rs              | 6 +++++-
 src/math/circular_fns/asin_acos.rs | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/math/big_float.rs b/src/math/big_float.rs
index 7ac8aa8..f8eeb85 100644
--- a/src/math/big_float.rs
+++ b/src/math/big_float.rs
@@ -536,7 +536,11 @@ impl BigFloat {
                             // 256 - shl bits
                             x_signif =
                                 x_signif.rounding_div_pow2(U256::BITS - shl);
-                            self.signif = x_signif.lo;
+                            // rounding may have overflowed
+                            let shr =
+                                (x_signif.lo.leading_zeros() == 0) as u32;
+                            self.exp += shr as i32;
+                            self.signif = &x_signif.lo >> shr;
                         }
                         257..=510 => {
                             // less than 255 bits left => shift left, no
diff --git a/src/math/circular_fns/asin_acos.rs b/src/math/circular_fns/asin_acos.rs
index c6bf43c..3389af5 100644
--- a/src/math/circular_fns/asin_acos.rs
+++ b/src/math/circular_fns/asin_acos.rs
@@ -98,7 +98,7 @@ impl f256 {
         // Now we have ε < |self| < 1
         // asin(x) = atan(x/√(1-x²))
         let mut x = BigFloat::from(self);
-        x.idiv(&(BigFloat::ONE - &x.square()).sqrt());
+        x.idiv(&x.mul_add(&-x, &BigFloat::ONE).sqrt());
         Self::from(&atan(&x))
     }
 
@@ -123,7 +123,7 @@ impl f256 {
         // Now we have ε < |self| < 1
         // acos(x) = ½π - asin(x) = ½π - atan(x/√(1-x²))
         let mut x = BigFloat::from(self);
-        x.idiv(&(BigFloat::ONE - &x.square()).sqrt());
+        x.idiv(&x.mul_add(&-x, &BigFloat::ONE).sqrt());
         Self::from(&(&FP492_FRAC_PI_2 - &atan(&x)))
     }
 }
-- 
2.43.0


From d0df1327ed463725b36a49e3b37566a1cc8908da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:26 +0000
Subject: [PATCH 26/28] fix: atan2 of operands equal in magnitude, infinite or
 of very different magnitude

---
 src/math/circular_fns/atan.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/math/circular_fns/atan.rs b/src/math/circular_fns/atan.rs
index 54a6e48..3c85278 100644
--- a/src/math/circular_fns/atan.rs
+++ b/src/math/circular_fns/atan.rs
@@ -115,6 +115,19 @@ impl f256 {
                 // self = 0, other < 0 => π
                 return [f256::ZERO, PI][other.sign() as usize];
             }
+            if abs_bits_sticky_x != abs_bits_sticky_y {
+                // Only one operand is infinite.
+                let mut res = if abs_bits_sticky_y == HI_EXP_MASK {
+                    // self = ±Inf => ±½π
+                    FRAC_PI_2
+                } else {
+                    // other = Inf => ±0
+                    // other = -Inf => ±π
+                    [f256::ZERO, PI][other.sign() as usize]
+                };
+                res.bits.hi.0 |= sign_bits_hi(&self);
+                return res;
+            }
             // Both operands are infinite.
             return match (self.sign(), other.sign()) {
                 (0, 0) => FRAC_PI_4,
@@ -131,6 +144,12 @@ impl f256 {
         let mut atan = if abs_bits_y < abs_bits_x {
             let mut q = BigFloat::from(self);
             q.idiv(&BigFloat::from(other));
+            if q.exp < -(SIGNIFICAND_BITS as i32)
+                && other.is_sign_positive()
+            {
+                // |y/x| is very small => arctan(y/x) = y/x
+                return self / other;
+            }
             BigFloat::from(&approx_atan(&FP492::from(&q)))
         } else if abs_bits_y > abs_bits_x {
             let mut q = BigFloat::from(other);
@@ -138,7 +157,7 @@ impl f256 {
             [BigFloat::FRAC_PI_2, -BigFloat::FRAC_PI_2][sign_q as usize]
                 - &BigFloat::from(&approx_atan(&FP492::from(&q)))
         } else {
-            [BigFloat::FRAC_PI_2, -BigFloat::FRAC_PI_2][sign_q as usize]
+            [BigFloat::FRAC_PI_4, -BigFloat::FRAC_PI_4][sign_q as usize]
         };
         match (self.sign(), other.sign()) {
             (0, 1) => {
-- 
2.43.0


From 3642bd505644c742a957ae803c84c22bfaff4607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 27/28] fix: conversion between degrees and radians for zero,
 non-finite and extreme values

---
 src/lib.rs | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0935fb5..fa4d150 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -627,6 +627,29 @@ impl f256 {
         Self::ONE / self
     }
 
+    /// Returns self * m / 2ˢʰ, where 2²⁵⁵ <= m < 2²⁵⁶.
+    #[allow(clippy::cast_possible_wrap)]
+    fn mul_frac_pow2(self, m: &U256, sh: i32) -> Self {
+        if self.is_special() {
+            return self;
+        }
+        let signif = self.integral_significand();
+        let (lo, hi) = m.widening_mul(&signif);
+        // Keep the leading 255 or 256 bits of the product plus a sticky bit.
+        let n = signif.msb() + 1;
+        let (mut t, rem) = U512::from_hi_lo(hi, lo).widening_shr(n);
+        t.lo.lo.0 |= !rem.is_zero() as u128;
+        // Round to the significand size of f256, then apply the exponent, in
+        // order to get correct results in case of overflow or underflow.
+        let f = Self::encode(self.sign(), -255, t.lo);
+        let exp = self.quantum_exponent() - sh + n as i32 + 255;
+        if exp >= 0 {
+            f.mul_pow2(exp.unsigned_abs())
+        } else {
+            f.div_pow2(exp.unsigned_abs())
+        }
+    }
+
     /// Converts radians to degrees.
     ///
     /// Returns self * (180 / π)
@@ -640,13 +663,7 @@ impl f256 {
             69798147688063442975655060594812004816,
         );
         const SH: i32 = 250_i32;
-        let signif = self.integral_significand();
-        let exp = self.quantum_exponent();
-        let (lo, hi) = M.widening_mul(&signif);
-        let mut t = U512::from_hi_lo(hi, lo);
-        let sh = signif.msb() + 256 - SIGNIFICAND_BITS;
-        t = t.rounding_div_pow2(sh);
-        Self::encode(self.sign(), exp - SH + sh as i32, t.lo)
+        self.mul_frac_pow2(&M, SH)
     }
 
     /// Converts degrees to radians.
@@ -662,13 +679,7 @@ impl f256 {
             953738875812114979603059177117484306,
         );
         const SH: i32 = 261_i32;
-        let signif = self.integral_significand();
-        let exp = self.quantum_exponent();
-        let (lo, hi) = M.widening_mul(&signif);
-        let mut t = U512::from_hi_lo(hi, lo);
-        let sh = signif.msb() + 256 - SIGNIFICAND_BITS;
-        t = t.rounding_div_pow2(sh);
-        Self::encode(self.sign(), exp - SH + sh as i32, t.lo)
+        self.mul_frac_pow2(&M, SH)
     }
 
     /// Returns the maximum of the two numbers, ignoring NaN.
-- 
2.43.0


From 9f32ee85b184af8469695200902ef5e74fdbed02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:00 +0000
Subject: [PATCH 28/28] =?UTF-8?q?fix:=20sine=20of=20reduced=20arguments=20?=
 =?UTF-8?q?near=202=E2=81=BB=C2=B9=C2=B9=E2=81=B8?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/math/circular_fns/approx_sin.rs     | 9 +++++----
 src/math/circular_fns/approx_sin_cos.rs | 4 ++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/math/circular_fns/approx_sin.rs b/src/math/circular_fns/approx_sin.rs
index 8405c93..ef3bec8 100644
--- a/src/math/circular_fns/approx_sin.rs
+++ b/src/math/circular_fns/approx_sin.rs
@@ -231,12 +231,13 @@ const COEFFS: [FP492; N] = [
     ),
 ];
 
-// 4.34011192927290911129289122290072654677561270925175391536078950032040224e-36
-// 4.34011192927290911129289122290072654677561270925175391536078950032040224e-36
+// 2⁻¹⁶⁴. Below that, x³ / 6 is less than the resolution of FP492. (A reduced
+// argument has more significant bits than an f256, so it's not enough that
+// sine x == x after rounding an x which is representable as f256.)
 const SMALL_CUT_OFF: FP492 = FP492::new(
     0x00000000000000000000000000000000,
-    0x005c4dd12448fbd973779fc5b15b8c99,
-    0xf02871b5584367dcb9d6fe24cc9ce800,
+    0x00000000000001000000000000000000,
+    0x00000000000000000000000000000000,
     0x00000000000000000000000000000000,
 );
 
diff --git a/src/math/circular_fns/approx_sin_cos.rs b/src/math/circular_fns/approx_sin_cos.rs
index 85d19ff..9ee1749 100644
--- a/src/math/circular_fns/approx_sin_cos.rs
+++ b/src/math/circular_fns/approx_sin_cos.rs
@@ -16,9 +16,9 @@ use super::{
 pub(crate) fn approx_sin_cos(x: &FP492) -> (FP492, FP492) {
     let mut x_abs = *x;
     x_abs.iabs();
-    // If x is zero or very small, cosine x == 1 and sine x == x.
+    // If x is zero or very small, cosine x == 1.
     if x_abs <= SMALL_CUT_OFF {
-        return (*x, FP492::ONE);
+        return (approx_sin(x), FP492::ONE);
     };
     (approx_sin(x), approx_cos(x))
 }
-- 
2.43.0

