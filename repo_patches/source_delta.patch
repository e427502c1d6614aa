From 0cf2a63eca38dc9772d2e820de1825330938e78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:32 +0000
Subject: [PATCH 01/45] fix: keep the value in full-precision addition and
 subtraction with a zero operand

add_full_prec and sub_full_prec called set_precision(0) when one of the
operands was zero, which dropped the whole mantissa of the other operand.
---
 astro-float-num/src/num.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index f477fb9..5c04d82 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -590,7 +590,9 @@ impl BigFloatNumber {
         if self.m.is_zero() {
             let mut ret = if op < 0 { d2.neg() } else { d2.clone() }?;
 
-            ret.set_precision(p, rm)?;
+            if !full_prec {
+                ret.set_precision(p, rm)?;
+            }
 
             return Ok(ret);
         }
@@ -598,7 +600,9 @@ impl BigFloatNumber {
         if d2.m.is_zero() {
             let mut ret = self.clone()?;
 
-            ret.set_precision(p, rm)?;
+            if !full_prec {
+                ret.set_precision(p, rm)?;
+            }
 
             return Ok(ret);
         }
-- 
2.43.0


From d4f4b5032af911b045a9802821ff46d9b7cbfe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:46 +0000
Subject: [PATCH 02/45] fix: keep subnormal remainders instead of turning them
 into zero

---
 astro-float-num/src/num.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index 5c04d82..3936adc 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -460,23 +460,18 @@ impl BigFloatNumber {
                     // first, see if m3 is already subnormal, then shift accordingly
                     let mut excess = m3.max_bit_len() - m3.bit_len();
 
-                    if EXPONENT_MIN as isize - e > usize::MAX as isize {
-                        m3.set_zero();
-                        e = 0;
-                    } else {
-                        let shift = (EXPONENT_MIN as isize - e) as usize;
+                    let shift = (EXPONENT_MIN as isize - e) as usize;
 
-                        if excess < shift {
-                            m3.extend_subnormal(shift)?;
-                            excess = m3.max_bit_len() - m3.bit_len();
-                        }
+                    if excess < shift {
+                        m3.extend_subnormal(shift)?;
+                        excess = m3.max_bit_len() - m3.bit_len();
+                    }
 
-                        let shift = excess - shift;
-                        m3.shift_left(shift);
-                        m3.set_bit_len(m3.bit_len() + shift);
+                    let shift = excess - shift;
+                    m3.shift_left(shift);
+                    m3.set_bit_len(m3.bit_len() + shift);
 
-                        e = EXPONENT_MIN as isize;
-                    }
+                    e = EXPONENT_MIN as isize;
                 } else {
                     m3.normilize2();
                 }
-- 
2.43.0


From 25b6fdd71d0a678e7571a75efd98e95905eacbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 03/45] fix: round subnormal results once and keep all digits
 of full-precision subnormal sums

---
 astro-float-num/src/conv.rs     |   2 +-
 astro-float-num/src/num.rs      | 124 ++++++++++++++++++++++++--------
 astro-float-num/src/ops/cbrt.rs |   2 +-
 astro-float-num/src/ops/sqrt.rs |   2 +-
 4 files changed, 97 insertions(+), 33 deletions(-)

diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index f0c43ed..300ae08 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -239,7 +239,7 @@ impl BigFloatNumber {
                         num.set_precision(p + WORD_BIT_SIZE, RoundingMode::None)?;
                     }
 
-                    num.subnormalize(e, RoundingMode::None);
+                    num.subnormalize(e, RoundingMode::None, false);
 
                     if num.inexact() {
                         num.mantissa_mut().digits_mut()[0] |= 1; // sticky for correct rounding when calling set_precision()
diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index 3936adc..8465db2 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -323,16 +323,21 @@ impl BigFloatNumber {
         let (e2, m2_opt) = d2.normalize()?;
         let m2_normalized = m2_opt.as_ref().unwrap_or(&d2.m);
 
-        let mut inexact = self.inexact || d2.inexact;
+        let mul = |rm: RoundingMode, inexact: &mut bool| {
+            m1_normalized.mul(m2_normalized, p, rm, s == Sign::Pos, full_prec, inexact)
+        };
+
+        let mut inexact = false;
+        let mut sticky = false;
+
+        let (mut e_shift, mut m3) = mul(rm, &mut inexact)?;
+
+        if inexact && e1 + e2 - e_shift < EXPONENT_MIN as isize && Self::is_to_nearest(rm) {
+            // the result is going to be rounded in `subnormalize`, avoid double rounding.
+            (e_shift, m3) = mul(RoundingMode::ToZero, &mut sticky)?;
+        }
 
-        let (e_shift, m3) = m1_normalized.mul(
-            m2_normalized,
-            p,
-            rm,
-            s == Sign::Pos,
-            full_prec,
-            &mut inexact,
-        )?;
+        inexact |= self.inexact || d2.inexact;
 
         let e = e1 + e2 - e_shift;
 
@@ -348,7 +353,7 @@ impl BigFloatNumber {
                 inexact,
             };
 
-            ret.subnormalize(e, rm);
+            ret.subnormalize(e, rm, sticky);
 
             Ok(ret)
         } else {
@@ -395,10 +400,21 @@ impl BigFloatNumber {
         let (e2, m2_opt) = d2.normalize()?;
         let m2_normalized = m2_opt.as_ref().unwrap_or(&d2.m);
 
-        let mut inexact = self.inexact || d2.inexact;
+        let div = |rm: RoundingMode, inexact: &mut bool| {
+            m1_normalized.div(m2_normalized, p, rm, s == Sign::Pos, inexact)
+        };
+
+        let mut inexact = false;
+        let mut sticky = false;
 
-        let (e_shift, m3) =
-            m1_normalized.div(m2_normalized, p, rm, s == Sign::Pos, &mut inexact)?;
+        let (mut e_shift, mut m3) = div(rm, &mut inexact)?;
+
+        if inexact && e1 - e2 + e_shift < EXPONENT_MIN as isize && Self::is_to_nearest(rm) {
+            // the result is going to be rounded in `subnormalize`, avoid double rounding.
+            (e_shift, m3) = div(RoundingMode::ToZero, &mut sticky)?;
+        }
+
+        inexact |= self.inexact || d2.inexact;
 
         let e = e1 - e2 + e_shift;
 
@@ -414,7 +430,7 @@ impl BigFloatNumber {
                 inexact,
             };
 
-            ret.subnormalize(e, rm);
+            ret.subnormalize(e, rm, sticky);
 
             Ok(ret)
         } else {
@@ -575,6 +591,19 @@ impl BigFloatNumber {
         op: i8,
         rm: RoundingMode,
         full_prec: bool,
+    ) -> Result<Self, Error> {
+        self.add_sub_internal(d2, p, op, rm, rm, full_prec)
+    }
+
+    // `rm` is used for rounding to the precision `p`, and `subnormal_rm` for rounding of subnormal numbers.
+    fn add_sub_internal(
+        &self,
+        d2: &Self,
+        p: usize,
+        op: i8,
+        rm: RoundingMode,
+        subnormal_rm: RoundingMode,
+        full_prec: bool,
     ) -> Result<Self, Error> {
         let p = round_p(p);
         Self::p_assertion(p)?;
@@ -607,10 +636,10 @@ impl BigFloatNumber {
         let (e2, m2_opt) = d2.normalize()?;
         let m2 = m2_opt.as_ref().unwrap_or(&d2.m);
 
-        let mut inexact = self.inexact || d2.inexact;
+        let mut inexact = false;
 
         let mut e;
-        let (shift, m3) = if (self.s != d2.s && op >= 0) || (op < 0 && self.s == d2.s) {
+        let (shift, mut m3) = if (self.s != d2.s && op >= 0) || (op < 0 && self.s == d2.s) {
             // subtract
             let cmp = self.abs_cmp(d2);
             if cmp > 0 {
@@ -639,7 +668,7 @@ impl BigFloatNumber {
                 )
             } else {
                 let mut ret = Self::new(p)?;
-                ret.inexact = inexact;
+                ret.inexact = self.inexact || d2.inexact;
                 return Ok(ret);
             }
         } else {
@@ -670,7 +699,7 @@ impl BigFloatNumber {
             }
         }?;
 
-        d3.inexact |= inexact;
+        d3.inexact |= inexact || self.inexact || d2.inexact;
 
         #[cfg(not(target_arch = "x86"))]
         {
@@ -682,20 +711,31 @@ impl BigFloatNumber {
             return Err(Error::ExponentOverflow(d3.s));
         }
 
-        d3.m = m3;
-
         if e < EXPONENT_MIN as isize {
+            if inexact && Self::is_to_nearest(rm) {
+                // avoid double rounding
+                return self.add_sub_internal(d2, p, op, RoundingMode::ToZero, rm, full_prec);
+            }
+
+            if full_prec {
+                // keep all digits
+                m3.set_length(m3.max_bit_len() + (EXPONENT_MIN as isize - e) as usize)?;
+            }
+
+            d3.m = m3;
             d3.e = EXPONENT_MIN;
-            d3.subnormalize(e, rm);
+            d3.subnormalize(e, subnormal_rm, inexact && rm != subnormal_rm);
         } else {
+            d3.m = m3;
             d3.e = e as Exponent;
         }
 
         Ok(d3)
     }
 
-    /// Make `self` subnormal
-    pub(crate) fn subnormalize(&mut self, e: isize, rm: RoundingMode) {
+    /// Make `self` subnormal.
+    /// `sticky` tells that the absolute value was truncated before, i.e. that nonzero digits follow the mantissa.
+    pub(crate) fn subnormalize(&mut self, e: isize, rm: RoundingMode, sticky: bool) {
         debug_assert_eq!(self.exponent(), EXPONENT_MIN);
         debug_assert!(!self.is_subnormal());
 
@@ -704,20 +744,34 @@ impl BigFloatNumber {
         }
 
         let is_positive = self.is_positive();
+        let max_bit_len = self.m.max_bit_len();
+        let mut shift = (EXPONENT_MIN as isize - e) as usize;
 
-        if (self.m.max_bit_len() as isize) + e > EXPONENT_MIN as isize {
+        if shift < max_bit_len {
             // subnormal
 
-            let mut shift = (EXPONENT_MIN as isize - e) as usize;
-
             let mut inexact = self.inexact;
 
+            let rm = if sticky && Self::is_to_nearest(rm) {
+                // the truncated digits resolve a tie
+                if (self.m.digits()[(shift - 1) / WORD_BIT_SIZE] >> ((shift - 1) % WORD_BIT_SIZE))
+                    & 1
+                    != 0
+                {
+                    RoundingMode::FromZero
+                } else {
+                    RoundingMode::ToZero
+                }
+            } else {
+                rm
+            };
+
             if self.m.round_mantissa(
                 shift,
                 rm,
                 is_positive,
                 &mut false,
-                self.m.max_bit_len(),
+                max_bit_len,
                 &mut inexact,
             ) {
                 shift -= 1;
@@ -732,8 +786,13 @@ impl BigFloatNumber {
         } else if rm == RoundingMode::FromZero
             || (is_positive && rm == RoundingMode::Up)
             || (!is_positive && rm == RoundingMode::Down)
+            || (shift == max_bit_len
+                && (rm == RoundingMode::ToOdd
+                    || (rm == RoundingMode::ToEven
+                        && (sticky || self.m.find_one_from(1).is_some()))))
         {
-            // non zero for directed rounding modes
+            // non zero for directed rounding modes,
+            // and for rounding to even/odd when the value is not below half of the minimum positive value
             self.m.set_zero();
             self.m.digits_mut()[0] = 1;
             self.m.set_bit_len(1);
@@ -745,6 +804,11 @@ impl BigFloatNumber {
         }
     }
 
+    #[inline]
+    fn is_to_nearest(rm: RoundingMode) -> bool {
+        rm == RoundingMode::ToEven || rm == RoundingMode::ToOdd
+    }
+
     /// Compares `self` to `d2`.
     /// Returns positive if `self` is greater than `d2`, negative if `self` is smaller than `d2`, 0 otherwise.
     pub fn cmp(&self, d2: &Self) -> SignedWord {
@@ -1258,7 +1322,7 @@ impl BigFloatNumber {
                     let e = -(n as isize - 1);
                     if e < EXPONENT_MIN as isize {
                         ret.e = EXPONENT_MIN;
-                        ret.subnormalize(e, rm);
+                        ret.subnormalize(e, rm, false);
                     } else {
                         ret.e = e as Exponent;
                     }
@@ -1547,7 +1611,7 @@ impl BigFloatNumber {
     pub(crate) fn div_by_2(&mut self, rm: RoundingMode) {
         let e = self.exponent();
         if e == EXPONENT_MIN {
-            self.subnormalize(e as isize - 1, rm);
+            self.subnormalize(e as isize - 1, rm, false);
         } else {
             self.set_exponent(e - 1);
         }
diff --git a/astro-float-num/src/ops/cbrt.rs b/astro-float-num/src/ops/cbrt.rs
index b153560..72f3eb3 100644
--- a/astro-float-num/src/ops/cbrt.rs
+++ b/astro-float-num/src/ops/cbrt.rs
@@ -44,7 +44,7 @@ impl BigFloatNumber {
             let mut ret =
                 BigFloatNumber::from_raw_unchecked(m3, self.sign(), EXPONENT_MIN, inexact);
 
-            ret.subnormalize(e, rm);
+            ret.subnormalize(e, rm, false);
 
             Ok(ret)
         } else {
diff --git a/astro-float-num/src/ops/sqrt.rs b/astro-float-num/src/ops/sqrt.rs
index b64aedf..dd93d9b 100644
--- a/astro-float-num/src/ops/sqrt.rs
+++ b/astro-float-num/src/ops/sqrt.rs
@@ -40,7 +40,7 @@ impl BigFloatNumber {
         if e < EXPONENT_MIN as isize {
             let mut ret = BigFloatNumber::from_raw_unchecked(m3, Sign::Pos, EXPONENT_MIN, inexact);
 
-            ret.subnormalize(e, rm);
+            ret.subnormalize(e, rm, false);
 
             Ok(ret)
         } else {
-- 
2.43.0


From 804205aef0057a3b79ba5d99eaa13301b3eaca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:53 +0000
Subject: [PATCH 04/45] fix: compare magnitudes in BigFloat::abs_cmp

---
 astro-float-num/src/ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 60822c9..124a122 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -352,7 +352,7 @@ impl BigFloat {
     pub fn abs_cmp(&self, d2: &Self) -> Option<SignedWord> {
         match &self.inner {
             Flavor::Value(v1) => match &d2.inner {
-                Flavor::Value(v2) => Some(v1.cmp(v2)),
+                Flavor::Value(v2) => Some(v1.abs_cmp(v2)),
                 Flavor::Inf(_) => Some(-1),
                 Flavor::NaN(_) => None,
             },
-- 
2.43.0


From 723d83a33466d619e36a936c35d9460c78e9b78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:53 +0000
Subject: [PATCH 05/45] fix: signum of zero is zero

---
 astro-float-num/src/ext.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 124a122..9b0b754 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -589,6 +589,8 @@ impl BigFloat {
     pub fn signum(&self) -> Self {
         if self.is_nan() {
             NAN
+        } else if self.is_zero() {
+            Self::new(DEFAULT_P)
         } else if self.is_negative() {
             let mut ret = Self::from_u8(1, DEFAULT_P);
             ret.inv_sign();
-- 
2.43.0


From 581e35cc48a5d9ced8f02e2eea5788d4e316d2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:53 +0000
Subject: [PATCH 06/45] fix: round of a subnormal number whose fraction ends
 right above the mantissa

---
 astro-float-num/src/num.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index 8465db2..547c7a1 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -1300,7 +1300,7 @@ impl BigFloatNumber {
 
             if m >= self.mantissa_max_bit_len() {
                 let is_positive = self.is_positive();
-                let msb_set = self.m.most_significant_word() & WORD_SIGNIFICANT_BIT != 0;
+                let msb_set = !self.is_subnormal();
 
                 ret.m.set_zero();
 
-- 
2.43.0


From 3ac85fdc46430d701c37313ece770364ec48595c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:11 +0000
Subject: [PATCH 07/45] fix: keep the inexact mark of a zero operand

---
 astro-float-num/src/num.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index 547c7a1..5055733 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -315,6 +315,8 @@ impl BigFloatNumber {
         if self.m.is_zero() || d2.m.is_zero() {
             let mut ret = Self::new(p)?;
             ret.set_sign(s);
+            // an exact zero makes the product exact
+            ret.set_inexact((self.inexact || !self.m.is_zero()) && (d2.inexact || !d2.m.is_zero()));
             return Ok(ret);
         }
 
@@ -392,6 +394,7 @@ impl BigFloatNumber {
         if self.m.is_zero() {
             let mut ret = Self::new(p)?; // self / d2 = 0
             ret.set_sign(s);
+            ret.set_inexact(self.inexact);
             return Ok(ret);
         }
 
@@ -613,6 +616,7 @@ impl BigFloatNumber {
         // one of the args is zero
         if self.m.is_zero() {
             let mut ret = if op < 0 { d2.neg() } else { d2.clone() }?;
+            ret.inexact |= self.inexact;
 
             if !full_prec {
                 ret.set_precision(p, rm)?;
@@ -623,6 +627,7 @@ impl BigFloatNumber {
 
         if d2.m.is_zero() {
             let mut ret = self.clone()?;
+            ret.inexact |= d2.inexact;
 
             if !full_prec {
                 ret.set_precision(p, rm)?;
-- 
2.43.0


From 1efa1c4509393abc8710ed4515d0de9d414af313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:09 +0000
Subject: [PATCH 08/45] fix: trust only known digits when deciding roundability
 in nearest modes

---
 astro-float-num/src/mantissa/mantissa.rs | 39 +++++++++---------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/astro-float-num/src/mantissa/mantissa.rs b/astro-float-num/src/mantissa/mantissa.rs
index 352ea0d..bea126d 100644
--- a/astro-float-num/src/mantissa/mantissa.rs
+++ b/astro-float-num/src/mantissa/mantissa.rs
@@ -897,54 +897,45 @@ impl Mantissa {
             let mut i;
             let mut t;
             let mut c = false;
-            let mut cc = (n - (self.max_bit_len() - s)) / WORD_BIT_SIZE; // num of roundable significant words
+            let untrusted = self.max_bit_len().saturating_sub(s); // num of bits which are not known to be correct
+            let mut cc = n.saturating_sub(untrusted) / WORD_BIT_SIZE; // num of roundable significant words
+
+            if *check_roundable && n <= untrusted {
+                return false; // nothing is known about the removed bits
+            }
 
             if rm == RoundingMode::ToEven || rm == RoundingMode::ToOdd {
                 let n = n - 1;
                 let mut rem_zero = true;
-                let mut td = 0; // either all bits set, or zero (default)
+                cc = n.saturating_sub(untrusted) / WORD_BIT_SIZE;
 
                 // analyze bits at n and at n+1
                 // to decide if we need to add 1 or not.
                 let np1 = n + 1;
                 i = n / WORD_BIT_SIZE;
-                let mut z = i;
                 t = n % WORD_BIT_SIZE;
                 let ip1 = np1 / WORD_BIT_SIZE;
                 let tp1 = np1 % WORD_BIT_SIZE;
                 let num = (self.m[i] >> t) & 1;
+
+                // self is not roundable if it is not known on which side of the midpoint the value lies,
+                // i.e. the rounding bit is followed only by its inversion.
+                let td = if num == 1 { 0 } else { WORD_MAX };
+
                 if t > 0 {
                     let rb = self.m[i] << (WORD_BIT_SIZE - t);
                     if rb != 0 {
                         rem_zero = false;
-
-                        if *check_roundable {
-                            // try to get information from preceding bits
-                            let msk = rb & (WORD_MAX << (WORD_BIT_SIZE - t));
-                            if msk == rb {
-                                td = WORD_MAX;
-                            } else if msk != 0 {
-                                *check_roundable = false; // self is roundable
-                            }
-                        }
                     }
-                } else if *check_roundable && cc > 0 && z > 0 {
-                    // try to get information from preceding word
-                    z -= 1;
-                    if self.m[z] == WORD_MAX {
-                        td = WORD_MAX;
-                        rem_zero = false; // sticky is set
-                    } else if self.m[z] != 0 {
+
+                    if *check_roundable && rb != td << (WORD_BIT_SIZE - t) {
                         *check_roundable = false; // self is roundable
-                        rem_zero = false; // sticky is set
                     }
-                    cc -= 1;
                 }
-
                 let nump1 = if ip1 < self_len { (self.m[ip1] >> tp1) & 1 } else { 0 };
 
                 // anything before n'th word becomes 0
-                for v in &mut self.m[..n / WORD_BIT_SIZE] {
+                for v in self.m[..n / WORD_BIT_SIZE].iter_mut().rev() {
                     if *check_roundable && cc > 0 {
                         if *v != td {
                             *check_roundable = false; // self is roundable
-- 
2.43.0


From b64f4416d344b165c5b18512468982c2b0910696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:09 +0000
Subject: [PATCH 09/45] fix: a nonzero number is greater by magnitude than zero

---
 astro-float-num/src/num.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index 5055733..e7e89ec 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -837,6 +837,8 @@ impl BigFloatNumber {
             } else {
                 return -1;
             }
+        } else if d2.m.is_zero() {
+            return 1;
         }
 
         let n1 = self.mantissa_max_bit_len() as isize - self.precision() as isize;
-- 
2.43.0


From 53602c9345c6fc92cc5b820e8458060f272b078d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 10/45] fix: classify zero as zero

---
 astro-float-num/src/ext.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 9b0b754..3d1a1a9 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -739,10 +739,10 @@ impl BigFloat {
     pub fn classify(&self) -> FpCategory {
         match &self.inner {
             Flavor::Value(v) => {
-                if v.is_subnormal() {
-                    FpCategory::Subnormal
-                } else if v.is_zero() {
+                if v.is_zero() {
                     FpCategory::Zero
+                } else if v.is_subnormal() {
+                    FpCategory::Subnormal
                 } else {
                     FpCategory::Normal
                 }
-- 
2.43.0


From 7925ba142fc16f0ed29328125abfffda2e85fbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:30 +0000
Subject: [PATCH 11/45] fix: finite results of pow and log terminate and are
 exact; tiny results of exp and pow are rounded instead of becoming zero

---
 astro-float-num/src/mantissa/mantissa.rs |  12 ++
 astro-float-num/src/ops/log.rs           | 108 ++++++++++++----
 astro-float-num/src/ops/pow.rs           | 151 ++++++++++++++++++-----
 3 files changed, 214 insertions(+), 57 deletions(-)

diff --git a/astro-float-num/src/mantissa/mantissa.rs b/astro-float-num/src/mantissa/mantissa.rs
index bea126d..54fe3d8 100644
--- a/astro-float-num/src/mantissa/mantissa.rs
+++ b/astro-float-num/src/mantissa/mantissa.rs
@@ -182,6 +182,18 @@ impl Mantissa {
         find_one_from(&self.m, start_pos)
     }
 
+    /// Returns the position of the least significant "1", or the length of the mantissa if it has no "1".
+    pub fn find_one_lsb(&self) -> usize {
+        let mut n = 0;
+        for v in self.m.iter() {
+            if *v != 0 {
+                return n + v.trailing_zeros() as usize;
+            }
+            n += WORD_BIT_SIZE;
+        }
+        n
+    }
+
     /// Compare to m2 and return positive if self > m2, negative if self < m2, 0 otherwise.
     pub fn abs_cmp(&self, m2: &Self, normalized: bool) -> SignedWord {
         let deref = |x: &Word| *x;
diff --git a/astro-float-num/src/ops/log.rs b/astro-float-num/src/ops/log.rs
index 40cecbc..e49c94c 100644
--- a/astro-float-num/src/ops/log.rs
+++ b/astro-float-num/src/ops/log.rs
@@ -320,15 +320,10 @@ impl BigFloatNumber {
             let mut ret = p1.div(&p2, p_x, RoundingMode::None)?;
 
             // check if x is exactly power of 10
-            if ret.is_int() {
-                let n = ret.int_as_usize()?;
-
-                let tp = TEN.powi(n, p_x, RoundingMode::None)?;
-
-                if tp.cmp(&x) == 0 {
-                    ret.set_precision(p, rm)?;
-                    return Ok(ret);
-                }
+            if let Some(mut ret) = self.log_finite(&TEN, &ret)? {
+                ret.set_precision(p, rm)?;
+                ret.set_inexact(ret.inexact() | self.inexact());
+                return Ok(ret);
             }
 
             if ret.try_set_precision(p, rm, p_wrk)? {
@@ -363,6 +358,15 @@ impl BigFloatNumber {
             return Err(Error::InvalidArgument);
         }
 
+        if self.odd_part_bit_len() == 1 && n.odd_part_bit_len() == 1 {
+            // both are powers of 2
+            let e1 = Self::from_i128(self.lowest_bit_exponent() as i128, 2 * WORD_BIT_SIZE)?;
+            let e2 = Self::from_i128(n.lowest_bit_exponent() as i128, 2 * WORD_BIT_SIZE)?;
+            let mut ret = e1.div(&e2, p, rm)?;
+            ret.set_inexact(ret.inexact() | self.inexact() | n.inexact());
+            return Ok(ret);
+        }
+
         // ln(self) / ln(n)
 
         let mut p_inc = WORD_BIT_SIZE;
@@ -384,30 +388,86 @@ impl BigFloatNumber {
 
             let mut ret = p1.div(&p2, p_x, RoundingMode::None)?;
 
-            let mut ret2 = ret.clone()?; // clone, becuase try_set_precision modifies ret
+            // check if the result is exact
+            if let Some(mut ret) = self.log_finite(n, &ret)? {
+                ret.set_precision(p, rm)?;
+                ret.set_inexact(ret.inexact() | self.inexact() | n.inexact());
+                return Ok(ret);
+            }
+
             if ret.try_set_precision(p, rm, p_wrk)? {
                 ret.set_inexact(ret.inexact() | self.inexact() | n.inexact());
                 return Ok(ret);
-            } else {
-                // check if the result is exact
-                let pwr = y.pow(
-                    &ret2,
-                    p_x.max(self.mantissa_max_bit_len()),
-                    RoundingMode::None,
-                    cc,
-                )?;
-
-                if pwr.cmp(self) == 0 {
-                    ret2.set_inexact(ret2.inexact() | self.inexact() | n.inexact());
-                    ret2.set_precision(p, rm)?;
-                    return Ok(ret2);
-                }
             }
 
             p_wrk += p_inc;
             p_inc = round_p(p_wrk / 5);
         }
     }
+
+    // Returns logarithm base `n` of `self` if it has a finite number of digits,
+    // given `approx` is its approximation.
+    // `self` and `n` are positive, and are not both powers of 2.
+    fn log_finite(&self, n: &Self, approx: &Self) -> Result<Option<Self>, Error> {
+        if approx.is_zero() || approx.is_negative() {
+            return Ok(None);
+        }
+
+        // The logarithm is a / 2^k, a is integer, if and only if n = g^(2^k), and self = g^a.
+        let bits = n.odd_part_bit_len();
+        let mut k = 0;
+        while bits >> (k + 1) > 0 {
+            k += 1;
+        }
+
+        let e = approx.exponent() as isize + k as isize;
+        if e < 0 || e >= WORD_BIT_SIZE as isize {
+            return Ok(None);
+        }
+
+        let mut c = approx.clone()?;
+        c.set_exponent(e as Exponent);
+        let a = c.round(0, RoundingMode::ToEven)?;
+        let d = c.sub(&a, WORD_BIT_SIZE, RoundingMode::None)?;
+        if a.is_zero() || (!d.is_zero() && d.exponent() as isize >= -(WORD_BIT_SIZE as isize) / 4) {
+            return Ok(None);
+        }
+
+        let mut a = a.int_as_usize()?;
+        while a & 1 == 0 && k > 0 {
+            a >>= 1;
+            k -= 1;
+        }
+
+        let mut g = n.clone()?;
+        g.set_inexact(false);
+        for _ in 0..k {
+            g = match g.exact_sqrt()? {
+                Some(v) => v,
+                None => return Ok(None),
+            };
+        }
+
+        let bits = g.odd_part_bit_len();
+        if bits == 1 || (bits - 1).saturating_mul(a) >= self.odd_part_bit_len() {
+            return Ok(None);
+        }
+
+        match g.powi(a, self.mantissa_max_bit_len(), RoundingMode::None) {
+            Ok(v) => {
+                if v.inexact() || v.cmp(self) != 0 {
+                    return Ok(None);
+                }
+            }
+            Err(Error::ExponentOverflow(_)) => return Ok(None),
+            Err(e) => return Err(e),
+        }
+
+        let mut ret = Self::from_usize(a)?;
+        ret.set_exponent(ret.exponent() - k as Exponent);
+
+        Ok(Some(ret))
+    }
 }
 
 #[cfg(test)]
diff --git a/astro-float-num/src/ops/pow.rs b/astro-float-num/src/ops/pow.rs
index cfcfab5..1c9f713 100644
--- a/astro-float-num/src/ops/pow.rs
+++ b/astro-float-num/src/ops/pow.rs
@@ -4,13 +4,13 @@ use crate::common::consts::{FOUR, THREE};
 use crate::common::util::{calc_add_cost, calc_mul_cost, round_p};
 use crate::ops::consts::Consts;
 use crate::ops::util::compute_small_exp;
-use crate::EXPONENT_MIN;
 use crate::{
     common::consts::ONE,
     defs::{Error, WORD_BIT_SIZE, WORD_SIGNIFICANT_BIT},
     num::BigFloatNumber,
     RoundingMode, Sign,
 };
+use crate::{Exponent, EXPONENT_MAX, EXPONENT_MIN};
 
 use super::series::{series_cost_optimize, series_run, ArgReductionEstimator, PolycoeffGen};
 
@@ -119,19 +119,28 @@ impl BigFloatNumber {
             let p_x = p_wrk + 2;
 
             let mut ret = if self.is_negative() {
-                let x = match self.exp_positive_arg(p_x, cc) {
-                    Ok(v) => Ok(v),
-                    Err(e) => match e {
-                        Error::ExponentOverflow(sign) => {
-                            return Self::new2(p, sign, self.inexact());
+                match self.exp_positive_arg(p_x, cc) {
+                    Ok(x) => ONE.div(&x, p_x, RoundingMode::FromZero),
+                    Err(Error::ExponentOverflow(_)) => {
+                        // the result is close to the smallest number, or is even smaller
+                        let mut half = self.clone()?;
+                        half.div_by_2(RoundingMode::None);
+
+                        match half.exp_positive_arg(p_x, cc) {
+                            Ok(x) => {
+                                let ret = ONE.div(&x, p_x, RoundingMode::FromZero)?;
+                                let ret = ret.mul(&ret, p_x, RoundingMode::FromZero)?;
+                                if ret.exponent() == EXPONENT_MIN && ret.precision() == 1 {
+                                    return Self::underflow(p, rm);
+                                }
+                                Ok(ret)
+                            }
+                            Err(Error::ExponentOverflow(_)) => return Self::underflow(p, rm),
+                            Err(e) => Err(e),
                         }
-                        Error::DivisionByZero => Err(Error::DivisionByZero),
-                        Error::InvalidArgument => Err(Error::InvalidArgument),
-                        Error::MemoryAllocation => Err(Error::MemoryAllocation),
-                    },
-                }?;
-
-                ONE.div(&x, p_x, RoundingMode::FromZero)
+                    }
+                    Err(e) => Err(e),
+                }
             } else {
                 self.exp_positive_arg(p_x, cc)
             }?;
@@ -146,6 +155,15 @@ impl BigFloatNumber {
         }
     }
 
+    // Returns the result of rounding of a positive number
+    // which is less than a half of the smallest positive number.
+    fn underflow(p: usize, rm: RoundingMode) -> Result<Self, Error> {
+        let mut ret = Self::min_positive(p + WORD_BIT_SIZE)?;
+        ret.set_precision(p, rm)?;
+        ret.set_inexact(true);
+        Ok(ret)
+    }
+
     // exp for positive argument
     fn exp_positive_arg(&self, p: usize, cc: &mut Consts) -> Result<Self, Error> {
         debug_assert!(!self.is_zero());
@@ -528,17 +546,22 @@ impl BigFloatNumber {
         let mut p_wrk = p.max(self.mantissa_max_bit_len().max(y.mantissa_max_bit_len())) + p_inc;
 
         match || -> Result<Self, Error> {
+            if let Some(mut ret) = x.pow_finite(&y, p, effective_rm)? {
+                ret.set_inexact(ret.inexact() | self.inexact() | n.inexact());
+                return Ok(ret);
+            }
+
             loop {
                 let p_ext = p_wrk + 2;
                 x.set_precision(p_ext, RoundingMode::None)?;
 
                 let ln = x.ln(p_ext, RoundingMode::None, cc)?;
 
-                let mut m = match y.mul(&ln, p_ext, RoundingMode::None) {
+                let m = match y.mul(&ln, p_ext, RoundingMode::None) {
                     Ok(v) => Ok(v),
                     Err(e) => match e {
                         Error::ExponentOverflow(Sign::Neg) => {
-                            return Self::new2(p, Sign::Pos, n.inexact() || ln.inexact());
+                            return Self::underflow(p, effective_rm);
                         }
                         Error::ExponentOverflow(Sign::Pos) => {
                             Err(Error::ExponentOverflow(Sign::Pos))
@@ -558,25 +581,11 @@ impl BigFloatNumber {
                     effective_rm
                 );
 
-                let mut ret = if m.is_negative() {
-                    m.set_sign(Sign::Pos);
+                let mut ret = m.exp(p_ext, RoundingMode::None, cc)?;
 
-                    let u = match m.exp(p_ext, RoundingMode::None, cc) {
-                        Ok(v) => Ok(v),
-                        Err(e) => match e {
-                            Error::ExponentOverflow(sign) => {
-                                return Self::new2(p, sign, self.inexact());
-                            }
-                            Error::DivisionByZero => Err(Error::DivisionByZero),
-                            Error::InvalidArgument => Err(Error::InvalidArgument),
-                            Error::MemoryAllocation => Err(Error::MemoryAllocation),
-                        },
-                    }?;
-
-                    ONE.div(&u, p_ext, RoundingMode::FromZero)
-                } else {
-                    m.exp(p_ext, RoundingMode::None, cc)
-                }?;
+                if ret.is_zero() {
+                    return Self::underflow(p, effective_rm);
+                }
 
                 if ret.try_set_precision(p, effective_rm, p_wrk)? {
                     ret.set_inexact(ret.inexact() | self.inexact() | n.inexact());
@@ -599,6 +608,82 @@ impl BigFloatNumber {
             },
         }
     }
+
+    // Computes `self` to the power of `n` if the result has a finite number of digits
+    // which is small enough to be representable or to be a midpoint with precision `p`
+    // (the rounding of such result can't be decided with approximations).
+    // `self` is positive and is not equal to 1, `n` is not zero.
+    fn pow_finite(&self, n: &Self, p: usize, rm: RoundingMode) -> Result<Option<Self>, Error> {
+        let mut x = self.clone()?;
+        let mut y = n.clone()?;
+
+        // self^n = (self^(1/2^k))^(n*2^k), where n*2^k is integer, and the root must be exact.
+        let k = -n.lowest_bit_exponent();
+        if k > 0 {
+            for _ in 0..k {
+                x = match x.exact_sqrt()? {
+                    Some(v) => v,
+                    None => return Ok(None),
+                };
+            }
+            y.set_exponent((y.exponent() as isize + k) as Exponent);
+        }
+
+        if y.exponent() as usize >= WORD_BIT_SIZE - 1 {
+            return Ok(None);
+        }
+
+        let i = y.int_as_usize()?;
+        let bits = x.odd_part_bit_len();
+
+        if bits == 1 {
+            // power of 2
+            let mut e = x.lowest_bit_exponent() as i128 * i as i128;
+            if y.is_negative() {
+                e = -e;
+            }
+            e += 1;
+
+            let mut ret = Self::from_word(1, p)?;
+            if e > EXPONENT_MAX as i128 {
+                return Err(Error::ExponentOverflow(Sign::Pos));
+            } else if e >= EXPONENT_MIN as i128 {
+                ret.set_exponent(e as Exponent);
+            } else {
+                let e = e.max(EXPONENT_MIN as i128 - 2 * p as i128);
+                ret.set_exponent(EXPONENT_MIN);
+                ret.subnormalize(e as isize, rm, false);
+            }
+
+            Ok(Some(ret))
+        } else if y.is_positive() && (bits - 1).saturating_mul(i) <= p {
+            x.powi(i, p, rm).map(Some)
+        } else {
+            Ok(None)
+        }
+    }
+
+    // Returns the exponent of the least significant non-zero bit.
+    pub(super) fn lowest_bit_exponent(&self) -> isize {
+        let zeroes = self.mantissa().find_one_lsb();
+        self.exponent() as isize - self.mantissa_max_bit_len() as isize + zeroes as isize
+    }
+
+    // Returns the number of bits between the most and the least significant non-zero bits, inclusive.
+    pub(super) fn odd_part_bit_len(&self) -> usize {
+        self.precision() - self.mantissa().find_one_lsb()
+    }
+
+    // Returns square root of `self` if it is exact.
+    pub(super) fn exact_sqrt(&self) -> Result<Option<Self>, Error> {
+        if self.lowest_bit_exponent() & 1 != 0 {
+            return Ok(None);
+        }
+
+        let ret = self.sqrt(self.mantissa_max_bit_len(), RoundingMode::None)?;
+
+        Ok(if ret.inexact() { None } else { Some(ret) })
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 9efe3e391b2340ce4e4e3c7bc3499afde934424f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:39 +0000
Subject: [PATCH 12/45] fix: sinh and cosh reach the largest numbers although
 e^x overflows

---
 astro-float-num/src/ops/cosh.rs | 21 ++++++++++++--------
 astro-float-num/src/ops/pow.rs  | 21 ++++++++++++++++++++
 astro-float-num/src/ops/sinh.rs | 34 ++++++++++++++++-----------------
 3 files changed, 50 insertions(+), 26 deletions(-)

diff --git a/astro-float-num/src/ops/cosh.rs b/astro-float-num/src/ops/cosh.rs
index 87ecd83..9e1e40e 100644
--- a/astro-float-num/src/ops/cosh.rs
+++ b/astro-float-num/src/ops/cosh.rs
@@ -48,19 +48,24 @@ impl BigFloatNumber {
             {
                 // e^x / 2
 
-                x.exp(p_x, RoundingMode::None, cc)
+                x.exp_div_by_2(p_x, cc)
             } else {
                 // (e^x + e^(-x)) / 2
 
-                let ex = x.exp(p_x, RoundingMode::None, cc)?;
-
-                let xe = ex.reciprocal(p_x, RoundingMode::None)?;
-
-                ex.add(&xe, p_x, RoundingMode::None)
+                match x.exp(p_x, RoundingMode::None, cc) {
+                    Ok(ex) => {
+                        let xe = ex.reciprocal(p_x, RoundingMode::None)?;
+
+                        ex.add(&xe, p_x, RoundingMode::None).map(|mut val| {
+                            val.div_by_2(RoundingMode::None);
+                            val
+                        })
+                    }
+                    Err(Error::ExponentOverflow(_)) => x.exp_div_by_2(p_x, cc),
+                    Err(err) => Err(err),
+                }
             }?;
 
-            ret.div_by_2(RoundingMode::None);
-
             if ret.try_set_precision(p, rm, p_wrk)? {
                 ret.set_inexact(ret.inexact() | self.inexact());
                 break Ok(ret);
diff --git a/astro-float-num/src/ops/pow.rs b/astro-float-num/src/ops/pow.rs
index 1c9f713..e1e09f1 100644
--- a/astro-float-num/src/ops/pow.rs
+++ b/astro-float-num/src/ops/pow.rs
@@ -155,6 +155,27 @@ impl BigFloatNumber {
         }
     }
 
+    // Computes e^self / 2 for positive `self` (the power itself can be too large).
+    pub(super) fn exp_div_by_2(&self, p: usize, cc: &mut Consts) -> Result<Self, Error> {
+        match self.exp(p, RoundingMode::None, cc) {
+            Ok(mut ret) => {
+                ret.div_by_2(RoundingMode::None);
+                Ok(ret)
+            }
+            Err(Error::ExponentOverflow(_)) => {
+                let mut half = self.clone()?;
+                half.div_by_2(RoundingMode::None);
+
+                let x1 = half.exp(p, RoundingMode::None, cc)?;
+                let mut x2 = x1.clone()?;
+                x2.div_by_2(RoundingMode::None);
+
+                x1.mul(&x2, p, RoundingMode::None)
+            }
+            Err(e) => Err(e),
+        }
+    }
+
     // Returns the result of rounding of a positive number
     // which is less than a half of the smallest positive number.
     fn underflow(p: usize, rm: RoundingMode) -> Result<Self, Error> {
diff --git a/astro-float-num/src/ops/sinh.rs b/astro-float-num/src/ops/sinh.rs
index d799f55..1953f30 100644
--- a/astro-float-num/src/ops/sinh.rs
+++ b/astro-float-num/src/ops/sinh.rs
@@ -45,36 +45,34 @@ impl BigFloatNumber {
             let mut ret = if x.exponent() <= 0 {
                 Self::sinh_series(x.clone()?, p_x, RoundingMode::None)?
             } else {
-                let mut val = if ethres > x.mantissa_max_bit_len() + 2 {
+                let val = if ethres > x.mantissa_max_bit_len() + 2 {
                     // e^|x| / 2 * signum(self)
 
-                    x.exp(p_x, RoundingMode::None, cc)
+                    x.exp_div_by_2(p_x, cc)
                 } else {
                     // (e^x - e^(-x)) / 2
 
-                    let ex = match x.exp(p_x, RoundingMode::None, cc) {
-                        Ok(val) => val,
-                        Err(Error::ExponentOverflow(_)) => {
-                            return Err(Error::ExponentOverflow(self.sign()));
-                        }
-                        Err(err) => return Err(err),
-                    };
+                    match x.exp(p_x, RoundingMode::None, cc) {
+                        Ok(ex) => {
+                            let xe = ex.reciprocal(p_x, RoundingMode::None)?;
 
-                    let xe = ex.reciprocal(p_x, RoundingMode::None)?;
+                            ex.sub(&xe, p_x, RoundingMode::None).map(|mut val| {
+                                val.div_by_2(RoundingMode::None);
+                                val
+                            })
+                        }
+                        Err(Error::ExponentOverflow(_)) => x.exp_div_by_2(p_x, cc),
+                        Err(err) => Err(err),
+                    }
+                };
 
-                    ex.sub(&xe, p_x, RoundingMode::None)
-                }
-                .map_err(|e| -> Error {
+                val.map_err(|e| -> Error {
                     if let Error::ExponentOverflow(_) = e {
                         Error::ExponentOverflow(self.sign())
                     } else {
                         e
                     }
-                })?;
-
-                val.div_by_2(RoundingMode::None);
-
-                val
+                })?
             };
 
             ret.set_sign(self.sign());
-- 
2.43.0


From 73f77983fbc16cb8ccaf722020c3d24bef8fd08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:39 +0000
Subject: [PATCH 13/45] fix: quotient of a finite number and infinity has the
 requested precision and the right sign

---
 astro-float-num/src/ext.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 3d1a1a9..e715bc4 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -289,7 +289,10 @@ impl BigFloat {
                 Flavor::Value(v2) => {
                     Self::result_to_ext(v1.div(v2, p, rm), v1.is_zero(), v1.sign() == v2.sign())
                 }
-                Flavor::Inf(_) => Self::new(v1.mantissa_max_bit_len()),
+                Flavor::Inf(s2) => {
+                    let s = if v1.sign() == *s2 { Sign::Pos } else { Sign::Neg };
+                    Self::result_to_ext(BigFloatNumber::new2(p, s, false), false, true)
+                }
                 Flavor::NaN(err) => Self::nan(*err),
             },
             Flavor::Inf(s1) => match &d2.inner {
-- 
2.43.0


From cbe20e6c62b3c48a663aad7f6f64b6c8cfe8003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:39 +0000
Subject: [PATCH 14/45] fix: powers with an infinite argument follow the limits

---
 astro-float-num/src/ext.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index e715bc4..ac08766 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -392,15 +392,23 @@ impl BigFloat {
                     ),
                     Flavor::Inf(s2) => {
                         // v1^inf
-                        let val = v1.cmp(&crate::common::consts::ONE);
-                        if val > 0 {
-                            BigFloat {
-                                inner: Flavor::Inf(*s2),
+                        let val = v1.abs_cmp(&crate::common::consts::ONE);
+                        if val == 0 {
+                            Self::from_word(1, p)
+                        } else if val > 0 {
+                            if v1.is_positive() {
+                                BigFloat {
+                                    inner: Flavor::Inf(*s2),
+                                }
+                            } else if s2.is_positive() {
+                                INF_POS
+                            } else {
+                                Self::new(p)
                             }
-                        } else if val < 0 {
+                        } else if s2.is_positive() || v1.is_zero() {
                             Self::new(p)
                         } else {
-                            Self::from_u8(1, p)
+                            INF_POS
                         }
                     }
                     Flavor::NaN(err) => Self::nan(*err),
@@ -411,7 +419,7 @@ impl BigFloat {
                     Flavor::Value(v2) => {
                         // inf ^ v2
                         if v2.is_zero() {
-                            Self::from_u8(1, p)
+                            Self::from_word(1, p)
                         } else if v2.is_positive() {
                             if s1.is_negative() && v2.is_odd_int() {
                                 // v2 is odd and has no fractional part.
@@ -447,7 +455,7 @@ impl BigFloat {
             Flavor::Inf(s1) => {
                 // inf ^ v2
                 if n == 0 {
-                    Self::from_u8(1, p)
+                    Self::from_word(1, p)
                 } else if s1.is_negative() && (n & 1 == 1) {
                     INF_NEG
                 } else {
-- 
2.43.0


From a2ad52dcab511db706d26c866248234748a829ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:39 +0000
Subject: [PATCH 15/45] fix: tanh of infinity is one for any precision

---
 astro-float-num/src/ext.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index ac08766..8f16943 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -782,7 +782,11 @@ impl BigFloat {
     pub fn tanh(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Self {
         match &self.inner {
             Flavor::Value(v) => Self::result_to_ext(v.tanh(p, rm, cc), v.is_zero(), true),
-            Flavor::Inf(s) => Self::from_i8(s.to_int(), p),
+            Flavor::Inf(s) => {
+                let mut ret = Self::from_word(1, p);
+                ret.set_sign(*s);
+                ret
+            }
             Flavor::NaN(err) => Self::nan(*err),
         }
     }
-- 
2.43.0


From b5e181903c5a6acccfb69534750c263d3d736759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:39 +0000
Subject: [PATCH 16/45] fix: arctangent of negative infinity is rounded in the
 right direction

---
 astro-float-num/src/ext.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 8f16943..c6d7aa3 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -797,6 +797,12 @@ impl BigFloat {
         rm: RoundingMode,
         cc: &mut Consts,
     ) -> Result<BigFloatNumber, Error> {
+        let rm = match rm {
+            RoundingMode::Up if s.is_negative() => RoundingMode::Down,
+            RoundingMode::Down if s.is_negative() => RoundingMode::Up,
+            v => v,
+        };
+
         let mut half_pi = cc.pi_num(p, rm)?;
 
         half_pi.set_exponent(1);
-- 
2.43.0


From a1815ab5a3ada485188e2ef50171e85979d54f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:39 +0000
Subject: [PATCH 17/45] fix: logarithm of zero, to base zero and with infinite
 arguments follows the limits

---
 astro-float-num/src/ext.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index c6d7aa3..eae7aed 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -475,14 +475,23 @@ impl BigFloat {
             Flavor::Value(v1) => {
                 match &n.inner {
                     Flavor::Value(v2) => {
-                        if v2.is_zero() {
-                            return INF_NEG;
+                        if v1.is_zero() && v2.is_positive() && !v2.is_zero() {
+                            // 0.log(v2)
+                            return if v2.cmp(&crate::common::consts::ONE) < 0 {
+                                INF_POS
+                            } else {
+                                INF_NEG
+                            };
+                        }
+                        if v2.is_zero() && v1.is_positive() && !v1.is_zero() {
+                            // v1.log(0)
+                            return Self::new(p);
                         }
                         Self::result_to_ext(v1.log(v2, p, rm, cc), false, true)
                     }
                     Flavor::Inf(s2) => {
                         // v1.log(inf)
-                        if s2.is_positive() {
+                        if s2.is_positive() && v1.is_positive() && !v1.is_zero() {
                             Self::new(p)
                         } else {
                             NAN
@@ -494,12 +503,14 @@ impl BigFloat {
             Flavor::Inf(s1) => {
                 if *s1 == Sign::Neg {
                     // -inf.log(any)
-                    NAN
+                    Self::nan(n.err())
                 } else {
                     match &n.inner {
                         Flavor::Value(v2) => {
                             // +inf.log(v2)
-                            if v2.exponent() <= 0 {
+                            if v2.is_zero() || v2.is_negative() {
+                                NAN
+                            } else if v2.cmp(&crate::common::consts::ONE) < 0 {
                                 INF_NEG
                             } else {
                                 INF_POS
-- 
2.43.0


From a23b7258e9b811937f98a6b44a6d49e59a0d8b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:39 +0000
Subject: [PATCH 18/45] fix: min, max, clamp and signum keep the error of NaN

---
 astro-float-num/src/ext.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index eae7aed..23a0dce 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -568,7 +568,7 @@ impl BigFloat {
     pub fn clamp(&self, min: &Self, max: &Self) -> Self {
         if self.is_nan() || min.is_nan() || max.is_nan() || max.cmp(min).unwrap() < 0 {
             // call to unwrap() is unreacheable
-            NAN
+            Self::nan(self.err().or(min.err()).or(max.err()))
         } else if self.cmp(min).unwrap() < 0 {
             // call to unwrap() is unreacheable
             min.clone()
@@ -584,7 +584,7 @@ impl BigFloat {
     /// If either argument is NaN, the function returns NaN.
     pub fn max(&self, d1: &Self) -> Self {
         if self.is_nan() || d1.is_nan() {
-            NAN
+            Self::nan(self.err().or(d1.err()))
         } else if self.cmp(d1).unwrap() < 0 {
             // call to unwrap() is unreacheable
             d1.clone()
@@ -597,7 +597,7 @@ impl BigFloat {
     /// If either argument is NaN, the function returns NaN.
     pub fn min(&self, d1: &Self) -> Self {
         if self.is_nan() || d1.is_nan() {
-            NAN
+            Self::nan(self.err().or(d1.err()))
         } else if self.cmp(d1).unwrap() > 0 {
             // call to unwrap() is unreacheable
             d1.clone()
@@ -610,7 +610,7 @@ impl BigFloat {
     /// The function returns NaN If `self` is NaN.
     pub fn signum(&self) -> Self {
         if self.is_nan() {
-            NAN
+            Self::nan(self.err())
         } else if self.is_zero() {
             Self::new(DEFAULT_P)
         } else if self.is_negative() {
-- 
2.43.0


From 3c9f4581e380e97c7a3f2161fc529850829d36a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:25 +0000
Subject: [PATCH 19/45] fix: pow rounds its precision up for bases and powers
 of one; zero results of infinite and zero bases have the right sign; rem
 keeps the error of NaN

---
 astro-float-num/src/ext.rs     | 8 ++++++--
 astro-float-num/src/ops/pow.rs | 9 ++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 23a0dce..944ca7f 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -320,7 +320,7 @@ impl BigFloat {
                 Flavor::Inf(_) => self.clone(),
                 Flavor::NaN(err) => Self::nan(*err),
             },
-            Flavor::Inf(_) => NAN,
+            Flavor::Inf(_) => Self::nan(d2.err()),
             Flavor::NaN(err) => Self::nan(*err),
         }
     }
@@ -428,7 +428,11 @@ impl BigFloat {
                                 INF_POS
                             }
                         } else {
-                            Self::new(p)
+                            let mut ret = Self::new(p);
+                            if s1.is_negative() && v2.is_odd_int() {
+                                ret.inv_sign();
+                            }
+                            ret
                         }
                     }
                     Flavor::Inf(s2) => {
diff --git a/astro-float-num/src/ops/pow.rs b/astro-float-num/src/ops/pow.rs
index e1e09f1..d44215b 100644
--- a/astro-float-num/src/ops/pow.rs
+++ b/astro-float-num/src/ops/pow.rs
@@ -301,6 +301,9 @@ impl BigFloatNumber {
 
         if self.is_zero() || i == 1 {
             let mut ret = self.clone()?;
+            if i & 1 == 0 {
+                ret.set_sign(Sign::Pos);
+            }
             ret.set_precision(p, rm)?;
             return Ok(ret);
         }
@@ -489,6 +492,7 @@ impl BigFloatNumber {
         rm: RoundingMode,
         cc: &mut Consts,
     ) -> Result<Self, Error> {
+        let p = round_p(p);
         let nint = n.is_int();
         if n.is_zero() {
             let mut ret = Self::from_word(1, p)?;
@@ -514,7 +518,8 @@ impl BigFloatNumber {
         } else if self.exponent() == 1 && self.abs_cmp(&ONE) == 0 {
             // 1^n or (-1)^n
             if n.is_odd_int() {
-                let mut ret = Self::from_i8(self.sign().to_int(), p)?;
+                let mut ret = Self::from_word(1, p)?;
+                ret.set_sign(self.sign());
                 ret.set_inexact(self.inexact() || n.inexact());
                 return Ok(ret);
             } else {
@@ -543,8 +548,6 @@ impl BigFloatNumber {
 
         // actual pow : self^n = e^(n * ln(self))
 
-        let p = round_p(p);
-
         let mut x = self.clone()?;
         let mut y = n.clone()?;
 
-- 
2.43.0


From ff99b9eab7ac58e26cb662568e11ea3aa38c83fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:22 +0000
Subject: [PATCH 20/45] fix: zero constructed from f32 and f64 has the
 requested precision and the sign of the source

---
 astro-float-num/src/num.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index e7e89ec..1112c24 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -877,12 +877,13 @@ impl BigFloatNumber {
     pub fn from_f64(p: usize, mut f: f64) -> Result<Self, Error> {
         Self::p_assertion(p)?;
 
-        let mut ret = Self::new(0)?;
-
         if f == 0.0f64 {
-            return Ok(ret);
+            let s = if f.is_sign_negative() { Sign::Neg } else { Sign::Pos };
+            return Self::new2(p, s, false);
         }
 
+        let mut ret = Self::new(0)?;
+
         if f.is_infinite() {
             return Err(Error::ExponentOverflow(if f.is_sign_negative() {
                 Sign::Neg
-- 
2.43.0


From 6e13af25e552088d095fb23bcb67c2fd52cdd79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:10 +0000
Subject: [PATCH 21/45] fix: subnormal f64 values are converted without losing
 a factor of two

---
 astro-float-num/src/num.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index 1112c24..b4a4b99 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -908,9 +908,12 @@ impl BigFloatNumber {
         if exponent != 0 {
             mantissa >>= 1;
             mantissa |= 0x8000000000000000u64;
-            exponent += 1;
         }
 
+        // the mantissa of a normal value was shifted by one, and a subnormal value has the exponent
+        // of the smallest normal one.
+        exponent += 1;
+
         let (shift, m) = Mantissa::from_u64(p, mantissa)?;
 
         ret.m = m;
@@ -939,8 +942,8 @@ impl BigFloatNumber {
                 Sign::Pos => f64::INFINITY,
                 Sign::Neg => f64::NEG_INFINITY,
             }
-        } else if e <= 0 {
-            let shift = -e;
+        } else if e <= 1 {
+            let shift = 1 - e;
             if shift < 52 {
                 ret |= mantissa >> (shift + 12);
                 if self.s == Sign::Neg {
-- 
2.43.0


From 160c3757f5273b829ae365e0e3de51e5dc6ca5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:10 +0000
Subject: [PATCH 22/45] fix: a value truncated to zero by set_precision has the
 exponent of zero

---
 astro-float-num/src/num.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index b4a4b99..0657ad2 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -1502,6 +1502,10 @@ impl BigFloatNumber {
 
         self.m.set_length(p)?;
 
+        if self.is_zero() {
+            self.e = 0;
+        }
+
         Ok(true)
     }
 
-- 
2.43.0


From bc3f4a48cc8f1df49d35e0cad4f10eb0adef2ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:35 +0000
Subject: [PATCH 23/45] fix: decimal conversion keeps a run of zero digits in
 the middle of a number

---
 astro-float-num/src/mantissa/conv.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/astro-float-num/src/mantissa/conv.rs b/astro-float-num/src/mantissa/conv.rs
index ed5c15c..a586e83 100644
--- a/astro-float-num/src/mantissa/conv.rs
+++ b/astro-float-num/src/mantissa/conv.rs
@@ -72,7 +72,15 @@ impl Mantissa {
             let mut r = Mantissa::from_word_buf(r);
 
             if q.is_zero() {
-                let part1 = Self::conv_to_dec(&mut r, l / 2, tenpowers, p - 1, most_significant)?;
+                let mut part1 =
+                    Self::conv_to_dec(&mut r, l / 2, tenpowers, p - 1, most_significant)?;
+
+                if !most_significant {
+                    // zeroes of the upper half
+                    part1.try_reserve_exact(l - l / 2)?;
+                    part1.resize(l, 0);
+                    part1.rotate_right(l - l / 2);
+                }
 
                 Ok(part1)
             } else {
-- 
2.43.0


From 60e4225ec81a0c367b4ed007b0b7f1bff238ff7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:35 +0000
Subject: [PATCH 24/45] fix: conversion from a radix keeps the sign of zero,
 normalizes binary digits, and rounds results below the exponent range

---
 astro-float-num/src/conv.rs    | 79 ++++++++++++++++++++++------------
 astro-float-num/src/ops/pow.rs | 15 ++++---
 2 files changed, 60 insertions(+), 34 deletions(-)

diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index 300ae08..07d4de8 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -70,17 +70,52 @@ impl BigFloatNumber {
         }
     }
 
-    fn conv_from_binary(
+    // Converts a number with the exponent smaller than EXPONENT_MIN by `shift`.
+    pub(crate) fn convert_underflow(
         sign: Sign,
         digits: &[u8],
+        shift: usize,
+        rdx: Radix,
+        p: usize,
+        rm: RoundingMode,
+    ) -> Result<Self, Error> {
+        let p = if p < usize::MAX { round_p(p) } else { DEFAULT_P.max(round_p(digits.len())) };
+        Self::p_assertion(p)?;
+
+        if p == 0 {
+            return Self::new(0);
+        }
+
+        if rdx == Radix::Bin && shift <= p + 1 {
+            let mut subnormal = Vec::new();
+            subnormal.try_reserve_exact(shift + digits.len())?;
+            subnormal.resize(shift, 0);
+            subnormal.extend_from_slice(digits);
+
+            Self::conv_from_binary(sign, &subnormal, EXPONENT_MIN, p, rm)
+        } else {
+            Self::underflow(sign, p, rm)
+        }
+    }
+
+    fn conv_from_binary(
+        sign: Sign,
+        mut digits: &[u8],
         mut e: Exponent,
         p: usize,
         rm: RoundingMode,
     ) -> Result<Self, Error> {
-        if digits.is_empty() {
-            return Self::new(if p < usize::MAX { p } else { DEFAULT_P });
+        // leading zeroes
+        let zeroes = digits.iter().take_while(|&&d| d == 0).count();
+
+        if zeroes == digits.len() {
+            return Self::new2(if p < usize::MAX { p } else { DEFAULT_P }, sign, false);
         }
 
+        let zeroes = zeroes.min((e as isize - EXPONENT_MIN as isize) as usize);
+        digits = &digits[zeroes..];
+        e -= zeroes as Exponent;
+
         Self::p_assertion(round_p(digits.len()))?;
 
         let mut mantissa = Mantissa::new(digits.len())?;
@@ -113,32 +148,13 @@ impl BigFloatNumber {
 
         mantissa.update_bit_len();
 
-        if p < usize::MAX {
-            let mut ret = BigFloatNumber::from_raw_unchecked(mantissa, sign, e, false);
+        let mut ret = BigFloatNumber::from_raw_unchecked(mantissa, sign, e, false);
 
+        if p < usize::MAX {
             ret.set_precision(p, rm)?;
-
-            Ok(ret)
-        } else {
-            let shift = mantissa.max_bit_len() - mantissa.bit_len();
-
-            if shift > 0 {
-                if e > EXPONENT_MIN {
-                    let e_shift = (e - EXPONENT_MIN) as usize;
-
-                    if e_shift >= shift {
-                        mantissa.normilize2();
-                        e -= shift as Exponent;
-                    } else {
-                        mantissa.shift_left(e_shift);
-                        mantissa.set_bit_len(mantissa.bit_len() + e_shift);
-                        e = EXPONENT_MIN;
-                    }
-                }
-            }
-
-            Ok(BigFloatNumber::from_raw_unchecked(mantissa, sign, e, false))
         }
+
+        Ok(ret)
     }
 
     // radix is power of 2.
@@ -241,6 +257,10 @@ impl BigFloatNumber {
 
                     num.subnormalize(e, RoundingMode::None, false);
 
+                    if num.is_zero() {
+                        return Self::underflow(sign, p, rm);
+                    }
+
                     if num.inexact() {
                         num.mantissa_mut().digits_mut()[0] |= 1; // sticky for correct rounding when calling set_precision()
                     }
@@ -256,6 +276,7 @@ impl BigFloatNumber {
 
                     let leftshift = m.max_bit_len() - newbitlen;
                     m.shift_left(leftshift);
+                    m.set_bit_len(m.bit_len() + leftshift);
 
                     BigFloatNumber::from_raw_unchecked(m, sign, EXPONENT_MIN, false)
                 }
@@ -283,7 +304,7 @@ impl BigFloatNumber {
         let leadzeroes = digits.iter().take_while(|&&x| x == 0).count();
 
         if digits.len() - leadzeroes == 0 {
-            return Self::new(if p < usize::MAX { p } else { DEFAULT_P });
+            return Self::new2(if p < usize::MAX { p } else { DEFAULT_P }, sign, false);
         }
 
         let k = log2_ceil(digits.len() - leadzeroes);
@@ -353,6 +374,10 @@ impl BigFloatNumber {
 
             f.set_sign(sign);
 
+            if f.is_zero() {
+                return Self::underflow(sign, p, rm);
+            }
+
             if f.try_set_precision(p, rm, p_wrk)? {
                 return Ok(f);
             }
diff --git a/astro-float-num/src/ops/pow.rs b/astro-float-num/src/ops/pow.rs
index d44215b..c79e3fa 100644
--- a/astro-float-num/src/ops/pow.rs
+++ b/astro-float-num/src/ops/pow.rs
@@ -131,11 +131,11 @@ impl BigFloatNumber {
                                 let ret = ONE.div(&x, p_x, RoundingMode::FromZero)?;
                                 let ret = ret.mul(&ret, p_x, RoundingMode::FromZero)?;
                                 if ret.exponent() == EXPONENT_MIN && ret.precision() == 1 {
-                                    return Self::underflow(p, rm);
+                                    return Self::underflow(Sign::Pos, p, rm);
                                 }
                                 Ok(ret)
                             }
-                            Err(Error::ExponentOverflow(_)) => return Self::underflow(p, rm),
+                            Err(Error::ExponentOverflow(_)) => return Self::underflow(Sign::Pos, p, rm),
                             Err(e) => Err(e),
                         }
                     }
@@ -176,10 +176,11 @@ impl BigFloatNumber {
         }
     }
 
-    // Returns the result of rounding of a positive number
-    // which is less than a half of the smallest positive number.
-    fn underflow(p: usize, rm: RoundingMode) -> Result<Self, Error> {
+    // Returns the result of rounding of a number with the sign `s`,
+    // which absolute value is less than a half of the smallest positive number.
+    pub(crate) fn underflow(s: Sign, p: usize, rm: RoundingMode) -> Result<Self, Error> {
         let mut ret = Self::min_positive(p + WORD_BIT_SIZE)?;
+        ret.set_sign(s);
         ret.set_precision(p, rm)?;
         ret.set_inexact(true);
         Ok(ret)
@@ -585,7 +586,7 @@ impl BigFloatNumber {
                     Ok(v) => Ok(v),
                     Err(e) => match e {
                         Error::ExponentOverflow(Sign::Neg) => {
-                            return Self::underflow(p, effective_rm);
+                            return Self::underflow(Sign::Pos, p, effective_rm);
                         }
                         Error::ExponentOverflow(Sign::Pos) => {
                             Err(Error::ExponentOverflow(Sign::Pos))
@@ -608,7 +609,7 @@ impl BigFloatNumber {
                 let mut ret = m.exp(p_ext, RoundingMode::None, cc)?;
 
                 if ret.is_zero() {
-                    return Self::underflow(p, effective_rm);
+                    return Self::underflow(Sign::Pos, p, effective_rm);
                 }
 
                 if ret.try_set_precision(p, effective_rm, p_wrk)? {
-- 
2.43.0


From 022b8ac047c4ff187600e00c4fbde0ad0ff7b12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:35 +0000
Subject: [PATCH 25/45] fix: parser rejects trailing characters, reads
 infinity, zero with any exponent, and numbers below the exponent range

---
 astro-float-num/src/ext.rs    |  6 +++
 astro-float-num/src/parser.rs | 81 +++++++++++++++++++++++++++--------
 2 files changed, 68 insertions(+), 19 deletions(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 944ca7f..547a7e9 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -662,6 +662,12 @@ impl BigFloat {
                     }
                 } else if ps.is_nan() {
                     NAN
+                } else if let Some((m, shift)) = ps.underflow() {
+                    Self::result_to_ext(
+                        BigFloatNumber::convert_underflow(ps.sign(), m, shift, rdx, p, rm),
+                        false,
+                        true,
+                    )
                 } else {
                     let (m, s, e) = ps.raw_parts();
                     Self::result_to_ext(
diff --git a/astro-float-num/src/parser.rs b/astro-float-num/src/parser.rs
index 6f0aaf7..e47b279 100644
--- a/astro-float-num/src/parser.rs
+++ b/astro-float-num/src/parser.rs
@@ -60,8 +60,23 @@ impl<'a> ParserState<'a> {
     }
 
     /// Returns mantissa digits, mantissa length, sign, exponent.
+    /// If the exponent is below the range, the mantissa is zero.
     pub fn raw_parts(&self) -> (&[u8], Sign, Exponent) {
-        (&self.mantissa_bytes, self.sign, self.e as Exponent)
+        if self.underflow().is_some() {
+            (&[0], self.sign, 0)
+        } else {
+            (&self.mantissa_bytes, self.sign, self.e as Exponent)
+        }
+    }
+
+    /// If the number is not zero and its exponent is below the range, returns the mantissa digits
+    /// and the distance of the exponent from the range.
+    pub fn underflow(&self) -> Option<(&[u8], usize)> {
+        if !self.nan && self.e < EXPONENT_MIN as isize {
+            Some((&self.mantissa_bytes, (EXPONENT_MIN as isize).saturating_sub(self.e) as usize))
+        } else {
+            None
+        }
     }
 }
 
@@ -94,6 +109,12 @@ pub fn parse(s: &str, rdx: Radix) -> Result<ParserState, Error> {
         };
     }
 
+    if parser_state.cur_char().is_some() {
+        // the number is followed by something else
+        parser_state.inf = false;
+        parser_state.nan = true;
+    }
+
     Ok(parser_state)
 }
 
@@ -101,6 +122,16 @@ fn parse_inf(parser_state: &mut ParserState) {
     let n = parser_state.next_char();
     let f = parser_state.next_char();
     if Some('n') == n && Some('f') == f {
+        // "inf" or "infinity"
+        if parser_state.next_char().is_some() {
+            for c in "inity".chars() {
+                if parser_state.cur_char() != Some(c) {
+                    return;
+                }
+                parser_state.next_char();
+            }
+        }
+
         parser_state.inf = true;
         parser_state.nan = false;
     }
@@ -120,14 +151,16 @@ fn parse_num(parser_state: &mut ParserState, rdx: Radix) -> Result<(), Error> {
         parser_state.next_char();
     }
     let (frac_len, _) = parse_digits(parser_state, false, false, rdx)?;
-    if frac_len > 0 || int_len > 0 {
+    if frac_len > 0 || int_len > 0 || skip_cnt1 > 0 {
         parser_state.nan = false;
         if rdx == Radix::Hex {
             if Some('_') == parser_state.cur_char() {
-                parser_state.next_char();
-                if Some('e') == parser_state.cur_char() {
+                if Some('e') == parser_state.next_char() {
                     parser_state.next_char();
                     parse_exp(parser_state, rdx);
+                } else {
+                    // the separator is not followed by the exponent
+                    parser_state.nan = true;
                 }
             }
         } else if Some('e') == parser_state.cur_char() {
@@ -138,18 +171,32 @@ fn parse_num(parser_state: &mut ParserState, rdx: Radix) -> Result<(), Error> {
             parser_state.e = parser_state.e.saturating_add(int_len as isize);
         }
 
-        if parser_state.e < EXPONENT_MIN as isize {
-            let mut zero = Vec::new();
-            zero.try_reserve_exact(1)?;
-            zero.push(0);
-            parser_state.mantissa_bytes = zero;
-            parser_state.e = 0;
-        } else if parser_state.e > EXPONENT_MAX as isize {
-            parser_state.inf = true;
+        if parser_state.mantissa_bytes.iter().all(|&d| d == 0) {
+            // just zeroes
+            if parser_state.mantissa_bytes.is_empty()
+                || parser_state.e < EXPONENT_MIN as isize
+                || parser_state.e > EXPONENT_MAX as isize
+            {
+                parser_state.e = 0;
+            }
+        } else {
+            if parser_state.e > EXPONENT_MAX as isize {
+                // leading zeroes of the fractional part may bring the exponent to the range
+                let excess = (parser_state.e - EXPONENT_MAX as isize) as usize;
+                let zeroes = parser_state
+                    .mantissa_bytes
+                    .iter()
+                    .take(excess)
+                    .take_while(|&&d| d == 0)
+                    .count();
+                parser_state.mantissa_bytes.drain(..zeroes);
+                parser_state.e -= zeroes as isize;
+            }
+
+            if parser_state.e > EXPONENT_MAX as isize {
+                parser_state.inf = true;
+            }
         }
-    } else if skip_cnt1 > 0 {
-        // just zeroes
-        parser_state.nan = false;
     }
 
     Ok(())
@@ -238,12 +285,8 @@ fn parse_exp(parser_state: &mut ParserState, rdx: Radix) {
             _ => {}
         };
     }
-    let e_thres = EXPONENT_MAX.unsigned_abs().max(EXPONENT_MIN.unsigned_abs()) as isize;
     while let Some(c) = ch {
         if is_radix_digit(c, rdx) {
-            if parser_state.e > e_thres {
-                break;
-            }
             parser_state.e = parser_state.e.saturating_mul(rdx as isize);
             let digit = c.to_digit(rdx as u32).unwrap(); // call to unwrap() is unreachable, because c is surely a digit.
             parser_state.e = parser_state.e.saturating_add(digit as isize);
-- 
2.43.0


From c2947a14f7aaaf9985b1e86bbd7fd5d9b9adce89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 26/45] fix: conversions and series report a failed allocation
 instead of aborting, and format returns the error

---
 astro-float-num/src/common/buf.rs    | 4 +---
 astro-float-num/src/conv.rs          | 2 +-
 astro-float-num/src/ext.rs           | 2 +-
 astro-float-num/src/mantissa/conv.rs | 2 ++
 astro-float-num/src/ops/series.rs    | 1 +
 5 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/astro-float-num/src/common/buf.rs b/astro-float-num/src/common/buf.rs
index 844d8e5..b58475d 100644
--- a/astro-float-num/src/common/buf.rs
+++ b/astro-float-num/src/common/buf.rs
@@ -73,10 +73,8 @@ impl WordBuf {
     /// Try to exted the size to fit the precision p. Fill new elements with 0. Data is not moved.
     pub fn try_extend_2(&mut self, p: usize) -> Result<(), Error> {
         let n = (p + WORD_BIT_SIZE - 1) / WORD_BIT_SIZE;
-        if n > self.inner.capacity() {
-            self.inner.try_reserve(n - self.inner.capacity())?;
-        }
         if n > self.inner.len() {
+            self.inner.try_reserve(n - self.inner.len())?;
             self.inner.resize(n, 0);
         }
         Ok(())
diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index 07d4de8..bec45ad 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -699,7 +699,7 @@ impl BigFloatNumber {
         }
 
         let mut ret = Vec::new();
-        ret.try_reserve_exact(self.mantissa_max_bit_len() / shift)?;
+        ret.try_reserve_exact(self.mantissa_max_bit_len() / shift + 2)?; // the first and the last digits can be incomplete
 
         let mask = (WORD_MAX >> (WORD_BIT_SIZE - shift)) as DoubleWord;
         let mut iter = self.mantissa().digits().iter().rev();
diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 547a7e9..9ce335c 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -732,7 +732,7 @@ impl BigFloat {
                             "-Inf"
                         }
                     }
-                    _ => "Err",
+                    _ => return Err(e),
                 },
             },
             Flavor::Inf(sign) => {
diff --git a/astro-float-num/src/mantissa/conv.rs b/astro-float-num/src/mantissa/conv.rs
index a586e83..5e3327b 100644
--- a/astro-float-num/src/mantissa/conv.rs
+++ b/astro-float-num/src/mantissa/conv.rs
@@ -109,6 +109,7 @@ impl Mantissa {
             let mut wb2 = WordBuf::new(1)?;
             wb2[0] = 10;
 
+            tenpowers.try_reserve(1)?;
             tenpowers.push((wb, wb2, shift));
         }
 
@@ -127,6 +128,7 @@ impl Mantissa {
 
                 let shift = Self::maximize(&mut wb);
 
+                tenpowers.try_reserve(1)?;
                 tenpowers.push((wb, wb2, shift));
             }
         }
diff --git a/astro-float-num/src/ops/series.rs b/astro-float-num/src/ops/series.rs
index 0a95814..54792f8 100644
--- a/astro-float-num/src/ops/series.rs
+++ b/astro-float-num/src/ops/series.rs
@@ -327,6 +327,7 @@ fn series_horner<T: PolycoeffGen>(
         let coeff = polycoeff_gen.next(RoundingMode::None)?;
         coef_p = -coeff.exponent() as isize;
         x_p += -x_step.exponent() as isize;
+        cache.try_reserve(1)?;
         cache.push(coeff.clone()?);
     }
 
-- 
2.43.0


From 697dda87f586de1ac18f2b487f093e57e62f7cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:53 +0000
Subject: [PATCH 27/45] fix: try_set_precision accepts any number of correct
 bits

---
 astro-float-num/src/num.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index 0657ad2..afe61cf 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -1468,7 +1468,7 @@ impl BigFloatNumber {
                 rm,
                 self.is_positive(),
                 &mut check_roundable,
-                s,
+                s - s % WORD_BIT_SIZE,
                 &mut inexact,
             );
 
-- 
2.43.0


From ac859e9d0617af417825fe3dbd6739acbb48177b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:07 +0000
Subject: [PATCH 28/45] fix: zero precision does not panic in max_value,
 min_value, min_positive and in conversion to radixes 8 and 16

---
 astro-float-num/src/conv.rs              | 5 ++++-
 astro-float-num/src/mantissa/mantissa.rs | 8 ++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index bec45ad..7ba7142 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -705,7 +705,10 @@ impl BigFloatNumber {
         let mut iter = self.mantissa().digits().iter().rev();
 
         let mut done = WORD_BIT_SIZE - shift + e_shift;
-        let mut d = *iter.next().unwrap() as DoubleWord; // iter is never empty.
+        let mut d = match iter.next() {
+            Some(v) => *v as DoubleWord,
+            None => return Ok((self.sign(), ret, e)), // mantissa of zero length
+        };
         let mut cnt = 0;
 
         loop {
diff --git a/astro-float-num/src/mantissa/mantissa.rs b/astro-float-num/src/mantissa/mantissa.rs
index 54fe3d8..c0311a6 100644
--- a/astro-float-num/src/mantissa/mantissa.rs
+++ b/astro-float-num/src/mantissa/mantissa.rs
@@ -54,6 +54,10 @@ impl Mantissa {
     pub fn oned_mantissa(p: usize) -> Result<Self, Error> {
         let mut m = Self::reserve_new(Self::bit_len_to_word_len(p))?;
 
+        if m.len() == 0 {
+            return Err(Error::InvalidArgument);
+        }
+
         let n = WORD_BIT_SIZE * m.len();
 
         m.fill(WORD_MAX);
@@ -65,6 +69,10 @@ impl Mantissa {
     pub fn min(p: usize) -> Result<Self, Error> {
         let mut m = Self::reserve_new(Self::bit_len_to_word_len(p))?;
 
+        if m.len() == 0 {
+            return Err(Error::InvalidArgument);
+        }
+
         m.fill(0);
 
         m[0] = 1;
-- 
2.43.0


From 542cfba480fd4ce01ca0ac267f8a3bf2624160ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 29/45] fix: formatting and parsing with the thread-local cache
 report a failed allocation and can be nested

---
 astro-float-num/src/common/consts.rs | 20 +++++++++++++++++++-
 astro-float-num/src/ext.rs           | 15 +++++++++------
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/astro-float-num/src/common/consts.rs b/astro-float-num/src/common/consts.rs
index b7d55f4..09b1767 100644
--- a/astro-float-num/src/common/consts.rs
+++ b/astro-float-num/src/common/consts.rs
@@ -3,6 +3,8 @@
 use crate::{defs::DEFAULT_P, num::BigFloatNumber, Exponent, WORD_BIT_SIZE};
 use lazy_static::lazy_static;
 
+#[cfg(feature = "std")]
+use crate::defs::Error;
 #[cfg(feature = "std")]
 use crate::ops::consts::Consts;
 #[cfg(feature = "std")]
@@ -53,7 +55,23 @@ lazy_static! {
 // TODO: Consider using in std environment everywhere Consts are needed.
 #[cfg(feature = "std")]
 thread_local! {
-    pub static TENPOWERS: RefCell<Consts> = RefCell::new(Consts::new().expect("Failed to initialize thread-local constants cache"));
+    static TENPOWERS: RefCell<Option<Consts>> = RefCell::new(None);
+}
+
+/// Calls `f` with the thread-local constants cache.
+#[cfg(feature = "std")]
+pub(crate) fn with_tenpowers<T, F: FnOnce(&mut Consts) -> T>(f: F) -> Result<T, Error> {
+    // `f` can format or parse numbers itself, so the cache is taken out while it is in use
+    let mut cc = match TENPOWERS.with(|tp| tp.borrow_mut().take()) {
+        Some(cc) => cc,
+        None => Consts::new()?,
+    };
+
+    let ret = f(&mut cc);
+
+    TENPOWERS.with(|tp| *tp.borrow_mut() = Some(cc));
+
+    Ok(ret)
 }
 
 pub const TRIG_EXP_THRES: Exponent = -(WORD_BIT_SIZE as Exponent);
diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 9ce335c..1f6a92e 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -1628,10 +1628,9 @@ impl FromStr for BigFloat {
     /// Returns parsed number or NAN in case of error.
     /// The implementation is not available in no_std environment.
     fn from_str(src: &str) -> Result<BigFloat, Self::Err> {
-        let bf = crate::common::consts::TENPOWERS.with(|tp| {
-            let cc = &mut tp.borrow_mut();
+        let bf = crate::common::consts::with_tenpowers(|cc| {
             BigFloat::parse(src, Radix::Dec, usize::MAX, RoundingMode::ToEven, cc)
-        });
+        })?;
 
         if bf.is_nan() {
             if let Some(err) = bf.err() {
@@ -1673,10 +1672,14 @@ macro_rules! impl_format_rdx {
             /// Formats the number.
             /// The implementation is not available in no_std environment.
             fn fmt(&self, f: &mut Formatter<'_>) -> Result<(), core::fmt::Error> {
-                crate::common::consts::TENPOWERS.with(|tp| {
-                    let cc = &mut tp.borrow_mut();
+                let ret = crate::common::consts::with_tenpowers(|cc| {
                     self.write_str(f, $rdx, RoundingMode::ToEven, cc)
-                })
+                });
+
+                match ret {
+                    Ok(ret) => ret,
+                    Err(_) => f.write_str("Err"),
+                }
             }
         }
     };
-- 
2.43.0


From b64c2b8fe1bf7e3af52927cc4a20cd33ea157806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 30/45] fix: a precision beyond the limit is rejected before it
 overflows in functions and constants

---
 astro-float-num/src/ops/acos.rs       | 1 +
 astro-float-num/src/ops/acosh.rs      | 1 +
 astro-float-num/src/ops/asin.rs       | 1 +
 astro-float-num/src/ops/asinh.rs      | 1 +
 astro-float-num/src/ops/atan.rs       | 1 +
 astro-float-num/src/ops/atanh.rs      | 1 +
 astro-float-num/src/ops/consts/mod.rs | 4 ++++
 astro-float-num/src/ops/cos.rs        | 1 +
 astro-float-num/src/ops/cosh.rs       | 1 +
 astro-float-num/src/ops/log.rs        | 4 ++++
 astro-float-num/src/ops/pow.rs        | 5 +++++
 astro-float-num/src/ops/sin.rs        | 1 +
 astro-float-num/src/ops/sinh.rs       | 1 +
 astro-float-num/src/ops/tan.rs        | 1 +
 astro-float-num/src/ops/tanh.rs       | 1 +
 15 files changed, 25 insertions(+)

diff --git a/astro-float-num/src/ops/acos.rs b/astro-float-num/src/ops/acos.rs
index dc9e998..4fdf0e6 100644
--- a/astro-float-num/src/ops/acos.rs
+++ b/astro-float-num/src/ops/acos.rs
@@ -23,6 +23,7 @@ impl BigFloatNumber {
     ///  - MemoryAllocation: failed to allocate memory.
     pub fn acos(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         let cmpone = self.abs_cmp(&ONE);
         if cmpone == 0 && self.is_positive() {
diff --git a/astro-float-num/src/ops/acosh.rs b/astro-float-num/src/ops/acosh.rs
index 93bef52..f9f43ba 100644
--- a/astro-float-num/src/ops/acosh.rs
+++ b/astro-float-num/src/ops/acosh.rs
@@ -23,6 +23,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: when `self` < 1, or the precision is incorrect.
     pub fn acosh(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         let cmpone = self.cmp(&ONE);
         if cmpone == 0 {
diff --git a/astro-float-num/src/ops/asin.rs b/astro-float-num/src/ops/asin.rs
index 0f76d86..d2a2bf3 100644
--- a/astro-float-num/src/ops/asin.rs
+++ b/astro-float-num/src/ops/asin.rs
@@ -22,6 +22,7 @@ impl BigFloatNumber {
     ///  - MemoryAllocation: failed to allocate memory.
     pub fn asin(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             return Self::new2(p, self.sign(), self.inexact());
diff --git a/astro-float-num/src/ops/asinh.rs b/astro-float-num/src/ops/asinh.rs
index eadcd3a..78906fc 100644
--- a/astro-float-num/src/ops/asinh.rs
+++ b/astro-float-num/src/ops/asinh.rs
@@ -24,6 +24,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn asinh(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             return Self::new2(p, self.sign(), self.inexact());
diff --git a/astro-float-num/src/ops/atan.rs b/astro-float-num/src/ops/atan.rs
index 0f40485..7366d12 100644
--- a/astro-float-num/src/ops/atan.rs
+++ b/astro-float-num/src/ops/atan.rs
@@ -89,6 +89,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn atan(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             return Self::new2(p, self.sign(), self.inexact());
diff --git a/astro-float-num/src/ops/atanh.rs b/astro-float-num/src/ops/atanh.rs
index 4a92ea0..59e1aef 100644
--- a/astro-float-num/src/ops/atanh.rs
+++ b/astro-float-num/src/ops/atanh.rs
@@ -22,6 +22,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: when |`self`| > 1, or the precision is incorrect.
     pub fn atanh(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             let mut ret = self.clone()?;
diff --git a/astro-float-num/src/ops/consts/mod.rs b/astro-float-num/src/ops/consts/mod.rs
index 2a7f09b..d7c22b4 100644
--- a/astro-float-num/src/ops/consts/mod.rs
+++ b/astro-float-num/src/ops/consts/mod.rs
@@ -55,6 +55,7 @@ impl Consts {
     ///  - InvalidArgument: the precision is incorrect.
     pub(crate) fn pi_num(&mut self, p: usize, rm: RoundingMode) -> Result<BigFloatNumber, Error> {
         let p = round_p(p);
+        BigFloatNumber::p_assertion(p)?;
         self.pi.for_prec(p, rm)
     }
 
@@ -67,6 +68,7 @@ impl Consts {
     ///  - InvalidArgument: the precision is incorrect.
     pub(crate) fn e_num(&mut self, p: usize, rm: RoundingMode) -> Result<BigFloatNumber, Error> {
         let p = round_p(p);
+        BigFloatNumber::p_assertion(p)?;
         self.e.for_prec(p, rm)
     }
 
@@ -79,6 +81,7 @@ impl Consts {
     ///  - InvalidArgument: the precision is incorrect.
     pub(crate) fn ln_2_num(&mut self, p: usize, rm: RoundingMode) -> Result<BigFloatNumber, Error> {
         let p = round_p(p);
+        BigFloatNumber::p_assertion(p)?;
         self.ln2.for_prec(p, rm)
     }
 
@@ -95,6 +98,7 @@ impl Consts {
         rm: RoundingMode,
     ) -> Result<BigFloatNumber, Error> {
         let p = round_p(p);
+        BigFloatNumber::p_assertion(p)?;
         self.ln10.for_prec(p, rm)
     }
 
diff --git a/astro-float-num/src/ops/cos.rs b/astro-float-num/src/ops/cos.rs
index 99277c7..f7ac164 100644
--- a/astro-float-num/src/ops/cos.rs
+++ b/astro-float-num/src/ops/cos.rs
@@ -109,6 +109,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn cos(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             let mut ret = Self::from_word(1, p)?;
diff --git a/astro-float-num/src/ops/cosh.rs b/astro-float-num/src/ops/cosh.rs
index 9e1e40e..3f2f922 100644
--- a/astro-float-num/src/ops/cosh.rs
+++ b/astro-float-num/src/ops/cosh.rs
@@ -21,6 +21,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn cosh(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             let mut ret = Self::from_word(1, p)?;
diff --git a/astro-float-num/src/ops/log.rs b/astro-float-num/src/ops/log.rs
index e49c94c..09bc447 100644
--- a/astro-float-num/src/ops/log.rs
+++ b/astro-float-num/src/ops/log.rs
@@ -93,6 +93,7 @@ impl BigFloatNumber {
     ///  - MemoryAllocation: failed to allocate memory.
     pub fn ln(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         // factoring: ln(self) = ln(x * 2^n) = ln(x) + n*ln(2), 0.5 <= x < 1
         // reduction: ln(x) = 2*ln(sqrt(x))
@@ -221,6 +222,7 @@ impl BigFloatNumber {
     ///  - MemoryAllocation: failed to allocate memory.
     pub fn log2(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         // log2(self) = ln(x * 2^n) / ln(2) = ln(x) / ln(2) + n, 0.5 <= x < 1
 
@@ -300,6 +302,7 @@ impl BigFloatNumber {
     ///  - MemoryAllocation: failed to allocate memory.
     pub fn log10(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         // ln(self) / ln(10)
 
@@ -353,6 +356,7 @@ impl BigFloatNumber {
         cc: &mut Consts,
     ) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() || self.is_negative() || n.is_zero() || n.is_negative() {
             return Err(Error::InvalidArgument);
diff --git a/astro-float-num/src/ops/pow.rs b/astro-float-num/src/ops/pow.rs
index c79e3fa..af2de2c 100644
--- a/astro-float-num/src/ops/pow.rs
+++ b/astro-float-num/src/ops/pow.rs
@@ -94,6 +94,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn exp(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             let mut ret = Self::from_word(1, p)?;
@@ -240,6 +241,7 @@ impl BigFloatNumber {
             self.powi_internal(n as usize, p, rm, true)
         } else {
             let p = round_p(p);
+            Self::p_assertion(p)?;
 
             if self.is_zero() {
                 return Err(Error::DivisionByZero);
@@ -293,6 +295,7 @@ impl BigFloatNumber {
         update_inexact: bool,
     ) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         let mut i = n;
 
@@ -323,6 +326,7 @@ impl BigFloatNumber {
         let bit_pos = bit_pos; // make immutable
 
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         let mut p_inc = WORD_BIT_SIZE;
         let mut p_wrk = p.max(self.mantissa_max_bit_len()) + p_inc;
@@ -494,6 +498,7 @@ impl BigFloatNumber {
         cc: &mut Consts,
     ) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
         let nint = n.is_int();
         if n.is_zero() {
             let mut ret = Self::from_word(1, p)?;
diff --git a/astro-float-num/src/ops/sin.rs b/astro-float-num/src/ops/sin.rs
index dd8f87d..ace2010 100644
--- a/astro-float-num/src/ops/sin.rs
+++ b/astro-float-num/src/ops/sin.rs
@@ -109,6 +109,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn sin(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             return Self::new2(p, self.sign(), self.inexact());
diff --git a/astro-float-num/src/ops/sinh.rs b/astro-float-num/src/ops/sinh.rs
index 1953f30..0e2f642 100644
--- a/astro-float-num/src/ops/sinh.rs
+++ b/astro-float-num/src/ops/sinh.rs
@@ -20,6 +20,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn sinh(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             return Self::new2(p, self.sign(), self.inexact());
diff --git a/astro-float-num/src/ops/tan.rs b/astro-float-num/src/ops/tan.rs
index b1c58a8..ae175d8 100644
--- a/astro-float-num/src/ops/tan.rs
+++ b/astro-float-num/src/ops/tan.rs
@@ -72,6 +72,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn tan(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             return Self::new2(p, self.sign(), self.inexact());
diff --git a/astro-float-num/src/ops/tanh.rs b/astro-float-num/src/ops/tanh.rs
index 797b325..b0cb0c4 100644
--- a/astro-float-num/src/ops/tanh.rs
+++ b/astro-float-num/src/ops/tanh.rs
@@ -23,6 +23,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn tanh(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             return Self::new2(p, self.sign(), self.inexact());
-- 
2.43.0


From 72f2b1c3f1bee8bf567dd1d20d8ae4703ccc8f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 31/45] fix: a result of zero precision has the exponent of
 zero

---
 astro-float-num/src/num.rs      | 10 ++++++++--
 astro-float-num/src/ops/cbrt.rs |  3 ++-
 astro-float-num/src/ops/sqrt.rs |  3 ++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index afe61cf..b9e5cdb 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -341,7 +341,8 @@ impl BigFloatNumber {
 
         inexact |= self.inexact || d2.inexact;
 
-        let e = e1 + e2 - e_shift;
+        // mantissa of zero length is zero
+        let e = if m3.is_zero() { 0 } else { e1 + e2 - e_shift };
 
         if e > EXPONENT_MAX as isize {
             return Err(Error::ExponentOverflow(s));
@@ -419,7 +420,8 @@ impl BigFloatNumber {
 
         inexact |= self.inexact || d2.inexact;
 
-        let e = e1 - e2 + e_shift;
+        // mantissa of zero length is zero
+        let e = if m3.is_zero() { 0 } else { e1 - e2 + e_shift };
 
         if e > EXPONENT_MAX as isize {
             return Err(Error::ExponentOverflow(s));
@@ -712,6 +714,10 @@ impl BigFloatNumber {
         }
         e -= shift;
 
+        if m3.is_zero() {
+            e = 0; // mantissa of zero length
+        }
+
         if e > EXPONENT_MAX as isize {
             return Err(Error::ExponentOverflow(d3.s));
         }
diff --git a/astro-float-num/src/ops/cbrt.rs b/astro-float-num/src/ops/cbrt.rs
index 72f3eb3..c8d9ac2 100644
--- a/astro-float-num/src/ops/cbrt.rs
+++ b/astro-float-num/src/ops/cbrt.rs
@@ -38,7 +38,8 @@ impl BigFloatNumber {
 
         let (e_shift, m3) = m1_normalized.cbrt(p, rm, self.is_positive(), &mut inexact, exp_add)?;
 
-        let e = (e1 + exp_add) / 3 + e_shift;
+        // mantissa of zero length is zero
+        let e = if m3.is_zero() { 0 } else { (e1 + exp_add) / 3 + e_shift };
 
         if e < EXPONENT_MIN as isize {
             let mut ret =
diff --git a/astro-float-num/src/ops/sqrt.rs b/astro-float-num/src/ops/sqrt.rs
index dd93d9b..712b7d7 100644
--- a/astro-float-num/src/ops/sqrt.rs
+++ b/astro-float-num/src/ops/sqrt.rs
@@ -35,7 +35,8 @@ impl BigFloatNumber {
 
         let (e_shift, m3) = m1_normalized.sqrt(p, rm, true, &mut inexact, e1 & 1 == 1)?;
 
-        let e = (e1 + (e1 & 1)) / 2 + e_shift;
+        // mantissa of zero length is zero
+        let e = if m3.is_zero() { 0 } else { (e1 + (e1 & 1)) / 2 + e_shift };
 
         if e < EXPONENT_MIN as isize {
             let mut ret = BigFloatNumber::from_raw_unchecked(m3, Sign::Pos, EXPONENT_MIN, inexact);
-- 
2.43.0


From 7482153cfe71a61cdad0d459274d2da72d7261c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:52 +0000
Subject: [PATCH 32/45] fix: number of terms of ln 10 does not overflow for any
 valid precision

---
 astro-float-num/src/ops/consts/ln10.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro-float-num/src/ops/consts/ln10.rs b/astro-float-num/src/ops/consts/ln10.rs
index d7a452f..c21d526 100644
--- a/astro-float-num/src/ops/consts/ln10.rs
+++ b/astro-float-num/src/ops/consts/ln10.rs
@@ -92,7 +92,7 @@ impl Ln10Cache {
         let mut p_wrk = round_p(k) + p_inc;
 
         loop {
-            let kext = k * 1728 / 1000 + 4;
+            let kext = (k as u128 * 1728 / 1000) as usize + 4;
 
             if self.b > kext {
                 let mut ret = self.val.clone()?;
-- 
2.43.0


From 5c97597448f43897b4997ce33dede29e1b2249fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 33/45] fix: variables of an expression are not captured by the
 variables of the macro

---
 astro-float-macro/src/lib.rs  | 8 +++++++-
 astro-float-macro/src/util.rs | 1 -
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/astro-float-macro/src/lib.rs b/astro-float-macro/src/lib.rs
index 0d22876..974f9db 100644
--- a/astro-float-macro/src/lib.rs
+++ b/astro-float-macro/src/lib.rs
@@ -5,11 +5,17 @@
 #![deny(missing_docs)]
 #![deny(clippy::suspicious)]
 
+// Variables introduced by the macro must not capture variables of the same name from the expression.
+macro_rules! quote {
+    ($($t:tt)*) => {
+        quote::quote_spanned!(proc_macro2::Span::mixed_site()=> $($t)*)
+    };
+}
+
 mod util;
 
 use astro_float_num::{Consts, EXPONENT_BIT_SIZE};
 use proc_macro2::TokenStream;
-use quote::quote;
 use syn::{
     parse::Parse, spanned::Spanned, BinOp, Error, Expr, ExprBinary, ExprCall, ExprGroup, ExprLit,
     ExprParen, ExprPath, ExprUnary, Lit, Token, UnOp,
diff --git a/astro-float-macro/src/util.rs b/astro-float-macro/src/util.rs
index 436128e..e2bef64 100644
--- a/astro-float-macro/src/util.rs
+++ b/astro-float-macro/src/util.rs
@@ -6,7 +6,6 @@ use astro_float_num::Radix;
 use astro_float_num::RoundingMode;
 use proc_macro2::Span;
 use proc_macro2::TokenStream;
-use quote::quote;
 use syn::spanned::Spanned;
 use syn::Error;
 use syn::ExprCall;
-- 
2.43.0


From 721468d185665811af173bde7b4287aaea21da07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 34/45] fix: infinity and NaN literals of an expression compile

---
 astro-float-macro/src/util.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/astro-float-macro/src/util.rs b/astro-float-macro/src/util.rs
index e2bef64..1b7d896 100644
--- a/astro-float-macro/src/util.rs
+++ b/astro-float-macro/src/util.rs
@@ -28,8 +28,12 @@ pub fn str_to_bigfloat_expr(s: &str, span: Span, cc: &mut Consts) -> Result<Toke
             quote!(astro_float::Sign::Neg)
         };
         quote!(astro_float::macro_util::check_exponent_range(astro_float::BigFloat::from_raw_parts(&[#(#m),*], #n, #stoken, #e, #inexact), emin, emax))
+    } else if f.is_inf_pos() {
+        quote!(astro_float::INF_POS)
+    } else if f.is_inf_neg() {
+        quote!(astro_float::INF_NEG)
     } else {
-        quote!(astro_float::BigFloat::nan())
+        quote!(astro_float::NAN)
     };
 
     Ok(q)
-- 
2.43.0


From 6d89eb5a5475e25088fa88600cd183fefd6d3fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 35/45] fix: variables of an expression are used with all their
 digits, and text variables are known to be inexact

---
 astro-float-macro/src/lib.rs      |  9 ++++++---
 astro-float-num/src/macro_util.rs | 14 ++++++++++++++
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/astro-float-macro/src/lib.rs b/astro-float-macro/src/lib.rs
index 974f9db..10e9ad2 100644
--- a/astro-float-macro/src/lib.rs
+++ b/astro-float-macro/src/lib.rs
@@ -417,10 +417,13 @@ fn traverse_path(expr: &ExprPath) -> Result<TokenStream, Error> {
         quote!({ cc.ln_10(p_wrk, astro_float::RoundingMode::None) })
     } else {
         quote!({
-            let mut arg = astro_float::BigFloat::from_ext((#expr).clone(), p_wrk, astro_float::RoundingMode::ToEven, cc);
+            #[allow(unused_imports)]
+            use astro_float::macro_util::ExactArg;
+            let mut arg = (#expr).clone();
             arg.set_inexact(false);
-            arg = astro_float::macro_util::check_exponent_range(arg, emin, emax);
-            arg
+            let p_arg = arg.mantissa_max_bit_len().unwrap_or(0).max(p_wrk);
+            let arg = astro_float::BigFloat::from_ext(arg, p_arg, astro_float::RoundingMode::ToEven, cc);
+            astro_float::macro_util::check_exponent_range(arg, emin, emax)
         })
     })
 }
diff --git a/astro-float-num/src/macro_util.rs b/astro-float-num/src/macro_util.rs
index ae0f796..512240e 100644
--- a/astro-float-num/src/macro_util.rs
+++ b/astro-float-num/src/macro_util.rs
@@ -212,6 +212,20 @@ pub fn compute_added_err(algo: ErrAlgo<'_>) -> usize {
     }
 }
 
+/// Arguments of any type are exact, and are used with all their digits. This trait is for internal use by macro `expr`.
+/// BigFloat has its own methods with the same names, which take precedence over the methods of this trait.
+pub trait ExactArg {
+    /// Does nothing, since a value of a primitive type has no such flag.
+    fn set_inexact(&mut self, _inexact: bool) {}
+
+    /// Returns None, since a value of a primitive type has no mantissa.
+    fn mantissa_max_bit_len(&self) -> Option<usize> {
+        None
+    }
+}
+
+impl<T> ExactArg for T {}
+
 /// Checks if the number's exponent is in the given exponent range.
 /// Returns Inf if the exponent of `n` is larger than `emax`.
 /// The sign of the infinity is determined by the sign of `n`.
-- 
2.43.0


From 87263db69206be4fa497cbceb50a6911d3853c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 36/45] fix: error of the remainder is compensated in an
 expression

---
 astro-float-macro/src/lib.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/astro-float-macro/src/lib.rs b/astro-float-macro/src/lib.rs
index 10e9ad2..e35a8ce 100644
--- a/astro-float-macro/src/lib.rs
+++ b/astro-float-macro/src/lib.rs
@@ -104,7 +104,24 @@ fn traverse_binary(
             quote!(astro_float::BigFloat::div(&(#left_expr), &(#right_expr), p_wrk, astro_float::RoundingMode::None))
         }
         BinOp::Rem(_) => {
-            quote!(astro_float::BigFloat::rem(&(#left_expr), &(#right_expr)))
+            err.push(2);
+            quote!({
+                let arg1 = #left_expr;
+                let arg2 = #right_expr;
+                let ret = astro_float::BigFloat::rem(&arg1, &arg2);
+                if (arg1.inexact() || arg2.inexact()) && !ret.is_zero() {
+                    if let (Some(e1), Some(e2), Some(e3)) = (arg1.exponent(), arg2.exponent(), ret.exponent()) {
+                        if e1 >= e2 {
+                            let newerr = (e1 as isize - e3 as isize).unsigned_abs() + 2;
+                            if errs[#errs_id] < newerr {
+                                errs[#errs_id] = newerr;
+                                continue;
+                            }
+                        }
+                    }
+                }
+                ret
+            })
         }
         _ => return Err(Error::new(
             expr.span(),
-- 
2.43.0


From ed800b732ab7971d86eeaaf8a1fa5383c3eeaf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 37/45] fix: cancellation in an expression is not compensated
 below the exponent range

---
 astro-float-macro/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/astro-float-macro/src/lib.rs b/astro-float-macro/src/lib.rs
index e35a8ce..7ae7a06 100644
--- a/astro-float-macro/src/lib.rs
+++ b/astro-float-macro/src/lib.rs
@@ -62,7 +62,7 @@ fn traverse_binary(
                 let ret = astro_float::BigFloat::add(&arg1, &arg2, p_wrk, astro_float::RoundingMode::None);
                 if arg1.inexact() || arg2.inexact() {
                     if let (Some(e1), Some(e2), Some(e3)) = (arg1.exponent(), arg2.exponent(), ret.exponent()) {
-                        if (e1 as isize - e2 as isize).abs() <= 1 && arg1.sign() != arg2.sign() {
+                        if e3 >= emin && (e1 as isize - e2 as isize).abs() <= 1 && arg1.sign() != arg2.sign() {
                             let newerr = (e1.max(e2) as isize - e3 as isize).unsigned_abs() + 1;
                             if errs[#errs_id] < newerr {
                                 errs[#errs_id] = newerr;
@@ -82,7 +82,7 @@ fn traverse_binary(
                 let ret = astro_float::BigFloat::sub(&arg1, &arg2, p_wrk, astro_float::RoundingMode::None);
                 if arg1.inexact() || arg2.inexact() {
                     if let (Some(e1), Some(e2), Some(e3)) = (arg1.exponent(), arg2.exponent(), ret.exponent()) {
-                        if (e1 as isize - e2 as isize).abs() <= 1 && arg1.sign() == arg2.sign() {
+                        if e3 >= emin && (e1 as isize - e2 as isize).abs() <= 1 && arg1.sign() == arg2.sign() {
                             let newerr = (e1.max(e2) as isize - e3 as isize).unsigned_abs() + 1;
                             if errs[#errs_id] < newerr {
                                 errs[#errs_id] = newerr;
@@ -111,7 +111,7 @@ fn traverse_binary(
                 let ret = astro_float::BigFloat::rem(&arg1, &arg2);
                 if (arg1.inexact() || arg2.inexact()) && !ret.is_zero() {
                     if let (Some(e1), Some(e2), Some(e3)) = (arg1.exponent(), arg2.exponent(), ret.exponent()) {
-                        if e1 >= e2 {
+                        if e3 >= emin && e1 >= e2 {
                             let newerr = (e1 as isize - e3 as isize).unsigned_abs() + 2;
                             if errs[#errs_id] < newerr {
                                 errs[#errs_id] = newerr;
-- 
2.43.0


From ddb67df2467a1945f410f1e3280a9203dacb3829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 38/45] fix: error of inverse functions is compensated when the
 argument is rounded to one or beyond

---
 astro-float-num/src/macro_util.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/astro-float-num/src/macro_util.rs b/astro-float-num/src/macro_util.rs
index 512240e..e35360a 100644
--- a/astro-float-num/src/macro_util.rs
+++ b/astro-float-num/src/macro_util.rs
@@ -180,7 +180,7 @@ pub fn compute_added_err(algo: ErrAlgo<'_>) -> usize {
             }
         }
         ErrAlgo::Asin(arg, emin) => {
-            if arg.inexact() && arg.exponent().unwrap_or(1) < 1 {
+            if arg.inexact() && arg.exponent().unwrap_or(2) <= 1 {
                 let n = compute_added_err_near_one(arg, emin);
                 2 + (n + 1) / 2
             } else {
@@ -188,7 +188,7 @@ pub fn compute_added_err(algo: ErrAlgo<'_>) -> usize {
             }
         }
         ErrAlgo::Acos(arg, emin) => {
-            if arg.inexact() && arg.exponent().unwrap_or(1) < 1 {
+            if arg.inexact() && arg.exponent().unwrap_or(2) <= 1 {
                 let n = compute_added_err_near_one(arg, emin);
                 2 + if arg.is_positive() { n } else { n / 2 }
             } else {
@@ -196,14 +196,14 @@ pub fn compute_added_err(algo: ErrAlgo<'_>) -> usize {
             }
         }
         ErrAlgo::Acosh(arg, emin) => {
-            if arg.inexact() && arg.is_positive() && arg.exponent().unwrap_or(0) >= 1 {
+            if arg.inexact() && arg.is_positive() && arg.exponent().unwrap_or(-1) >= 0 {
                 2 + compute_added_err_near_one(arg, emin)
             } else {
                 0
             }
         }
         ErrAlgo::Atanh(arg, emin) => {
-            if arg.inexact() && arg.exponent().unwrap_or(1) < 1 {
+            if arg.inexact() && arg.exponent().unwrap_or(2) <= 1 {
                 2 + compute_added_err_near_one(arg, emin)
             } else {
                 0
-- 
2.43.0


From 80bbd1e2c20cbc158fb1f0e13eecf824b99d4f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:21 +0000
Subject: [PATCH 39/45] fix: a result below the exponent range of the context
 is a zero of the same sign

---
 astro-float-num/src/macro_util.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/astro-float-num/src/macro_util.rs b/astro-float-num/src/macro_util.rs
index e35360a..56b9708 100644
--- a/astro-float-num/src/macro_util.rs
+++ b/astro-float-num/src/macro_util.rs
@@ -229,7 +229,7 @@ impl<T> ExactArg for T {}
 /// Checks if the number's exponent is in the given exponent range.
 /// Returns Inf if the exponent of `n` is larger than `emax`.
 /// The sign of the infinity is determined by the sign of `n`.
-/// Returns 0 if the exponent of `n` is smaller than `emin`.
+/// Returns 0 with the sign of `n` if the exponent of `n` is smaller than `emin`.
 /// Return `n` itself otherwise.
 #[inline]
 pub fn check_exponent_range(n: BigFloat, emin: Exponent, emax: Exponent) -> BigFloat {
@@ -241,7 +241,11 @@ pub fn check_exponent_range(n: BigFloat, emin: Exponent, emax: Exponent) -> BigF
                 INF_NEG
             }
         } else if e < emin {
-            BigFloat::new(n.mantissa_max_bit_len().unwrap_or(DEFAULT_P))
+            let mut ret = BigFloat::new(n.mantissa_max_bit_len().unwrap_or(DEFAULT_P));
+            if let Some(s) = n.sign() {
+                ret.set_sign(s);
+            }
+            ret
         } else {
             n
         }
-- 
2.43.0


From bc42730370e4db8cb19d50be19b6ff498bda7beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 40/45] fix: random normal number is never zero, and does not
 overflow for any output of the generator

---
 astro-float-num/src/mantissa/mantissa.rs | 6 +++++-
 astro-float-num/src/num.rs               | 9 +++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/astro-float-num/src/mantissa/mantissa.rs b/astro-float-num/src/mantissa/mantissa.rs
index c0311a6..b136379 100644
--- a/astro-float-num/src/mantissa/mantissa.rs
+++ b/astro-float-num/src/mantissa/mantissa.rs
@@ -1173,7 +1173,11 @@ impl Mantissa {
             *v = rand::random::<Word>();
         }
         let mut ret = Mantissa { m, n: 0 };
-        if !ret.is_all_zero() {
+        if let Some(v) = ret.m.last_mut() {
+            if *v == 0 {
+                // zero is excluded, and the leading word must be normalized.
+                *v = WORD_SIGNIFICANT_BIT;
+            }
             Self::maximize(&mut ret.m);
             ret.n = WORD_BIT_SIZE * ret.m.len();
             ret.m[0] ^= rand::random::<Word>() >> 1;
diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index b9e5cdb..d09f67c 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -1394,6 +1394,11 @@ impl BigFloatNumber {
     pub fn random_normal(p: usize, exp_from: Exponent, exp_to: Exponent) -> Result<Self, Error> {
         Self::p_assertion(p)?;
 
+        if p == 0 {
+            // zero is excluded
+            return Err(Error::InvalidArgument);
+        }
+
         #[cfg(target_arch = "x86")]
         if exp_from < EXPONENT_MIN || exp_to > EXPONENT_MAX {
             return Err(Error::InvalidArgument);
@@ -1401,8 +1406,8 @@ impl BigFloatNumber {
 
         let m = Mantissa::random_normal(p)?;
         let e = if exp_from < exp_to {
-            (rand::random::<isize>().abs() % (exp_to as isize - exp_from as isize)
-                + exp_from as isize) as Exponent
+            let range = (exp_to as isize - exp_from as isize) as usize;
+            ((rand::random::<usize>() % range) as isize + exp_from as isize) as Exponent
         } else {
             exp_from
         };
-- 
2.43.0


From 7cf647b4bd3d492640bf293246d89fd9a0a6cc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 41/45] fix: negative and 128-bit integers can be deserialized

---
 astro-float-num/src/for_3rd/de.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/astro-float-num/src/for_3rd/de.rs b/astro-float-num/src/for_3rd/de.rs
index 6efc628..46e9a1a 100644
--- a/astro-float-num/src/for_3rd/de.rs
+++ b/astro-float-num/src/for_3rd/de.rs
@@ -31,6 +31,27 @@ impl<'de> Visitor<'de> for BigFloatVisitor {
         }
     }
 
+    fn visit_i64<E: Error>(self, v: i64) -> Result<Self::Value, E> {
+        match BigFloatNumber::from_i64(v, 64) {
+            Ok(o) => Ok(o.into()),
+            Err(e) => Err(Error::custom(format!("{e:?}"))),
+        }
+    }
+
+    fn visit_i128<E: Error>(self, v: i128) -> Result<Self::Value, E> {
+        match BigFloatNumber::from_i128(v, 128) {
+            Ok(o) => Ok(o.into()),
+            Err(e) => Err(Error::custom(format!("{e:?}"))),
+        }
+    }
+
+    fn visit_u128<E: Error>(self, v: u128) -> Result<Self::Value, E> {
+        match BigFloatNumber::from_u128(v, 128) {
+            Ok(o) => Ok(o.into()),
+            Err(e) => Err(Error::custom(format!("{e:?}"))),
+        }
+    }
+
     fn visit_f32<E: Error>(self, v: f32) -> Result<Self::Value, E> {
         match BigFloatNumber::from_f64(64, v as f64) {
             Ok(o) => Ok(o.into()),
-- 
2.43.0


From 607751fb9288e3c8465d2d646cf5ca7a064013da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 42/45] fix: zero made from an unsigned integer has zero
 exponent

---
 astro-float-num/src/num.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index d09f67c..495cec7 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -1550,7 +1550,7 @@ impl BigFloatNumber {
     pub(crate) fn from_usize(u: usize) -> Result<Self, Error> {
         let (shift, m) = Mantissa::from_usize(u)?;
         let s = Sign::Pos;
-        let e = (m.max_bit_len() - shift) as Exponent;
+        let e = if u == 0 { 0 } else { (m.max_bit_len() - shift) as Exponent };
 
         Ok(BigFloatNumber {
             m,
-- 
2.43.0


From b9abd36867b1a69bdff123e02affb86ebb207b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 43/45] fix: expression with a context precision close to the
 largest one does not overflow

---
 astro-float-macro/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro-float-macro/src/lib.rs b/astro-float-macro/src/lib.rs
index 7ae7a06..164f71b 100644
--- a/astro-float-macro/src/lib.rs
+++ b/astro-float-macro/src/lib.rs
@@ -502,7 +502,7 @@ pub fn expr(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
         let emax = ctx.emax();
         let cc = ctx.consts();
 
-        let mut p_rnd = p + astro_float::WORD_BIT_SIZE;
+        let mut p_rnd = p.saturating_add(astro_float::WORD_BIT_SIZE);
         let mut errs: [usize; #err_sz] = [#(#err, )*];
 
         loop {
-- 
2.43.0


From 8fdf9db562bf8e36efca5ecb8dce2c787f2589cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 44/45] fix: serialization reports a failed allocation instead
 of aborting

---
 astro-float-num/src/for_3rd/ser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/astro-float-num/src/for_3rd/ser.rs b/astro-float-num/src/for_3rd/ser.rs
index 734beb2..f5a8461 100644
--- a/astro-float-num/src/for_3rd/ser.rs
+++ b/astro-float-num/src/for_3rd/ser.rs
@@ -1,12 +1,17 @@
 //! Serialization of BigFloat.
 //! Serialization to a string uses decimal radix.
 
-use crate::BigFloat;
+use crate::common::consts::with_tenpowers;
+use crate::{BigFloat, Radix, RoundingMode};
+use serde::ser::Error;
 use serde::{Serialize, Serializer};
 
 impl Serialize for BigFloat {
     fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        serializer.serialize_str(&self.to_string())
+        match with_tenpowers(|cc| self.format(Radix::Dec, RoundingMode::ToEven, cc)) {
+            Ok(Ok(s)) => serializer.serialize_str(&s),
+            Ok(Err(e)) | Err(e) => Err(Error::custom(e)),
+        }
     }
 }
 
-- 
2.43.0


From a2f49e58e25e971bd28d99bfa41c4da4400f2330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 45/45] fix: deserialization error message does not allocate

---
 astro-float-num/src/for_3rd/de.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/astro-float-num/src/for_3rd/de.rs b/astro-float-num/src/for_3rd/de.rs
index 46e9a1a..14e860d 100644
--- a/astro-float-num/src/for_3rd/de.rs
+++ b/astro-float-num/src/for_3rd/de.rs
@@ -27,49 +27,49 @@ impl<'de> Visitor<'de> for BigFloatVisitor {
     fn visit_u64<E: Error>(self, v: u64) -> Result<Self::Value, E> {
         match BigFloatNumber::from_usize(v as usize) {
             Ok(o) => Ok(o.into()),
-            Err(e) => Err(Error::custom(format!("{e:?}"))),
+            Err(e) => Err(Error::custom(format_args!("{e:?}"))),
         }
     }
 
     fn visit_i64<E: Error>(self, v: i64) -> Result<Self::Value, E> {
         match BigFloatNumber::from_i64(v, 64) {
             Ok(o) => Ok(o.into()),
-            Err(e) => Err(Error::custom(format!("{e:?}"))),
+            Err(e) => Err(Error::custom(format_args!("{e:?}"))),
         }
     }
 
     fn visit_i128<E: Error>(self, v: i128) -> Result<Self::Value, E> {
         match BigFloatNumber::from_i128(v, 128) {
             Ok(o) => Ok(o.into()),
-            Err(e) => Err(Error::custom(format!("{e:?}"))),
+            Err(e) => Err(Error::custom(format_args!("{e:?}"))),
         }
     }
 
     fn visit_u128<E: Error>(self, v: u128) -> Result<Self::Value, E> {
         match BigFloatNumber::from_u128(v, 128) {
             Ok(o) => Ok(o.into()),
-            Err(e) => Err(Error::custom(format!("{e:?}"))),
+            Err(e) => Err(Error::custom(format_args!("{e:?}"))),
         }
     }
 
     fn visit_f32<E: Error>(self, v: f32) -> Result<Self::Value, E> {
         match BigFloatNumber::from_f64(64, v as f64) {
             Ok(o) => Ok(o.into()),
-            Err(e) => Err(Error::custom(format!("{e:?}"))),
+            Err(e) => Err(Error::custom(format_args!("{e:?}"))),
         }
     }
 
     fn visit_f64<E: Error>(self, v: f64) -> Result<Self::Value, E> {
         match BigFloatNumber::from_f64(64, v) {
             Ok(o) => Ok(o.into()),
-            Err(e) => Err(Error::custom(format!("{e:?}"))),
+            Err(e) => Err(Error::custom(format_args!("{e:?}"))),
         }
     }
 
     fn visit_str<E: Error>(self, v: &str) -> Result<Self::Value, E> {
         match BigFloat::from_str(v) {
             Ok(o) => Ok(o),
-            Err(e) => Err(Error::custom(format!("{e:?}"))),
+            Err(e) => Err(Error::custom(format_args!("{e:?}"))),
         }
     }
 
-- 
2.43.0

