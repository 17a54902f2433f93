From 7cea1646e92930803a33da89c94d6aec5cff097f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 01/20] fix: apply_typmod leaves NaN unchanged

---
 src/num.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/num.rs b/src/num.rs
index eec7c11..73939f1 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -139,6 +139,11 @@ impl NumericBuf {
     ///
     /// Notes that no matter whether overflows, `self` will be rounded.
     pub fn apply_typmod(&mut self, typmod: Typmod) -> bool {
+        // NaN has neither digits to round nor a scale to check
+        if self.is_nan() {
+            return false;
+        }
+
         let mut var = self.as_var_owned();
         let mut overflow = var.apply_typmod(typmod);
 
-- 
2.43.0


From 7aac6bb4848dc7f62231a382674ae34ca6cac3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 02/20] fix: keep the numeric valid when in-place rounding
 overflows the format

---
 src/num.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index 73939f1..8873f1c 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -104,7 +104,8 @@ impl NumericBuf {
             return;
         }
 
-        let mut var = self.as_var_owned();
+        // Work on a borrowed var, `self` must stay valid if the result overflows.
+        let mut var = self.as_var();
         var.round(scale);
         match var.make_result() {
             Some(result) => *self = result,
@@ -137,14 +138,16 @@ impl NumericBuf {
     ///
     /// Returns true if overflows.
     ///
-    /// Notes that no matter whether overflows, `self` will be rounded.
+    /// Notes that no matter whether overflows, `self` will be rounded,
+    /// unless the rounded value overflows the numeric format.
     pub fn apply_typmod(&mut self, typmod: Typmod) -> bool {
         // NaN has neither digits to round nor a scale to check
         if self.is_nan() {
             return false;
         }
 
-        let mut var = self.as_var_owned();
+        // Work on a borrowed var, `self` must stay valid if the result overflows.
+        let mut var = self.as_var();
         let mut overflow = var.apply_typmod(typmod);
 
         match var.make_result() {
-- 
2.43.0


From 1a30da82df43a110231b106c99ebd922095a3499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 03/20] fix: zero product with a too large scale overflows
 instead of failing an assertion

---
 src/var.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/var.rs b/src/var.rs
index 2aab4b1..f376c0e 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -135,7 +135,8 @@ impl<'a> NumericVar<'a> {
     /// Creates a `NumericVar` of zero with given scale.
     #[inline]
     fn zero_scaled(scale: i32) -> NumericVar<'a> {
-        debug_assert!(scale >= 0 && scale <= NUMERIC_DSCALE_MAX as i32);
+        // the upper bound is checked by `make_result`
+        debug_assert!(scale >= 0);
         Self::borrowed(0, 0, scale, NUMERIC_POS, &[])
     }
 
-- 
2.43.0


From fbb4e3ddac9750d04ff262317924b6924f7be2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 04/20] fix: parse numbers with many leading zeroes or a zero
 with an exponent

---
 src/parse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 84b4e8d..9976cb2 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -240,7 +240,9 @@ fn parse_str(s: &[u8]) -> Result<(NumericVar<'static>, &[u8]), NumericParseError
         digits[i] = digit;
     }
 
-    let num = NumericVar::owned(ndigits, weight, dec_scale, sign as u16, data);
+    let mut num = NumericVar::owned(ndigits, weight, dec_scale, sign as u16, data);
+    // leading zeroes must not count against the weight limit
+    num.strip();
 
     Ok((num, s))
 }
-- 
2.43.0


From e89c6715ebdd577b3661f532d1f09d812953f55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 05/20] fix: estimate the weight of an integer power from the
 leading 16 digits

---
 src/var.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var.rs b/src/var.rs
index f376c0e..b503c34 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1665,7 +1665,7 @@ impl<'a> NumericVar<'a> {
         let mut p = self.weight * DEC_DIGITS;
 
         for (i, &digit) in digits.iter().enumerate().skip(1) {
-            if (i * DEC_DIGITS as usize) < 16 {
+            if (i * DEC_DIGITS as usize) >= 16 {
                 break;
             }
 
-- 
2.43.0


From 823f768e93a9cc02ba6211515ee3b9a99fb5742e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 06/20] fix: pow accepts i32::MIN as exponent

---
 src/var.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/var.rs b/src/var.rs
index b503c34..2664ff6 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1694,11 +1694,11 @@ impl<'a> NumericVar<'a> {
         // The multiplications to produce the result may introduce an error of up
         // to around log10(abs(exp)) digits, so work with this many extra digits
         // of precision (plus a few more for good measure).
-        sig_digits += (exp.abs() as f64).ln() as i32 + 8;
+        sig_digits += (exp as f64).abs().ln() as i32 + 8;
 
         // Now we can proceed with the multiplications.
         let mut neg = exp < 0;
-        let mut mask = exp.abs();
+        let mut mask = exp.wrapping_abs() as u32;
 
         let mut base_prod = self.clone();
 
@@ -1710,7 +1710,7 @@ impl<'a> NumericVar<'a> {
 
         loop {
             mask >>= 1;
-            if mask <= 0 {
+            if mask == 0 {
                 break;
             }
 
-- 
2.43.0


From d52bcda289c880305dbc6ff2011688948beb8ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 07/20] fix: pow of a negative base with an integer exponent
 outside i32

---
 src/var.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/var.rs b/src/var.rs
index 2664ff6..9c52460 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -2049,6 +2049,19 @@ impl<'a> NumericVar<'a> {
             return Some(Self::zero_scaled(NUMERIC_MIN_SIG_DIGITS));
         }
 
+        // A negative base is only allowed with an integer exponent, which does
+        // not fit in i32 here. Work with the absolute value of the base, the
+        // result is negative if the exponent is odd.
+        if self.is_negative() {
+            let mut base = self.clone();
+            base.abs();
+            let mut result = base.power_common(exp)?;
+            if exp.ndigits == exp.weight + 1 && exp.digits()[exp.weight as usize] & 1 != 0 {
+                result.negate();
+            }
+            return Some(result);
+        }
+
         // Decide on the scale for the ln() calculation.  For this we need an
         // estimate of the weight of the result, which we obtain by doing an
         // initial low-precision calculation of exp * ln(base).
-- 
2.43.0


From a31a80e3332a82204b9ed3a4431197d7d7e3599a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 08/20] fix: scientific notation of values below 1e-1000

---
 src/var.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/var.rs b/src/var.rs
index 9c52460..0dd8380 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1761,6 +1761,19 @@ impl<'a> NumericVar<'a> {
         Some(result)
     }
 
+    /// Raise ten to the power of exp, where exp is an integer.
+    ///
+    /// The result is exact, note that it may overflow the numeric format.
+    fn power_ten_int(exp: i32) -> Self {
+        let weight = exp.div_euclid(DEC_DIGITS);
+        let mut result = Self::with_ndigits(1);
+        result.weight = weight;
+        result.dscale = if exp < 0 { -exp } else { 0 };
+        result.digits.to_mut().digits_mut(1)[0] =
+            (10 as NumericDigit).pow((exp - weight * DEC_DIGITS) as u32);
+        result
+    }
+
     /// Compute the natural log of `self`
     pub fn ln_common(&self, rscale: i32) -> Self {
         debug_assert!(!self.is_nan());
@@ -2233,11 +2246,7 @@ impl<'a> NumericVar<'a> {
         //
         // We then divide var by the denominator to get the significand, rounding
         // to rscale decimal digits in the process.
-        let denom_scale = if exponent < 0 { -exponent } else { 0 };
-
-        let denominator = TEN
-            .power_int(exponent, denom_scale)
-            .expect("attempt to multiply with overflow");
+        let denominator = Self::power_ten_int(exponent);
         let significand = self
             .div_common(&denominator, rscale, true)
             .expect(DIVIDE_BY_ZERO_MSG);
-- 
2.43.0


From 4b390d7c36ba66a62d3e54475d882a36955e5640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 09/20] fix: square root of tiny values

---
 src/var.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/var.rs b/src/var.rs
index 0dd8380..4e64987 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1598,6 +1598,11 @@ impl<'a> NumericVar<'a> {
             result = result.add_common(&val);
             result = result.mul_common(&ZERO_POINT_FIVE, local_rscale);
 
+            // the root is too small for the scale
+            if result.ndigits == 0 {
+                break;
+            }
+
             if result.cmp_common(&last_val) == 0 {
                 break;
             }
-- 
2.43.0


From c6d11e975767f142e58850694a043584ef896fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 10/20] fix: pow returns zero instead of overflow for very
 small results

---
 src/var.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/var.rs b/src/var.rs
index 4e64987..e4250c4 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -2107,11 +2107,16 @@ impl<'a> NumericVar<'a> {
         let mut val: f64 = TryFrom::try_from(&ln_num).unwrap();
 
         // initial overflow test with fuzz factor
-        if val.abs() > NUMERIC_MAX_RESULT_SCALE as f64 * 3.01 {
+        if val > NUMERIC_MAX_RESULT_SCALE as f64 * 3.01 {
             // value overflows numeric format
             return None;
         }
 
+        // likewise for underflow, exp_common() doesn't support such inputs
+        if val < -NUMERIC_MAX_RESULT_SCALE as f64 * 2.99 {
+            return Some(Self::zero_scaled(NUMERIC_MAX_DISPLAY_SCALE));
+        }
+
         val *= LOG10_E; // approximate decimal result weight
 
         // choose the result scale
-- 
2.43.0


From 5518e3bd30fd14eb6bf50be9f1809dfddaf0371c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 11/20] fix: numeric to f32 conversion rounds only once

---
 src/convert.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/convert.rs b/src/convert.rs
index 91b13c1..2d4d424 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -634,7 +634,8 @@ impl<'a> TryFrom<&NumericVar<'a>> for f32 {
 
         match strtod::strtod(&buf) {
             Some(val) => {
-                let f = val as f32;
+                // parse again, narrowing `val` would round twice
+                let f: f32 = buf.parse().map_err(|_| NumericTryFromError::invalid())?;
                 if (f.is_infinite() && !val.is_infinite()) || (f == 0.0 && val != 0.0) {
                     return Err(NumericTryFromError::overflow());
                 }
-- 
2.43.0


From 6e6da12c70811a9dc8449d9dda97530d8895f981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 12/20] fix: serialize binary form as bytes, which deserialize
 expects

---
 src/num.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index 8873f1c..97c6383 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -322,7 +322,7 @@ impl serde::Serialize for NumericBuf {
         if serializer.is_human_readable() {
             self.to_string().serialize(serializer)
         } else {
-            self.as_bytes().serialize(serializer)
+            serializer.serialize_bytes(self.as_bytes())
         }
     }
 }
@@ -1032,7 +1032,7 @@ impl serde::Serialize for Numeric {
         if serializer.is_human_readable() {
             self.to_string().serialize(serializer)
         } else {
-            self.as_bytes().serialize(serializer)
+            serializer.serialize_bytes(self.as_bytes())
         }
     }
 }
-- 
2.43.0


From c9e3c2b6ae89f397fc6166b358a2858c0428752f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:43 +0000
Subject: [PATCH 13/20] fix: pow of a base close to 1 whose result is smaller
 than the scale

---
 src/var.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/var.rs b/src/var.rs
index e4250c4..6fa3478 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -2127,7 +2127,8 @@ impl<'a> NumericVar<'a> {
             .min(NUMERIC_MAX_DISPLAY_SCALE);
 
         // set the scale for the real exp * ln(base) calculation
-        let local_rscale = (rscale + val as i32 - ln_dweight + 8).max(NUMERIC_MIN_DISPLAY_SCALE);
+        let sig_digits = (rscale + val as i32).max(0);
+        let local_rscale = (sig_digits - ln_dweight + 8).max(NUMERIC_MIN_DISPLAY_SCALE);
 
         // and do the real calculation
         ln_base = self.ln_common(local_rscale);
-- 
2.43.0


From 0f98de9ca115df96ee9ccd6a874c4c9b79da1b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 14/20] fix: let the canceling overflows of the fast division
 wrap

---
 src/var.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var.rs b/src/var.rs
index 6fa3478..47694e0 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1451,7 +1451,7 @@ impl<'a> NumericVar<'a> {
             // and addition in int64 arithmetic, but so far there appears no need.
             let div_qi = unsafe { *div.get_unchecked(qi) };
             let div_qi_1 = unsafe { div.get_unchecked_mut(qi + 1) };
-            *div_qi_1 += div_qi * NBASE;
+            *div_qi_1 = div_qi_1.wrapping_add(div_qi.wrapping_mul(NBASE));
 
             let div_qi = unsafe { div.get_unchecked_mut(qi) };
             *div_qi = qdigit;
-- 
2.43.0


From d5efb0da0ce3d607b78d8ec3a9d6a5cc71a15944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:15 +0000
Subject: [PATCH 15/20] fix: round to the nearest float in conversions

strtod::strtod does not round ties with many digits to even and is off for
some subnormal numbers; the standard library's parser is exact.
---
 src/convert.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/convert.rs b/src/convert.rs
index 2d4d424..e01a825 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -632,17 +632,13 @@ impl<'a> TryFrom<&NumericVar<'a>> for f32 {
         buf.write_fmt(format_args!("{}", value))
             .expect("returned an error unexpectedly");
 
-        match strtod::strtod(&buf) {
-            Some(val) => {
-                // parse again, narrowing `val` would round twice
-                let f: f32 = buf.parse().map_err(|_| NumericTryFromError::invalid())?;
-                if (f.is_infinite() && !val.is_infinite()) || (f == 0.0 && val != 0.0) {
-                    return Err(NumericTryFromError::overflow());
-                }
-                Ok(f)
-            }
-            None => Err(NumericTryFromError::overflow()),
+        let val: f64 = buf.parse().map_err(|_| NumericTryFromError::overflow())?;
+        // parse again, narrowing `val` would round twice
+        let f: f32 = buf.parse().map_err(|_| NumericTryFromError::overflow())?;
+        if (f.is_infinite() && !val.is_infinite()) || (f == 0.0 && val != 0.0) {
+            return Err(NumericTryFromError::overflow());
         }
+        Ok(f)
     }
 }
 
@@ -659,10 +655,7 @@ impl<'a> TryFrom<&NumericVar<'a>> for f64 {
         buf.write_fmt(format_args!("{}", value))
             .expect("returned an error unexpectedly");
 
-        match strtod::strtod(&buf) {
-            Some(f) => Ok(f),
-            None => Err(NumericTryFromError::overflow()),
-        }
+        buf.parse().map_err(|_| NumericTryFromError::overflow())
     }
 }
 
-- 
2.43.0


From cee03af718562239c84bd5efe1c15ccd6fa207f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:30 +0000
Subject: [PATCH 16/20] fix: square root may alternate between two
 approximations forever

---
 src/var.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/var.rs b/src/var.rs
index 47694e0..e98a433 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1590,6 +1590,7 @@ impl<'a> NumericVar<'a> {
         result.weight = self.weight / 2;
 
         let mut last_val = result.clone();
+        let mut prev_val = result.clone();
 
         loop {
             let val = self
@@ -1603,10 +1604,13 @@ impl<'a> NumericVar<'a> {
                 break;
             }
 
-            if result.cmp_common(&last_val) == 0 {
+            // two neighboring values may lead to each other,
+            // the quotient is not always rounded correctly
+            if result.cmp_common(&last_val) == 0 || result.cmp_common(&prev_val) == 0 {
                 break;
             }
 
+            prev_val = last_val;
             last_val = result.clone();
         }
 
-- 
2.43.0


From be9d93d23d2961023ff02c11391bd9a77f2a3a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:49 +0000
Subject: [PATCH 17/20] fix: free the buffer of a numeric with the layout it
 was allocated with

---
 src/num.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index 97c6383..82507db 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -14,7 +14,7 @@
 
 //! Numeric
 
-use crate::binary::{NumericBinary, NUMERIC_DIGIT_SIZE};
+use crate::binary::{NumericBinary, NumericDigit, NUMERIC_DIGIT_SIZE};
 use crate::data::*;
 use crate::typmod::Typmod;
 use crate::var::NumericVar;
@@ -212,7 +212,12 @@ impl Drop for NumericBuf {
     fn drop(&mut self) {
         if !self.buf.is_null() {
             unsafe {
-                let _vec = Vec::<u8>::from_raw_parts(self.buf as *mut u8, 0, self.len as usize);
+                // the buffer was allocated for digits, see `NumericData`
+                let _vec = Vec::<NumericDigit>::from_raw_parts(
+                    self.buf as *mut NumericDigit,
+                    0,
+                    (self.len / NUMERIC_DIGIT_SIZE) as usize,
+                );
             }
             self.buf = std::ptr::null();
         }
-- 
2.43.0


From a69b2e091cc364c670d8383b8870411b28b5bd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:50 +0000
Subject: [PATCH 18/20] fix: reject bytes that are no numeric when
 deserializing

---
 src/binary.rs | 57 +++++++++++++++++++++++++++++++++++++++++++++++++++
 src/num.rs    |  6 ++++++
 2 files changed, 63 insertions(+)

diff --git a/src/binary.rs b/src/binary.rs
index ccc0569..5f48c8b 100644
--- a/src/binary.rs
+++ b/src/binary.rs
@@ -429,6 +429,63 @@ impl NumericBinary {
         }
     }
 
+    /// Checks whether `bytes` is the binary form of a numeric.
+    #[cfg(feature = "serde")]
+    pub fn is_valid(bytes: &[u8]) -> bool {
+        use crate::var::{DEC_DIGITS, NBASE};
+
+        let word = |i: usize| u16::from_ne_bytes([bytes[i], bytes[i + 1]]);
+
+        let len = bytes.len();
+        if len < NUMERIC_HEADER_SIZE_SHORT
+            || len > 0x3FFF_FFFF
+            || len % NUMERIC_DIGIT_SIZE as usize != 0
+        {
+            return false;
+        }
+
+        let vl_len = u32::from_ne_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]);
+        if vl_len != NumericBinary::encode_len(len as u32) {
+            return false;
+        }
+
+        let choice = NumericChoice {
+            n_header: UnionField::new(),
+            n_long: UnionField::new(),
+            n_short: UnionField::new(),
+            _data: [word(4), if len < NUMERIC_HEADER_SIZE { 0 } else { word(6) }],
+        };
+        if choice.is_nan() {
+            return choice._data == [NUMERIC_NAN, 0] && len <= NUMERIC_HEADER_SIZE;
+        }
+
+        let header_size = choice.header_size() as usize;
+        if len < header_size {
+            return false;
+        }
+
+        let weight = choice.weight() as i32;
+        let digits: Vec<i32> = (header_size..len)
+            .step_by(NUMERIC_DIGIT_SIZE as usize)
+            .map(|i| word(i) as i32)
+            .collect();
+
+        match (digits.first(), digits.last()) {
+            (Some(&first), Some(&last)) => {
+                // The last digit may have no decimal digits beyond the display scale.
+                let decimals = (digits.len() as i32 - weight - 1) * DEC_DIGITS;
+                let spare = decimals - choice.dscale() as i32;
+                first != 0
+                    && last != 0
+                    && spare < DEC_DIGITS
+                    && (spare <= 0 || last % 10i32.pow(spare as u32) == 0)
+                    && digits.iter().all(|&digit| digit < NBASE)
+            }
+            // zero
+            _ => weight == 0 && choice.sign() == NUMERIC_POS,
+        }
+    }
+
     #[inline]
     pub fn as_var(&self) -> NumericVar {
         let flat_bits = self.choice.flag_bits();
diff --git a/src/num.rs b/src/num.rs
index 82507db..6abd032 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -362,6 +362,9 @@ impl<'de> serde::Deserialize<'de> for NumericBuf {
             where
                 E: serde::de::Error,
             {
+                if !NumericBinary::is_valid(v) {
+                    return Err(E::invalid_value(serde::de::Unexpected::Bytes(v), &self));
+                }
                 let n = unsafe { Numeric::from_bytes_unchecked(v) };
                 Ok(n.to_owned())
             }
@@ -1064,6 +1067,9 @@ impl<'de> serde::Deserialize<'de> for &'de Numeric {
             where
                 E: serde::de::Error,
             {
+                if !NumericBinary::is_valid(v) {
+                    return Err(E::invalid_value(serde::de::Unexpected::Bytes(v), &self));
+                }
                 let n = unsafe { Numeric::from_bytes_unchecked(v) };
                 Ok(n)
             }
-- 
2.43.0


From 9ffe44dd231dfc6783609bf1273b16189e6aa978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:45 +0000
Subject: [PATCH 19/20] fix: the binary form of a numeric may be at any address

---
 src/binary.rs |  3 ++-
 src/num.rs    | 12 +++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/binary.rs b/src/binary.rs
index 5f48c8b..b57f3b2 100644
--- a/src/binary.rs
+++ b/src/binary.rs
@@ -288,7 +288,8 @@ impl NumericChoice {
 
 /// `NumericBinary` is used to represent binary format of disk storage.
 /// Notes that do not create a `NumericBinary` directly.
-#[repr(C)]
+// The header precedes the digits immediately, so it may be at any even address.
+#[repr(C, packed(2))]
 pub(crate) struct NumericBinary {
     // varlena header (do not touch directly!)
     // xxxxxx00 4-byte length word, aligned, uncompressed data (up to 1G)
diff --git a/src/num.rs b/src/num.rs
index 6abd032..fa8c3c6 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -365,7 +365,17 @@ impl<'de> serde::Deserialize<'de> for NumericBuf {
                 if !NumericBinary::is_valid(v) {
                     return Err(E::invalid_value(serde::de::Unexpected::Bytes(v), &self));
                 }
-                let n = unsafe { Numeric::from_bytes_unchecked(v) };
+                // `v` may be at any address
+                let words: Vec<u16> = v
+                    .chunks_exact(2)
+                    .map(|word| u16::from_ne_bytes([word[0], word[1]]))
+                    .collect();
+                let n = unsafe {
+                    Numeric::from_bytes_unchecked(std::slice::from_raw_parts(
+                        words.as_ptr() as *const u8,
+                        v.len(),
+                    ))
+                };
                 Ok(n.to_owned())
             }
         }
-- 
2.43.0


From 30f5de2b5e791bb7404b4474f4e6d08e6131d9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:59 +0000
Subject: [PATCH 20/20] fix: conversion of floating-point numbers depends on no
 locale

"%.*g" writes the decimal point of the LC_NUMERIC of the process: under de_DE
1.5 became "1,5", which does not parse.
---
 src/convert.rs | 28 ++++++----------------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/src/convert.rs b/src/convert.rs
index e01a825..710c70f 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -20,8 +20,6 @@ use crate::error::NumericTryFromError;
 use crate::num::{Numeric, NumericBuf};
 use crate::var::{NumericVar, NBASE};
 use std::convert::{TryFrom, TryInto};
-use std::ffi::CStr;
-use std::mem::MaybeUninit;
 
 /// Zero value.
 trait Zero: Copy + PartialEq {
@@ -289,11 +287,6 @@ macro_rules! impl_floating {
 impl_floating!(f32, 6);
 impl_floating!(f64, 15);
 
-extern "C" {
-    // format function in libc
-    fn snprintf(dest: *mut u8, size: usize, format: *const u8, ...);
-}
-
 /// Converts a floating-point number to numeric.
 fn from_floating<T: Floating>(f: T) -> Result<NumericBuf, NumericTryFromError> {
     if f.is_nan() {
@@ -304,21 +297,12 @@ fn from_floating<T: Floating>(f: T) -> Result<NumericBuf, NumericTryFromError> {
         return Err(NumericTryFromError::invalid());
     }
 
-    const BUF_SIZE: usize = 128;
-
-    unsafe {
-        let mut buf: [MaybeUninit<u8>; BUF_SIZE] = MaybeUninit::uninit().assume_init();
-        snprintf(
-            buf.as_mut_ptr() as *mut u8,
-            BUF_SIZE,
-            "%.*g\0".as_ptr(),
-            T::PRECISION,
-            f.as_f64(),
-        );
-        let s = CStr::from_ptr(buf.as_ptr() as *const i8).to_string_lossy();
-        let n = s.parse::<NumericBuf>()?;
-        Ok(n)
-    }
+    // Like "%.*g", but with the same decimal point in every locale.
+    let s = format!("{:.*e}", T::PRECISION - 1, f.as_f64());
+    let (mantissa, exponent) = s.split_at(s.find('e').unwrap_or(s.len()));
+    let mantissa = mantissa.trim_end_matches('0').trim_end_matches('.');
+    let n = format!("{}{}", mantissa, exponent).parse::<NumericBuf>()?;
+    Ok(n)
 }
 
 macro_rules! impl_from_signed {
-- 
2.43.0

