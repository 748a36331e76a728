From 1f229a15640b2b0de101037637530986879f886e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 01/15] fix: declare NumericBinary with the alignment its
 buffers really have

A header is placed directly in front of the digits, at any 2-byte aligned
address, but NumericBinary was declared with 4-byte alignment: creating
references to it and storing the varlena word was undefined behaviour
(newer compilers abort with 'misaligned pointer dereference').
---
 src/binary.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/binary.rs b/src/binary.rs
index ccc0569..2f55b67 100644
--- a/src/binary.rs
+++ b/src/binary.rs
@@ -288,7 +288,9 @@ impl NumericChoice {
 
 /// `NumericBinary` is used to represent binary format of disk storage.
 /// Notes that do not create a `NumericBinary` directly.
-#[repr(C)]
+///
+/// The header is only guaranteed to be aligned like the digits that follow it.
+#[repr(C, packed(2))]
 pub(crate) struct NumericBinary {
     // varlena header (do not touch directly!)
     // xxxxxx00 4-byte length word, aligned, uncompressed data (up to 1G)
-- 
2.43.0


From a6fd4f3ffc7681b460bd95b0177e8bf09bc29d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 02/15] fix: free the buffer of a NumericBuf with the layout it
 was allocated with

The digits are allocated as Vec<i16> but NumericBuf::drop freed them as
Vec<u8>, passing a wrong alignment to the allocator.
---
 src/num.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index eec7c11..8806645 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -14,7 +14,7 @@
 
 //! Numeric
 
-use crate::binary::{NumericBinary, NUMERIC_DIGIT_SIZE};
+use crate::binary::{NumericBinary, NumericDigit, NUMERIC_DIGIT_SIZE};
 use crate::data::*;
 use crate::typmod::Typmod;
 use crate::var::NumericVar;
@@ -204,7 +204,12 @@ impl Drop for NumericBuf {
     fn drop(&mut self) {
         if !self.buf.is_null() {
             unsafe {
-                let _vec = Vec::<u8>::from_raw_parts(self.buf as *mut u8, 0, self.len as usize);
+                // the buffer was allocated as digits, see `NumericData`
+                let _vec = Vec::<NumericDigit>::from_raw_parts(
+                    self.buf as *mut NumericDigit,
+                    0,
+                    (self.len / NUMERIC_DIGIT_SIZE) as usize,
+                );
             }
             self.buf = std::ptr::null();
         }
-- 
2.43.0


From 36584bf3e8cefca8b6c4ff9bda469ae9e115a10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:34 +0000
Subject: [PATCH 03/15] fix: leave NaN alone in apply_typmod instead of turning
 it into zero

---
 src/num.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/num.rs b/src/num.rs
index 8806645..1e9d0ec 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -139,6 +139,11 @@ impl NumericBuf {
     ///
     /// Notes that no matter whether overflows, `self` will be rounded.
     pub fn apply_typmod(&mut self, typmod: Typmod) -> bool {
+        if self.is_nan() {
+            // NaN has neither precision nor scale to enforce
+            return false;
+        }
+
         let mut var = self.as_var_owned();
         let mut overflow = var.apply_typmod(typmod);
 
-- 
2.43.0


From 995b89bca90ba10aba68db9ac61555f6c18529f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:39 +0000
Subject: [PATCH 04/15] fix: keep NumericBuf valid when its rounded value is
 not representable

---
 src/num.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index 1e9d0ec..337b610 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -104,7 +104,8 @@ impl NumericBuf {
             return;
         }
 
-        let mut var = self.as_var_owned();
+        // Work on a copy, so that `self` stays valid if we panic.
+        let mut var = self.as_var();
         var.round(scale);
         match var.make_result() {
             Some(result) => *self = result,
@@ -137,14 +138,17 @@ impl NumericBuf {
     ///
     /// Returns true if overflows.
     ///
-    /// Notes that no matter whether overflows, `self` will be rounded.
+    /// Notes that no matter whether overflows, `self` will be rounded,
+    /// unless the rounded value is not representable at all.
     pub fn apply_typmod(&mut self, typmod: Typmod) -> bool {
         if self.is_nan() {
             // NaN has neither precision nor scale to enforce
             return false;
         }
 
-        let mut var = self.as_var_owned();
+        // Work on a copy: the result may not be representable at all, and then
+        // `self` has to stay a valid numeric.
+        let mut var = self.as_var();
         let mut overflow = var.apply_typmod(typmod);
 
         match var.make_result() {
-- 
2.43.0


From 302c94d7b90b6d1167b773f7af11feca5e8bc491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 05/15] fix: compute the denominator of the scientific format
 without underflow

---
 src/var.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/var.rs b/src/var.rs
index 2aab4b1..8a7fca7 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1760,6 +1760,19 @@ impl<'a> NumericVar<'a> {
         Some(result)
     }
 
+    /// Raise ten to the power of exp, exactly.
+    ///
+    /// Unlike `power_int()`, this does not limit the scale of the result.
+    fn power_ten_int(exp: i32) -> Self {
+        let mut result = Self::with_ndigits(1);
+        result.weight = exp.div_euclid(DEC_DIGITS);
+        result.dscale = (-exp).max(0);
+        result.sign = NUMERIC_POS;
+        result.digits.to_mut().digits_mut(1)[0] =
+            (10 as NumericDigit).pow(exp.rem_euclid(DEC_DIGITS) as u32);
+        result
+    }
+
     /// Compute the natural log of `self`
     pub fn ln_common(&self, rscale: i32) -> Self {
         debug_assert!(!self.is_nan());
@@ -2219,11 +2232,7 @@ impl<'a> NumericVar<'a> {
         //
         // We then divide var by the denominator to get the significand, rounding
         // to rscale decimal digits in the process.
-        let denom_scale = if exponent < 0 { -exponent } else { 0 };
-
-        let denominator = TEN
-            .power_int(exponent, denom_scale)
-            .expect("attempt to multiply with overflow");
+        let denominator = Self::power_ten_int(exponent);
         let significand = self
             .div_common(&denominator, rscale, true)
             .expect(DIVIDE_BY_ZERO_MSG);
-- 
2.43.0


From 528b81aea8bb6b985b23dacab93bba02f54a6cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 06/15] fix: use up to 16 digits of the base to estimate the
 weight of a power

---
 src/var.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var.rs b/src/var.rs
index 8a7fca7..f1baae9 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1664,7 +1664,7 @@ impl<'a> NumericVar<'a> {
         let mut p = self.weight * DEC_DIGITS;
 
         for (i, &digit) in digits.iter().enumerate().skip(1) {
-            if (i * DEC_DIGITS as usize) < 16 {
+            if i * DEC_DIGITS as usize >= 16 {
                 break;
             }
 
-- 
2.43.0


From 4478cdcc43c481f7c2542301a3c832f79cc1fa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:51 +0000
Subject: [PATCH 07/15] fix: raise to the power of i32::MIN without overflowing
 the exponent

---
 src/var.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/var.rs b/src/var.rs
index f1baae9..d4c742f 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1693,11 +1693,12 @@ impl<'a> NumericVar<'a> {
         // The multiplications to produce the result may introduce an error of up
         // to around log10(abs(exp)) digits, so work with this many extra digits
         // of precision (plus a few more for good measure).
-        sig_digits += (exp.abs() as f64).ln() as i32 + 8;
+        sig_digits += (exp as f64).abs().ln() as i32 + 8;
 
         // Now we can proceed with the multiplications.
         let mut neg = exp < 0;
-        let mut mask = exp.abs();
+        // exp may be i32::MIN, whose absolute value only fits in u32
+        let mut mask = exp.wrapping_abs() as u32;
 
         let mut base_prod = self.clone();
 
@@ -1709,7 +1710,7 @@ impl<'a> NumericVar<'a> {
 
         loop {
             mask >>= 1;
-            if mask <= 0 {
+            if mask == 0 {
                 break;
             }
 
-- 
2.43.0


From c29e8b07a2b4feb70291816fc4f237c98a4d18a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:55 +0000
Subject: [PATCH 08/15] fix: strip leading zeroes before checking a result for
 overflow

---
 src/var.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/var.rs b/src/var.rs
index d4c742f..9ab6cfc 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -2334,10 +2334,13 @@ impl<'a> NumericVar<'a> {
     /// Make `self` to be a result numeric.
     /// Returns `None` if overflows.
     #[inline]
-    pub fn make_result(self) -> Option<NumericBuf> {
+    pub fn make_result(mut self) -> Option<NumericBuf> {
         debug_assert!(!self.is_nan());
         debug_assert!(self.dscale >= 0);
 
+        // The weight is only meaningful without leading zeroes
+        self.strip();
+
         if self.weight > NUMERIC_WEIGHT_MAX as i32
             || self.weight < NUMERIC_WEIGHT_MIN as i32
             || self.dscale > NUMERIC_DSCALE_MAX as i32
-- 
2.43.0


From 9c2e0518a5288b69a4f2e4932ac641f144c2e353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:59 +0000
Subject: [PATCH 09/15] fix: report overflow instead of panicking when the
 scale of a zero product is too large

---
 src/var.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var.rs b/src/var.rs
index 9ab6cfc..4927859 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -135,7 +135,7 @@ impl<'a> NumericVar<'a> {
     /// Creates a `NumericVar` of zero with given scale.
     #[inline]
     fn zero_scaled(scale: i32) -> NumericVar<'a> {
-        debug_assert!(scale >= 0 && scale <= NUMERIC_DSCALE_MAX as i32);
+        debug_assert!(scale >= 0);
         Self::borrowed(0, 0, scale, NUMERIC_POS, &[])
     }
 
-- 
2.43.0


From 5cf30e65358c8400a5f8668f692436e9f7b5d2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:04 +0000
Subject: [PATCH 10/15] fix: do not read uninitialised memory when
 debug-formatting a NumericBuf

---
 src/num.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index 337b610..7cb220c 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -235,14 +235,9 @@ impl Clone for NumericBuf {
 impl fmt::Debug for NumericBuf {
     #[inline]
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> Result<(), fmt::Error> {
-        let buf = if self.buf.is_null() {
-            &[]
-        } else {
-            unsafe { std::slice::from_raw_parts(self.buf, self.len as usize) }
-        };
-
+        // only the bytes of the numeric itself are sure to be initialised
         f.debug_struct("NumericBuf")
-            .field("buf", &buf)
+            .field("buf", &self.as_bytes())
             .field("len", &self.len)
             .field("offset", &self.offset)
             .finish()
-- 
2.43.0


From 4033f14b093735113668a5d98669a8462157dd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:30 +0000
Subject: [PATCH 11/15] fix: raise negative numbers to integer powers that do
 not fit in i32

---
 src/var.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/var.rs b/src/var.rs
index 4927859..0158731 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -2062,6 +2062,14 @@ impl<'a> NumericVar<'a> {
             return Some(Self::zero_scaled(NUMERIC_MIN_SIG_DIGITS));
         }
 
+        // A negative base is only allowed with an integer exponent here: work with
+        // the absolute value, and negate the result if the exponent is odd.
+        let negative = self.is_negative()
+            && exp.ndigits == exp.weight + 1
+            && exp.digits()[exp.ndigits as usize - 1] & 1 != 0;
+        let mut base = self.clone();
+        base.abs();
+
         // Decide on the scale for the ln() calculation.  For this we need an
         // estimate of the weight of the result, which we obtain by doing an
         // initial low-precision calculation of exp * ln(base).
@@ -2077,13 +2085,13 @@ impl<'a> NumericVar<'a> {
         // Since the values here are only approximations, we apply a small fuzz
         // factor to this overflow test and let exp_common() determine the exact
         // overflow threshold so that it is consistent for all inputs.
-        let ln_dweight = self.estimate_ln_dweight();
+        let ln_dweight = base.estimate_ln_dweight();
 
         let local_rscale = (8 - ln_dweight)
             .max(NUMERIC_MIN_DISPLAY_SCALE)
             .min(NUMERIC_MAX_DISPLAY_SCALE);
 
-        let mut ln_base = self.ln_common(local_rscale);
+        let mut ln_base = base.ln_common(local_rscale);
         let mut ln_num = ln_base.mul_common(exp, local_rscale);
 
         let mut val: f64 = TryFrom::try_from(&ln_num).unwrap();
@@ -2107,9 +2115,14 @@ impl<'a> NumericVar<'a> {
         let local_rscale = (rscale + val as i32 - ln_dweight + 8).max(NUMERIC_MIN_DISPLAY_SCALE);
 
         // and do the real calculation
-        ln_base = self.ln_common(local_rscale);
+        ln_base = base.ln_common(local_rscale);
         ln_num = ln_base.mul_common(exp, local_rscale);
-        ln_num.exp_common(rscale)
+        let mut result = ln_num.exp_common(rscale)?;
+        if negative {
+            result.negate();
+        }
+
+        Some(result)
     }
 
     /// Convert `self` to text representation.
-- 
2.43.0


From 513f93ca1967fa03a9ea34917978cf12365f3b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:40 +0000
Subject: [PATCH 12/15] fix: keep the header reference within the bytes of
 short numerics

---
 src/binary.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/binary.rs b/src/binary.rs
index 2f55b67..4abdd4f 100644
--- a/src/binary.rs
+++ b/src/binary.rs
@@ -190,8 +190,9 @@ struct NumericChoice {
     // Short form (2-byte header)
     n_short: UnionField<NumericShort>,
 
-    // 4-byte header for union
-    _data: [u16; 2],
+    // 2-byte header for union: a numeric in short form may end here,
+    // only the long form has a second header word
+    _data: [u16; 1],
 }
 
 impl NumericChoice {
@@ -405,7 +406,7 @@ impl NumericBinary {
                 n_header: UnionField::new(),
                 n_long: UnionField::new(),
                 n_short: UnionField::new(),
-                _data: [NUMERIC_NAN, 0],
+                _data: [NUMERIC_NAN],
             },
         }
     }
@@ -418,7 +419,7 @@ impl NumericBinary {
                 n_header: UnionField::new(),
                 n_long: UnionField::new(),
                 n_short: UnionField::new(),
-                _data: [NUMERIC_SHORT, 0],
+                _data: [NUMERIC_SHORT],
             },
         }
     }
-- 
2.43.0


From 6ed03fb2cd9fa0801b37b14703331eae543dd6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:40 +0000
Subject: [PATCH 13/15] fix: refuse malformed bytes when deserializing a
 numeric

---
 src/num.rs | 61 ++++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 57 insertions(+), 4 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index 7cb220c..2bf38c3 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -14,10 +14,14 @@
 
 //! Numeric
 
+#[cfg(feature = "serde")]
+use crate::binary::NUMERIC_HEADER_SIZE_SHORT;
 use crate::binary::{NumericBinary, NumericDigit, NUMERIC_DIGIT_SIZE};
 use crate::data::*;
 use crate::typmod::Typmod;
 use crate::var::NumericVar;
+#[cfg(feature = "serde")]
+use crate::var::NBASE;
 use std::borrow::{Borrow, Cow};
 use std::cmp::Ordering;
 use std::fmt;
@@ -358,8 +362,17 @@ impl<'de> serde::Deserialize<'de> for NumericBuf {
             where
                 E: serde::de::Error,
             {
-                let n = unsafe { Numeric::from_bytes_unchecked(v) };
-                Ok(n.to_owned())
+                // The bytes may have any alignment.
+                let mut buf = Vec::<NumericDigit>::with_capacity(v.len() / 2 + 1);
+                let bytes = unsafe {
+                    let ptr = buf.as_mut_ptr() as *mut u8;
+                    ptr.copy_from_nonoverlapping(v.as_ptr(), v.len());
+                    std::slice::from_raw_parts(ptr, v.len())
+                };
+                match Numeric::from_bytes_checked(bytes) {
+                    Some(n) => Ok(n.to_owned()),
+                    None => Err(serde::de::Error::custom("invalid numeric bytes")),
+                }
             }
         }
 
@@ -392,6 +405,46 @@ impl Numeric {
         &*(value as *const [u8] as *const Numeric)
     }
 
+    /// Creates a `Numeric` from bytes slice if it is aligned like a digit and
+    /// holds exactly what `as_bytes` gives for some numeric.
+    #[cfg(feature = "serde")]
+    fn from_bytes_checked(value: &[u8]) -> Option<&Numeric> {
+        if value.as_ptr() as usize % std::mem::align_of::<NumericDigit>() != 0
+            || value.len() % NUMERIC_DIGIT_SIZE as usize != 0
+            || value.len() < NUMERIC_HEADER_SIZE_SHORT
+        {
+            return None;
+        }
+
+        let numeric = unsafe { Numeric::from_bytes_unchecked(value) };
+        let bin = unsafe { &*(value.as_ptr() as *const NumericBinary) };
+
+        if bin.len() as usize != value.len() || (bin.header_size() as usize) > value.len() {
+            return None;
+        }
+
+        if bin.is_nan() {
+            return if value == Numeric::nan().as_bytes() {
+                Some(numeric)
+            } else {
+                None
+            };
+        }
+
+        let mut var = bin.as_var();
+
+        if !var.digits().iter().all(|d| (0..NBASE).contains(&(*d as i32))) {
+            return None;
+        }
+
+        // Encoding the value again tells whether it is in canonical form.
+        var.round_common(bin.dscale() as i32);
+        match var.make_result() {
+            Some(n) if n.as_bytes() == value => Some(numeric),
+            _ => None,
+        }
+    }
+
     /// Creates a `NaN` numeric.
     #[inline]
     pub fn nan() -> &'static Numeric {
@@ -1060,8 +1113,8 @@ impl<'de> serde::Deserialize<'de> for &'de Numeric {
             where
                 E: serde::de::Error,
             {
-                let n = unsafe { Numeric::from_bytes_unchecked(v) };
-                Ok(n)
+                Numeric::from_bytes_checked(v)
+                    .ok_or_else(|| serde::de::Error::custom("invalid numeric bytes"))
             }
         }
 
-- 
2.43.0


From 2dc282a5cf6335a325c7b436bd33c1eee767d00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:40 +0000
Subject: [PATCH 14/15] fix: serialize a numeric as bytes, as it is
 deserialized

---
 src/num.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index 2bf38c3..cbf5cf1 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -327,7 +327,7 @@ impl serde::Serialize for NumericBuf {
         if serializer.is_human_readable() {
             self.to_string().serialize(serializer)
         } else {
-            self.as_bytes().serialize(serializer)
+            serializer.serialize_bytes(self.as_bytes())
         }
     }
 }
@@ -1086,7 +1086,7 @@ impl serde::Serialize for Numeric {
         if serializer.is_human_readable() {
             self.to_string().serialize(serializer)
         } else {
-            self.as_bytes().serialize(serializer)
+            serializer.serialize_bytes(self.as_bytes())
         }
     }
 }
-- 
2.43.0


From 9e55b197f6d5cf3b47cfe989a83a6117db4f859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:40 +0000
Subject: [PATCH 15/15] fix: round once when converting to f32, and refuse
 every value out of its range

---
 src/convert.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/convert.rs b/src/convert.rs
index 91b13c1..68b9ba6 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -632,15 +632,15 @@ impl<'a> TryFrom<&NumericVar<'a>> for f32 {
         buf.write_fmt(format_args!("{}", value))
             .expect("returned an error unexpectedly");
 
-        match strtod::strtod(&buf) {
-            Some(val) => {
-                let f = val as f32;
-                if (f.is_infinite() && !val.is_infinite()) || (f == 0.0 && val != 0.0) {
+        // Rounds once: going through f64 would round twice.
+        match buf.parse::<f32>() {
+            Ok(f) => {
+                if f.is_infinite() || (f == 0.0 && value.ndigits() != 0) {
                     return Err(NumericTryFromError::overflow());
                 }
                 Ok(f)
             }
-            None => Err(NumericTryFromError::overflow()),
+            Err(_) => Err(NumericTryFromError::overflow()),
         }
     }
 }
-- 
2.43.0

