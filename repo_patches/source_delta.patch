From 02abf29dc16234f18daea2768639e766adea0c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 01/15] fix: free numeric buffers with the layout they were
 allocated with

---
 src/num.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index eec7c11..928915a 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -14,7 +14,7 @@
 
 //! Numeric
 
-use crate::binary::{NumericBinary, NUMERIC_DIGIT_SIZE};
+use crate::binary::{NumericBinary, NumericDigit, NUMERIC_DIGIT_SIZE};
 use crate::data::*;
 use crate::typmod::Typmod;
 use crate::var::NumericVar;
@@ -204,7 +204,12 @@ impl Drop for NumericBuf {
     fn drop(&mut self) {
         if !self.buf.is_null() {
             unsafe {
-                let _vec = Vec::<u8>::from_raw_parts(self.buf as *mut u8, 0, self.len as usize);
+                // the buffer was allocated as a vector of digits, see `NumericData`
+                let _vec = Vec::<NumericDigit>::from_raw_parts(
+                    self.buf as *mut NumericDigit,
+                    0,
+                    (self.len / NUMERIC_DIGIT_SIZE) as usize,
+                );
             }
             self.buf = std::ptr::null();
         }
-- 
2.43.0


From 0e2e8b7c80ccb6dca060977546c91287b916b270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 02/15] fix: declare numeric headers as two-byte aligned

---
 src/binary.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/binary.rs b/src/binary.rs
index ccc0569..1f7f8a6 100644
--- a/src/binary.rs
+++ b/src/binary.rs
@@ -288,7 +288,9 @@ impl NumericChoice {
 
 /// `NumericBinary` is used to represent binary format of disk storage.
 /// Notes that do not create a `NumericBinary` directly.
-#[repr(C)]
+///
+/// Headers are placed right before the digits, so they are only aligned as digits are.
+#[repr(C, packed(2))]
 pub(crate) struct NumericBinary {
     // varlena header (do not touch directly!)
     // xxxxxx00 4-byte length word, aligned, uncompressed data (up to 1G)
-- 
2.43.0


From 4735e5e3dce895049aecb22b9e7c2f9d7a0b758d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:32 +0000
Subject: [PATCH 03/15] fix: keep the value usable when an in-place operation
 overflows

---
 src/num.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index 928915a..5736aa4 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -168,14 +168,13 @@ impl NumericBuf {
         unsafe { Numeric::from_bytes_unchecked(self.as_bytes()) }
     }
 
-    /// Creates a owned `NumericVar`, leaving a null pointer in `self.buf`.
+    /// Creates a owned `NumericVar`, leaving `NaN` in `self`.
     ///
     /// After calling this method, the `NumericVar` must be converted into `NumericBuf`
-    /// to give back the `self.buf`.
+    /// to give back the buffer; until then `self` is still a valid numeric.
     #[inline]
-    fn as_var_owned(&mut self) -> NumericVar {
-        let buf = std::mem::replace(&mut self.buf, std::ptr::null());
-        unsafe { NumericBuf::from_raw_parts(buf, self.len, self.offset).into_var() }
+    fn as_var_owned(&mut self) -> NumericVar<'static> {
+        std::mem::replace(self, NumericBuf::nan()).into_var()
     }
 
     /// Creates a owned `NumericVar`. The `NumericBuf` cannot be used after calling this method.
-- 
2.43.0


From 26a79b08cf8bd7d0e38697e6577c80898bdf7843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:37 +0000
Subject: [PATCH 04/15] fix: applying a typmod to NaN leaves it NaN

---
 src/num.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/num.rs b/src/num.rs
index 5736aa4..7bde595 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -139,6 +139,10 @@ impl NumericBuf {
     ///
     /// Notes that no matter whether overflows, `self` will be rounded.
     pub fn apply_typmod(&mut self, typmod: Typmod) -> bool {
+        if self.is_nan() {
+            return false;
+        }
+
         let mut var = self.as_var_owned();
         let mut overflow = var.apply_typmod(typmod);
 
-- 
2.43.0


From 4cd4f9194d9f9c2fe0ab6915b0027ae96de5adba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 05/15] fix: serialize numerics as byte strings in binary
 formats

---
 src/num.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index 7bde595..afedc80 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -322,7 +322,7 @@ impl serde::Serialize for NumericBuf {
         if serializer.is_human_readable() {
             self.to_string().serialize(serializer)
         } else {
-            self.as_bytes().serialize(serializer)
+            serializer.serialize_bytes(self.as_bytes())
         }
     }
 }
@@ -1032,7 +1032,7 @@ impl serde::Serialize for Numeric {
         if serializer.is_human_readable() {
             self.to_string().serialize(serializer)
         } else {
-            self.as_bytes().serialize(serializer)
+            serializer.serialize_bytes(self.as_bytes())
         }
     }
 }
-- 
2.43.0


From c732a2d873a71daa1380f8507c33c39e122b4608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:37 +0000
Subject: [PATCH 06/15] fix: reject malformed bytes when deserializing a
 numeric

---
 src/binary.rs | 28 ++++++++++++++++++++++++++++
 src/num.rs    | 15 ++++++++++++++-
 2 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/src/binary.rs b/src/binary.rs
index 1f7f8a6..4fe49cd 100644
--- a/src/binary.rs
+++ b/src/binary.rs
@@ -43,6 +43,8 @@
 // The weight is arbitrary in that case, but we normally set it to zero.
 
 use crate::var::NumericVar;
+#[cfg(feature = "serde")]
+use crate::var::NBASE;
 use cfg_if::cfg_if;
 use std::marker::PhantomData;
 use std::mem::size_of;
@@ -431,6 +433,32 @@ impl NumericBinary {
         }
     }
 
+    /// Checks if `bytes` is exactly one well-formed numeric, properly aligned.
+    #[cfg(feature = "serde")]
+    pub fn is_valid(bytes: &[u8]) -> bool {
+        if bytes.len() < NUMERIC_HEADER_SIZE_SHORT
+            || bytes.as_ptr() as usize % std::mem::align_of::<NumericBinary>() != 0
+        {
+            return false;
+        }
+
+        let bin = unsafe { &*(bytes.as_ptr() as *const NumericBinary) };
+        let len = bytes.len();
+        let header_size = bin.header_size() as usize;
+        if bin.len() as usize != len
+            || len < header_size
+            || (len - header_size) % NUMERIC_DIGIT_SIZE as usize != 0
+        {
+            return false;
+        }
+
+        let var = bin.as_var();
+        let digits = var.digits();
+        digits.first() != Some(&0)
+            && digits.last() != Some(&0)
+            && digits.iter().all(|&d| d >= 0 && (d as i32) < NBASE)
+    }
+
     #[inline]
     pub fn as_var(&self) -> NumericVar {
         let flat_bits = self.choice.flag_bits();
diff --git a/src/num.rs b/src/num.rs
index afedc80..aec9761 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -357,7 +357,17 @@ impl<'de> serde::Deserialize<'de> for NumericBuf {
             where
                 E: serde::de::Error,
             {
-                let n = unsafe { Numeric::from_bytes_unchecked(v) };
+                // the bytes may not be aligned as a numeric requires
+                let mut data = vec![0 as NumericDigit; (v.len() + 1) / 2];
+                let aligned = unsafe {
+                    let ptr = data.as_mut_ptr() as *mut u8;
+                    std::ptr::copy_nonoverlapping(v.as_ptr(), ptr, v.len());
+                    std::slice::from_raw_parts(ptr, v.len())
+                };
+                if !NumericBinary::is_valid(aligned) {
+                    return Err(serde::de::Error::custom("invalid numeric bytes"));
+                }
+                let n = unsafe { Numeric::from_bytes_unchecked(aligned) };
                 Ok(n.to_owned())
             }
         }
@@ -1059,6 +1069,9 @@ impl<'de> serde::Deserialize<'de> for &'de Numeric {
             where
                 E: serde::de::Error,
             {
+                if !NumericBinary::is_valid(v) {
+                    return Err(serde::de::Error::custom("invalid numeric bytes"));
+                }
                 let n = unsafe { Numeric::from_bytes_unchecked(v) };
                 Ok(n)
             }
-- 
2.43.0


From 09527d629d6b08f3035e817e8bc98f50aeb3f2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 07/15] fix: scientific format of values with very small
 exponents

---
 src/var.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/var.rs b/src/var.rs
index 2aab4b1..6904875 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -2221,9 +2221,11 @@ impl<'a> NumericVar<'a> {
         // to rscale decimal digits in the process.
         let denom_scale = if exponent < 0 { -exponent } else { 0 };
 
-        let denominator = TEN
-            .power_int(exponent, denom_scale)
-            .expect("attempt to multiply with overflow");
+        // The power of ten is built directly, so that it is exact for every exponent.
+        let denom_weight = exponent.div_euclid(DEC_DIGITS);
+        let denom_digit = [[1], [10], [100], [1000]][exponent.rem_euclid(DEC_DIGITS) as usize];
+        let denominator =
+            NumericVar::borrowed(1, denom_weight, denom_scale, NUMERIC_POS, &denom_digit);
         let significand = self
             .div_common(&denominator, rscale, true)
             .expect(DIVIDE_BY_ZERO_MSG);
-- 
2.43.0


From 89073eebc1cda61545922d9d3b76d6263a56983b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 08/15] fix: pass the precision to snprintf as a C int

---
 src/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/convert.rs b/src/convert.rs
index 91b13c1..6aecad6 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -312,10 +312,10 @@ fn from_floating<T: Floating>(f: T) -> Result<NumericBuf, NumericTryFromError> {
             buf.as_mut_ptr() as *mut u8,
             BUF_SIZE,
             "%.*g\0".as_ptr(),
-            T::PRECISION,
+            T::PRECISION as std::os::raw::c_int,
             f.as_f64(),
         );
-        let s = CStr::from_ptr(buf.as_ptr() as *const i8).to_string_lossy();
+        let s = CStr::from_ptr(buf.as_ptr() as *const _).to_string_lossy();
         let n = s.parse::<NumericBuf>()?;
         Ok(n)
     }
-- 
2.43.0


From 49a0453367327255bf5dcc17d48d1c0f77b76ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:29 +0000
Subject: [PATCH 09/15] fix: power with the smallest 32-bit exponent

---
 src/var.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/var.rs b/src/var.rs
index 6904875..f319b55 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1693,11 +1693,11 @@ impl<'a> NumericVar<'a> {
         // The multiplications to produce the result may introduce an error of up
         // to around log10(abs(exp)) digits, so work with this many extra digits
         // of precision (plus a few more for good measure).
-        sig_digits += (exp.abs() as f64).ln() as i32 + 8;
+        sig_digits += (exp.unsigned_abs() as f64).ln() as i32 + 8;
 
         // Now we can proceed with the multiplications.
         let mut neg = exp < 0;
-        let mut mask = exp.abs();
+        let mut mask = exp.unsigned_abs();
 
         let mut base_prod = self.clone();
 
@@ -1709,7 +1709,7 @@ impl<'a> NumericVar<'a> {
 
         loop {
             mask >>= 1;
-            if mask <= 0 {
+            if mask == 0 {
                 break;
             }
 
-- 
2.43.0


From cb8f48a32ad9592c7b40d9ce4afc3c94108ffc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 10/15] fix: estimate the size of an integer power from all
 leading digits

---
 src/var.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var.rs b/src/var.rs
index f319b55..c4bd9c4 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1664,7 +1664,7 @@ impl<'a> NumericVar<'a> {
         let mut p = self.weight * DEC_DIGITS;
 
         for (i, &digit) in digits.iter().enumerate().skip(1) {
-            if (i * DEC_DIGITS as usize) < 16 {
+            if i * DEC_DIGITS as usize >= 16 {
                 break;
             }
 
-- 
2.43.0


From be0cc794c9352c2c404d41e5de6406e891f727d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:01 +0000
Subject: [PATCH 11/15] fix: square root of values too small for the result
 scale

---
 src/var.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/var.rs b/src/var.rs
index c4bd9c4..1026720 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1597,7 +1597,8 @@ impl<'a> NumericVar<'a> {
             result = result.add_common(&val);
             result = result.mul_common(&ZERO_POINT_FIVE, local_rscale);
 
-            if result.cmp_common(&last_val) == 0 {
+            // The root may be too small to be represented at this scale.
+            if result.ndigits == 0 || result.cmp_common(&last_val) == 0 {
                 break;
             }
 
-- 
2.43.0


From 259e4b924475703fb39ea1e8f2e40e3ce1b82a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:18 +0000
Subject: [PATCH 12/15] fix: multiplying zero by a value of large scale

---
 src/var.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var.rs b/src/var.rs
index 1026720..5f8e9b6 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -135,7 +135,7 @@ impl<'a> NumericVar<'a> {
     /// Creates a `NumericVar` of zero with given scale.
     #[inline]
     fn zero_scaled(scale: i32) -> NumericVar<'a> {
-        debug_assert!(scale >= 0 && scale <= NUMERIC_DSCALE_MAX as i32);
+        debug_assert!(scale >= 0); // the upper limit is checked by `make_result`
         Self::borrowed(0, 0, scale, NUMERIC_POS, &[])
     }
 
-- 
2.43.0


From 1cbcc924c30140f40baa21897cd6b71af4496376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:17 +0000
Subject: [PATCH 13/15] fix: check the range of a result after stripping zeros

---
 src/var.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/var.rs b/src/var.rs
index 5f8e9b6..1e0d4f7 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -2327,10 +2327,13 @@ impl<'a> NumericVar<'a> {
     /// Make `self` to be a result numeric.
     /// Returns `None` if overflows.
     #[inline]
-    pub fn make_result(self) -> Option<NumericBuf> {
+    pub fn make_result(mut self) -> Option<NumericBuf> {
         debug_assert!(!self.is_nan());
         debug_assert!(self.dscale >= 0);
 
+        // leading zeros do not count for the weight of the result
+        self.strip();
+
         if self.weight > NUMERIC_WEIGHT_MAX as i32
             || self.weight < NUMERIC_WEIGHT_MIN as i32
             || self.dscale > NUMERIC_DSCALE_MAX as i32
@@ -2338,7 +2341,7 @@ impl<'a> NumericVar<'a> {
             return None;
         }
 
-        Some(self.make_result_no_overflow())
+        Some(self.into_numeric_buf())
     }
 
     /// Negate this value.
-- 
2.43.0


From 7707a9b92d7e30ea29ef4a303595b9ab96c01783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:05 +0000
Subject: [PATCH 14/15] fix: raising a negative number to a whole power beyond
 i32

---
 src/var.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/var.rs b/src/var.rs
index 1e0d4f7..637fad1 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -2049,6 +2049,21 @@ impl<'a> NumericVar<'a> {
             return Some(Self::zero_scaled(NUMERIC_MIN_SIG_DIGITS));
         }
 
+        // A negative base gets here only with a whole exponent that does not fit in
+        // i32: compute with the absolute value, whose logarithm exists. The power is
+        // negative if the exponent is odd.
+        if self.is_negative() {
+            let mut base = self.clone();
+            base.abs();
+            let mut result = base.power_common(exp)?;
+            let is_odd = exp.ndigits == exp.weight + 1
+                && exp.digits()[exp.ndigits as usize - 1] % 2 != 0;
+            if is_odd {
+                result.negate();
+            }
+            return Some(result);
+        }
+
         // Decide on the scale for the ln() calculation.  For this we need an
         // estimate of the weight of the result, which we obtain by doing an
         // initial low-precision calculation of exp * ln(base).
-- 
2.43.0


From 9e6edb322ec475812bf032bdf935d7658470beb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:23 +0000
Subject: [PATCH 15/15] fix: debug output of unwritten memory

---
 src/num.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/num.rs b/src/num.rs
index aec9761..0012791 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -232,7 +232,8 @@ impl fmt::Debug for NumericBuf {
         let buf = if self.buf.is_null() {
             &[]
         } else {
-            unsafe { std::slice::from_raw_parts(self.buf, self.len as usize) }
+            // the rest of the buffer may never have been written
+            self.as_bytes()
         };
 
         f.debug_struct("NumericBuf")
-- 
2.43.0

