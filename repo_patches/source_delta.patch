From b83c50f951c64d1db214cac8456bf57484e19c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:25 +0000
Subject: [PATCH 01/11] fix: native rotations by more than 256 bits panicked in
 debug builds

---
 src/intrinsics/native/rot.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/intrinsics/native/rot.rs b/src/intrinsics/native/rot.rs
index 8a584bc..86e3094 100644
--- a/src/intrinsics/native/rot.rs
+++ b/src/intrinsics/native/rot.rs
@@ -6,10 +6,10 @@ use core::mem::MaybeUninit;
 
 #[inline]
 pub fn rol3(r: &mut MaybeUninit<U256>, a: &U256, b: u32) {
-    r.write((a << (b & 0xff)) | (a >> ((256 - b) & 0xff)));
+    r.write((a << (b & 0xff)) | (a >> (256u32.wrapping_sub(b) & 0xff)));
 }
 
 #[inline]
 pub fn ror3(r: &mut MaybeUninit<U256>, a: &U256, b: u32) {
-    r.write((a >> (b & 0xff)) | (a << ((256 - b) & 0xff)));
+    r.write((a >> (b & 0xff)) | (a << (256u32.wrapping_sub(b) & 0xff)));
 }
-- 
2.43.0


From a4f3df1de72ed5969d60979cfa7dc5adfdb45110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:25 +0000
Subject: [PATCH 02/11] fix: shift operators did not mask overflowing shift
 amounts in release builds

---
 src/macros/ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macros/ops.rs b/src/macros/ops.rs
index e735359..2c8b718 100644
--- a/src/macros/ops.rs
+++ b/src/macros/ops.rs
@@ -269,7 +269,7 @@ macro_rules! __impl_ops_shift {
                 }
 
                 let mut result = ::core::mem::MaybeUninit::uninit();
-                $op3(&mut result, self, rhs);
+                $op3(&mut result, self, rhs & 0xff);
 
                 unsafe { result.assume_init() }
             }
@@ -457,7 +457,7 @@ macro_rules! __impl_ops_shift_assign {
             fn $method(&mut self, rhs: u32) {
                 #[cfg(not(debug_assertions))]
                 {
-                    $op2(self, rhs);
+                    $op2(self, rhs & 0xff);
                 }
                 #[cfg(debug_assertions)]
                 {
-- 
2.43.0


From a3c7bbd9488214ea13edc5e414e00e19f11b3f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:25 +0000
Subject: [PATCH 03/11] fix: integer literals were rejected when a digit step
 carried into the high word

---
 src/parse.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index dca813c..3c25414 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -158,9 +158,8 @@ pub(crate) const fn const_from_str_prefixed(bytes: &[u8], start: usize) -> U256
         let (hi, overflow) = hi.overflowing_mul(r);
         check(overflow);
 
-        let (lo, overflow) = ll.overflowing_add(lh << 64);
-        check(overflow);
-        let (hi, overflow) = hi.overflowing_add(lh >> 64);
+        let (lo, carry) = ll.overflowing_add(lh << 64);
+        let (hi, overflow) = hi.overflowing_add((lh >> 64) + carry as u128);
         check(overflow);
 
         U256::from_words(hi, lo)
-- 
2.43.0


From da75b70208fd6f410c5b631ae29d480fc175daf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:25 +0000
Subject: [PATCH 04/11] fix: casting an infinite f32 did not saturate

---
 src/int/convert.rs  | 8 +++++++-
 src/uint/convert.rs | 4 +++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/int/convert.rs b/src/int/convert.rs
index a013240..3173959 100644
--- a/src/int/convert.rs
+++ b/src/int/convert.rs
@@ -139,7 +139,13 @@ macro_rules! impl_as_i256_float {
                     let bits = abs.to_bits();
                     let exponent = ((bits >> M) & EXP_MASK) - EXP_OFFSET;
                     let mantissa = (bits & MAN_MASK) | MAN_ONE;
-                    if exponent <= M {
+                    if abs == <$t>::INFINITY {
+                        if sign > 0 {
+                            I256::MAX
+                        } else {
+                            I256::MIN
+                        }
+                    } else if exponent <= M {
                         (I256::from(mantissa >> (M - exponent))) * sign
                     } else if exponent < 255 {
                         (I256::from(mantissa) << (exponent - M)) * sign
diff --git a/src/uint/convert.rs b/src/uint/convert.rs
index da2bdd3..fcd7324 100644
--- a/src/uint/convert.rs
+++ b/src/uint/convert.rs
@@ -136,7 +136,9 @@ macro_rules! impl_as_u256_float {
                 const EXP_MASK: $b = !0 >> <$t>::MANTISSA_DIGITS;
                 const EXP_OFFSET: $b = EXP_MASK / 2;
 
-                if self >= 1.0 {
+                if self == <$t>::INFINITY {
+                    U256::MAX
+                } else if self >= 1.0 {
                     let bits = self.to_bits();
                     let exponent = ((bits >> M) & EXP_MASK) - EXP_OFFSET;
                     let mantissa = (bits & MAN_MASK) | MAN_ONE;
-- 
2.43.0


From 0818834cbd11d3c218f60eb0b857be172167725f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 05/11] fix: Euclidean division of a negative number by
 I256::MIN panicked in debug builds

---
 src/int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/int.rs b/src/int.rs
index ff9d35d..6424142 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -538,7 +538,7 @@ impl I256 {
 
         let adjust_remainder = dividend_sign && remainder != 0;
         if adjust_remainder {
-            remainder = abs_divisor.as_i256() - remainder;
+            remainder = (abs_divisor - r).as_i256();
             // cannot overflow
         }
         if remainder.is_negative() || remainder.as_u256() >= abs_divisor {
-- 
2.43.0


From f9fdb3a75770fc8cefc44ad076efe5e2877ddfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 06/11] fix: I256 MIN / -1 and MIN % -1 silently wrapped
 instead of panicking

---
 src/intrinsics/native/divmod.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/intrinsics/native/divmod.rs b/src/intrinsics/native/divmod.rs
index 9ed16ff..1d11fc6 100644
--- a/src/intrinsics/native/divmod.rs
+++ b/src/intrinsics/native/divmod.rs
@@ -448,9 +448,20 @@ pub fn idivmod4(
     }
 }
 
+/// Like for primitive integers, `MIN / -1` and `MIN % -1` overflow and panic
+/// regardless of the build profile.
+#[inline]
+fn is_overflowing_division(a: &I256, b: &I256) -> bool {
+    *b == -1 && *a == I256::MIN
+}
+
 #[inline]
 pub fn idiv2(r: &mut I256, a: &I256) {
     let (a, b) = (*r, a);
+    assert!(
+        !is_overflowing_division(&a, b),
+        "attempt to divide with overflow",
+    );
     // SAFETY: `udivmod4` does not write `MaybeUninit::uninit()` to `res` and
     // `U256` does not implement `Drop`.
     let res = unsafe { &mut *(r as *mut I256).cast() };
@@ -459,6 +470,10 @@ pub fn idiv2(r: &mut I256, a: &I256) {
 
 #[inline]
 pub fn idiv3(r: &mut MaybeUninit<I256>, a: &I256, b: &I256) {
+    assert!(
+        !is_overflowing_division(a, b),
+        "attempt to divide with overflow",
+    );
     idivmod4(r, a, b, None);
 }
 
@@ -466,6 +481,10 @@ pub fn idiv3(r: &mut MaybeUninit<I256>, a: &I256, b: &I256) {
 pub fn irem2(r: &mut I256, a: &I256) {
     let mut res = MaybeUninit::uninit();
     let (a, b) = (*r, a);
+    assert!(
+        !is_overflowing_division(&a, b),
+        "attempt to calculate the remainder with overflow",
+    );
     // SAFETY: `udivmod4` does not write `MaybeUninit::uninit()` to `rem` and
     // `U256` does not implement `Drop`.
     let r = unsafe { &mut *(r as *mut I256).cast() };
@@ -474,6 +493,10 @@ pub fn irem2(r: &mut I256, a: &I256) {
 
 #[inline]
 pub fn irem3(r: &mut MaybeUninit<I256>, a: &I256, b: &I256) {
+    assert!(
+        !is_overflowing_division(a, b),
+        "attempt to calculate the remainder with overflow",
+    );
     let mut res = MaybeUninit::uninit();
     idivmod4(&mut res, a, b, Some(r));
 }
-- 
2.43.0


From e77e9d802143be90852b2033cf3f893ab345ff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 07/11] fix: casts to floating point numbers rounded twice

---
 src/int.rs  |  3 ++-
 src/uint.rs | 12 +++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index 6424142..d6e1c68 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -263,7 +263,8 @@ impl I256 {
     /// Cast to a primitive `f32`.
     #[inline]
     pub fn as_f32(self) -> f32 {
-        self.as_f64() as _
+        let sign = self.signum128() as f32;
+        self.unsigned_abs().as_f32() * sign
     }
 
     /// Cast to a primitive `f64`.
diff --git a/src/uint.rs b/src/uint.rs
index 3a1e89f..13d0117 100644
--- a/src/uint.rs
+++ b/src/uint.rs
@@ -273,7 +273,17 @@ impl U256 {
         // neither `const` nor `no_std`.
         const HI: u64 = 0x47f0000000000000;
         let (hi, lo) = self.into_words();
-        (hi as f64) * f64::from_bits(HI) + (lo as f64)
+        if hi == 0 {
+            return lo as f64;
+        }
+
+        // Keep the 128 most significant bits and fold the remaining ones into
+        // a sticky bit, so that the value is only rounded once.
+        let n = hi.leading_zeros();
+        let m = self << n;
+        let top = m.high() | (*m.low() != 0) as u128;
+        let scale = f64::from_bits(HI - ((n as u64) << 52));
+        (top as f64) * scale
     }
 
     /// Performs integer and division and returns the quotient and the remainder as a tuple. This is faster than computing the quotient and remainder separately.
-- 
2.43.0


From 92c5ba30dc3561181b7d99c49a5764c7c7044b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 08/11] fix: formatting accessed whole buffers through pointers
 to their first byte

---
 src/fmt.rs   | 4 ++--
 src/serde.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fmt.rs b/src/fmt.rs
index 730e159..b5d2748 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -36,7 +36,7 @@ pub(crate) trait GenericRadix: Sized {
         // valid UTF-8
         let buf = unsafe {
             str::from_utf8_unchecked(slice::from_raw_parts(
-                &buf[0] as *const _ as *const u8,
+                buf.as_ptr() as *const u8,
                 buf.len(),
             ))
         };
@@ -91,7 +91,7 @@ pub(crate) fn fmt_u256(mut n: U256, is_nonnegative: bool, f: &mut fmt::Formatter
     // 2^256 is about 1*10^78, so 79 gives an extra byte of space
     let mut buf = [MaybeUninit::<u8>::uninit(); 79];
     let mut curr = buf.len() as isize;
-    let buf_ptr = &mut buf[0] as *mut _ as *mut u8;
+    let buf_ptr = buf.as_mut_ptr() as *mut u8;
     let lut_ptr = DEC_DIGITS_LUT.as_ptr();
 
     // SAFETY: Since `d1` and `d2` are always less than or equal to `198`, we
diff --git a/src/serde.rs b/src/serde.rs
index 2df9aff..20200fc 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -675,7 +675,7 @@ impl<const N: usize> FormatBuffer<N> {
         // SAFETY: We only ever write valid UTF-8 strings to the buffer, so the
         // resulting string will always be valid.
         unsafe {
-            let buffer = slice::from_raw_parts(self.buffer[0].as_ptr(), self.offset);
+            let buffer = slice::from_raw_parts(self.buffer.as_ptr() as *const u8, self.offset);
             str::from_utf8_unchecked(buffer)
         }
     }
@@ -712,7 +712,7 @@ impl<const N: usize> Write for FormatBuffer<N> {
         // overlap with `buffer` because we have a mutable reference to `self`
         // and by extension `buffer`).
         unsafe {
-            let buffer = self.buffer[0].as_mut_ptr().add(self.offset);
+            let buffer = (self.buffer.as_mut_ptr() as *mut u8).add(self.offset);
             ptr::copy_nonoverlapping(s.as_ptr(), buffer, s.len());
         }
         self.offset = end;
-- 
2.43.0


From b8aec62bd3de667aed5bd5fdca2d17918f8d0abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 09/11] fix: compressed bytes encoding did not round trip I256
 values

---
 src/serde.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 20200fc..b88327e 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -473,7 +473,9 @@ pub mod compressed_bytes {
         fn leading_bits(&self) -> u32 {
             match self.is_negative() {
                 true => self.leading_ones() - 1,
-                false => self.leading_zeros(),
+                false if *self == 0 => 256,
+                // Leave room for the sign bit.
+                false => self.leading_zeros() - 1,
             }
         }
 
@@ -493,7 +495,7 @@ pub mod compressed_bytes {
     }
 
     macro_rules! endianness {
-        ($name:literal; $parent:ident, |$tb:ident| $to:block, |$fb:ident| $from:block) => {
+        ($name:literal; $parent:ident, $msb:ident, |$tb:ident| $to:block, |$fb:ident| $from:block) => {
             use super::CompressedBytes;
             use crate::serde::bytes::$parent::Bytes;
             use core::{
@@ -538,7 +540,7 @@ pub mod compressed_bytes {
                         return Err(E::invalid_length(v.len(), &self));
                     }
 
-                    let extend = T::extend(v.last().copied().unwrap_or_default());
+                    let extend = T::extend(v.$msb().copied().unwrap_or_default());
                     let mut bytes = [extend; 32];
                     let $fb = v.len();
                     let index = { $from };
@@ -594,7 +596,7 @@ pub mod compressed_bytes {
     /// integer types. This will serialize integer types with as few bytes as
     /// possible.
     pub mod le {
-        endianness!("little"; le, |l| { ..32 - l }, |l| { ..l });
+        endianness!("little"; le, last, |l| { ..32 - l }, |l| { ..l });
     }
 
     /// Module for `#[serde(with = "ethnum::serde::compressed_bytes::be")]`
@@ -602,7 +604,7 @@ pub mod compressed_bytes {
     /// integer types. This will serialize integer types with as few bytes as
     /// possible.
     pub mod be {
-        endianness!("big"; be, |l| { l.. }, |l| { 32 - l.. });
+        endianness!("big"; be, first, |l| { l.. }, |l| { 32 - l.. });
     }
 
     /// Module for `#[serde(with = "ethnum::serde::compressed_bytes::ne")]`
-- 
2.43.0


From d3e9ef6d7ef02304fffcd0fbe1b1a58eda6fc1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 10/11] fix: permissive deserialization wrapped negative
 numbers into U256

---
 src/serde.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index b88327e..b3f7f76 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -197,18 +197,18 @@ pub mod permissive {
 
     #[doc(hidden)]
     pub trait Permissive: Prefixed {
-        fn cast(value: I256) -> Self;
+        fn cast<E: de::Error>(value: I256) -> Result<Self, E>;
     }
 
     impl Permissive for I256 {
-        fn cast(value: I256) -> Self {
-            value
+        fn cast<E: de::Error>(value: I256) -> Result<Self, E> {
+            Ok(value)
         }
     }
 
     impl Permissive for U256 {
-        fn cast(value: I256) -> Self {
-            value.as_u256()
+        fn cast<E: de::Error>(value: I256) -> Result<Self, E> {
+            value.try_into().map_err(de::Error::custom)
         }
     }
 
@@ -237,28 +237,28 @@ pub mod permissive {
         where
             E: de::Error,
         {
-            Ok(T::cast(v.as_i256()))
+            T::cast(v.as_i256())
         }
 
         fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
         where
             E: de::Error,
         {
-            Ok(T::cast(v.as_i256()))
+            T::cast(v.as_i256())
         }
 
         fn visit_i128<E>(self, v: i128) -> Result<Self::Value, E>
         where
             E: de::Error,
         {
-            Ok(T::cast(v.as_i256()))
+            T::cast(v.as_i256())
         }
 
         fn visit_u128<E>(self, v: u128) -> Result<Self::Value, E>
         where
             E: de::Error,
         {
-            Ok(T::cast(v.as_i256()))
+            T::cast(v.as_i256())
         }
 
         fn visit_f32<E>(self, v: f32) -> Result<Self::Value, E>
@@ -299,7 +299,7 @@ pub mod permissive {
                 ));
             }
 
-            Ok(T::cast(i.as_i256()))
+            T::cast(i.as_i256())
         }
 
         fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>
-- 
2.43.0


From da3e44b0d749bb350775b6679d3ea6e0857f4d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 11/11] fix: TryFromIntError was created from an assumed
 private layout

---
 src/error.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index be09e79..e5b0a41 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -12,8 +12,11 @@ pub const fn pie(kind: IntErrorKind) -> ParseIntError {
 }
 
 /// Returns a `TryFromIntError`.
-pub const fn tfie() -> TryFromIntError {
-    unsafe { mem::transmute(()) }
+pub fn tfie() -> TryFromIntError {
+    match u8::try_from(-1_i8) {
+        Ok(_) => unreachable!(),
+        Err(err) => err,
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0

