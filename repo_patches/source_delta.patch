From 0d89ccd180515667491d0cc7c5717d22838c2f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 01/19] verif: expose internals to verification harnesses under
 cfg(spf_verif)

---
 sunscreen_tfhe/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sunscreen_tfhe/src/lib.rs b/sunscreen_tfhe/src/lib.rs
index 4b6b40a..09e3909 100644
--- a/sunscreen_tfhe/src/lib.rs
+++ b/sunscreen_tfhe/src/lib.rs
@@ -37,3 +37,13 @@ pub mod high_level;
 /// Container [`Error`] and [`Result`] types for this crate.
 mod error;
 pub use error::*;
+
+/// Crate internals made reachable for external verification harnesses (`--cfg spf_verif`).
+#[allow(unexpected_cfgs)]
+#[cfg(spf_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::iteration::*;
+    pub use crate::scratch::*;
+    pub use crate::simd::*;
+}
-- 
2.43.0


From 0ed8585b45fd99f5c578ad117f7742908aa8e162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:44 +0000
Subject: [PATCH 02/19] fix: decode torus messages of 32 or more bits with a
 64-bit mask

---
 sunscreen_tfhe/src/math/torus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/math/torus.rs b/sunscreen_tfhe/src/math/torus.rs
index e03ad0e..19ce18b 100644
--- a/sunscreen_tfhe/src/math/torus.rs
+++ b/sunscreen_tfhe/src/math/torus.rs
@@ -294,7 +294,7 @@ impl<S: TorusOps> Torus<S> {
         assert!(plain_bits.0 < S::BITS);
 
         let round_bit = self.0.wrapping_shr(S::BITS - plain_bits.0 - 1) & S::from(0x1);
-        let mask = S::from((0x1 << plain_bits.0) - 1);
+        let mask = S::from_u64((0x1u64 << plain_bits.0) - 1);
 
         (self.0.wrapping_shr(S::BITS - plain_bits.0) + round_bit) & mask
     }
-- 
2.43.0


From 7f9c08d893336526c1a372d9e4eb6f2feb741a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:44 +0000
Subject: [PATCH 03/19] fix: compare the leading coefficients in polynomial
 equality

---
 sunscreen_math/src/poly/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_math/src/poly/mod.rs b/sunscreen_math/src/poly/mod.rs
index 57fda40..aaecc73 100644
--- a/sunscreen_math/src/poly/mod.rs
+++ b/sunscreen_math/src/poly/mod.rs
@@ -43,7 +43,7 @@ where
             return false;
         }
 
-        for i in 0..lhs_degree {
+        for i in 0..=lhs_degree {
             if self.coeffs[i] != other.coeffs[i] {
                 return false;
             }
-- 
2.43.0


From 2566cdfad2044216e0f88e4300041c85948037ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:44 +0000
Subject: [PATCH 04/19] fix: reject divisors whose leading coefficient is not
 one, as documented

---
 sunscreen_math/src/poly/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sunscreen_math/src/poly/mod.rs b/sunscreen_math/src/poly/mod.rs
index aaecc73..9e85618 100644
--- a/sunscreen_math/src/poly/mod.rs
+++ b/sunscreen_math/src/poly/mod.rs
@@ -117,15 +117,20 @@ where
     pub fn vartime_div_rem_restricted_rhs(&self, rhs: &Self) -> (Self, Self) {
         let mut rem = self.clone();
 
+        // Will panic if rhs is `Self::zero()`
+        let rhs_degree = rhs.vartime_degree();
+
+        assert!(
+            rhs.coeffs[rhs_degree] == R::one(),
+            "The divisor's leading coefficient must be one."
+        );
+
         if self.vartime_is_zero() {
             return (Self::zero(), Self::zero());
         }
 
         let lhs_degree = self.vartime_degree();
 
-        // Will panic if rhs is `Self::zero()`
-        let rhs_degree = rhs.vartime_degree();
-
         // If the denominator is higher degree than the numerator, then we're done.
         if lhs_degree < rhs_degree {
             return (Self::zero(), rem);
-- 
2.43.0


From e2661e38c683ba44ab9bf3eaee227bd2a9f31fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:44 +0000
Subject: [PATCH 05/19] fix: subtract in the non-AVX2 fallback of vector_sub

---
 sunscreen_tfhe/src/math/simd/x86_64/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
index bf04674..d40d65c 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
@@ -150,7 +150,7 @@ impl VectorOps for u64 {
         if avx2_available() {
             unsafe { avx2::vector_sub_u64(c, a, b) };
         } else {
-            scalar::vector_add(c, a, b);
+            scalar::vector_sub(c, a, b);
         }
     }
 
-- 
2.43.0


From 981a41bb03159c72c510d60281da387c2c8a758a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:03 +0000
Subject: [PATCH 06/19] fix: a refused AtomicRefCell borrow no longer releases
 the mutable borrow

---
 parasol_concurrency/src/lib.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/parasol_concurrency/src/lib.rs b/parasol_concurrency/src/lib.rs
index b3ba051..ea95592 100644
--- a/parasol_concurrency/src/lib.rs
+++ b/parasol_concurrency/src/lib.rs
@@ -73,14 +73,20 @@ impl<T> AtomicRefCell<T> {
     /// # Panics
     /// If the underlying value is already mutably borrowed.
     pub fn borrow(&self) -> Ref<T> {
-        let old = self.state.fetch_add(1, Ordering::Acquire);
-
-        if old == 0 {
-            panic!("AtomicRefCell already borrowed as mut");
-        }
+        // A refused borrow must leave the count untouched: a transient increment would make a
+        // mutably borrowed cell look available to `borrow_mut`.
+        if let Err(old) = self
+            .state
+            .fetch_update(Ordering::Acquire, Ordering::Relaxed, |count| match count {
+                0 => None,
+                x if x >= usize::MAX / 2 => None,
+                x => Some(x + 1),
+            })
+        {
+            if old == 0 {
+                panic!("AtomicRefCell already borrowed as mut");
+            }
 
-        if old >= usize::MAX / 2 {
-            self.state.fetch_sub(1, Ordering::Acquire);
             panic!("AtomicRefCell says I think you have enough references, buddy.");
         }
 
-- 
2.43.0


From c9f19972d8bf3d3cb951249a96be03a9802f15d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:18 +0000
Subject: [PATCH 07/19] fix: do not print plaintext coefficients (or require 16
 of them) in RLEV encryption

---
 sunscreen_tfhe/src/ops/encryption/glev_encryption.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs b/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
index bd0e79f..bd91437 100644
--- a/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
@@ -155,8 +155,6 @@ pub fn encrypt_rlev_ciphertext<S>(
     for (j, glwe) in rlev_ciphertext.glwe_ciphertexts_mut(params).enumerate() {
         scale_msg_by_gadget_factor(scaled_msg, msg, radix.radix_log.0, j);
 
-        dbg!(&scaled_msg.coeffs()[0..16]);
-
         rlwe_encrypt_public(glwe, scaled_msg, rlwe_public_key, params);
     }
 }
-- 
2.43.0


From cce02f00a7c7d95893db20279b41b828997cd435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:19 +0000
Subject: [PATCH 08/19] fix: round integer division to the nearest quotient for
 every divisor

---
 sunscreen_tfhe/src/math/basic.rs | 35 +++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/sunscreen_tfhe/src/math/basic.rs b/sunscreen_tfhe/src/math/basic.rs
index 19cc422..0e64659 100644
--- a/sunscreen_tfhe/src/math/basic.rs
+++ b/sunscreen_tfhe/src/math/basic.rs
@@ -16,7 +16,28 @@ macro_rules! div_rounded {
                 // inputs in half before overflow.
                 let q = self / divisor;
                 let r = self % divisor;
-                if r >= divisor / 2 { q + 1 } else { q }
+                if r >= divisor - r { q + 1 } else { q }
+            }
+        }
+    };
+}
+
+macro_rules! div_rounded_signed {
+    ($t:ty) => {
+        impl RoundedDiv for $t {
+            #[inline(always)]
+            fn div_rounded(&self, divisor: $t) -> $t {
+                let q = self / divisor;
+                let r = (self % divisor).unsigned_abs();
+
+                // Division truncates, so rounding moves the quotient away from zero.
+                if r < divisor.unsigned_abs() - r {
+                    q
+                } else if (*self < 0) == (divisor < 0) {
+                    q + 1
+                } else {
+                    q - 1
+                }
             }
         }
     };
@@ -28,12 +49,12 @@ div_rounded!(u32);
 div_rounded!(u64);
 div_rounded!(u128);
 div_rounded!(usize);
-div_rounded!(i8);
-div_rounded!(i16);
-div_rounded!(i32);
-div_rounded!(i64);
-div_rounded!(i128);
-div_rounded!(isize);
+div_rounded_signed!(i8);
+div_rounded_signed!(i16);
+div_rounded_signed!(i32);
+div_rounded_signed!(i64);
+div_rounded_signed!(i128);
+div_rounded_signed!(isize);
 
 #[cfg(test)]
 mod tests {
-- 
2.43.0


From e81cba8fe62a11e20b853e9ffb64233cfa6d5515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 09/19] fix: encrypting into a used GLWE ciphertext no longer
 adds to its old body

---
 sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs b/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
index b53e431..0198cf7 100644
--- a/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
@@ -30,6 +30,7 @@ pub fn encrypt_glwe_ciphertext_secret_generic<S>(
     let mut tmp = Polynomial::zero(params.dim.polynomial_degree.0);
 
     let (a, b) = c.a_b_mut(params);
+    b.clear();
 
     // tmp = A_i * S_i
     for (a_i, s_i) in a.zip(sk.s(params)) {
-- 
2.43.0


From 99e06f4e24ce22c8591b20abb2b1ee18ccc738d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:52 +0000
Subject: [PATCH 10/19] fix: count only the remaining items in the entity
 iterators' exact length

---
 sunscreen_tfhe/src/dst.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/dst.rs b/sunscreen_tfhe/src/dst.rs
index ae6ee10..a050032 100644
--- a/sunscreen_tfhe/src/dst.rs
+++ b/sunscreen_tfhe/src/dst.rs
@@ -179,7 +179,7 @@ macro_rules! dst_iter {
             impl<'a, T> std::iter::ExactSizeIterator for $t<'a, T> where T: Clone $(+ $t_bounds)* {
                 #[inline(always)]
                 fn len(&self) -> usize {
-                    self.data.len() / self.stride
+                    (self.back_idx + self.stride as i64 - self.front_idx as i64) as usize / self.stride
                 }
             }
 
-- 
2.43.0


From b2fcf97dc690609f2be48b8a0456ca2cc85d6633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:07 +0000
Subject: [PATCH 11/19] fix: private functional keyswitch no longer accumulates
 into the old contents of its output

---
 .../src/ops/keyswitch/private_functional_keyswitch.rs           | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs b/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
index 5a09a6d..cdb6475 100644
--- a/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
+++ b/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
@@ -122,6 +122,8 @@ pub fn private_functional_keyswitch<S: TorusOps>(
 
     assert_eq!(lwe_count.0, inputs.len());
 
+    output.clear();
+
     let mut ksk_glevs = pfksk.glevs(to_glwe, radix);
 
     for input in inputs.iter() {
-- 
2.43.0


From ce989cbcbd870fc4c4a6ec94eff74b110377eccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:26 +0000
Subject: [PATCH 12/19] fix: public functional keyswitch hands its map a zeroed
 polynomial, as documented

---
 sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs b/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
index 4c30992..9cac4e0 100644
--- a/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
+++ b/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
@@ -126,6 +126,7 @@ pub fn public_functional_keyswitch<S, F>(
 
         row.fft(glev_fft, to_glwe);
 
+        poly.clear();
         f(poly, lwe_vals);
 
         let decomp = PolynomialRadixIterator::new(poly, decomp_scratch, radix);
@@ -138,6 +139,7 @@ pub fn public_functional_keyswitch<S, F>(
         lwe_vals[j] = *b;
     }
 
+    poly.clear();
     f(poly, lwe_vals);
 
     output_fft.ifft(output, to_glwe);
-- 
2.43.0


From 7146b1456b93a66b3f452b6688cc79c20ef93063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:22 +0000
Subject: [PATCH 13/19] fix: frequency-domain scheme switch no longer
 accumulates into the old contents of its output

---
 sunscreen_tfhe/src/ops/fft_ops.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sunscreen_tfhe/src/ops/fft_ops.rs b/sunscreen_tfhe/src/ops/fft_ops.rs
index eb47ee8..7f05c70 100644
--- a/sunscreen_tfhe/src/ops/fft_ops.rs
+++ b/sunscreen_tfhe/src/ops/fft_ops.rs
@@ -264,6 +264,10 @@ fn scheme_switch_glwe_operation<S>(
 
     let a_i = x_i.a(params);
 
+    // The component only fills one polynomial and the rest accumulates, so the
+    // old contents of the output have to go first.
+    y_i_j.clear();
+
     // Generate encrypted secret key component for this specific GLWE
     update_encrypted_secret_key_component_fft(y_i_j, x_i, j, params);
 
-- 
2.43.0


From 526e66feb6e96b9f44132cce047213947b932f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:22 +0000
Subject: [PATCH 14/19] fix: shifting and rounding by zero places keeps the
 value

---
 sunscreen_tfhe/src/math/simd/scalar.rs      | 6 ++++++
 sunscreen_tfhe/src/math/simd/x86_64/avx2.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/sunscreen_tfhe/src/math/simd/scalar.rs b/sunscreen_tfhe/src/math/simd/scalar.rs
index aa7d863..dc5378f 100644
--- a/sunscreen_tfhe/src/math/simd/scalar.rs
+++ b/sunscreen_tfhe/src/math/simd/scalar.rs
@@ -135,6 +135,12 @@ pub fn vector_shr_round<S>(c: &mut [S], a: &[S], n: u32)
 where
     S: Clone + Copy + Shr<u32, Output = S> + BitAnd<S, Output = S> + One + WrappingAdd<Output = S>,
 {
+    if n == 0 {
+        // Nothing is dropped, so there is nothing to round.
+        c.iter_mut().zip(a.iter()).for_each(|(c, a)| *c = *a);
+        return;
+    }
+
     for (c, a) in c.iter_mut().zip(a.iter()) {
         let round_bit = (*a >> (n - 1)) & S::one();
 
diff --git a/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs b/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
index f4cfcd0..421b811 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
@@ -127,6 +127,12 @@ pub fn vector_mod_pow2_q_f64_u64(c: &mut [u64], a: &[f64], log2_q: u64) {
 #[target_feature(enable = "avx2,fma")]
 #[inline]
 pub fn vector_shr_round(c: &mut [u64], a: &[u64], n: u32) {
+    if n == 0 {
+        // Nothing is dropped, so there is nothing to round.
+        c.iter_mut().zip(a.iter()).for_each(|(c, a)| *c = *a);
+        return;
+    }
+
     for (c, a) in c.iter_mut().zip(a.iter()) {
         let round_bit = (*a >> (n - 1)) & 0x1;
 
-- 
2.43.0


From 1bb02f36b3e62c5b0103a43ddd67204b1af634a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:27 +0000
Subject: [PATCH 15/19] fix: AVX-512 scalar multiply-add only for the lengths
 and alignments it can handle

---
 sunscreen_tfhe/src/math/simd/x86_64/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
index d40d65c..882cc41 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
@@ -174,7 +174,13 @@ impl VectorOps for u64 {
 
     #[inline(always)]
     fn vector_scalar_mad(c: &mut [Self], a: &[Self], s: Self) {
-        if avx_512_available() {
+        // The AVX-512 code handles 16 words at a time, from aligned buffers only.
+        if avx_512_available()
+            && c.len() == a.len()
+            && c.len() % 16 == 0
+            && c.as_ptr().cast::<__m512d>().is_aligned()
+            && a.as_ptr().cast::<__m512d>().is_aligned()
+        {
             avx512::vector_scalar_mad(c, a, s);
         } else {
             scalar::vector_scalar_mad(c, a, s);
-- 
2.43.0


From c2293fa58ec47d7da67587f176bbbd2163c45781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:23 +0000
Subject: [PATCH 16/19] fix: converting -q/2 from floating point no longer
 saturates

---
 sunscreen_tfhe/src/math/simd/scalar.rs      | 2 +-
 sunscreen_tfhe/src/math/simd/x86_64/avx2.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunscreen_tfhe/src/math/simd/scalar.rs b/sunscreen_tfhe/src/math/simd/scalar.rs
index dc5378f..23c8026 100644
--- a/sunscreen_tfhe/src/math/simd/scalar.rs
+++ b/sunscreen_tfhe/src/math/simd/scalar.rs
@@ -110,7 +110,7 @@ pub fn vector_mod_pow2_q_f64<T: FromF64>(c: &mut [T], a: &[f64], log2_q: u64) {
         // point.
         if ifft >= q_div_2 {
             ifft -= q;
-        } else if ifft <= -q_div_2 {
+        } else if ifft < -q_div_2 {
             ifft += q;
         }
 
diff --git a/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs b/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
index 421b811..efb468c 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
@@ -116,7 +116,7 @@ pub fn vector_mod_pow2_q_f64_u64(c: &mut [u64], a: &[f64], log2_q: u64) {
         // point.
         if ifft >= q_div_2 {
             ifft -= q;
-        } else if ifft <= -q_div_2 {
+        } else if ifft < -q_div_2 {
             ifft += q;
         }
 
-- 
2.43.0


From 8a0f5af3e17eba927faa4aa43484bdb0f8317e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:23 +0000
Subject: [PATCH 17/19] fix: entity iterators report their exact size, as
 ExactSizeIterator requires

---
 sunscreen_tfhe/src/dst.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sunscreen_tfhe/src/dst.rs b/sunscreen_tfhe/src/dst.rs
index a050032..e3a6d07 100644
--- a/sunscreen_tfhe/src/dst.rs
+++ b/sunscreen_tfhe/src/dst.rs
@@ -186,6 +186,12 @@ macro_rules! dst_iter {
             impl<'a, T> std::iter::Iterator for $t<'a, T> where T: Clone $(+ $t_bounds)* {
                 type Item = &'a $item_ref<T>;
 
+                #[inline(always)]
+                fn size_hint(&self) -> (usize, Option<usize>) {
+                    let len = self.len();
+                    (len, Some(len))
+                }
+
                 fn next(&mut self) -> Option<Self::Item> {
                     if self.front_idx >= self.data.len() {
                         return None;
@@ -347,6 +353,12 @@ macro_rules! dst_iter {
             impl<'a, T> std::iter::Iterator for $t_mut<'a, T> where T: Clone $(+ $t_bounds)* {
                 type Item = &'a mut $item_ref<T>;
 
+                #[inline(always)]
+                fn size_hint(&self) -> (usize, Option<usize>) {
+                    let len = self.len();
+                    (len, Some(len))
+                }
+
                 fn next(&mut self) -> Option<Self::Item> {
                     if self.front > self.back {
                         return None;
-- 
2.43.0


From 3a5df270de53f50d2cf015c355befd531ec3a863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:51 +0000
Subject: [PATCH 18/19] fix: sample extraction refuses an output longer than
 the extracted ciphertext

---
 sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs b/sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs
index e1dc3f3..78539e0 100644
--- a/sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs
+++ b/sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs
@@ -36,6 +36,7 @@ pub fn sample_extract<S>(
 ) where
     S: TorusOps,
 {
+    output.assert_is_valid(params.as_lwe_def().dim);
     glwe.assert_is_valid(params.dim);
     assert!(h < params.dim.polynomial_degree.0);
 
-- 
2.43.0


From a27a6517ddf34b22a7384d06d1dc1766fe5b42bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:26 +0000
Subject: [PATCH 19/19] fix: number of combinations with large intermediate
 products

---
 sunscreen_math/src/combination.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sunscreen_math/src/combination.rs b/sunscreen_math/src/combination.rs
index 683fe5f..7a33396 100644
--- a/sunscreen_math/src/combination.rs
+++ b/sunscreen_math/src/combination.rs
@@ -38,9 +38,10 @@ fn number_combinations(n: usize, mut k: usize) -> usize {
         k = n - k;
     }
 
-    let mut result = 1;
+    // The product can exceed a usize even if the number of combinations doesn't.
+    let mut result = 1usize;
     for i in 1..=k {
-        result = result * (n - k + i) / i;
+        result = (result as u128 * (n - k + i) as u128 / i as u128) as usize;
     }
 
     result
-- 
2.43.0

