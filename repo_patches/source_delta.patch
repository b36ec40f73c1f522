From a5dc25da75905f9458675ce1b36f6b4a8364609b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 01/12] fix: remove unsatisfiable bound that made
 BaseSpaceFromOrtho::to_ortho uncallable

---
 src/space/traits.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/space/traits.rs b/src/space/traits.rs
index 73808bf..16d0467 100644
--- a/src/space/traits.rs
+++ b/src/space/traits.rs
@@ -143,7 +143,6 @@ where
     fn to_ortho<S>(&self, input: &ArrayBase<S, Dim<[usize; N]>>) -> Array<T, Dim<[usize; N]>>
     where
         S: Data<Elem = T>,
-        [usize; N]: Dimension,
     {
         let mut output = self.ndarray_from_shape::<T>(self.shape_spectral_ortho());
         self.to_ortho_inplace(input, &mut output);
-- 
2.43.0


From f2fc8eed8516757187733f8240ac29a3c6c22e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:59 +0000
Subject: [PATCH 02/12] fix: biharmonic stencil product reads beyond the
 coefficient vector

Rows n-3, n-2 and n-1 of HelperStencil3Diag2::dot_inplace used the second
sub-diagonal with a wrong index, or beyond its end (unchecked access).
---
 src/chebyshev/stencils/helpers.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/chebyshev/stencils/helpers.rs b/src/chebyshev/stencils/helpers.rs
index 09cc6e0..60b8462 100644
--- a/src/chebyshev/stencils/helpers.rs
+++ b/src/chebyshev/stencils/helpers.rs
@@ -398,12 +398,10 @@ impl<A: FloatNum> HelperStencil3Diag2<A> {
             }
             *u.get_unchecked_mut(n - 4) = *v.get_unchecked(n - 6) * *self.low2.get_unchecked(n - 6)
                 + *v.get_unchecked(n - 8) * *self.low4.get_unchecked(n - 8);
-            *u.get_unchecked_mut(n - 3) = *v.get_unchecked(n - 5) * *self.low2.get_unchecked(n - 6)
+            *u.get_unchecked_mut(n - 3) = *v.get_unchecked(n - 5) * *self.low2.get_unchecked(n - 5)
                 + *v.get_unchecked(n - 7) * *self.low4.get_unchecked(n - 7);
-            *u.get_unchecked_mut(n - 2) = *v.get_unchecked(n - 4) * *self.low2.get_unchecked(n - 4)
-                + *v.get_unchecked(n - 6) * *self.low4.get_unchecked(n - 6);
-            *u.get_unchecked_mut(n - 1) = *v.get_unchecked(n - 3) * *self.low2.get_unchecked(n - 3)
-                + *v.get_unchecked(n - 5) * *self.low4.get_unchecked(n - 5);
+            *u.get_unchecked_mut(n - 2) = *v.get_unchecked(n - 6) * *self.low4.get_unchecked(n - 6);
+            *u.get_unchecked_mut(n - 1) = *v.get_unchecked(n - 5) * *self.low4.get_unchecked(n - 5);
         }
     }
 
-- 
2.43.0


From 98c2276119457b060611425a34fb6f45d1b7907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:59 +0000
Subject: [PATCH 03/12] fix: check both extents in the stencil products

dot_inplace and solve_inplace of the stencils access their arguments
without bounds checks, but only one of the two lengths was checked.
---
 src/chebyshev/stencils/helpers.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/chebyshev/stencils/helpers.rs b/src/chebyshev/stencils/helpers.rs
index 60b8462..da13273 100644
--- a/src/chebyshev/stencils/helpers.rs
+++ b/src/chebyshev/stencils/helpers.rs
@@ -135,6 +135,7 @@ impl<A: FloatNum> HelperStencil2Diag<A> {
             + Copy,
     {
         assert!(v.len() == self.diag.len());
+        assert!(u.len() == self.diag.len() + 2);
         let n = u.len();
         unsafe {
             *u.get_unchecked_mut(0) = *v.get_unchecked(0) * *self.diag.get_unchecked(0);
@@ -166,7 +167,8 @@ impl<A: FloatNum> HelperStencil2Diag<A> {
             + Copy,
     {
         use crate::chebyshev::linalg::tdma;
-        // assert!(Self::get_m(u.len()) == u.len());
+        assert!(v.len() == self.diag.len());
+        assert!(u.len() == self.diag.len() + 2);
         // Multiply right hand side
         unsafe {
             for i in 0..v.len() {
@@ -229,7 +231,7 @@ impl<A: FloatNum> HelperStencil3Diag<A> {
             + Copy,
     {
         assert!(v.len() == self.diag.len());
-        // assert!(Self::get_m(u.len()) == u.len());
+        assert!(u.len() == self.diag.len() + 2);
         let n = u.len();
         unsafe {
             *u.get_unchecked_mut(0) = *v.get_unchecked(0) * *self.diag.get_unchecked(0);
@@ -264,7 +266,8 @@ impl<A: FloatNum> HelperStencil3Diag<A> {
             + Copy,
     {
         use crate::chebyshev::linalg::pdma;
-        // assert!(Self::get_m(u.len()) == u.len());
+        assert!(v.len() == self.diag.len());
+        assert!(u.len() == self.diag.len() + 2);
         // Multiply right hand side
         unsafe {
             for i in 0..v.len() {
@@ -383,6 +386,7 @@ impl<A: FloatNum> HelperStencil3Diag2<A> {
             + Copy,
     {
         assert!(v.len() == self.diag.len());
+        assert!(u.len() == self.diag.len() + 4);
         let n = u.len();
         unsafe {
             *u.get_unchecked_mut(0) = *v.get_unchecked(0) * *self.diag.get_unchecked(0);
@@ -423,7 +427,8 @@ impl<A: FloatNum> HelperStencil3Diag2<A> {
             + Copy,
     {
         use crate::chebyshev::linalg::pdma2;
-        // assert!(Self::get_m(u.len()) == u.len());
+        assert!(v.len() == self.diag.len());
+        assert!(u.len() == self.diag.len() + 4);
         // Multiply right hand side
         unsafe {
             for i in 0..v.len() {
-- 
2.43.0


From 30107bfb8c22c0368bcecd2e6263c2eef67ec786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:34 +0000
Subject: [PATCH 04/12] fix: differentiate the last axis of Space3 with its own
 base

---
 src/space/space3.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/space/space3.rs b/src/space/space3.rs
index eb9fe97..e814b48 100644
--- a/src/space/space3.rs
+++ b/src/space/space3.rs
@@ -284,7 +284,7 @@ macro_rules! impl_space3 {
             {
                 let buffer1 = self.base0.gradient(input, deriv[0], 0);
                 let buffer2 = self.base1.gradient(&buffer1, deriv[1], 1);
-                let mut output = self.base1.gradient(&buffer2, deriv[2], 2);
+                let mut output = self.base2.gradient(&buffer2, deriv[2], 2);
                 if let Some(s) = scale {
                     let sc: T = (s[0].powi(deriv[0] as i32)
                         * s[1].powi(deriv[1] as i32)
@@ -314,7 +314,7 @@ macro_rules! impl_space3 {
             {
                 let buffer1 = self.base0.gradient_par(input, deriv[0], 0);
                 let buffer2 = self.base1.gradient_par(&buffer1, deriv[1], 1);
-                let mut output = self.base1.gradient_par(&buffer2, deriv[2], 2);
+                let mut output = self.base2.gradient_par(&buffer2, deriv[2], 2);
                 if let Some(s) = scale {
                     let sc: T = (s[0].powi(deriv[0] as i32)
                         * s[1].powi(deriv[1] as i32)
-- 
2.43.0


From 597e4c29c5ae3b35544c2bb742788f4d6ab3e52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:34 +0000
Subject: [PATCH 05/12] fix: use the negative wavenumbers in
 FourierC2c::gradient_slice

---
 src/fourier/c2c.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fourier/c2c.rs b/src/fourier/c2c.rs
index f4d50e2..b36f57c 100644
--- a/src/fourier/c2c.rs
+++ b/src/fourier/c2c.rs
@@ -238,7 +238,7 @@ where
                 *y = *y * ki;
             }
             for (k, y) in outdata.iter_mut().rev().take(n / 2).enumerate() {
-                let ki: Complex<A> = Complex::<A>::new(A::zero(), A::from_usize(k).unwrap());
+                let ki: Complex<A> = Complex::<A>::new(A::zero(), -A::from_usize(k + 1).unwrap());
                 *y = *y * ki;
             }
         }
-- 
2.43.0


From bff6f024ce5ba9c78ca0414694d42a195f2546a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:07 +0000
Subject: [PATCH 06/12] fix: out-of-bounds read in Chebyshev::gradient_slice
 for two modes

The input length is checked too; it was silently truncated.
---
 src/chebyshev/ortho.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/chebyshev/ortho.rs b/src/chebyshev/ortho.rs
index c6c3648..e9e2b6e 100644
--- a/src/chebyshev/ortho.rs
+++ b/src/chebyshev/ortho.rs
@@ -396,6 +396,7 @@ where
     /// ```
     fn gradient_slice(&self, indata: &[T], outdata: &mut [T], n_times: usize) {
         assert!(outdata.len() == self.m);
+        assert!(indata.len() == outdata.len());
         // Copy over
         for (y, x) in outdata.iter_mut().zip(indata.iter()) {
             *y = *x;
@@ -416,8 +417,10 @@ where
                     *outdata.get_unchecked_mut(i) =
                         *outdata.get_unchecked(i) + *outdata.get_unchecked(i + 2);
                 }
-                *outdata.get_unchecked_mut(0) =
-                    *outdata.get_unchecked(0) + *outdata.get_unchecked(2) / two;
+                if self.m > 2 {
+                    *outdata.get_unchecked_mut(0) =
+                        *outdata.get_unchecked(0) + *outdata.get_unchecked(2) / two;
+                }
             }
         }
     }
-- 
2.43.0


From 374704b4e444cbb48d90c142273cc1419b9a69fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:07 +0000
Subject: [PATCH 07/12] fix: refuse wrong lengths in
 to_ortho_slice/from_ortho_slice of orthogonal bases

---
 src/chebyshev/ortho.rs | 4 ++++
 src/fourier/c2c.rs     | 4 ++++
 src/fourier/r2c.rs     | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/chebyshev/ortho.rs b/src/chebyshev/ortho.rs
index e9e2b6e..aa2cb5f 100644
--- a/src/chebyshev/ortho.rs
+++ b/src/chebyshev/ortho.rs
@@ -357,6 +357,8 @@ where
 {
     /// Composite space coefficients -> Orthogonal space coefficients
     fn to_ortho_slice(&self, indata: &[T], outdata: &mut [T]) {
+        assert!(indata.len() == self.len_spec());
+        assert!(indata.len() == outdata.len());
         for (y, x) in outdata.iter_mut().zip(indata.iter()) {
             *y = *x;
         }
@@ -364,6 +366,8 @@ where
 
     /// Orthogonal space coefficients -> Composite space coefficients
     fn from_ortho_slice(&self, indata: &[T], outdata: &mut [T]) {
+        assert!(indata.len() == self.len_spec());
+        assert!(indata.len() == outdata.len());
         for (y, x) in outdata.iter_mut().zip(indata.iter()) {
             *y = *x;
         }
diff --git a/src/fourier/c2c.rs b/src/fourier/c2c.rs
index b36f57c..be641f4 100644
--- a/src/fourier/c2c.rs
+++ b/src/fourier/c2c.rs
@@ -252,6 +252,8 @@ where
 {
     /// Composite space coefficients -> Orthogonal space coefficients
     fn to_ortho_slice(&self, indata: &[T], outdata: &mut [T]) {
+        assert!(indata.len() == self.len_spec());
+        assert!(indata.len() == outdata.len());
         for (y, x) in outdata.iter_mut().zip(indata.iter()) {
             *y = *x;
         }
@@ -259,6 +261,8 @@ where
 
     /// Orthogonal space coefficients -> Composite space coefficients
     fn from_ortho_slice(&self, indata: &[T], outdata: &mut [T]) {
+        assert!(indata.len() == self.len_spec());
+        assert!(indata.len() == outdata.len());
         for (y, x) in outdata.iter_mut().zip(indata.iter()) {
             *y = *x;
         }
diff --git a/src/fourier/r2c.rs b/src/fourier/r2c.rs
index 7687856..de52fb4 100644
--- a/src/fourier/r2c.rs
+++ b/src/fourier/r2c.rs
@@ -239,6 +239,8 @@ where
 {
     /// Composite space coefficients -> Orthogonal space coefficients
     fn to_ortho_slice(&self, indata: &[T], outdata: &mut [T]) {
+        assert!(indata.len() == self.len_spec());
+        assert!(indata.len() == outdata.len());
         for (y, x) in outdata.iter_mut().zip(indata.iter()) {
             *y = *x;
         }
@@ -246,6 +248,8 @@ where
 
     /// Orthogonal space coefficients -> Composite space coefficients
     fn from_ortho_slice(&self, indata: &[T], outdata: &mut [T]) {
+        assert!(indata.len() == self.len_spec());
+        assert!(indata.len() == outdata.len());
         for (y, x) in outdata.iter_mut().zip(indata.iter()) {
             *y = *x;
         }
-- 
2.43.0


From 6aa863c43ea7b34ccb40e041576280c711199d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:07 +0000
Subject: [PATCH 08/12] fix: complex comparison helpers must compare both
 components

---
 src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index a31bd16..13c93bf 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -30,7 +30,7 @@ where
     let tol = A::from_f64(1e-3).unwrap();
     for (a, b) in vec_a.iter().zip(vec_b.iter()) {
         assert!(
-            ((a.re - b.re).abs() < tol || (a.im - b.im).abs() < tol),
+            ((a.re - b.re).abs() < tol && (a.im - b.im).abs() < tol),
             "Large difference of values, got {} expected {}.",
             b,
             a
@@ -76,7 +76,7 @@ pub fn approx_eq_complex_ndarray<A, S, D>(
     let tol = A::from_f64(1e-3).unwrap();
     for (a, b) in expected.iter().zip(result.iter()) {
         assert!(
-            ((a.re - b.re).abs() < tol || (a.im - b.im).abs() < tol),
+            ((a.re - b.re).abs() < tol && (a.im - b.im).abs() < tol),
             "Large difference of values, got {} expected {}.",
             b,
             a
-- 
2.43.0


From 1f730fda54099aac77225b0f5f3e8ed75582f8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:07 +0000
Subject: [PATCH 09/12] fix: comparison helpers must not ignore surplus
 elements

---
 src/utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils.rs b/src/utils.rs
index 13c93bf..c140db6 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -8,6 +8,7 @@ where
     A: crate::types::FloatNum + std::fmt::Display,
 {
     let tol = A::from_f64(1e-3).unwrap();
+    assert_eq!(vec_a.len(), vec_b.len(), "Different number of values.");
     for (a, b) in vec_a.iter().zip(vec_b.iter()) {
         assert!(
             ((*a - *b).abs() < tol),
@@ -28,6 +29,7 @@ where
     A: crate::types::FloatNum + std::fmt::Display,
 {
     let tol = A::from_f64(1e-3).unwrap();
+    assert_eq!(vec_a.len(), vec_b.len(), "Different number of values.");
     for (a, b) in vec_a.iter().zip(vec_b.iter()) {
         assert!(
             ((a.re - b.re).abs() < tol && (a.im - b.im).abs() < tol),
@@ -51,6 +53,7 @@ pub fn approx_eq_ndarray<A, S, D>(
     D: ndarray::Dimension,
 {
     let tol = A::from_f64(1e-3).unwrap();
+    assert_eq!(result.shape(), expected.shape(), "Different shapes.");
     for (a, b) in expected.iter().zip(result.iter()) {
         assert!(
             ((*a - *b).abs() < tol),
@@ -74,6 +77,7 @@ pub fn approx_eq_complex_ndarray<A, S, D>(
     D: ndarray::Dimension,
 {
     let tol = A::from_f64(1e-3).unwrap();
+    assert_eq!(result.shape(), expected.shape(), "Different shapes.");
     for (a, b) in expected.iter().zip(result.iter()) {
         assert!(
             ((a.re - b.re).abs() < tol && (a.im - b.im).abs() < tol),
-- 
2.43.0


From 7c011dbc8effa22c774aa7b7d6ac063abde7b8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:07 +0000
Subject: [PATCH 10/12] fix: integer under-/overflow in the third and fourth
 Chebyshev differentiation matrix

---
 src/chebyshev/ortho.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/chebyshev/ortho.rs b/src/chebyshev/ortho.rs
index aa2cb5f..ffe434a 100644
--- a/src/chebyshev/ortho.rs
+++ b/src/chebyshev/ortho.rs
@@ -104,27 +104,25 @@ impl<A: FloatNum> Chebyshev<A> {
                 }
             }
         } else if deriv == 3 {
+            // Floats, since integers under- or overflow
             for p in 0..n {
-                let p2 = p * p;
+                let p2 = (p * p) as f64;
                 for q in p + 3..n {
-                    let q2 = q * q;
+                    let q2 = (q * q) as f64;
                     if (p + q) % 2 != 0 {
-                        dmat[[p, q]] =
-                            (q * (q2 * (q2 - 2) - 2 * q2 * p2 + p2 * p2 - 2 * p2 + 1)) as f64 / 4.;
+                        let r = q2 - p2;
+                        dmat[[p, q]] = q as f64 * (r * r - 2. * (q2 + p2) + 1.) / 4.;
                     }
                 }
             }
         } else if deriv == 4 {
             for p in 0..n {
-                let (p2, p4) = (p * p, p * p * p * p);
+                let p2 = (p * p) as f64;
                 for q in p + 4..n {
-                    let (q2, q4) = (q * q, q * q * q * q);
+                    let q2 = (q * q) as f64;
                     if (p + q) % 2 == 0 {
-                        dmat[[p, q]] = (q
-                            * (q2 * (q2 - 4) * (q2 - 4) + 3 * q2 * p4 - p2 * p4 + 8 * p4
-                                - 16 * p2
-                                - 3 * q4 * p2)) as f64
-                            / 24.;
+                        let r = q2 - p2;
+                        dmat[[p, q]] = q as f64 * r * (r * r - 8. * (q2 + p2) + 16.) / 24.;
                     }
                 }
             }
-- 
2.43.0


From 8c3284068e053e7e39e7f80753ec7313da7f69d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 11/12] fix: integer underflow in Chebyshev::_pinv for small
 sizes

---
 src/chebyshev/ortho.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/chebyshev/ortho.rs b/src/chebyshev/ortho.rs
index ffe434a..2521851 100644
--- a/src/chebyshev/ortho.rs
+++ b/src/chebyshev/ortho.rs
@@ -164,7 +164,7 @@ impl<A: FloatNum> Chebyshev<A> {
             for i in 2..n {
                 pinv[[i, i - 1]] = 1. / (2. * i as f64); // diag - 1
             }
-            for i in 1..n - 2 {
+            for i in 1..n.saturating_sub(2) {
                 pinv[[i, i + 1]] = -1. / (2. * i as f64); // diag + 1
             }
         } else if deriv == 2 {
@@ -172,10 +172,10 @@ impl<A: FloatNum> Chebyshev<A> {
             for i in 3..n {
                 pinv[[i, i - 2]] = 1. / (4 * i * (i - 1)) as f64; // diag - 2
             }
-            for i in 2..n - 2 {
+            for i in 2..n.saturating_sub(2) {
                 pinv[[i, i]] = -1. / (2 * (i * i - 1)) as f64; // diag 0
             }
-            for i in 2..n - 4 {
+            for i in 2..n.saturating_sub(4) {
                 pinv[[i, i + 2]] = 1. / (4 * i * (i + 1)) as f64; // diag + 2
             }
         } else if deriv == 3 {
@@ -186,17 +186,17 @@ impl<A: FloatNum> Chebyshev<A> {
             }
             pinv[[3, 0]] *= 2.;
             // diag - 1
-            for i in 3..n - 2 {
+            for i in 3..n.saturating_sub(2) {
                 let d = 8 * (i + 1) * (i - 2) * i;
                 pinv[[i, i - 1]] = -3. / d as f64;
             }
             // diag + 1
-            for i in 3..n - 4 {
+            for i in 3..n.saturating_sub(4) {
                 let d = 8 * (i - 1) * (i + 2) * i;
                 pinv[[i, i + 1]] = 3. / d as f64;
             }
             // diag + 3
-            for i in 3..n - 6 {
+            for i in 3..n.saturating_sub(6) {
                 let d = 8 * i * (i + 1) * (i + 2);
                 pinv[[i, i + 3]] = -1. / d as f64;
             }
@@ -208,22 +208,22 @@ impl<A: FloatNum> Chebyshev<A> {
             }
             pinv[[4, 0]] *= 2.;
             // diag - 2
-            for i in 4..n - 2 {
+            for i in 4..n.saturating_sub(2) {
                 let d = 4 * (i - 3) * (i - 1) * i * (i + 1);
                 pinv[[i, i - 2]] = -1. / d as f64;
             }
             // diag + 0
-            for i in 4..n - 4 {
+            for i in 4..n.saturating_sub(4) {
                 let d = 8 * (i - 2) * (i - 1) * (i + 1) * (i + 2);
                 pinv[[i, i]] = 3. / d as f64;
             }
             // diag + 2
-            for i in 4..n - 6 {
+            for i in 4..n.saturating_sub(6) {
                 let d = 4 * (i - 1) * i * (i + 1) * (i + 3);
                 pinv[[i, i + 2]] = -1. / d as f64;
             }
             // diag + 4
-            for i in 4..n - 8 {
+            for i in 4..n.saturating_sub(8) {
                 let d = 16 * i * (i + 1) * (i + 2) * (i + 3);
                 pinv[[i, i + 4]] = 1. / d as f64;
             }
-- 
2.43.0


From 31fc72ac6910e609005e4a3fb86658a4905bfbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 12/12] fix: Fourier grids must have exactly n points

Array1::range(0, 2 pi, 2 pi / n) yields n + 1 or n - 1 points for some n,
depending on rounding.
---
 src/fourier/c2c.rs | 6 +++---
 src/fourier/r2c.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fourier/c2c.rs b/src/fourier/c2c.rs
index be641f4..d2be3bc 100644
--- a/src/fourier/c2c.rs
+++ b/src/fourier/c2c.rs
@@ -47,9 +47,9 @@ impl<A: FloatNum> FourierC2c<A> {
     #[allow(clippy::cast_precision_loss)]
     pub fn nodes(n: usize) -> Vec<A> {
         let n64 = n as f64;
-        ndarray::Array1::range(0., 2. * PI, 2. * PI / n64)
-            .mapv(|elem| A::from_f64(elem).unwrap())
-            .to_vec()
+        (0..n)
+            .map(|j| A::from_f64(2. * PI * j as f64 / n64).unwrap())
+            .collect::<Vec<A>>()
     }
 
     /// Return complex wavenumber vector(0, 1, 2, -3, -2, -1)
diff --git a/src/fourier/r2c.rs b/src/fourier/r2c.rs
index de52fb4..842a976 100644
--- a/src/fourier/r2c.rs
+++ b/src/fourier/r2c.rs
@@ -48,9 +48,9 @@ impl<A: FloatNum> FourierR2c<A> {
     #[allow(clippy::cast_precision_loss)]
     pub fn nodes(n: usize) -> Vec<A> {
         let n64 = n as f64;
-        ndarray::Array1::range(0., 2. * PI, 2. * PI / n64)
-            .mapv(|elem| A::from_f64(elem).unwrap())
-            .to_vec()
+        (0..n)
+            .map(|j| A::from_f64(2. * PI * j as f64 / n64).unwrap())
+            .collect::<Vec<A>>()
     }
 
     /// Return complex wavenumber vector for r2c transform (0, 1, 2, 3)
-- 
2.43.0

