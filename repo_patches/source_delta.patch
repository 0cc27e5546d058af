From 8ac37da027c270d47fb0ec56262b4d59bc16e1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 01/48] fix: use libm for Float math without std instead of
 recursing forever

Without the std feature f32::cos and friends are not inherent methods, so the
trait methods called themselves and every transform hung.
---
 src/num.rs | 64 +++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 46 insertions(+), 18 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index af16bca..7db94b5 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -28,15 +28,8 @@ pub trait Float:
     }
 }
 
-///
-/// # Note
-/// The #[allow(unconditional_recursion)] attribute is used here because rustc/Clippy
-/// sometimes issues a false positive warning when calling inherent methods (e.g., f32::cos(self))
-/// inside a trait implementation with the same method name. This is not actual recursion:
-/// - f32::cos(self) and f64::cos(self) call the standard library's inherent method, not the trait method.
-/// - All tests pass and no stack overflow occurs.
-/// - This is a known linter false positive and is safe to suppress.
-#[allow(unconditional_recursion)]
+/// With `std` the inherent standard-library methods are used; without it the
+/// inherent methods do not exist, so the operations come from `libm`.
 impl Float for f32 {
     fn zero() -> Self {
         0.0
@@ -47,33 +40,47 @@ impl Float for f32 {
     fn from_f32(x: f32) -> Self {
         x
     }
+    #[cfg(feature = "std")]
     fn cos(self) -> Self {
         f32::cos(self)
     }
+    #[cfg(not(feature = "std"))]
+    fn cos(self) -> Self {
+        libm::cosf(self)
+    }
+    #[cfg(feature = "std")]
     fn sin(self) -> Self {
         f32::sin(self)
     }
+    #[cfg(not(feature = "std"))]
+    fn sin(self) -> Self {
+        libm::sinf(self)
+    }
+    #[cfg(feature = "std")]
     fn sin_cos(self) -> (Self, Self) {
         f32::sin_cos(self)
     }
+    #[cfg(not(feature = "std"))]
+    fn sin_cos(self) -> (Self, Self) {
+        libm::sincosf(self)
+    }
     fn pi() -> Self {
         PI32
     }
+    #[cfg(feature = "std")]
     #[inline(always)]
     fn mul_add(self, a: Self, b: Self) -> Self {
         f32::mul_add(self, a, b)
     }
+    #[cfg(not(feature = "std"))]
+    #[inline(always)]
+    fn mul_add(self, a: Self, b: Self) -> Self {
+        libm::fmaf(self, a, b)
+    }
 }
 
-///
-/// # Note
-/// The #[allow(unconditional_recursion)] attribute is used here because rustc/Clippy
-/// sometimes issues a false positive warning when calling inherent methods (e.g., f64::cos(self))
-/// inside a trait implementation with the same method name. This is not actual recursion:
-/// - f64::cos(self) calls the standard library's inherent method, not the trait method.
-/// - All tests pass and no stack overflow occurs.
-/// - This is a known linter false positive and is safe to suppress.
-#[allow(unconditional_recursion)]
+/// With `std` the inherent standard-library methods are used; without it the
+/// inherent methods do not exist, so the operations come from `libm`.
 impl Float for f64 {
     fn zero() -> Self {
         0.0
@@ -84,22 +91,43 @@ impl Float for f64 {
     fn from_f32(x: f32) -> Self {
         x as f64
     }
+    #[cfg(feature = "std")]
     fn cos(self) -> Self {
         f64::cos(self)
     }
+    #[cfg(not(feature = "std"))]
+    fn cos(self) -> Self {
+        libm::cos(self)
+    }
+    #[cfg(feature = "std")]
     fn sin(self) -> Self {
         f64::sin(self)
     }
+    #[cfg(not(feature = "std"))]
+    fn sin(self) -> Self {
+        libm::sin(self)
+    }
+    #[cfg(feature = "std")]
     fn sin_cos(self) -> (Self, Self) {
         f64::sin_cos(self)
     }
+    #[cfg(not(feature = "std"))]
+    fn sin_cos(self) -> (Self, Self) {
+        libm::sincos(self)
+    }
     fn pi() -> Self {
         core::f64::consts::PI
     }
+    #[cfg(feature = "std")]
     #[inline(always)]
     fn mul_add(self, a: Self, b: Self) -> Self {
         f64::mul_add(self, a, b)
     }
+    #[cfg(not(feature = "std"))]
+    #[inline(always)]
+    fn mul_add(self, a: Self, b: Self) -> Self {
+        libm::fma(self, a, b)
+    }
 }
 
 #[repr(C)]
-- 
2.43.0


From 5baa596f18c1cab6f276a7d8f24a294c64c91494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 02/48] fix: transform only the first n split samples in
 stockham_fft

The split buffers are cached at the largest size seen, so a smaller power of
two after a larger one on the same instance was transformed at the wrong size.
---
 src/fft.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 250a04a..ba8534b 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -685,8 +685,8 @@ impl<T: Float> ScalarFftImpl<T> {
         if core::any::TypeId::of::<T>() == core::any::TypeId::of::<f32>() {
             let this = unsafe { &*(self as *const _ as *const ScalarFftImpl<f32>) };
             let input32 = unsafe { &mut *(input as *mut [Complex<T>] as *mut [Complex32]) };
-            let re32 = unsafe { &mut *(split_re.as_mut_slice() as *mut [T] as *mut [f32]) };
-            let im32 = unsafe { &mut *(split_im.as_mut_slice() as *mut [T] as *mut [f32]) };
+            let re32 = unsafe { &mut *(&mut split_re[..n] as *mut [T] as *mut [f32]) };
+            let im32 = unsafe { &mut *(&mut split_im[..n] as *mut [T] as *mut [f32]) };
             for (c, (r, i)) in input32.iter().zip(re32.iter_mut().zip(im32.iter_mut())) {
                 *r = c.re;
                 *i = c.im;
@@ -707,8 +707,8 @@ impl<T: Float> ScalarFftImpl<T> {
         if core::any::TypeId::of::<T>() == core::any::TypeId::of::<f64>() {
             let this = unsafe { &*(self as *const _ as *const ScalarFftImpl<f64>) };
             let input64 = unsafe { &mut *(input as *mut [Complex<T>] as *mut [Complex64]) };
-            let re64 = unsafe { &mut *(split_re.as_mut_slice() as *mut [T] as *mut [f64]) };
-            let im64 = unsafe { &mut *(split_im.as_mut_slice() as *mut [T] as *mut [f64]) };
+            let re64 = unsafe { &mut *(&mut split_re[..n] as *mut [T] as *mut [f64]) };
+            let im64 = unsafe { &mut *(&mut split_im[..n] as *mut [T] as *mut [f64]) };
             for (c, (r, i)) in input64.iter().zip(re64.iter_mut().zip(im64.iter_mut())) {
                 *r = c.re;
                 *i = c.im;
-- 
2.43.0


From 1a0707819a78df38526a39bb4ca6d60317a55b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 03/48] fix: run the Bluestein convolution on exactly m samples

The scratch buffer keeps the largest size seen, so a shorter transform after a
longer one convolved with stale samples at the wrong size.
---
 src/fft.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index ba8534b..ba6ebab 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1105,14 +1105,14 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
             for v in &mut a[n..m] {
                 *v = Complex::zero();
             }
-            self.fft(&mut a)?;
+            self.fft(&mut a[..m])?;
             for (ai, &bi) in a.iter_mut().zip(fft_b.iter()) {
                 *ai = ai.mul(bi);
             }
             for c in a.iter_mut() {
                 c.im = -c.im;
             }
-            self.fft(&mut a)?;
+            self.fft(&mut a[..m])?;
             for c in a.iter_mut() {
                 c.im = -c.im;
             }
-- 
2.43.0


From 713238289d16ad64ae817ab58ce15214b755283e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 04/48] fix: accept length 1 in stockham_fft

A one-point transform reached unreachable!() and panicked.
---
 src/fft.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fft.rs b/src/fft.rs
index ba6ebab..91e1de3 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -654,6 +654,7 @@ impl<T: Float> ScalarFftImpl<T> {
         }
         if n <= 16 {
             match n {
+                1 => {}
                 2 => fft2(input),
                 4 => fft4(input),
                 8 => fft8(input),
-- 
2.43.0


From 0f7aa21472fc82b04ae4daaffe5f714fd7b8412e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 05/48] fix: keep f64 precision in the 8- and 16-point kernels

The twiddle constants were rounded to f32, so every f64 transform of 8 or 16
points was only accurate to 1e-8.
---
 src/fft_kernels.rs | 16 ++++++++--------
 src/num.rs         |  9 +++++++++
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/fft_kernels.rs b/src/fft_kernels.rs
index c260160..1e261b4 100644
--- a/src/fft_kernels.rs
+++ b/src/fft_kernels.rs
@@ -32,7 +32,7 @@ pub fn fft4<T: Float>(input: &mut [Complex<T>]) {
 pub fn fft8<T: Float>(input: &mut [Complex<T>]) {
     debug_assert_eq!(input.len(), 8);
     let w1 = Complex::new(T::zero(), -T::one());
-    let s = T::from_f32(0.70710677); // sqrt(2)/2
+    let s = T::from_f64(core::f64::consts::FRAC_1_SQRT_2); // sqrt(2)/2
 
     // load inputs before overwriting
     let x0 = input[0];
@@ -107,7 +107,7 @@ pub fn fft16<T: Float>(input: &mut [Complex<T>]) {
     let x15 = input[15];
 
     let w1 = Complex::new(T::zero(), -T::one());
-    let s = T::from_f32(0.70710677); // sqrt(2)/2
+    let s = T::from_f64(core::f64::consts::FRAC_1_SQRT_2); // sqrt(2)/2
 
     // ---- even index FFT8 ----
     let a0 = x0.add(x8);
@@ -178,12 +178,12 @@ pub fn fft16<T: Float>(input: &mut [Complex<T>]) {
     input[15] = oa3.sub(t3);
 
     // ---- twiddle multiply odd half ----
-    let c1 = T::from_f32(0.9238795);
-    let s1 = T::from_f32(-0.38268343);
-    let c2 = T::from_f32(0.70710677);
-    let s2 = T::from_f32(-0.70710677);
-    let c3 = T::from_f32(0.38268343);
-    let s3 = T::from_f32(-0.9238795);
+    let c1 = T::from_f64(0.923_879_532_511_286_7);
+    let s1 = T::from_f64(-0.382_683_432_365_089_8);
+    let c2 = T::from_f64(core::f64::consts::FRAC_1_SQRT_2);
+    let s2 = -T::from_f64(core::f64::consts::FRAC_1_SQRT_2);
+    let c3 = T::from_f64(0.382_683_432_365_089_8);
+    let s3 = T::from_f64(-0.923_879_532_511_286_7);
     let c4 = T::zero();
     let s4 = T::from_f32(-1.0);
 
diff --git a/src/num.rs b/src/num.rs
index 7db94b5..9350736 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -18,6 +18,11 @@ pub trait Float:
     fn zero() -> Self;
     fn one() -> Self;
     fn from_f32(x: f32) -> Self;
+    /// Convert from `f64`, keeping as much precision as the type holds.
+    #[inline(always)]
+    fn from_f64(x: f64) -> Self {
+        Self::from_f32(x as f32)
+    }
     fn cos(self) -> Self;
     fn sin(self) -> Self;
     fn sin_cos(self) -> (Self, Self);
@@ -91,6 +96,10 @@ impl Float for f64 {
     fn from_f32(x: f32) -> Self {
         x as f64
     }
+    #[inline(always)]
+    fn from_f64(x: f64) -> Self {
+        x
+    }
     #[cfg(feature = "std")]
     fn cos(self) -> Self {
         f64::cos(self)
-- 
2.43.0


From 49f89115e31991c97a33d1c8aff48dfc981834ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 06/48] fix: compute FFT twiddles directly instead of by
 recurrence

The recurrence accumulated an error growing linearly with the length.
---
 src/fft.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 91e1de3..7bc196e 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -390,17 +390,11 @@ impl<T: Float> FftPlanner<T> {
 
         if !self.cache.contains_key(&n) {
             let half = n / 2;
-            let angle = -T::from_f32(2.0) * T::pi() / T::from_f32(n as f32);
-            let (sin_step, cos_step) = angle.sin_cos();
-
+            let step = -2.0 * core::f64::consts::PI / n as f64;
             let mut table: Vec<Complex<T>> = Vec::with_capacity(half);
-            let mut w_re = T::one();
-            let mut w_im = T::zero();
-            for _ in 0..half {
-                table.push(Complex::new(w_re, w_im));
-                let tmp = w_re;
-                w_re = w_re.mul_add(cos_step, -(w_im * sin_step));
-                w_im = w_im.mul_add(cos_step, tmp * sin_step);
+            for k in 0..half {
+                let (sin, cos) = Float::sin_cos(step * k as f64);
+                table.push(Complex::new(T::from_f64(cos), T::from_f64(sin)));
             }
             self.cache.insert(n, Arc::from(table));
         }
-- 
2.43.0


From b26c8b57cba5d6ef1790d65d7d01a083340c3a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 07/48] fix: reduce the Bluestein chirp phase exactly before
 taking its sine

i*i was rounded to f32 and the angle grew with i, so the f32 and f64 chirps lost
several digits for longer non-power-of-two lengths.
---
 src/fft.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 7bc196e..b8b199c 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -408,9 +408,14 @@ impl<T: Float> FftPlanner<T> {
             let mut chirp: Vec<Complex<T>> = Vec::with_capacity(n);
             let mut b: Vec<Complex<T>> = Vec::with_capacity(m);
             for i in 0..n {
-                let angle = T::pi() * T::from_f32((i * i) as f32) / T::from_f32(n as f32);
-                chirp.push(Complex::expi(-angle));
-                b.push(Complex::expi(angle));
+                // exp(iπ i²/n) has period 2n in i²: reduce exactly before rounding.
+                let i = i as u64;
+                let phase = (i * i) % (2 * n as u64);
+                let angle = core::f64::consts::PI * phase as f64 / n as f64;
+                let (sin, cos) = Float::sin_cos(angle);
+                let (sin, cos) = (T::from_f64(sin), T::from_f64(cos));
+                chirp.push(Complex::new(cos, -sin));
+                b.push(Complex::new(cos, sin));
             }
             b.resize(m, Complex::zero());
             for i in 1..n {
-- 
2.43.0


From 46038fa06f927ea74aec212ab3481351905ec21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 08/48] fix: reverse base-4 digits in fft_radix4

The permutation carried single bits at stride two, so every power of four from
16 up was transformed wrongly.
---
 src/fft.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index b8b199c..6ee29d7 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1458,15 +1458,15 @@ impl<T: Float> ScalarFftImpl<T> {
             // Fallback to generic FFT if not power of four
             return self.fft(input);
         }
-        // Bit-reversal for radix-4
+        // Base-4 digit reversal
         let mut j = 0usize;
         for i in 1..n {
-            let mut bit = n >> 2;
-            while j & bit != 0 {
-                j ^= bit;
-                bit >>= 2;
+            let mut digit = n >> 2;
+            while (j / digit) & 3 == 3 {
+                j -= 3 * digit;
+                digit >>= 2;
             }
-            j ^= bit;
+            j += digit;
             if i < j {
                 input.swap(i, j);
             }
-- 
2.43.0


From 6f575a431eccf00ef515879fe9d85ab8aee4a2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 09/48] fix: reject empty input in
 fft_mixed_radix_with_twiddles

factorize(0) never terminates and grows its vector until memory runs out.
---
 src/fft.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fft.rs b/src/fft.rs
index 6ee29d7..b001e86 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1665,6 +1665,9 @@ impl ScalarFftImpl<f32> {
         twiddles: &TwiddleFactorBuffer,
     ) -> Result<(), FftError> {
         let n = input.len();
+        if n == 0 {
+            return Err(FftError::EmptyInput);
+        }
         let factors = factorize(n);
         if factors.iter().all(|&f| f == 2 || f == 4) {
             if factors.iter().all(|&f| f == 4) {
-- 
2.43.0


From 00aea602ca4aeb5cb19f5f02f4f8c87d77a37034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 10/48] fix: compute the real FFT twiddles directly instead of
 by recurrence

The recurrence accumulated an error growing linearly with the length.
---
 src/rfft.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/rfft.rs b/src/rfft.rs
index 08d5a49..fe28d8a 100644
--- a/src/rfft.rs
+++ b/src/rfft.rs
@@ -170,14 +170,11 @@ mod precomputed {
 }
 
 fn build_twiddle_table<T: Float>(m: usize) -> alloc::vec::Vec<Complex<T>> {
-    let angle = -T::pi() / T::from_f32(m as f32);
-    let (sin_step, cos_step) = angle.sin_cos();
-    let w = Complex::new(cos_step, sin_step);
+    let step = -core::f64::consts::PI / m as f64;
     let mut table = alloc::vec::Vec::with_capacity(m);
-    let mut current = Complex::new(T::one(), T::zero());
-    for _ in 0..m {
-        table.push(current);
-        current = current.mul(w);
+    for k in 0..m {
+        let (sin, cos) = Float::sin_cos(step * k as f64);
+        table.push(Complex::new(T::from_f64(cos), T::from_f64(sin)));
     }
     table
 }
-- 
2.43.0


From 99cb15dcd720280b2aff0388b285abafdc7f0159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 11/48] fix: leave the data untouched when ifft refuses a
 length without std

ifft and ifft_split conjugated the input before the forward transform returned
NonPowerOfTwoNoStd.
---
 src/fft.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fft.rs b/src/fft.rs
index b001e86..3c12611 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1139,6 +1139,11 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
         if n == 1 {
             return Ok(());
         }
+        // Refuse before conjugating so that the data stay untouched.
+        #[cfg(not(feature = "std"))]
+        if !n.is_power_of_two() {
+            return Err(FftError::NonPowerOfTwoNoStd);
+        }
         #[cfg(feature = "parallel")]
         {
             #[cfg(all(feature = "parallel", feature = "std"))]
@@ -1394,6 +1399,10 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
         if re.len() != im.len() {
             return Err(FftError::MismatchedLengths);
         }
+        #[cfg(not(feature = "std"))]
+        if !re.is_empty() && !re.len().is_power_of_two() {
+            return Err(FftError::NonPowerOfTwoNoStd);
+        }
         if core::any::TypeId::of::<T>() == core::any::TypeId::of::<f32>() {
             let this = unsafe { &*(self as *const _ as *const ScalarFftImpl<f32>) };
             let re32 = unsafe { &mut *(re as *mut [T] as *mut [f32]) };
-- 
2.43.0


From 567153c64580881f552d7cfbe873d82359c9b6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 12/48] fix: check every frame length before istft changes
 anything

A wrong length in a later frame was only noticed after the earlier frames had
been inverted in place and added to the output.
---
 src/stft.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/stft.rs b/src/stft.rs
index d91b192..ec97eab 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -129,15 +129,15 @@ pub fn istft<Fft: FftImpl<f32>>(
         return Err(FftError::MismatchedLengths);
     }
     let win_len = window.len();
+    if frames.iter().any(|frame| frame.len() != win_len) {
+        return Err(FftError::MismatchedLengths);
+    }
     for x in scratch.iter_mut() {
         *x = 0.0;
     }
     // Overlap-add
     for (frame_idx, frame) in frames.iter_mut().enumerate() {
         let start = frame_idx * hop_size;
-        if frame.len() != win_len {
-            return Err(FftError::MismatchedLengths);
-        }
         fft.ifft(frame)?;
         for i in 0..win_len {
             if start + i < output.len() {
-- 
2.43.0


From e5e19bfdc2ca42914353c0548fdae9dbaebce3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 13/48] fix: start istft overlap-add from silence

istft and inverse_parallel added the frames to whatever the output buffer held
and then normalised the mixture, so a reused buffer gave a wrong signal.
---
 src/stft.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/stft.rs b/src/stft.rs
index ec97eab..bb3cc2b 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -135,6 +135,9 @@ pub fn istft<Fft: FftImpl<f32>>(
     for x in scratch.iter_mut() {
         *x = 0.0;
     }
+    for x in output.iter_mut() {
+        *x = 0.0;
+    }
     // Overlap-add
     for (frame_idx, frame) in frames.iter_mut().enumerate() {
         let start = frame_idx * hop_size;
@@ -324,6 +327,9 @@ pub fn inverse_parallel<Fft: FftImpl<f32>>(
     let partials = partials?;
     let mut norm = alloc::vec::Vec::with_capacity(output.len());
     norm.resize(output.len(), 0.0);
+    for x in output.iter_mut() {
+        *x = 0.0;
+    }
     for (start, acc_frame, norm_frame) in partials {
         for i in 0..win_len {
             if start + i < output.len() {
-- 
2.43.0


From 0060025fc944cf930dbc1dddd8c1c60033887fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 14/48] fix: refuse mismatched lengths in the STFT helpers

frame, inverse_frame, parallel, inverse_parallel and IstftStream accepted frames
or windows of the wrong length and panicked or transformed the wrong samples,
where stft and istft return MismatchedLengths.
---
 src/stft.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/stft.rs b/src/stft.rs
index bb3cc2b..d039f9d 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -245,6 +245,9 @@ pub fn parallel<Fft: FftImpl<f32>>(
     if hop_size == 0 {
         return Err(FftError::InvalidHopSize);
     }
+    if output.len() < signal.len().div_ceil(hop_size) {
+        return Err(FftError::MismatchedLengths);
+    }
     let win_len = window.len();
     output
         .par_iter_mut()
@@ -303,6 +306,9 @@ pub fn inverse_parallel<Fft: FftImpl<f32>>(
         return Err(FftError::InvalidHopSize);
     }
     let win_len = window.len();
+    if frames.iter().any(|frame| frame.len() != win_len) {
+        return Err(FftError::MismatchedLengths);
+    }
     type Accum = (usize, alloc::vec::Vec<f32>, alloc::vec::Vec<f32>);
     type AccumResult = Result<alloc::vec::Vec<Accum>, FftError>;
     let partials: AccumResult = frames
@@ -366,6 +372,9 @@ pub fn frame<Fft: FftImpl<f32>>(
     fft: &Fft,
 ) -> Result<(), FftError> {
     let win_len = window.len();
+    if frame_out.len() != win_len {
+        return Err(FftError::MismatchedLengths);
+    }
     for i in 0..win_len {
         let x = if start + i < signal.len() {
             signal[start + i] * window[i]
@@ -395,6 +404,9 @@ pub fn inverse_frame<Fft: FftImpl<f32>>(
     fft: &Fft,
 ) -> Result<(), FftError> {
     let win_len = window.len();
+    if frame.len() != win_len {
+        return Err(FftError::MismatchedLengths);
+    }
     fft.ifft(frame)?;
     for i in 0..win_len {
         if start + i < output.len() {
@@ -434,6 +446,9 @@ impl<'a, Fft: crate::fft::FftImpl<f32>> IstftStream<'a, Fft> {
         if hop == 0 {
             return Err(FftError::InvalidHopSize);
         }
+        if window.len() != win_len {
+            return Err(FftError::MismatchedLengths);
+        }
         let buffer = vec![0.0f32; win_len + hop * 2];
         let norm_buf = vec![0.0f32; win_len + hop * 2];
         let time_buf = vec![crate::fft::Complex32::new(0.0, 0.0); win_len];
-- 
2.43.0


From f93e234831114c7f407ffc32f194b7fea48aeba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 15/48] fix: keep room for a whole hop in IstftStream

With a hop longer than the window the third frame indexed past the buffer.
---
 src/stft.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stft.rs b/src/stft.rs
index d039f9d..68505ec 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -499,9 +499,9 @@ impl<'a, Fft: crate::fft::FftImpl<f32>> IstftStream<'a, Fft> {
         self.out_pos += self.hop;
         self.buf_pos += self.hop;
         // Zero the region that will be written next time
-        if self.buf_pos + self.win_len > self.buffer.len() {
+        let new_len = self.buf_pos + self.win_len.max(self.hop);
+        if new_len > self.buffer.len() {
             // Extend buffer if needed
-            let new_len = self.buf_pos + self.win_len;
             self.buffer.resize(new_len, 0.0);
             self.norm_buf.resize(new_len, 0.0);
         }
-- 
2.43.0


From b818fe3909154688c68bbf2e6f6a3bd2a6706e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 16/48] fix: make dst3 the inverse of dst2 it documents

The sum used the DST-II indices of a cosine-like transform (sin(0) for the first
sample, full weight for the last one), so dst3(dst2(x)) was not N/2 * x.
---
 src/dst.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/dst.rs b/src/dst.rs
index 549c829..2a013f5 100644
--- a/src/dst.rs
+++ b/src/dst.rs
@@ -121,9 +121,11 @@ pub fn dst3(input: &[f32]) -> Vec<f32> {
     let mut output = vec![0.0; n];
     let factor = PI / n as f32;
     for (k, out) in output.iter_mut().enumerate() {
-        let mut sum = input[0] / 2.0;
-        for (i, &x) in input.iter().enumerate().skip(1) {
-            sum += x * (factor * (k as f32 + 0.5) * i as f32).sin();
+        // The last term is (-1)^k * x[n-1] / 2.
+        let last = input[n - 1] / 2.0;
+        let mut sum = if k % 2 == 0 { last } else { -last };
+        for (i, &x) in input.iter().enumerate().take(n - 1) {
+            sum += x * (factor * (k as f32 + 0.5) * (i as f32 + 1.0)).sin();
         }
         *out = sum;
     }
@@ -245,9 +247,10 @@ pub fn dst3_inplace_stack_fft<const N: usize>(
     // Direct computation using stack memory to ensure parity with heap-based version.
     let factor = PI / N as f32;
     for (k, out) in output.iter_mut().enumerate() {
-        let mut sum = input[0] / 2.0;
-        for (n, &x) in input.iter().enumerate().skip(1) {
-            sum += x * (factor * (k as f32 + 0.5) * n as f32).sin();
+        let last = input[N - 1] / 2.0;
+        let mut sum = if k % 2 == 0 { last } else { -last };
+        for (n, &x) in input.iter().enumerate().take(N - 1) {
+            sum += x * (factor * (k as f32 + 0.5) * (n as f32 + 1.0)).sin();
         }
         *out = sum;
     }
-- 
2.43.0


From 16a6b601d57606f8bac2c48714571f5c47233aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 17/48] fix: reconstruct with matching db4, sym4 and coif1
 synthesis filters

The inverse scattered the coefficients with the time-reversed filters of the
forward correlation, so not a single sample was recovered.
---
 src/wavelet.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/wavelet.rs b/src/wavelet.rs
index 8f12b57..cb8a82f 100644
--- a/src/wavelet.rs
+++ b/src/wavelet.rs
@@ -348,7 +348,8 @@ pub fn db4_inverse(approx: &[f32], detail: &[f32]) -> Vec<f32> {
         let j = 2 * i;
         for k in 0..8 {
             let idx = reflect(j as isize + k as isize);
-            output[idx] += g[k] * approx[i] + h[k] * detail[i];
+            // The analysis correlates, so synthesis uses the filters reversed back.
+            output[idx] += g[7 - k] * approx[i] + h[7 - k] * detail[i];
         }
     }
     output
@@ -442,7 +443,8 @@ pub fn sym4_inverse(approx: &[f32], detail: &[f32]) -> Vec<f32> {
         let j = 2 * i;
         for k in 0..8 {
             let idx = reflect(j as isize + k as isize);
-            output[idx] += g[k] * approx[i] + h[k] * detail[i];
+            // The analysis correlates, so synthesis uses the filters reversed back.
+            output[idx] += g[7 - k] * approx[i] + h[7 - k] * detail[i];
         }
     }
     output
@@ -528,7 +530,8 @@ pub fn coif1_inverse(approx: &[f32], detail: &[f32]) -> Vec<f32> {
         let j = 2 * i;
         for k in 0..6 {
             let idx = reflect(j as isize + k as isize);
-            output[idx] += g[k] * approx[i] + h[k] * detail[i];
+            // The analysis correlates, so synthesis uses the filters reversed back.
+            output[idx] += g[5 - k] * approx[i] + h[5 - k] * detail[i];
         }
     }
     output
-- 
2.43.0


From 1502e63d5139d9173bef6b846e6366ee0de9ecac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:09 +0000
Subject: [PATCH 18/48] fix: return a unit window for length one

kaiser(0) underflowed, and kaiser, bartlett, bohman and nuttall divided by zero
at length one and returned NaN.
---
 src/window.rs      | 6 ++++++
 src/window_more.rs | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/window.rs b/src/window.rs
index 81083eb..f41d468 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -50,6 +50,9 @@ pub fn blackman(len: usize) -> alloc::vec::Vec<f32> {
 /// Generate a Kaiser window of length `len` and shape parameter `beta`.
 #[cfg(feature = "std")]
 pub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {
+    if len < 2 {
+        return alloc::vec![1.0; len];
+    }
     let denom = bessel0(beta);
     let m = (len - 1) as f32 / 2.0;
     (0..len)
@@ -62,6 +65,9 @@ pub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {
 
 #[cfg(not(feature = "std"))]
 pub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {
+    if len < 2 {
+        return alloc::vec![1.0; len];
+    }
     let denom = bessel0(beta);
     let m = (len - 1) as f32 / 2.0;
     (0..len)
diff --git a/src/window_more.rs b/src/window_more.rs
index 0239224..de943cc 100644
--- a/src/window_more.rs
+++ b/src/window_more.rs
@@ -29,6 +29,9 @@ pub fn tukey(len: usize, alpha: f32) -> Vec<f32> {
 
 /// Bartlett (triangular) window
 pub fn bartlett(len: usize) -> Vec<f32> {
+    if len == 1 {
+        return vec![1.0];
+    }
     let mut w = vec![0.0; len];
     let n = len as f32;
     for (i, w_i) in w.iter_mut().enumerate() {
@@ -40,6 +43,9 @@ pub fn bartlett(len: usize) -> Vec<f32> {
 
 /// Bohman window
 pub fn bohman(len: usize) -> Vec<f32> {
+    if len == 1 {
+        return vec![1.0];
+    }
     let mut w = vec![0.0; len];
     let n = len as f32;
     for (i, w_i) in w.iter_mut().enumerate() {
@@ -51,6 +57,9 @@ pub fn bohman(len: usize) -> Vec<f32> {
 
 /// Nuttall window
 pub fn nuttall(len: usize) -> Vec<f32> {
+    if len == 1 {
+        return vec![1.0];
+    }
     let mut w = vec![0.0; len];
     let a0 = 0.355768;
     let a1 = 0.487396;
-- 
2.43.0


From dc4102bb95e97b06ce2377595d58266c188477b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:09 +0000
Subject: [PATCH 19/48] fix: sum the Bessel series of the Kaiser window until
 it converges

Twenty terms are not enough for a shape parameter beyond about 15.
---
 src/window.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/window.rs b/src/window.rs
index f41d468..8ec9857 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -10,12 +10,12 @@ fn bessel0(x: f32) -> f32 {
     // Approximate I0(x) using a series expansion
     let mut sum = 1.0;
     let y = x * x / 4.0;
-    let mut t = y;
-    let mut k = 1.0;
-    for n in 1..20 {
-        k *= n as f32;
-        sum += t / (k * k);
-        t *= y;
+    let mut term = 1.0;
+    let mut n = 1.0;
+    while term > sum * 1e-8 {
+        term *= y / (n * n);
+        sum += term;
+        n += 1.0;
     }
     sum
 }
-- 
2.43.0


From 1ba11022638103e4d95ee0a275ac35fb768c088c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:09 +0000
Subject: [PATCH 20/48] fix: evaluate the Bohman window over its whole support

The argument covered only the middle half and kept its sign, so the window was
neither symmetric nor zero at its ends.
---
 src/window_more.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/window_more.rs b/src/window_more.rs
index de943cc..a009740 100644
--- a/src/window_more.rs
+++ b/src/window_more.rs
@@ -49,8 +49,8 @@ pub fn bohman(len: usize) -> Vec<f32> {
     let mut w = vec![0.0; len];
     let n = len as f32;
     for (i, w_i) in w.iter_mut().enumerate() {
-        let x = (i as f32 / (n - 1.0)) - 0.5;
-        *w_i = (1.0 - fabsf(x)) * cosf(PI * x) + 1.0 / PI * sinf(PI * x);
+        let x = fabsf(2.0 * i as f32 / (n - 1.0) - 1.0);
+        *w_i = (1.0 - x) * cosf(PI * x) + 1.0 / PI * sinf(PI * x);
     }
     w
 }
-- 
2.43.0


From 2c4dc5829dff728729e55aa8b2361dda690a3d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:09 +0000
Subject: [PATCH 21/48] fix: taper the last sample of each Tukey edge

The sample at the rounded-down edge belongs to the cosine taper but was set to
one, on both sides.
---
 src/window_more.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/window_more.rs b/src/window_more.rs
index a009740..167e23d 100644
--- a/src/window_more.rs
+++ b/src/window_more.rs
@@ -12,12 +12,15 @@ use libm::{cosf, fabsf, floorf, sinf};
 /// Tukey window (tapered cosine)
 pub fn tukey(len: usize, alpha: f32) -> Vec<f32> {
     let alpha = alpha.clamp(0.0, 1.0);
+    if len < 2 || alpha == 0.0 {
+        return vec![1.0; len];
+    }
     let mut w = vec![0.0; len];
     let edge = floorf(alpha * (len as f32 - 1.0) / 2.0) as usize;
     for (n, w_n) in w.iter_mut().enumerate() {
-        *w_n = if n < edge {
+        *w_n = if n <= edge {
             0.5 * (1.0 + (PI * (2.0 * n as f32 / (alpha * (len as f32 - 1.0)) - 1.0)).cos())
-        } else if n < len - edge {
+        } else if n + edge + 1 < len {
             1.0
         } else {
             0.5 * (1.0
-- 
2.43.0


From 2e3704f176973759e3282043ae98a98f6dda71d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 22/48] fix: never take the root of a negative Goertzel power

When the bin is empty, rounding can leave the power just below zero and the
magnitude became NaN.
---
 src/goertzel.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/goertzel.rs b/src/goertzel.rs
index a10ac4f..9fd516e 100644
--- a/src/goertzel.rs
+++ b/src/goertzel.rs
@@ -32,7 +32,8 @@ pub fn goertzel_f32(input: &[f32], sample_rate: f32, target_freq: f32) -> Result
         s_prev = s;
     }
     let power = s_prev2 * s_prev2 + s_prev * s_prev - coeff * s_prev * s_prev2;
-    Ok(sqrtf(power))
+    // Cancellation can leave a tiny negative power.
+    Ok(sqrtf(power.max(0.0)))
 }
 
 #[cfg(not(feature = "std"))]
@@ -55,7 +56,8 @@ pub fn goertzel_f32(input: &[f32], sample_rate: f32, target_freq: f32) -> Result
         s_prev = s;
     }
     let power = s_prev2 * s_prev2 + s_prev * s_prev - coeff * s_prev * s_prev2;
-    Ok(sqrtf(power))
+    // Cancellation can leave a tiny negative power.
+    Ok(sqrtf(power.max(0.0)))
 }
 
 #[cfg(all(feature = "internal-tests", test))]
-- 
2.43.0


From 29abf8f4212632e2e7d2b0b930f39428ec06e8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 23/48] fix: refuse a zero hop in stft_magnitudes

It divided by zero before the STFT could return InvalidHopSize.
---
 src/visual/spectrogram.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/visual/spectrogram.rs b/src/visual/spectrogram.rs
index ea209d5..ac78278 100644
--- a/src/visual/spectrogram.rs
+++ b/src/visual/spectrogram.rs
@@ -54,6 +54,9 @@ pub fn stft_magnitudes(
     win_len: usize,
     hop: usize,
 ) -> Result<(Vec<Vec<f32>>, f32), FftError> {
+    if hop == 0 {
+        return Err(FftError::InvalidHopSize);
+    }
     let window = hann(win_len);
     let fft = ScalarFftImpl::<f32>::default();
     let mut frames = vec![vec![]; samples.len().div_ceil(hop)];
-- 
2.43.0


From a57e72d52ae6019e13878c61000532cd39ceffb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 24/48] fix: refuse signals of another length in a planned
 DCT-II

A plan used the cosine table of its own length on any input: longer inputs
panicked and shorter ones gave a wrong transform.
---
 src/dct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dct.rs b/src/dct.rs
index ace4d1a..62b1444 100644
--- a/src/dct.rs
+++ b/src/dct.rs
@@ -67,7 +67,7 @@ impl DctPlanner {
         cos: &[f32],
     ) -> Result<(), FftError> {
         let n = input.len();
-        if output.len() != n {
+        if output.len() != n || cos.len() != n {
             return Err(FftError::MismatchedLengths);
         }
         let m = 2 * n;
-- 
2.43.0


From 7b7bbb2505e1500ab81e8add45d9b6944972d97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:57 +0000
Subject: [PATCH 25/48] fix: look up fft_radix4 twiddles instead of stepping
 them by recurrence

---
 src/fft.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 3c12611..6570b87 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1494,10 +1494,17 @@ impl<T: Float> ScalarFftImpl<T> {
                     i += len;
                 }
             } else {
-                let (w_step1, w_step2, w_step3) = {
+                let twiddles = {
                     let planner = unsafe { self.planner_mut() };
-                    let twiddles = planner.get_twiddles(len);
-                    (twiddles[1], twiddles[2], twiddles[3])
+                    planner.get_twiddles(len)
+                };
+                // The table covers half the circle: w^(k + len/2) = -w^k.
+                let twiddle = |k: usize| {
+                    if k < len / 2 {
+                        twiddles[k]
+                    } else {
+                        -twiddles[k - len / 2]
+                    }
                 };
                 let quarter = len / 4;
                 while i < n {
@@ -1516,9 +1523,9 @@ impl<T: Float> ScalarFftImpl<T> {
                         input[i + j + len / 2] = x2;
                         input[i + j + 3 * quarter] = x3;
 
-                        w1 = w1.mul(w_step1);
-                        w2 = w2.mul(w_step2);
-                        w3 = w3.mul(w_step3);
+                        w1 = twiddle(j + 1);
+                        w2 = twiddle(2 * (j + 1));
+                        w3 = twiddle(3 * (j + 1));
 
                         let j1 = j + 1;
                         let a1 = input[i + j1];
@@ -1531,9 +1538,9 @@ impl<T: Float> ScalarFftImpl<T> {
                         input[i + j1 + len / 2] = y2;
                         input[i + j1 + 3 * quarter] = y3;
 
-                        w1 = w1.mul(w_step1);
-                        w2 = w2.mul(w_step2);
-                        w3 = w3.mul(w_step3);
+                        w1 = twiddle(j + 2);
+                        w2 = twiddle(2 * (j + 2));
+                        w3 = twiddle(3 * (j + 2));
 
                         j += 2;
                     }
-- 
2.43.0


From dd35f39f07b88d729c7a72432249fed1ae2a786d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:57 +0000
Subject: [PATCH 26/48] fix: refuse array shapes whose size overflows in the 2D
 and 3D FFT

---
 src/ndfft.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ndfft.rs b/src/ndfft.rs
index 34a0c7f..e37796b 100644
--- a/src/ndfft.rs
+++ b/src/ndfft.rs
@@ -78,7 +78,7 @@ pub fn fft2d_inplace<T: Float>(
     fft: &ScalarFftImpl<T>,
     scratch_col: &mut [Complex<T>],
 ) -> Result<(), FftError> {
-    if rows * cols != data.len() {
+    if rows.checked_mul(cols) != Some(data.len()) {
         return Err(FftError::MismatchedLengths);
     }
     if rows == 0 || cols == 0 {
@@ -119,7 +119,10 @@ pub fn fft3d_inplace<T: Float>(
     fft: &ScalarFftImpl<T>,
     scratch: &mut Fft3dScratch<'_, T>,
 ) -> Result<(), FftError> {
-    if depth * rows * cols != data.len() {
+    let size = depth
+        .checked_mul(rows)
+        .and_then(|plane| plane.checked_mul(cols));
+    if size != Some(data.len()) {
         return Err(FftError::MismatchedLengths);
     }
     if depth == 0 || rows == 0 || cols == 0 {
-- 
2.43.0


From 6c699d24d13d6e42290d73630a9bae1284097b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 27/48] fix: drop the padding sample between levels in
 multi_level_inverse

---
 src/wavelet.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wavelet.rs b/src/wavelet.rs
index cb8a82f..ccbb038 100644
--- a/src/wavelet.rs
+++ b/src/wavelet.rs
@@ -77,6 +77,8 @@ where
 {
     let mut current = approx.to_vec();
     for d in details.iter().rev() {
+        // Drop the sample that padded an odd intermediate length.
+        current.truncate(d.len());
         current = inverse(&current, d);
     }
     current
-- 
2.43.0


From e412a0c9bc63469ac87c4e7a9dec2db1aa20eef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 28/48] fix: mirror the falling edge of the Tukey window

---
 src/window_more.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/window_more.rs b/src/window_more.rs
index 167e23d..fb23764 100644
--- a/src/window_more.rs
+++ b/src/window_more.rs
@@ -23,8 +23,9 @@ pub fn tukey(len: usize, alpha: f32) -> Vec<f32> {
         } else if n + edge + 1 < len {
             1.0
         } else {
-            0.5 * (1.0
-                + (PI * (2.0 * n as f32 / (alpha * (len as f32 - 1.0)) - 2.0 / alpha + 1.0)).cos())
+            // Mirror of the rising edge; spelled out it would cancel for a small alpha.
+            let n = len - 1 - n;
+            0.5 * (1.0 + (PI * (2.0 * n as f32 / (alpha * (len as f32 - 1.0)) - 1.0)).cos())
         };
     }
     w
-- 
2.43.0


From 817772ed4df5df2bcb04fbbf328e761c460bc55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:48 +0000
Subject: [PATCH 29/48] fix: keep the Kaiser window finite for large beta

---
 src/window.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/window.rs b/src/window.rs
index 8ec9857..1726f2d 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -4,9 +4,17 @@ use core::f32::consts::PI;
 
 #[cfg(not(feature = "std"))]
 use crate::num::Float;
-use libm::sqrtf;
+use libm::{expf, fabsf, sqrtf};
 
-fn bessel0(x: f32) -> f32 {
+/// `exp(-|x|) * I0(x)`, which stays in range for every `x`.
+fn bessel0_scaled(x: f32) -> f32 {
+    let x = fabsf(x);
+    if x > 20.0 {
+        // Asymptotic expansion of I0(x).
+        let y = 1.0 / (8.0 * x);
+        let series = 1.0 + y * (1.0 + y * (4.5 + y * (37.5 + y * 459.375)));
+        return series / (sqrtf(2.0 * PI) * sqrtf(x));
+    }
     // Approximate I0(x) using a series expansion
     let mut sum = 1.0;
     let y = x * x / 4.0;
@@ -17,7 +25,12 @@ fn bessel0(x: f32) -> f32 {
         sum += term;
         n += 1.0;
     }
-    sum
+    sum * expf(-x)
+}
+
+/// `I0(beta * s) / I0(beta)` for `s` in 0..=1.
+fn bessel0_ratio(beta: f32, s: f32) -> f32 {
+    expf(fabsf(beta) * (s - 1.0)) * bessel0_scaled(beta * s) / bessel0_scaled(beta)
 }
 
 /// Generate a Hann window of length `len`.
@@ -53,12 +66,11 @@ pub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {
     if len < 2 {
         return alloc::vec![1.0; len];
     }
-    let denom = bessel0(beta);
     let m = (len - 1) as f32 / 2.0;
     (0..len)
         .map(|i| {
             let r = (i as f32 - m) / m;
-            bessel0(beta * sqrtf(1.0 - r * r)) / denom
+            bessel0_ratio(beta, sqrtf(1.0 - r * r))
         })
         .collect()
 }
@@ -68,12 +80,11 @@ pub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {
     if len < 2 {
         return alloc::vec![1.0; len];
     }
-    let denom = bessel0(beta);
     let m = (len - 1) as f32 / 2.0;
     (0..len)
         .map(|i| {
             let r = (i as f32 - m) / m;
-            bessel0(beta * sqrtf(1.0 - r * r)) / denom
+            bessel0_ratio(beta, sqrtf(1.0 - r * r))
         })
         .collect()
 }
-- 
2.43.0


From 057b974e6e150a9301548f6647946fb7cb37a422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:03 +0000
Subject: [PATCH 30/48] fix: list each build feature once

---
 xtask/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xtask/src/lib.rs b/xtask/src/lib.rs
index 5a64a86..7cee163 100644
--- a/xtask/src/lib.rs
+++ b/xtask/src/lib.rs
@@ -69,7 +69,7 @@ fn detect_nproc() -> usize {
 
 /// Compute a [`BuildConfig`] from supplied inputs. This is separated for testing.
 pub fn compute_config(arch: &str, cpu_flags: &str, nproc: usize, extra: &str) -> BuildConfig {
-    let mut features = Vec::new();
+    let mut features: Vec<String> = Vec::new();
     let mut rustflags = None;
 
     if arch.contains("x86_64") {
@@ -92,7 +92,7 @@ pub fn compute_config(arch: &str, cpu_flags: &str, nproc: usize, extra: &str) ->
     }
 
     for feat in extra.split_whitespace() {
-        if !feat.is_empty() {
+        if !features.iter().any(|f| f == feat) {
             features.push(feat.to_string());
         }
     }
-- 
2.43.0


From b1c2f176013a8c4552af72807bdf99f4f7da276f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:10 +0000
Subject: [PATCH 31/48] fix: mix multi-channel WAV files to mono and scale by
 their width

---
 sanity-check/src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sanity-check/src/lib.rs b/sanity-check/src/lib.rs
index e5a7bee..a596925 100644
--- a/sanity-check/src/lib.rs
+++ b/sanity-check/src/lib.rs
@@ -99,11 +99,21 @@ pub fn read_audio(path: &Path) -> Result<(Vec<f32>, u32), Box<dyn Error>> {
 fn read_wav(path: &Path) -> Result<(Vec<f32>, u32), Box<dyn Error>> {
     let mut reader = WavReader::open(path)?;
     let spec = reader.spec();
+    // Full scale of the stored width; hound refuses widths above 16 bits here.
+    let full_scale = (1i32 << (spec.bits_per_sample.clamp(2, 16) - 1)) - 1;
     let samples: Vec<f32> = reader
         .samples::<i16>()
-        .map(|s| s.map(|v| v as f32 / i16::MAX as f32))
+        .map(|s| s.map(|v| v as f32 / full_scale as f32))
         .collect::<Result<_, _>>()?;
-    Ok((samples, spec.sample_rate))
+    let channels = spec.channels.max(1) as usize;
+    if channels == 1 {
+        return Ok((samples, spec.sample_rate));
+    }
+    let mono = samples
+        .chunks(channels)
+        .map(|frame| frame.iter().sum::<f32>() / channels as f32)
+        .collect();
+    Ok((mono, spec.sample_rate))
 }
 
 pub fn save_png(
-- 
2.43.0


From 2987da4a2e19d18a77e8c53eb0c27583222fab86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:26 +0000
Subject: [PATCH 32/48] fix: put the last bin on the last row of the log scale

---
 src/visual/spectrogram.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/visual/spectrogram.rs b/src/visual/spectrogram.rs
index ac78278..02c0a88 100644
--- a/src/visual/spectrogram.rs
+++ b/src/visual/spectrogram.rs
@@ -215,7 +215,8 @@ pub fn map_bin_to_pixel(bin: usize, max_bin: usize) -> usize {
     } else {
         let log_max = (max_bin as f32 + 1.0).ln();
         let pos = (bin as f32 + 1.0).ln();
-        (max_bin as f32 * pos / log_max).floor() as usize
+        // Dividing first keeps the last bin on the last row: the ratio is exactly 1.
+        (max_bin as f32 * (pos / log_max)).floor() as usize
     }
 }
 
-- 
2.43.0


From 0f4d4fa2131c280960ea48a91948263053456e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:59 +0000
Subject: [PATCH 33/48] fix: let a huge thread setting saturate the parallel
 threshold

---
 src/fft.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 6570b87..de44d1d 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -154,7 +154,7 @@ fn parallel_fft_threshold() -> usize {
                 cache_elems,
                 core::cmp::max(per_core_work, env_parallel_fft_block_size()),
             );
-            per_core_min * env_parallel_fft_threads()
+            per_core_min.saturating_mul(env_parallel_fft_threads())
         }
     })
 }
@@ -276,7 +276,7 @@ fn should_parallelize_fft(n: usize, base_threshold: usize) -> bool {
             cache_elems,
             core::cmp::max(per_core_work, parallel_fft_block_size()),
         );
-        n >= per_core_min * parallel_fft_threads()
+        n >= per_core_min.saturating_mul(parallel_fft_threads())
     }
     #[cfg(not(feature = "std"))]
     {
@@ -302,7 +302,7 @@ fn should_parallelize_fft(n: usize, base_threshold: usize) -> bool {
             cache_elems,
             core::cmp::max(per_core_work, parallel_fft_block_size()),
         );
-        n >= per_core_min * parallel_fft_threads()
+        n >= per_core_min.saturating_mul(parallel_fft_threads())
     }
 }
 
-- 
2.43.0


From 7b36d8ffc405ffb5b6734d1e33a5dcb18fe99800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:59 +0000
Subject: [PATCH 34/48] fix: bound strided transforms without overflow

---
 src/fft.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index de44d1d..7da5bfc 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1190,7 +1190,7 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
         if n == 0 {
             return Ok(());
         }
-        if input.len() < (n - 1) * stride + 1 {
+        if input.is_empty() || (input.len() - 1) / stride < n - 1 {
             return Err(FftError::MismatchedLengths);
         }
         for i in 0..n {
@@ -1251,7 +1251,7 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
         if n == 0 {
             return Ok(());
         }
-        if input.len() < (n - 1) * stride + 1 {
+        if input.is_empty() || (input.len() - 1) / stride < n - 1 {
             return Err(FftError::MismatchedLengths);
         }
         for i in 0..n {
-- 
2.43.0


From 305cbc51a99e627ae82fbabee20024972c5629b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:59 +0000
Subject: [PATCH 35/48] fix: treat frames past a huge hop as silence

---
 src/stft.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/stft.rs b/src/stft.rs
index 68505ec..1f10555 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -89,7 +89,7 @@ pub fn stft<Fft: FftImpl<f32>>(
     }
     let win_len = window.len();
     for (frame_idx, frame) in output.iter_mut().enumerate() {
-        let start = frame_idx * hop_size;
+        let start = frame_idx.saturating_mul(hop_size).min(signal.len());
         frame.resize(win_len, Complex32::new(0.0, 0.0));
         for i in 0..win_len {
             let x = if start + i < signal.len() {
@@ -140,7 +140,7 @@ pub fn istft<Fft: FftImpl<f32>>(
     }
     // Overlap-add
     for (frame_idx, frame) in frames.iter_mut().enumerate() {
-        let start = frame_idx * hop_size;
+        let start = frame_idx.saturating_mul(hop_size).min(output.len());
         fft.ifft(frame)?;
         for i in 0..win_len {
             if start + i < output.len() {
@@ -253,7 +253,7 @@ pub fn parallel<Fft: FftImpl<f32>>(
         .par_iter_mut()
         .enumerate()
         .try_for_each(|(frame_idx, frame)| {
-            let start = frame_idx * hop_size;
+            let start = frame_idx.saturating_mul(hop_size).min(signal.len());
             frame.clear();
             for i in 0..win_len {
                 let x = if start + i < signal.len() {
@@ -315,7 +315,7 @@ pub fn inverse_parallel<Fft: FftImpl<f32>>(
         .par_iter()
         .enumerate()
         .map(|(frame_idx, frame)| {
-            let start = frame_idx * hop_size;
+            let start = frame_idx.saturating_mul(hop_size).min(output.len());
             let mut time_buf = frame.clone();
             let fft_local = ScalarFftImpl::<f32>::default();
             fft_local.ifft(&mut time_buf)?;
@@ -375,6 +375,7 @@ pub fn frame<Fft: FftImpl<f32>>(
     if frame_out.len() != win_len {
         return Err(FftError::MismatchedLengths);
     }
+    let start = start.min(signal.len());
     for i in 0..win_len {
         let x = if start + i < signal.len() {
             signal[start + i] * window[i]
@@ -408,6 +409,7 @@ pub fn inverse_frame<Fft: FftImpl<f32>>(
         return Err(FftError::MismatchedLengths);
     }
     fft.ifft(frame)?;
+    let start = start.min(output.len());
     for i in 0..win_len {
         if start + i < output.len() {
             output[start + i] += frame[i].re * window[i];
-- 
2.43.0


From 0dd47a0c7d9b2295ba3d2a54c70c7d31f7b29026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:59 +0000
Subject: [PATCH 36/48] fix: keep NaN in the Goertzel magnitude

---
 src/goertzel.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/goertzel.rs b/src/goertzel.rs
index 9fd516e..5825876 100644
--- a/src/goertzel.rs
+++ b/src/goertzel.rs
@@ -32,8 +32,8 @@ pub fn goertzel_f32(input: &[f32], sample_rate: f32, target_freq: f32) -> Result
         s_prev = s;
     }
     let power = s_prev2 * s_prev2 + s_prev * s_prev - coeff * s_prev * s_prev2;
-    // Cancellation can leave a tiny negative power.
-    Ok(sqrtf(power.max(0.0)))
+    // Cancellation can leave a tiny negative power; NaN stays NaN.
+    Ok(if power < 0.0 { 0.0 } else { sqrtf(power) })
 }
 
 #[cfg(not(feature = "std"))]
@@ -56,8 +56,8 @@ pub fn goertzel_f32(input: &[f32], sample_rate: f32, target_freq: f32) -> Result
         s_prev = s;
     }
     let power = s_prev2 * s_prev2 + s_prev * s_prev - coeff * s_prev * s_prev2;
-    // Cancellation can leave a tiny negative power.
-    Ok(sqrtf(power.max(0.0)))
+    // Cancellation can leave a tiny negative power; NaN stays NaN.
+    Ok(if power < 0.0 { 0.0 } else { sqrtf(power) })
 }
 
 #[cfg(all(feature = "internal-tests", test))]
-- 
2.43.0


From 6fda30426c1cb1fcba0bb11aa66f44b0d54d873e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:59 +0000
Subject: [PATCH 37/48] fix: remove merge leftovers from the web result getters

---
 web-spectrogram/src/lib.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/web-spectrogram/src/lib.rs b/web-spectrogram/src/lib.rs
index bddb61a..f64481a 100644
--- a/web-spectrogram/src/lib.rs
+++ b/web-spectrogram/src/lib.rs
@@ -120,13 +120,7 @@ impl FftResult {
 
     #[wasm_bindgen(getter)]
     pub fn im(&self) -> Vec<f32> {
-    pub fn re(&self) -> Float32Array {
-        Float32Array::from(self.re.as_slice())
-    }
-
-    #[wasm_bindgen(getter)]
-    pub fn im(&self) -> Float32Array {
-        Float32Array::from(self.im.as_slice())
+        self.im.clone()
     }
 }
 
@@ -164,13 +158,7 @@ impl HaarResult {
 
     #[wasm_bindgen(getter)]
     pub fn diff(&self) -> Vec<f32> {
-    pub fn avg(&self) -> Array {
-        self.avg.iter().map(|&x| JsValue::from_f64(x as f64)).collect()
-    }
-
-    #[wasm_bindgen(getter)]
-    pub fn diff(&self) -> Array {
-        self.diff.iter().map(|&x| JsValue::from_f64(x as f64)).collect()
+        self.diff.clone()
     }
 }
 
-- 
2.43.0


From 1b098a8cbcc7f8c6ac8b4bf9298b74384293750a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:59 +0000
Subject: [PATCH 38/48] fix: make the page script parse again

---
 web-spectrogram/app.mjs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/web-spectrogram/app.mjs b/web-spectrogram/app.mjs
index da8d8b8..898ad58 100644
--- a/web-spectrogram/app.mjs
+++ b/web-spectrogram/app.mjs
@@ -66,8 +66,6 @@ function drawSpectrogramWebGL(gl, canvas, res) {
   gl.compileShader(vs);
 
   const fs = gl.createShader(gl.FRAGMENT_SHADER);
-  gl.shaderSource(
-    fs,
   const fragmentShaderSource = `
     precision highp float;
     varying vec2 v;
@@ -166,6 +164,7 @@ export function drawSpectrogram(
       drawSpectrogramCanvas(canvas, res, colorFn, colormap);
       return;
     }
+  }
   drawSpectrogramCanvas(canvas, res, colorFn, colormap);
 }
 
-- 
2.43.0


From 33debcd4aee13d840e1cc85b5696e6914887e525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:59 +0000
Subject: [PATCH 39/48] fix: use the decimal logarithm in the spectrogram
 shader

---
 web-spectrogram/app.mjs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web-spectrogram/app.mjs b/web-spectrogram/app.mjs
index 898ad58..44df334 100644
--- a/web-spectrogram/app.mjs
+++ b/web-spectrogram/app.mjs
@@ -92,7 +92,7 @@ function drawSpectrogramWebGL(gl, canvas, res) {
     void main() {
       float mag = texture2D(m, v).r;
       float ratio = mag / maxMag;
-      float db = 20.0 * log(max(ratio, 1e-12));
+      float db = 20.0 * log(max(ratio, 1e-12)) / log(10.0);
       float t = (db - FLOOR_DB) / (-FLOOR_DB);
       gl_FragColor = vec4(rainbow(clamp(t, 0.0, 1.0)), 1.0);
     }
-- 
2.43.0


From bcc40fff78a76ff350c4b098841becaa5a93cc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:59 +0000
Subject: [PATCH 40/48] fix: put time across and frequency up the WebGL picture

---
 web-spectrogram/app.mjs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/web-spectrogram/app.mjs b/web-spectrogram/app.mjs
index 44df334..cf29015 100644
--- a/web-spectrogram/app.mjs
+++ b/web-spectrogram/app.mjs
@@ -90,7 +90,8 @@ function drawSpectrogramWebGL(gl, canvas, res) {
       return mix(vec3(1.0, 0.0, 0.0), vec3(1.0, 1.0, 1.0), local);
     }
     void main() {
-      float mag = texture2D(m, v).r;
+      // one texture row per column of the picture, frequency along the row
+      float mag = texture2D(m, vec2(1.0 - v.y, v.x)).r;
       float ratio = mag / maxMag;
       float db = 20.0 * log(max(ratio, 1e-12)) / log(10.0);
       float t = (db - FLOOR_DB) / (-FLOOR_DB);
@@ -129,8 +130,8 @@ function drawSpectrogramWebGL(gl, canvas, res) {
     gl.TEXTURE_2D,
     0,
     gl.RED,
-    width,
     height,
+    width,
     0,
     gl.RED,
     gl.FLOAT,
-- 
2.43.0


From 3eb248c3a58c6ac3205c97f77cda7743191c5ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:59 +0000
Subject: [PATCH 41/48] fix: store the magnitudes in a float texture

---
 web-spectrogram/app.mjs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web-spectrogram/app.mjs b/web-spectrogram/app.mjs
index cf29015..a9cafb3 100644
--- a/web-spectrogram/app.mjs
+++ b/web-spectrogram/app.mjs
@@ -129,7 +129,7 @@ function drawSpectrogramWebGL(gl, canvas, res) {
   gl.texImage2D(
     gl.TEXTURE_2D,
     0,
-    gl.RED,
+    gl.R32F,
     height,
     width,
     0,
-- 
2.43.0


From ed43d5635c1109b875ddb8eea9c8840087cbb0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:45 +0000
Subject: [PATCH 42/48] fix: keep long Kaiser windows with a huge beta accurate
 near the middle

---
 src/window.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/window.rs b/src/window.rs
index 1726f2d..3f49dc5 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -28,9 +28,12 @@ fn bessel0_scaled(x: f32) -> f32 {
     sum * expf(-x)
 }
 
-/// `I0(beta * s) / I0(beta)` for `s` in 0..=1.
-fn bessel0_ratio(beta: f32, s: f32) -> f32 {
-    expf(fabsf(beta) * (s - 1.0)) * bessel0_scaled(beta * s) / bessel0_scaled(beta)
+/// `I0(beta * s) / I0(beta)` with `s = sqrt(1 - r * r)`, for `r` in -1..=1.
+fn bessel0_ratio(beta: f32, r: f32) -> f32 {
+    let s = sqrtf(1.0 - r * r);
+    // s - 1, without the cancellation near the middle of the window
+    let below_one = -r * r / (1.0 + s);
+    expf(fabsf(beta) * below_one) * bessel0_scaled(beta * s) / bessel0_scaled(beta)
 }
 
 /// Generate a Hann window of length `len`.
@@ -70,7 +73,7 @@ pub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {
     (0..len)
         .map(|i| {
             let r = (i as f32 - m) / m;
-            bessel0_ratio(beta, sqrtf(1.0 - r * r))
+            bessel0_ratio(beta, r)
         })
         .collect()
 }
@@ -84,7 +87,7 @@ pub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {
     (0..len)
         .map(|i| {
             let r = (i as f32 - m) / m;
-            bessel0_ratio(beta, sqrtf(1.0 - r * r))
+            bessel0_ratio(beta, r)
         })
         .collect()
 }
-- 
2.43.0


From 51d9eb1b91de8d078fabc0c6d587eadf637c13ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:45 +0000
Subject: [PATCH 43/48] fix: refuse a NaN sample rate or non-finite frequency
 in the Goertzel detector

---
 src/goertzel.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goertzel.rs b/src/goertzel.rs
index 5825876..4e1d467 100644
--- a/src/goertzel.rs
+++ b/src/goertzel.rs
@@ -17,7 +17,7 @@ pub fn goertzel_f32(input: &[f32], sample_rate: f32, target_freq: f32) -> Result
     if input.is_empty() {
         return Err(FftError::EmptyInput);
     }
-    if sample_rate <= 0.0 {
+    if sample_rate.is_nan() || sample_rate <= 0.0 || !target_freq.is_finite() {
         return Err(FftError::InvalidValue);
     }
     let n = input.len() as f32;
@@ -41,7 +41,7 @@ pub fn goertzel_f32(input: &[f32], sample_rate: f32, target_freq: f32) -> Result
     if input.is_empty() {
         return Err(FftError::EmptyInput);
     }
-    if sample_rate <= 0.0 {
+    if sample_rate.is_nan() || sample_rate <= 0.0 || !target_freq.is_finite() {
         return Err(FftError::InvalidValue);
     }
     let n = input.len() as f32;
-- 
2.43.0


From 0c14a4360695422462f8f14458594cc5cc710486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:45 +0000
Subject: [PATCH 44/48] fix: compute mel bin positions in double precision

---
 src/cepstrum.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cepstrum.rs b/src/cepstrum.rs
index 137efe4..24b7ecf 100644
--- a/src/cepstrum.rs
+++ b/src/cepstrum.rs
@@ -6,7 +6,7 @@ extern crate alloc;
 use crate::fft::{Complex32, FftError, FftImpl, ScalarFftImpl};
 use alloc::vec;
 use alloc::vec::Vec;
-use libm::{floorf, log10f, logf, powf, sqrtf};
+use libm::{floor, log10f, logf, powf, sqrtf};
 
 /// Compute the real cepstrum of a real input signal
 pub fn real_cepstrum(input: &[f32]) -> Result<Vec<f32>, FftError> {
@@ -46,7 +46,8 @@ pub fn mel_filterbank(fft_mags: &[f32], sample_rate: f32, num_filters: usize) ->
     }
     let mut bins = vec![0usize; num_filters + 2];
     for (i, &f) in mel_points.iter().enumerate() {
-        bins[i] = floorf(f * (n_fft as f32 + 1.0) / sample_rate) as usize;
+        // the product may exceed the single-precision range
+        bins[i] = floor(f as f64 * (n_fft as f64 + 1.0) / sample_rate as f64) as usize;
     }
     let mut energies = vec![0.0; num_filters];
     for (m_idx, energy) in energies.iter_mut().enumerate() {
-- 
2.43.0


From fd7223c441da1b7389745d1af5f40e2857a9eef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:11 +0000
Subject: [PATCH 45/48] fix: scale inverse transforms in the precision of the
 element type

---
 src/fft.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 7da5bfc..577471b 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1116,7 +1116,7 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
             for c in a.iter_mut() {
                 c.im = -c.im;
             }
-            let scale = T::one() / T::from_f32(m as f32);
+            let scale = T::one() / T::from_f64(m as f64);
             for c in a.iter_mut() {
                 c.re = c.re * scale;
                 c.im = c.im * scale;
@@ -1169,7 +1169,7 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
             c.im = -c.im;
         }
         self.fft(input)?;
-        let scale = T::one() / T::from_f32(n as f32);
+        let scale = T::one() / T::from_f64(n as f64);
         for c in input.iter_mut() {
             c.im = -c.im;
             c.re = c.re * scale;
@@ -2064,7 +2064,7 @@ impl<T: Float> FftPlan<T> {
             c.im = -c.im;
         }
         self.fft(input)?;
-        let scale = T::one() / T::from_f32(self.n as f32);
+        let scale = T::one() / T::from_f64(self.n as f64);
         for c in input.iter_mut() {
             c.im = -c.im;
             c.re = c.re * scale;
-- 
2.43.0


From 82ade6c3379d22aaa5a31d7af0a970edf8b3454f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:11 +0000
Subject: [PATCH 46/48] fix: build DST tables without rounding indices to
 single precision

---
 src/dst.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dst.rs b/src/dst.rs
index 2a013f5..c9c24bb 100644
--- a/src/dst.rs
+++ b/src/dst.rs
@@ -39,11 +39,11 @@ impl<T: Float> DstPlanner<T> {
     }
 
     fn build_table_offset(n: usize, offset: f32) -> Vec<T> {
-        let factor = T::pi() / T::from_f32(n as f32);
+        let factor = T::pi() / T::from_f64(n as f64);
         let off = T::from_f32(offset);
         let mut table = Vec::with_capacity(n);
         for i in 0..n {
-            let angle = factor * (T::from_f32(i as f32) + off);
+            let angle = factor * (T::from_f64(i as f64) + off);
             table.push(angle.sin());
         }
         table
-- 
2.43.0


From 3dacf8d91a8e915824d17415e826755d103e177d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:41 +0000
Subject: [PATCH 47/48] fix: build structure-of-arrays features without std

---
 src/fft.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fft.rs b/src/fft.rs
index 577471b..c5f01ff 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -2112,7 +2112,7 @@ impl<T: Float> FftPlan<T> {
     }
 }
 
-#[cfg(any(feature = "simd", feature = "soa"))]
+#[cfg(all(feature = "std", any(feature = "simd", feature = "soa")))]
 impl FftPlan<f32> {
     pub fn fft_complex_vec(&self, data: &mut crate::num::ComplexVec) -> Result<(), FftError> {
         if data.len() != self.n {
-- 
2.43.0


From 9180c9c0d3de85f299cca5049df1cc30bba2d344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:53 +0000
Subject: [PATCH 48/48] fix: keep the inverse STFT stream's buffers from
 growing with the stream

---
 src/stft.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/stft.rs b/src/stft.rs
index 1f10555..f3bf662 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -479,6 +479,16 @@ impl<'a, Fft: crate::fft::FftImpl<f32>> IstftStream<'a, Fft> {
         }
         self.time_buf.copy_from_slice(frame);
         self.fft.ifft(&mut self.time_buf)?;
+        // Drop the samples handed out by earlier calls, so that the buffers
+        // do not grow with the length of the stream.
+        let done = self.buf_pos.min(self.out_pos);
+        for buf in [&mut self.buffer, &mut self.norm_buf] {
+            let kept = buf.len() - done;
+            buf.copy_within(done.., 0);
+            buf[kept..].fill(0.0);
+        }
+        self.buf_pos -= done;
+        self.out_pos -= done;
         // Window and overlap-add
         for i in 0..self.win_len {
             let win = self.window[i];
-- 
2.43.0

