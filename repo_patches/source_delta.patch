From acf7542356f426f3501830ebb4c884bb4b6755df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 01/12] fix: HopTable with a single frequency panicked on the
 second hop

---
 src/fh.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fh.rs b/src/fh.rs
index 7f3a881..7a1c132 100644
--- a/src/fh.rs
+++ b/src/fh.rs
@@ -40,7 +40,9 @@ impl Iterator for HopTable {
     type Item = f64;
 
     fn next(&mut self) -> Option<f64> {
-        if self.idx == 0 {
+        if self.hopping_table.len() == 1 {
+            Some(self.hopping_table[0])
+        } else if self.idx == 0 {
             self.hopping_table.shuffle(&mut self.rng);
             self.idx += 1;
             Some(self.hopping_table[self.idx - 1])
-- 
2.43.0


From c8a78a79a8e16daa87eca230465de167a388c480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 02/12] fix: power() divided by the last index instead of the
 number of samples

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index bf911e7..61d2d0c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -254,7 +254,7 @@ pub fn energy<I: Iterator<Item = f64>>(signal: I, sample_rate: f64) -> f64 {
 
 pub fn power<I: Iterator<Item = f64>>(signal: I, sample_rate: f64) -> f64 {
     let (count, power) = signal.enumerate().fold((0, 0f64), |acc, (idx, sample)| {
-        (idx, acc.1 + sample.powi(2))
+        (idx + 1, acc.1 + sample.powi(2))
     });
 
     power / (count as f64) / sample_rate
-- 
2.43.0


From b21af48421f94cef593796b93d852036735746e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 03/12] fix: linear_downchirp_centered swept upwards

---
 src/fh_css.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fh_css.rs b/src/fh_css.rs
index 25f6f26..ece8aab 100644
--- a/src/fh_css.rs
+++ b/src/fh_css.rs
@@ -36,7 +36,7 @@ pub fn linear_downchirp_centered(
 ) -> impl Iterator<Item = f64> {
     let f0: f64 = center_freq - bandwidth / 2f64;
     let f1: f64 = center_freq + bandwidth / 2f64;
-    linear_chirp(chirp_rate, sample_rate, f0, f1)
+    linear_chirp(chirp_rate, sample_rate, f1, f0)
 }
 
 pub fn tx_fh_css_signal<I: Iterator<Item = Bit>>(
-- 
2.43.0


From 9e49f0a797c692f87b3019f86b15210bb3f29a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 04/12] fix: HadamardMatrix::key panicked for one code index in
 every cycle

---
 src/hadamard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hadamard.rs b/src/hadamard.rs
index 1d98b74..20664b3 100644
--- a/src/hadamard.rs
+++ b/src/hadamard.rs
@@ -26,7 +26,7 @@ impl HadamardMatrix {
     }
     pub fn key(&self, n: usize) -> &Vec<Bit> {
         // TODO: FIXME: Make it more obvious there are 2^n-1 codes, instad of 2^n.
-        self.matrix.get((n % self.matrix.len()) + 1).unwrap()
+        self.matrix.get((n % (self.matrix.len() - 1)) + 1).unwrap()
     }
 }
 
-- 
2.43.0


From 93f914509d21658d19a4f3976928be9b69702478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 05/12] fix: the chebyshev map left [-1, 1] and diverged to NaN

---
 src/chaos/chebyshev.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chaos/chebyshev.rs b/src/chaos/chebyshev.rs
index 491ed2d..da46339 100644
--- a/src/chaos/chebyshev.rs
+++ b/src/chaos/chebyshev.rs
@@ -4,7 +4,7 @@ pub fn chebyshev(xn: f64) -> f64 {
     let mu = 3f64;
     // 1f64 - 2f64 * xn.powi(2)
     // 2f64 * xn.powi(2) - 1f64
-    mu * xn.powi(3) - (1f64 - mu) * xn
+    mu * xn.powi(3) + (1f64 - mu) * xn
 }
 
 pub struct Chebyshev {
-- 
2.43.0


From 3963bbfd7d76b9f3f68f98a3ac67d543a870b6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 06/12] fix: wchunks emitted an extra all-default chunk after a
 whole number of chunks

---
 src/iter/chunks.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iter/chunks.rs b/src/iter/chunks.rs
index d34b52d..9975ca8 100644
--- a/src/iter/chunks.rs
+++ b/src/iter/chunks.rs
@@ -63,6 +63,10 @@ impl<T: Copy + Default, I: Iterator<Item = T>> Iterator for WholeChunks<T, I> {
                     }
                     None => {
                         self.done = true;
+                        if buf.is_empty() {
+                            // The source ended on a chunk boundary: nothing to pad.
+                            break;
+                        }
                         buf.push(T::default());
                     }
                 }
-- 
2.43.0


From 99b4a1dcd3d169ab0d6bae84ba57bfb3ec3cf8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 07/12] fix: convolve/nonvolve applied the filter reversed and
 misaligned its tail

---
 src/iter/convolution.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/iter/convolution.rs b/src/iter/convolution.rs
index 493b846..4c0394f 100644
--- a/src/iter/convolution.rs
+++ b/src/iter/convolution.rs
@@ -13,6 +13,7 @@ where
     source: I,
     filter: Vec<T>,
     buffer: VecDeque<T>,
+    tail: usize,
 }
 
 impl<T, I> Convolver<T, I>
@@ -26,13 +27,14 @@ where
             source,
             filter,
             buffer: VecDeque::with_capacity(filter_len + 1),
+            tail: 0,
         }
     }
 
     fn _convolve(&self) -> T {
         self.buffer
             .iter()
-            .zip(self.filter.iter().rev())
+            .zip(self.filter.iter().skip(self.tail))
             .map(|(&buf, &filt)| buf * filt)
             .sum()
     }
@@ -60,11 +62,11 @@ where
                 Some(self._convolve())
             }
             None => {
-                // if self.buffer.is_empty() {
-                if self.buffer.len() <= 1 {
+                // The buffer is frozen; slide the filter off its end.
+                self.tail += 1;
+                if self.buffer.is_empty() || self.tail >= self.filter.len() {
                     None
                 } else {
-                    self.buffer.pop_back();
                     Some(self._convolve())
                 }
             }
@@ -80,6 +82,7 @@ where
     source: I,
     filter: Vec<T>,
     buffer: VecDeque<[T; N]>,
+    tail: usize,
 }
 
 impl<T, I, const N: usize> Nonvolver<T, I, N>
@@ -93,6 +96,7 @@ where
             source,
             filter,
             buffer: VecDeque::with_capacity(filter_len + 1),
+            tail: 0,
         }
     }
 
@@ -100,7 +104,7 @@ where
         let mut ret = [T::default(); N];
         self.buffer
             .iter()
-            .zip(self.filter.iter().rev())
+            .zip(self.filter.iter().skip(self.tail))
             .for_each(|(&buf, &filt)| {
                 buf.iter()
                     .enumerate()
@@ -130,10 +134,11 @@ where
                 Some(self._nonvolve())
             }
             None => {
-                if self.buffer.len() <= 1 {
+                // The buffer is frozen; slide the filter off its end.
+                self.tail += 1;
+                if self.buffer.is_empty() || self.tail >= self.filter.len() {
                     None
                 } else {
-                    self.buffer.pop_back();
                     Some(self._nonvolve())
                 }
             }
-- 
2.43.0


From 399807e8bf9c32aeefc66a37d87399f8cfe5814e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:02 +0000
Subject: [PATCH 08/12] verif: guarded (cfg komunikilo_verif) re-exports of
 private items for the verification harness

---
 src/csk.rs    |  5 +++++
 src/lib.rs    | 39 ++++++++++++++++++++++++++++++++++++++-
 src/willie.rs |  5 +++++
 3 files changed, 48 insertions(+), 1 deletion(-)

diff --git a/src/csk.rs b/src/csk.rs
index 8a9033d..e851e52 100644
--- a/src/csk.rs
+++ b/src/csk.rs
@@ -20,6 +20,11 @@ fn rx_baseband_csk<I: Iterator<Item = f64>>(message: I) -> impl Iterator<Item =
         .map(|((sample, chaos_1), chaos_2)| (sample - chaos_1).abs() < (sample - chaos_2).abs())
 }
 
+#[cfg(komunikilo_verif)]
+pub fn verif_rx_baseband_csk<I: Iterator<Item = f64>>(message: I) -> impl Iterator<Item = Bit> {
+    rx_baseband_csk(message)
+}
+
 #[cfg(test)]
 mod tests {
 
diff --git a/src/lib.rs b/src/lib.rs
index 61d2d0c..56e9e52 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,4 @@
-#![allow(unused_macros, dead_code)]
+#![allow(unused_macros, dead_code, unexpected_cfgs)]
 use std::f64::consts::PI;
 
 use num_complex::Complex;
@@ -632,3 +632,40 @@ fn module_with_functions(m: &Bound<'_, PyModule>) -> PyResult<()> {
     m.add_function(wrap_pyfunction!(dcs_detector_sxf, m)?)?;
     Ok(())
 }
+
+/// Private items re-exported for the verification harness.
+#[cfg(komunikilo_verif)]
+pub mod verif {
+    use super::*;
+
+    pub use super::csk::verif_rx_baseband_csk as rx_baseband_csk;
+    pub use super::willie::verif_energy_detector as willie_energy_detector;
+
+    pub fn bch_stream_encode<I: Iterator<Item = Bit>>(data: I) -> impl Iterator<Item = Bit> {
+        bch::bch_stream_encode(data)
+    }
+
+    pub fn bch_stream_decode<I: Iterator<Item = Bit>>(data: I) -> impl Iterator<Item = Bit> {
+        bch::bch_stream_decode(data)
+    }
+
+    pub fn bools_to_u8s<I: Iterator<Item = Bit>>(bools: I) -> impl Iterator<Item = u8> {
+        super::bools_to_u8s(bools)
+    }
+
+    pub fn u8s_to_bools<I: Iterator<Item = u8>>(bytes: I) -> impl Iterator<Item = Bit> {
+        super::u8s_to_bools(bytes)
+    }
+
+    pub fn fftshift<T: Clone>(x: &[T]) -> Vec<T> {
+        super::fftshift(x)
+    }
+
+    pub fn fftshift_mut<T: Copy>(x: &mut [T]) {
+        super::fftshift_mut(x)
+    }
+
+    pub fn hop_table(low: f64, high: f64, num_freqs: usize, seed: u64) -> impl Iterator<Item = f64> {
+        fh::HopTable::new(low, high, num_freqs, seed)
+    }
+}
diff --git a/src/willie.rs b/src/willie.rs
index 793d850..fc4d819 100644
--- a/src/willie.rs
+++ b/src/willie.rs
@@ -23,6 +23,11 @@ fn energy_detector(signal: &[f64], n0: f64) -> bool {
     energy.sqrt() > n0
 }
 
+#[cfg(komunikilo_verif)]
+pub fn verif_energy_detector(signal: &[f64], n0: f64) -> bool {
+    energy_detector(signal, n0)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 36f146e7fa0154c93e44f576c23719e435e57623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:02 +0000
Subject: [PATCH 09/12] fix: fftshift_mut put the first half back in front,
 leaving the slice unshifted

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 56e9e52..3fb73fa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -153,7 +153,8 @@ fn fftshift_mut<T: Copy>(x: &mut [T]) {
     for (i, j) in (pivot..x.len()).enumerate() {
         x[i] = x[j];
     }
-    for (i, item) in (0..pivot).zip(v.into_iter()) {
+    let rest = x.len() - pivot;
+    for (i, item) in (rest..x.len()).zip(v.into_iter()) {
         x[i] = item;
     }
 }
-- 
2.43.0


From d5020112b86f69039193765a10865fd2b1d48ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:32 +0000
Subject: [PATCH 10/12] fix: rrcosfilter tested its singularity at the wrong
 times and scaled only one term by 1/T

---
 src/filters.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/filters.rs b/src/filters.rs
index baf1505..96ecfb2 100644
--- a/src/filters.rs
+++ b/src/filters.rs
@@ -6,14 +6,15 @@ pub fn rrcosfilter(taps: usize, beta: f64, symbol_length: f64, samp_rate: f64) -
         .map(|i| {
             let t = ((i as f64) - (taps as f64) / 2f64) / samp_rate;
             if t == 0f64 {
-                1f64 / ts + beta * (4f64 / PI - 1f64)
-            } else if beta != 0f64 && (t == ts / (2f64 * beta) || ts == -ts / (2f64 * beta)) {
+                (1f64 / ts) * (1f64 + beta * (4f64 / PI - 1f64))
+            } else if beta != 0f64 && (t == ts / (4f64 * beta) || t == -ts / (4f64 * beta)) {
                 beta / (ts * 2f64.sqrt())
                     * ((1f64 + 2f64 / PI) * (PI / (4f64 * beta)).sin()
                         + (1f64 - 2f64 / PI) * (PI / (4f64 * beta)).cos())
             } else {
-                ((1f64 / ts) * (PI * t / ts * (1f64 - beta)).sin()
-                    + 4f64 * beta * t / ts * (PI * t / ts * (1f64 + beta)).cos())
+                (1f64 / ts)
+                    * ((PI * t / ts * (1f64 - beta)).sin()
+                        + 4f64 * beta * t / ts * (PI * t / ts * (1f64 + beta)).cos())
                     / (PI * t / ts * (1f64 - (4f64 * beta * t / ts).powi(2)))
             }
         })
-- 
2.43.0


From cc1f8579401bc99b02b4eec89616abef20c6852f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:32 +0000
Subject: [PATCH 11/12] fix: CostasLoop multiplied by the phase estimate
 instead of rotating by it, so its output stayed zero

---
 src/costas.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/costas.rs b/src/costas.rs
index 5147611..2af2873 100644
--- a/src/costas.rs
+++ b/src/costas.rs
@@ -17,7 +17,7 @@ impl CostasLoop {
     }
 
     pub fn update(&mut self, sample: Complex<f64>) -> Complex<f64> {
-        let vco_out = self.vco_phase * Complex::<f64>::new(0f64, -1f64);
+        let vco_out = (self.vco_phase * Complex::<f64>::new(0f64, -1f64)).exp();
         let out = sample * vco_out;
 
         let error = out.re * out.im;
-- 
2.43.0


From 064e3663a31a4f6e29bd25d45bb02d28d741e71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:32 +0000
Subject: [PATCH 12/12] verif: guarded (cfg komunikilo_verif) re-exports of
 rrcosfilter and CostasLoop

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3fb73fa..0d8d8cd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -639,7 +639,9 @@ fn module_with_functions(m: &Bound<'_, PyModule>) -> PyResult<()> {
 pub mod verif {
     use super::*;
 
+    pub use super::costas::CostasLoop;
     pub use super::csk::verif_rx_baseband_csk as rx_baseband_csk;
+    pub use super::filters::rrcosfilter;
     pub use super::willie::verif_energy_detector as willie_energy_detector;
 
     pub fn bch_stream_encode<I: Iterator<Item = Bit>>(data: I) -> impl Iterator<Item = Bit> {
-- 
2.43.0

