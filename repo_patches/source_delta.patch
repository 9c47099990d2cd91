From 2d1f94b7866386bc5e4676920083a05149cbfcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:21 +0000
Subject: [PATCH 1/9] fix: Hadamard key() no longer panics for the last index
 of each cycle

The row index ran over 1..=len, so n = len-1 (mod len) asked for a row past the end.
---
 src/hadamard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hadamard.rs b/src/hadamard.rs
index 1d98b74..20664b3 100644
--- a/src/hadamard.rs
+++ b/src/hadamard.rs
@@ -26,7 +26,7 @@ impl HadamardMatrix {
     }
     pub fn key(&self, n: usize) -> &Vec<Bit> {
         // TODO: FIXME: Make it more obvious there are 2^n-1 codes, instad of 2^n.
-        self.matrix.get((n % self.matrix.len()) + 1).unwrap()
+        self.matrix.get((n % (self.matrix.len() - 1)) + 1).unwrap()
     }
 }
 
-- 
2.43.0


From 01a7055dcc618439dc6b92ee744457e1ca6bbbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:52 +0000
Subject: [PATCH 2/9] fix: linear_downchirp_centered sweeps downwards

It was a copy of the upchirp: both swept from the low to the high edge.
---
 src/fh_css.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fh_css.rs b/src/fh_css.rs
index 25f6f26..ece8aab 100644
--- a/src/fh_css.rs
+++ b/src/fh_css.rs
@@ -36,7 +36,7 @@ pub fn linear_downchirp_centered(
 ) -> impl Iterator<Item = f64> {
     let f0: f64 = center_freq - bandwidth / 2f64;
     let f1: f64 = center_freq + bandwidth / 2f64;
-    linear_chirp(chirp_rate, sample_rate, f0, f1)
+    linear_chirp(chirp_rate, sample_rate, f1, f0)
 }
 
 pub fn tx_fh_css_signal<I: Iterator<Item = Bit>>(
-- 
2.43.0


From e6ae065cf3b49a89d673ef3c28ce62fe210a5a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:24 +0000
Subject: [PATCH 3/9] fix: keep the cubic chaotic map bounded

mu*x^3 - (1-mu)*x leaves [-1, 1] and overflows; the cubic map adds (1-mu)*x.
---
 src/chaos/chebyshev.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chaos/chebyshev.rs b/src/chaos/chebyshev.rs
index 491ed2d..da46339 100644
--- a/src/chaos/chebyshev.rs
+++ b/src/chaos/chebyshev.rs
@@ -4,7 +4,7 @@ pub fn chebyshev(xn: f64) -> f64 {
     let mu = 3f64;
     // 1f64 - 2f64 * xn.powi(2)
     // 2f64 * xn.powi(2) - 1f64
-    mu * xn.powi(3) - (1f64 - mu) * xn
+    mu * xn.powi(3) + (1f64 - mu) * xn
 }
 
 pub struct Chebyshev {
-- 
2.43.0


From 2b034318c78ffaccfb9814cbfe5d1e65a70342c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:02 +0000
Subject: [PATCH 4/9] fix: power() divides by the number of samples

It divided by the index of the last sample.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index bf911e7..61d2d0c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -254,7 +254,7 @@ pub fn energy<I: Iterator<Item = f64>>(signal: I, sample_rate: f64) -> f64 {
 
 pub fn power<I: Iterator<Item = f64>>(signal: I, sample_rate: f64) -> f64 {
     let (count, power) = signal.enumerate().fold((0, 0f64), |acc, (idx, sample)| {
-        (idx, acc.1 + sample.powi(2))
+        (idx + 1, acc.1 + sample.powi(2))
     });
 
     power / (count as f64) / sample_rate
-- 
2.43.0


From 85abdc39a801f1e888ddacb3e17c7374944a1a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:39 +0000
Subject: [PATCH 5/9] fix: a hop table with a single frequency no longer panics

The second hop indexed past the end of the table.
---
 src/fh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fh.rs b/src/fh.rs
index 7f3a881..08244c1 100644
--- a/src/fh.rs
+++ b/src/fh.rs
@@ -42,8 +42,8 @@ impl Iterator for HopTable {
     fn next(&mut self) -> Option<f64> {
         if self.idx == 0 {
             self.hopping_table.shuffle(&mut self.rng);
-            self.idx += 1;
-            Some(self.hopping_table[self.idx - 1])
+            self.idx = 1 % self.hopping_table.len();
+            Some(self.hopping_table[0])
         } else if self.idx == self.hopping_table.len() - 1 {
             self.idx = 0;
             Some(self.hopping_table[self.hopping_table.len() - 1])
-- 
2.43.0


From 1348771065c0ff88332ca854048faf4783596dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:11 +0000
Subject: [PATCH 6/9] fix: wchunks no longer appends an all-padding chunk

A stream whose length is a multiple of the chunk size gained one extra chunk.
---
 src/iter/chunks.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iter/chunks.rs b/src/iter/chunks.rs
index d34b52d..6369248 100644
--- a/src/iter/chunks.rs
+++ b/src/iter/chunks.rs
@@ -63,6 +63,9 @@ impl<T: Copy + Default, I: Iterator<Item = T>> Iterator for WholeChunks<T, I> {
                     }
                     None => {
                         self.done = true;
+                        if buf.is_empty() {
+                            break;
+                        }
                         buf.push(T::default());
                     }
                 }
-- 
2.43.0


From 0a6d54abc3bf5d85087429f3375957699b2eb98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:51 +0000
Subject: [PATCH 7/9] fix: convolve and nonvolve apply the taps in order

The taps were applied reversed, and the tail dropped the oldest item without
shifting the taps, so only constant filters gave the linear convolution.
---
 src/iter/convolution.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/iter/convolution.rs b/src/iter/convolution.rs
index 493b846..471ec5a 100644
--- a/src/iter/convolution.rs
+++ b/src/iter/convolution.rs
@@ -13,6 +13,7 @@ where
     source: I,
     filter: Vec<T>,
     buffer: VecDeque<T>,
+    drained: usize,
 }
 
 impl<T, I> Convolver<T, I>
@@ -26,13 +27,14 @@ where
             source,
             filter,
             buffer: VecDeque::with_capacity(filter_len + 1),
+            drained: 0,
         }
     }
 
     fn _convolve(&self) -> T {
         self.buffer
             .iter()
-            .zip(self.filter.iter().rev())
+            .zip(self.filter.iter().skip(self.drained))
             .map(|(&buf, &filt)| buf * filt)
             .sum()
     }
@@ -60,11 +62,11 @@ where
                 Some(self._convolve())
             }
             None => {
-                // if self.buffer.is_empty() {
-                if self.buffer.len() <= 1 {
+                // The newest item now lines up with one tap later.
+                if self.buffer.is_empty() || self.drained + 1 >= self.filter.len() {
                     None
                 } else {
-                    self.buffer.pop_back();
+                    self.drained += 1;
                     Some(self._convolve())
                 }
             }
@@ -80,6 +82,7 @@ where
     source: I,
     filter: Vec<T>,
     buffer: VecDeque<[T; N]>,
+    drained: usize,
 }
 
 impl<T, I, const N: usize> Nonvolver<T, I, N>
@@ -93,6 +96,7 @@ where
             source,
             filter,
             buffer: VecDeque::with_capacity(filter_len + 1),
+            drained: 0,
         }
     }
 
@@ -100,7 +104,7 @@ where
         let mut ret = [T::default(); N];
         self.buffer
             .iter()
-            .zip(self.filter.iter().rev())
+            .zip(self.filter.iter().skip(self.drained))
             .for_each(|(&buf, &filt)| {
                 buf.iter()
                     .enumerate()
@@ -130,10 +134,10 @@ where
                 Some(self._nonvolve())
             }
             None => {
-                if self.buffer.len() <= 1 {
+                if self.buffer.is_empty() || self.drained + 1 >= self.filter.len() {
                     None
                 } else {
-                    self.buffer.pop_back();
+                    self.drained += 1;
                     Some(self._nonvolve())
                 }
             }
-- 
2.43.0


From d20cb10b8f8391aaf584a0525948e4160847a8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:05 +0000
Subject: [PATCH 8/9] fix: awgn_complex adds noise to both quadratures

Only the real part of each sample was noisy.
---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 61d2d0c..b9930c1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -223,7 +223,12 @@ pub fn awgn_complex<I: Iterator<Item = Complex<f64>>>(
                 .unwrap()
                 .sample_iter(rand::thread_rng()),
         )
-        .map(|(sample, noise)| sample + noise)
+        .zip(
+            Normal::new(0f64, sigma)
+                .unwrap()
+                .sample_iter(rand::thread_rng()),
+        )
+        .map(|((sample, re), im)| sample + Complex::new(re, im))
 }
 
 pub fn awgn<I: Iterator<Item = f64>>(signal: I, sigma: f64) -> impl Iterator<Item = f64> {
-- 
2.43.0


From 6eaaf45bdb0fc8b5bc7b334d79863c953b7349dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:04 +0000
Subject: [PATCH 9/9] fix: rx_ofdm_qpsk_signal correlates each symbol over its
 own samples

The matched filter was sampled one sample late, so every decision used the
first sample of the next symbol instead of its own, and with one sample per
symbol the first symbol was lost.
---
 src/ofdm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ofdm.rs b/src/ofdm.rs
index bbaabf2..2d471d6 100644
--- a/src/ofdm.rs
+++ b/src/ofdm.rs
@@ -139,8 +139,8 @@ pub fn rx_ofdm_qpsk_signal<I: Iterator<Item = f64>>(
         })
         .nonvolve(filter)
         .map(|s_i| Complex::new(s_i[0], s_i[1]))
-        .take_every(samples_per_symbol)
-        .skip(1);
+        .skip(samples_per_symbol - 1)
+        .take_every(samples_per_symbol);
 
     let qpsk_symbols = rx_baseband_ofdm_signal(ofdm_symbols, subcarriers, pilots);
     rx_baseband_qpsk_signal(qpsk_symbols)
-- 
2.43.0

