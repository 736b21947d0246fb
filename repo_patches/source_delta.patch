From d776323adb167f3441b63058aa3f45ae4b924a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:19 +0000
Subject: [PATCH 1/8] fix: reset the last output in OneZero::clear and
 TwoZero::clear

---
 src/filter/one_zero.rs | 1 +
 src/filter/two_zero.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/filter/one_zero.rs b/src/filter/one_zero.rs
index 0e9dd3f..2d69777 100644
--- a/src/filter/one_zero.rs
+++ b/src/filter/one_zero.rs
@@ -61,6 +61,7 @@ impl<T> Processor<T> for OneZero<T> where T: Float {
 
   fn clear(&mut self) {
     self.x_z1 = num::zero();
+    self.output = num::zero();
   }
 
   fn last_out(&self) -> T {
diff --git a/src/filter/two_zero.rs b/src/filter/two_zero.rs
index d9955a4..963503e 100644
--- a/src/filter/two_zero.rs
+++ b/src/filter/two_zero.rs
@@ -68,6 +68,7 @@ impl<T> Processor<T> for TwoZero<T> where T: Float {
   fn clear(&mut self) {
     self.x_z1 = num::zero();
     self.x_z2 = num::zero();
+    self.output = num::zero();
   }
 
   fn last_out(&self) -> T {
-- 
2.43.0


From f26be9a1d06e40321927848fc97cd45b9819dd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:19 +0000
Subject: [PATCH 2/8] fix: do not panic in process_block on an empty block

---
 src/traits.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/traits.rs b/src/traits.rs
index 9448140..3ec1699 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -35,12 +35,13 @@ pub trait Processor<T: Float> {
   fn process(&mut self, sample: T) -> T;
 
   /// Processes a contiguous sequence of samples, calling `process()` on each
-  /// sample.
+  /// sample. Returns the last computed output sample, which an empty block
+  /// leaves as it was.
   fn process_block(&mut self, samples: &mut [T]) -> T {
     for sample in samples.iter_mut() {
       *sample = self.process(*sample);
     }
-    *samples.last().unwrap()
+    self.last_out()
   }
 
   /// Resets memory of all previous input and output to zero.
-- 
2.43.0


From 579452616738379c21a6b00184c49214b83fcfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:19 +0000
Subject: [PATCH 3/8] fix: report the remaining length of window iterators

len() returned the total size after elements had been consumed, and
size_hint() was left at (0, None), so that ExactSizeIterator adaptors such
as zip().len() panicked.
---
 src/window/bartlett.rs        | 6 +++++-
 src/window/blackman.rs        | 6 +++++-
 src/window/blackman_harris.rs | 6 +++++-
 src/window/hamming.rs         | 6 +++++-
 src/window/hann.rs            | 6 +++++-
 src/window/triangular.rs      | 6 +++++-
 6 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/window/bartlett.rs b/src/window/bartlett.rs
index c3d456a..4adee83 100644
--- a/src/window/bartlett.rs
+++ b/src/window/bartlett.rs
@@ -46,11 +46,15 @@ impl<T> Iterator for BartlettIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    (self.len(), Some(self.len()))
+  }
 }
 
 impl<T> ExactSizeIterator for BartlettIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/blackman.rs b/src/window/blackman.rs
index aef628d..eb25eb7 100644
--- a/src/window/blackman.rs
+++ b/src/window/blackman.rs
@@ -49,11 +49,15 @@ impl<T> Iterator for BlackmanIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    (self.len(), Some(self.len()))
+  }
 }
 
 impl<T> ExactSizeIterator for BlackmanIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/blackman_harris.rs b/src/window/blackman_harris.rs
index 161d932..d5ac52e 100644
--- a/src/window/blackman_harris.rs
+++ b/src/window/blackman_harris.rs
@@ -51,11 +51,15 @@ impl<T> Iterator for BlackmanHarrisIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    (self.len(), Some(self.len()))
+  }
 }
 
 impl<T> ExactSizeIterator for BlackmanHarrisIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/hamming.rs b/src/window/hamming.rs
index fc568e2..d4d7948 100644
--- a/src/window/hamming.rs
+++ b/src/window/hamming.rs
@@ -47,11 +47,15 @@ impl<T> Iterator for HammingIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    (self.len(), Some(self.len()))
+  }
 }
 
 impl<T> ExactSizeIterator for HammingIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/hann.rs b/src/window/hann.rs
index eca348e..ab3bc7a 100644
--- a/src/window/hann.rs
+++ b/src/window/hann.rs
@@ -46,11 +46,15 @@ impl<T> Iterator for HannIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    (self.len(), Some(self.len()))
+  }
 }
 
 impl<T> ExactSizeIterator for HannIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/triangular.rs b/src/window/triangular.rs
index f646116..35cb5a2 100644
--- a/src/window/triangular.rs
+++ b/src/window/triangular.rs
@@ -48,11 +48,15 @@ impl<T> Iterator for TriangularIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    (self.len(), Some(self.len()))
+  }
 }
 
 impl<T> ExactSizeIterator for TriangularIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
-- 
2.43.0


From 848ab3078676a67a2f33585c832e0a404bf6c78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:19 +0000
Subject: [PATCH 4/8] fix: single point windows are one instead of NaN

---
 src/window/bartlett.rs        | 5 +++++
 src/window/blackman.rs        | 5 +++++
 src/window/blackman_harris.rs | 5 +++++
 src/window/hamming.rs         | 5 +++++
 src/window/hann.rs            | 5 +++++
 5 files changed, 25 insertions(+)

diff --git a/src/window/bartlett.rs b/src/window/bartlett.rs
index 4adee83..acfa8c9 100644
--- a/src/window/bartlett.rs
+++ b/src/window/bartlett.rs
@@ -21,6 +21,11 @@ impl<T> BartlettIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    // The formula is undefined (0/0) for a single point window
+    if self.size == 1 {
+      return T::one();
+    }
+
     let one: T = T::one();
     let two: T = T::two();
     let index_float    : T = num::cast(self.index).unwrap();
diff --git a/src/window/blackman.rs b/src/window/blackman.rs
index eb25eb7..1f26946 100644
--- a/src/window/blackman.rs
+++ b/src/window/blackman.rs
@@ -23,6 +23,11 @@ impl<T> BlackmanIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    // The formula is undefined (0/0) for a single point window
+    if self.size == 1 {
+      return T::one();
+    }
+
     let two: T = T::two();
     let index_float    : T = num::cast(self.index).unwrap();
     let size_minus_one : T = num::cast(self.size - 1).unwrap();
diff --git a/src/window/blackman_harris.rs b/src/window/blackman_harris.rs
index d5ac52e..839a2c1 100644
--- a/src/window/blackman_harris.rs
+++ b/src/window/blackman_harris.rs
@@ -23,6 +23,11 @@ impl<T> BlackmanHarrisIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    // The formula is undefined (0/0) for a single point window
+    if self.size == 1 {
+      return T::one();
+    }
+
     let two            : T = T::two();
     let three          : T = num::cast(3f64).unwrap();
     let index_float    : T = num::cast(self.index).unwrap();
diff --git a/src/window/hamming.rs b/src/window/hamming.rs
index d4d7948..2fbfde1 100644
--- a/src/window/hamming.rs
+++ b/src/window/hamming.rs
@@ -21,6 +21,11 @@ impl<T> HammingIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    // The formula is undefined (0/0) for a single point window
+    if self.size == 1 {
+      return T::one();
+    }
+
     let one: T = T::one();
     let two: T = T::two();
     let index_float    : T = num::cast(self.index).unwrap();
diff --git a/src/window/hann.rs b/src/window/hann.rs
index ab3bc7a..234b5f1 100644
--- a/src/window/hann.rs
+++ b/src/window/hann.rs
@@ -21,6 +21,11 @@ impl<T> HannIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    // The formula is undefined (0/0) for a single point window
+    if self.size == 1 {
+      return T::one();
+    }
+
     let one : T = T::one();
     let two : T = T::two();
     let half: T = num::cast(0.5f64).unwrap();
-- 
2.43.0


From 66cfe7ef6314c8d95988c3bf779b3e3a76019c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:48 +0000
Subject: [PATCH 5/8] fix: keep the delay and the stored samples when growing a
 delay line

set_max_delay() appended the new space at the end of the ring buffer, in
the middle of the stored signal: the effective delay no longer matched
get_delay() and stored samples moved to other tap offsets.
---
 src/delay/linear_delay.rs | 8 +++++++-
 src/delay/mod.rs          | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/delay/linear_delay.rs b/src/delay/linear_delay.rs
index 689a243..7eac77a 100644
--- a/src/delay/linear_delay.rs
+++ b/src/delay/linear_delay.rs
@@ -73,7 +73,13 @@ impl<T> LinearDelay<T> where T: Float {
   /// Set the maximum delay-line length, in samples.
   pub fn set_max_delay(&mut self, delay: usize) {
     if delay < self.memory.len() { return; }
-    self.memory.resize(delay + 1, num::zero());
+    // Make room between the newest and the oldest sample, so that all stored
+    // samples keep their distance from the write pointer
+    let oldest = self.memory.split_off(self.write_ptr);
+    self.memory.resize(delay + 1 - oldest.len(), num::zero());
+    self.memory.extend(oldest);
+    let current_delay = self.delay;
+    self.set_delay(current_delay);
   }
 
   /// Returns the maximum delay-line length, in samples.
diff --git a/src/delay/mod.rs b/src/delay/mod.rs
index bca6508..7077573 100644
--- a/src/delay/mod.rs
+++ b/src/delay/mod.rs
@@ -65,7 +65,13 @@ impl<T> Delay<T> where T: Float {
   pub fn set_max_delay(&mut self, delay: usize) {
     if delay < self.memory.len() { return; }
     else {
-      self.memory.resize(delay + 1, num::zero());
+      // Make room between the newest and the oldest sample, so that all stored
+      // samples keep their distance from the write pointer
+      let oldest = self.memory.split_off(self.write_ptr);
+      self.memory.resize(delay + 1 - oldest.len(), num::zero());
+      self.memory.extend(oldest);
+      let current_delay = self.delay;
+      self.set_delay(current_delay);
     }
   }
 
-- 
2.43.0


From dbfdfbb63cee8aed5a48324bb33937acc2d432df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:48 +0000
Subject: [PATCH 6/8] fix: derive the LinearDelay read position without f32
 rounding

The read position was computed as write position minus delay in f32. A
result that rounded up to the memory size was wrapped to zero but kept as
the fraction, giving interpolation weights of len and 1-len; and for long
lines the fraction was quantised by the magnitude of the write position.
---
 src/delay/linear_delay.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/delay/linear_delay.rs b/src/delay/linear_delay.rs
index 7eac77a..7fcdb00 100644
--- a/src/delay/linear_delay.rs
+++ b/src/delay/linear_delay.rs
@@ -100,21 +100,22 @@ impl<T> LinearDelay<T> where T: Float {
       delay_time = 0f32;
     }
 
-    let mut read_ptr_integer: f32 = self.write_ptr as f32 - delay_time;
-    self.delay = delay_time;
-
-    while read_ptr_integer < 0f32 {
-      read_ptr_integer += self.memory.len() as f32;
+    // Whole samples to step back, never more than the memory holds
+    let delay_ceil = delay_time.ceil();
+    let mut read_offset = delay_ceil as usize;
+    if read_offset >= self.memory.len() {
+      read_offset = self.memory.len() - 1;
     }
+    self.delay = delay_time;
 
     // save integer part
-    self.read_ptr = read_ptr_integer as usize;
-    if self.read_ptr == self.memory.len() {
-      self.read_ptr = 0;
+    self.read_ptr = self.write_ptr + self.memory.len() - read_offset;
+    if self.read_ptr >= self.memory.len() {
+      self.read_ptr -= self.memory.len();
     }
 
     // save fractional part
-    self.alpha = num::cast(read_ptr_integer - self.read_ptr as f32).unwrap();
+    self.alpha = num::cast(delay_ceil - delay_time).unwrap();
     self.om_alpha = T::one() - self.alpha;
   }
 
-- 
2.43.0


From 2c8118ace8427ed32536087c6fb706916aa4f559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:48 +0000
Subject: [PATCH 7/8] fix: do not cache the look-ahead of LinearDelay

next_out() cached its result and process() returned it even if the delay,
a stored sample or the whole memory (clear) had changed in between, or if
the delay was shorter than one sample.
---
 src/delay/linear_delay.rs | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/delay/linear_delay.rs b/src/delay/linear_delay.rs
index 7fcdb00..a45b2e6 100644
--- a/src/delay/linear_delay.rs
+++ b/src/delay/linear_delay.rs
@@ -15,8 +15,6 @@ pub struct LinearDelay<T> {
   /// Delay time as a number of samples, which must be less than or equal to
   /// the size of the delay internal memory.
   delay: f32,
-  do_next_out: bool,
-  next_out: T,
   // Interpolation multiplers
   alpha: T,
   om_alpha: T
@@ -60,8 +58,6 @@ impl<T> LinearDelay<T> where T: Float {
         read_ptr: 0,
         write_ptr: 0,
         delay: 0f32,
-        do_next_out: true,
-        next_out: num::zero(),
         alpha: num::zero(),
         om_alpha: num::zero()
       };
@@ -126,22 +122,15 @@ impl<T> LinearDelay<T> where T: Float {
 
   /// Returns the value that will be output by the next call to `tick()`.
   pub fn next_out(&mut self) -> T {
-    if self.do_next_out {
-      // First half of interpolation
-      self.next_out = self.memory[self.read_ptr] * self.om_alpha;
-      // Second half
-      if self.read_ptr < self.memory.len() - 1 {
-        self.next_out = self.next_out
-                      + (self.memory[self.read_ptr + 1] * self.alpha);
-      }
-      else {
-        self.next_out = self.next_out + (self.memory[0] * self.alpha);
-      }
-
-      self.do_next_out = false
+    // First half of interpolation
+    let next_out = self.memory[self.read_ptr] * self.om_alpha;
+    // Second half
+    if self.read_ptr < self.memory.len() - 1 {
+      next_out + (self.memory[self.read_ptr + 1] * self.alpha)
+    }
+    else {
+      next_out + (self.memory[0] * self.alpha)
     }
-
-    return self.next_out;
   }
 }
 
@@ -154,7 +143,6 @@ impl<T> Processor<T> for LinearDelay<T> where T: Float {
 
     // interpolate
     self.output = self.next_out();
-    self.do_next_out = true;
 
     // increment read_ptr
     self.read_ptr += 1;
-- 
2.43.0


From f18998fed8790f95fc4f252c70883cfecf694cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:50 +0000
Subject: [PATCH 8/8] fix: a whole-sample LinearDelay reads one sample only

The weight-zero neighbour was still multiplied in; at delay 0 that is the cell
written max samples ago, so a non-finite sample came back then.
---
 src/delay/linear_delay.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/delay/linear_delay.rs b/src/delay/linear_delay.rs
index a45b2e6..2bfc24f 100644
--- a/src/delay/linear_delay.rs
+++ b/src/delay/linear_delay.rs
@@ -122,6 +122,12 @@ impl<T> LinearDelay<T> where T: Float {
 
   /// Returns the value that will be output by the next call to `tick()`.
   pub fn next_out(&mut self) -> T {
+    // A whole-sample delay involves a single sample, the neighbouring cell may
+    // hold anything
+    if self.alpha == num::zero() {
+      return self.memory[self.read_ptr];
+    }
+
     // First half of interpolation
     let next_out = self.memory[self.read_ptr] * self.om_alpha;
     // Second half
-- 
2.43.0

