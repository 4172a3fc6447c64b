From cdb23d2bf157924531130f6698ee947ef97b826c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 01/71] fix: avoid out of bounds pointers for empty slices in
 the SIMD edge iterators

---
 vector/src/simd_extensions/simd_partition.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vector/src/simd_extensions/simd_partition.rs b/vector/src/simd_extensions/simd_partition.rs
index a28b391..7298d63 100644
--- a/vector/src/simd_extensions/simd_partition.rs
+++ b/vector/src/simd_extensions/simd_partition.rs
@@ -30,9 +30,9 @@ impl<'a, T> EdgeIteratorMut<'a, T> {
         unsafe {
             EdgeIteratorMut {
                 pos: start,
-                left: start.offset(left - 1),
+                left: start.offset(left),
                 right: start.offset(len - right),
-                end: start.offset(len - 1),
+                end: start.offset(len),
                 _marker: PhantomData,
             }
         }
@@ -45,11 +45,11 @@ impl<'a, T> Iterator for EdgeIteratorMut<'a, T> {
     fn next(&mut self) -> Option<&'a mut T> {
         unsafe {
             // Jump from end of left to right.
-            if self.pos > self.left && self.pos < self.right {
+            if self.pos >= self.left && self.pos < self.right {
                 self.pos = self.right;
             }
 
-            if self.pos > self.end {
+            if self.pos >= self.end {
                 None
             } else {
                 let value = &mut *self.pos;
@@ -81,10 +81,10 @@ impl<'a, T> IndexedEdgeIteratorMut<'a, T> {
             IndexedEdgeIteratorMut {
                 pos: start,
                 idx: 0,
-                left: start.offset(left - 1),
+                left: start.offset(left),
                 right_idx: len - right,
                 right: start.offset(len - right),
-                end: start.offset(len - 1),
+                end: start.offset(len),
                 _marker: PhantomData,
             }
         }
@@ -97,12 +97,12 @@ impl<'a, T> Iterator for IndexedEdgeIteratorMut<'a, T> {
     fn next(&mut self) -> Option<(isize, &'a mut T)> {
         unsafe {
             // Jump from end of left to right.
-            if self.pos > self.left && self.pos < self.right {
+            if self.pos >= self.left && self.pos < self.right {
                 self.pos = self.right;
                 self.idx = self.right_idx;
             }
 
-            if self.pos > self.end {
+            if self.pos >= self.end {
                 None
             } else {
                 let value = &mut *self.pos;
-- 
2.43.0


From 4b7e67fd59c17a9dceb089a5605db9b1495b04e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 02/71] fix: inverse swap of halves for a vector with a single
 point

---
 vector/src/vector_types/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/mod.rs b/vector/src/vector_types/mod.rs
index 55b78cc..99cde12 100644
--- a/vector/src/vector_types/mod.rs
+++ b/vector/src/vector_types/mod.rs
@@ -181,7 +181,7 @@ where
     } else {
         let step = if forward { len / 2 } else { len / 2 + 1 };
         let mut temp = data[0];
-        let mut pos = step;
+        let mut pos = step % len;
         for _ in 0..len {
             let pos_new = (pos + step) % len;
             mem::swap(&mut temp, &mut data[pos]);
-- 
2.43.0


From 894d435261c550871ac3e9112cd2f9561ef2186b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 03/71] fix: register alignment of slices which do not start at
 a register boundary

---
 vector/src/simd_extensions/mod.rs                  |  7 +++++--
 vector/src/vector_types/time_freq/interpolation.rs | 10 ++++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/vector/src/simd_extensions/mod.rs b/vector/src/simd_extensions/mod.rs
index fabe613..442a5d2 100644
--- a/vector/src/simd_extensions/mod.rs
+++ b/vector/src/simd_extensions/mod.rs
@@ -196,8 +196,11 @@ macro_rules! simd_generic_impl {
                 let addr = array.as_ptr();
                 let left = get_alignment_offset(addr as usize, mem::size_of::<Self>());
                 assert!(left % mem::size_of::<$data_type>() == 0);
-                let left = left / mem::size_of::<$data_type>();
-                if left + Self::LEN > data_length {
+                // Number of elements up to the next register boundary
+                let left = (Self::LEN - left / mem::size_of::<$data_type>()) % Self::LEN;
+                // Complex numbers must not be split, an odd number of elements
+                // can thus not be skipped
+                if left % 2 != 0 || left + Self::LEN > data_length {
                     SimdPartition::new_all_scalar(data_length)
                 } else {
                     let right = (data_length - left) % Self::LEN;
diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index c1cdfe0..ef044b7 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -238,13 +238,19 @@ where
             let partition = Reg::calc_data_alignment_reqs(&data[0..data_len]);
             let left_points = partition.left / step;
             let simd = Reg::array_to_regs(partition.center(data));
+            // Without any SIMD register all points are on the edge
+            let (edge_left, edge_right) = if simd.is_empty() {
+                (len, 0)
+            } else {
+                (scalar_len, scalar_len)
+            };
             // Length of a SIMD reg relative to the length of type T
             // which is 1 for real numbers or 2 for complex numbers
             let simd_len_in_t = Reg::LEN / step;
             Chunk::execute_with_range(
                 Complexity::Large,
                 &self.multicore_settings,
-                &mut dest[scalar_len..len - scalar_len],
+                &mut dest[edge_left..len - edge_right],
                 1,
                 simd,
                 move |dest_range, range, simd| {
@@ -275,7 +281,7 @@ where
             );
 
             let data = convert(&data[0..data_len]);
-            for (i, num) in IndexedEdgeIteratorMut::new(dest, scalar_len, scalar_len) {
+            for (i, num) in IndexedEdgeIteratorMut::new(dest, edge_left, edge_right) {
                 (*num) = Self::interpolate_priv_simd_step(
                     i as usize,
                     interpolation_factor,
-- 
2.43.0


From 63569fedeade524f90f8560c27f8c1910ac9c3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 04/71] fix: a vector must not claim more elements than its
 storage holds after trading with a fixed buffer

---
 vector/src/vector_types/support_core.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vector/src/vector_types/support_core.rs b/vector/src/vector_types/support_core.rs
index f291ab3..a121d5a 100644
--- a/vector/src/vector_types/support_core.rs
+++ b/vector/src/vector_types/support_core.rs
@@ -47,6 +47,12 @@ impl<'a, T: RealNumber + 'a> ToSliceMut<T> for FixedLenBufferBurrow<'a, T>  {
 
 impl<'a, S: ToSliceMut<T>, T: RealNumber> BufferBorrow<S, T> for FixedLenBufferBurrow<'a, T> {
     fn trade(self, storage: &mut S) {
+        if storage.len() < self.data.len() {
+            storage
+                .try_resize(self.data.len())
+                .expect("FixedLenBuffer: Out of memory, the storage can't be resized");
+        }
+
         let len = std::cmp::min(storage.len(), self.data.len());
         let storage = storage.to_slice_mut();
         storage[0..len]
-- 
2.43.0


From a8bd5b2c5e0ed0046dd48a2d46c0b894368bd0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 05/71] fix: zero_pad with Surround splits the padding like
 zero_pad_b

---
 vector/src/vector_types/general/data_reorganization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index f5f60ae..3328412 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -326,7 +326,7 @@ where
             }
             PaddingOption::Surround => {
                 let diff = (len - len_before) / step;
-                let mut right = (diff - 1) / 2;
+                let mut right = diff / 2;
                 let mut left = diff - right;
                 if is_complex {
                     right *= 2;
-- 
2.43.0


From 0c5965afb59a9bbe271687e3e76e346516104523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 06/71] fix: zero_pad_b with Center clears the whole gap

---
 vector/src/vector_types/general/data_reorganization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index 3328412..4d93ec2 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -453,7 +453,7 @@ where
 
                     target[len - right..len].copy_from_slice(&data[len_before - right..len_before]);
                     target[0..left].copy_from_slice(&data[0..left]);
-                    memzero(target, left..len - len_before);
+                    memzero(target, left..len - right);
                 }
             }
         }
-- 
2.43.0


From dd5be91776abca1fa9f603a9e02068e7d3ca3bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 07/71] fix: zero_interleave of a complex vector in a storage
 with an odd length

---
 vector/src/vector_types/general/data_reorganization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index 4d93ec2..8f263e7 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -372,7 +372,7 @@ where
 
         if is_complex {
             let data = self.data.to_slice_mut();
-            let data = array_to_complex_mut(data);
+            let data = array_to_complex_mut(&mut data[0..len]);
             for j in 0..len / 2 {
                 let i = len / 2 - 1 - j;
                 if i % factor == 0 {
-- 
2.43.0


From 8238f06edcc631e735724aa7cf26b46866068171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 08/71] fix: zero_interleave_b of an empty vector

---
 vector/src/vector_types/general/data_reorganization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index 8f263e7..779fbc0 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -253,7 +253,7 @@ where
 
 macro_rules! zero_interleave {
     ($self_: ident, $buffer: ident, $step: ident, $tuple: expr) => {{
-        if $step <= 1 {
+        if $step <= 1 || $self_.is_empty() {
             return;
         }
 
-- 
2.43.0


From dbd58f8320be7ae36fdfdee2f2159c83e9745726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 09/71] fix: split_into and merge must not touch elements
 beyond the valid length

---
 vector/src/vector_types/general/data_reorganization.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index 779fbc0..48df237 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -501,7 +501,7 @@ where
                 target[2 * pos + 1] = data[2 * i + 1];
             }
         } else {
-            for (i, d) in data.iter().enumerate() {
+            for (i, d) in data[0..data_length].iter().enumerate() {
                 let target = targets[i % num_targets].data.to_slice_mut();
                 let pos = i / num_targets;
                 target[pos] = *d;
@@ -545,7 +545,7 @@ where
                     data[2 * i + 1] = source[2 * pos + 1];
                 }
             } else {
-                for (i, d) in data.iter_mut().enumerate() {
+                for (i, d) in data[0..data_length].iter_mut().enumerate() {
                     let source = sources[i % num_sources].data.to_slice();
                     let pos = i / num_sources;
                     *d = source[pos];
-- 
2.43.0


From 475a833687c11f019e8ccb6052d7a0bb3d785ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 10/71] fix: diff of empty vectors and of complex vectors in a
 storage with an odd length

---
 vector/src/vector_types/general/diff_sum.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/general/diff_sum.rs b/vector/src/vector_types/general/diff_sum.rs
index 7181d46..c2b3bec 100644
--- a/vector/src/vector_types/general/diff_sum.rs
+++ b/vector/src/vector_types/general/diff_sum.rs
@@ -66,11 +66,15 @@ where
         let is_complex = self.is_complex();
         let step = if is_complex { 2 } else { 1 };
         let len = self.len();
+        if len == 0 {
+            return;
+        }
+
         self.valid_len -= step;
         let data = self.data.to_slice_mut();
 
         if is_complex {
-            let data = array_to_complex_mut(data);
+            let data = array_to_complex_mut(&mut data[0..len]);
             for j in 0..len / 2 - 1 {
                 data[j] = data[j + 1] - data[j];
             }
@@ -91,7 +95,7 @@ where
         let data = self.data.to_slice_mut();
 
         if is_complex {
-            let data = array_to_complex_mut(data);
+            let data = array_to_complex_mut(&mut data[0..len]);
             let mut temp = data[0];
             for n in &mut data[1..len / 2] {
                 let diff = *n - temp;
-- 
2.43.0


From b1444633ce7d45b0a844b1c3dbf1cb7e4a715131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 11/71] fix: mul and div of complex vectors in a storage with
 an odd length

---
 vector/src/vector_types/general/elementary.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/general/elementary.rs b/vector/src/vector_types/general/elementary.rs
index aa23f61..0342ddf 100644
--- a/vector/src/vector_types/general/elementary.rs
+++ b/vector/src/vector_types/general/elementary.rs
@@ -444,7 +444,7 @@ macro_rules! impl_binary_complex_vector_operation {
                         }
                 });
 
-                for (n, o) in partition.cedge_iter_mut(array_to_complex_mut(array)).zip(partition.cedge_iter(array_to_complex(other))) {
+                for (n, o) in partition.cedge_iter_mut(array_to_complex_mut(&mut array[0..data_length])).zip(partition.cedge_iter(array_to_complex(other))) {
                     *n = n.$scal_op(*o);
                 }
             }
-- 
2.43.0


From b72786b99bc78713ac90380695731030d918b4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 12/71] fix: operations with a smaller operand report an empty
 operand

---
 vector/src/vector_types/general/elementary.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vector/src/vector_types/general/elementary.rs b/vector/src/vector_types/general/elementary.rs
index 0342ddf..d4db3bc 100644
--- a/vector/src/vector_types/general/elementary.rs
+++ b/vector/src/vector_types/general/elementary.rs
@@ -460,7 +460,7 @@ macro_rules! impl_binary_smaller_vector_operation {
         {
             {
                 let len = self.len();
-                reject_if!(self, len % $arg_name.len() != 0, ErrorReason::InvalidArgumentLength);
+                reject_if!(self, $arg_name.is_empty() || len % $arg_name.len() != 0, ErrorReason::InvalidArgumentLength);
                 assert_meta_data!(self, $arg_name);
 
                 let data_length = self.len();
@@ -490,7 +490,7 @@ macro_rules! impl_binary_smaller_complex_vector_ops {
         {
             {
                 let len = self.len();
-                reject_if!(self, len % $arg_name.len() != 0, ErrorReason::InvalidArgumentLength);
+                reject_if!(self, $arg_name.is_empty() || len % $arg_name.len() != 0, ErrorReason::InvalidArgumentLength);
                 assert_meta_data!(self, $arg_name);
 
                 let data_length = self.len();
@@ -610,7 +610,7 @@ where
         let len = self.len();
         reject_if!(
             self,
-            len % factor.len() != 0,
+            factor.is_empty() || len % factor.len() != 0,
             ErrorReason::InvalidArgumentLength
         );
         assert_meta_data!(self, factor);
@@ -626,7 +626,7 @@ where
         let len = self.len();
         reject_if!(
             self,
-            len % divisor.len() != 0,
+            divisor.is_empty() || len % divisor.len() != 0,
             ErrorReason::InvalidArgumentLength
         );
         assert_meta_data!(self, divisor);
-- 
2.43.0


From f57aa9b891e7ad8207a13dad94a1ca6ef8ca23e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:02 +0000
Subject: [PATCH 13/71] fix: resize within the capacity of a storage must
 provide the elements

---
 vector/src/vector_types/vec_impl_and_indexers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/vec_impl_and_indexers.rs b/vector/src/vector_types/vec_impl_and_indexers.rs
index 05e880a..36d17e7 100644
--- a/vector/src/vector_types/vec_impl_and_indexers.rs
+++ b/vector/src/vector_types/vec_impl_and_indexers.rs
@@ -210,7 +210,7 @@ where
             return Err(ErrorReason::InputMustHaveAnEvenLength);
         }
 
-        if len > self.alloc_len() {
+        if len > self.data.len() {
             self.data.try_resize(len)?;
         }
 
-- 
2.43.0


From 7dff2c506f830e89be59630cf0241ac8f664cd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 14/71] fix: split_into reports InvalidArgumentLength if the
 points are not dividable

---
 vector/src/vector_types/general/data_reorganization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index 48df237..b32bec4 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -484,7 +484,7 @@ where
     fn split_into(&self, targets: &mut [&mut Self]) -> VoidResult {
         let num_targets = targets.len();
         let data_length = self.len();
-        if num_targets == 0 || data_length % num_targets != 0 {
+        if num_targets == 0 || self.points() % num_targets != 0 {
             return Err(ErrorReason::InvalidArgumentLength);
         }
 
-- 
2.43.0


From 62b9ad0b5ce562efdd1ef06860ebb6e166c314fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 15/71] fix: sum and sum_sq of complex vectors in a storage
 with an odd length

---
 vector/src/vector_types/general/statistics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/general/statistics.rs b/vector/src/vector_types/general/statistics.rs
index 4cd739d..958f9bc 100644
--- a/vector/src/vector_types/general/statistics.rs
+++ b/vector/src/vector_types/general/statistics.rs
@@ -525,7 +525,7 @@ where
         };
 
         sum + partition
-            .cedge_iter(array_to_complex(array))
+            .cedge_iter(array_to_complex(&array[0..data_length]))
             .fold(Complex::<T>::zero(), |sum, x| sum + *x)
     }
 
@@ -556,7 +556,7 @@ where
         };
 
         sum + partition
-            .cedge_iter(array_to_complex(array))
+            .cedge_iter(array_to_complex(&array[0..data_length]))
             .fold(Complex::<T>::zero(), |sum, x| sum + *x * *x)
     }
 }
-- 
2.43.0


From a8292f0c4c010efd2ce8c142d787bb38e2f5f1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 16/71] fix: map_inplace and map_aggregate must only consider
 the valid elements

---
 vector/src/vector_types/general/mapping.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vector/src/vector_types/general/mapping.rs b/vector/src/vector_types/general/mapping.rs
index 112fb07..423788b 100644
--- a/vector/src/vector_types/general/mapping.rs
+++ b/vector/src/vector_types/general/mapping.rs
@@ -1,6 +1,6 @@
 use super::super::{
     ComplexNumberSpace, Domain, DspVec, ErrorReason, MetaData, RealNumberSpace, ScalarResult,
-    ToSlice, ToSliceMut,
+    ToSlice, ToSliceMut, Vector,
 };
 use crate::inline_vector::InlineVector;
 use crate::multicore_support::*;
@@ -60,8 +60,8 @@ where
             return;
         }
 
+        let length = self.len();
         let array = self.data.to_slice_mut();
-        let length = array.len();
         Chunk::execute_with_range(
             Complexity::Small,
             &self.multicore_settings,
@@ -105,8 +105,8 @@ where
                 return Err(ErrorReason::InputMustBeReal);
             }
 
+            let length = self.len();
             let array = self.data.to_slice();
-            let length = array.len();
             if length == 0 {
                 return Err(ErrorReason::InputMustNotBeEmpty);
             }
@@ -170,8 +170,8 @@ where
             return;
         }
 
+        let length = self.len();
         let array = self.data.to_slice_mut();
-        let length = array.len();
         Chunk::execute_with_range(
             Complexity::Small,
             &self.multicore_settings,
@@ -216,8 +216,8 @@ where
                 return Err(ErrorReason::InputMustBeComplex);
             }
 
+            let length = self.len();
             let array = self.data.to_slice();
-            let length = array.len();
             if length == 0 {
                 return Err(ErrorReason::InputMustNotBeEmpty);
             }
-- 
2.43.0


From 0088e1c831ccd9d39488c724925ba9139ec98d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 17/71] fix: dot products check that both operands agree in
 size and meta data

---
 .../src/vector_types/general/dot_products.rs  | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/general/dot_products.rs b/vector/src/vector_types/general/dot_products.rs
index a929468..426b9c1 100644
--- a/vector/src/vector_types/general/dot_products.rs
+++ b/vector/src/vector_types/general/dot_products.rs
@@ -78,7 +78,15 @@ where
             return Err(ErrorReason::InputMustBeReal);
         }
 
+        if factor.is_complex() || self.domain() != factor.domain() {
+            return Err(ErrorReason::InputMetaDataMustAgree);
+        }
+
         let data_length = self.len();
+        if data_length != factor.len() {
+            return Err(ErrorReason::InputMustHaveTheSameSize);
+        }
+
         let array = self.data.to_slice();
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
         let other = factor.data(..);
@@ -130,6 +138,10 @@ where
         }
 
         let data_length = self.len();
+        if data_length != factor.len() {
+            return Err(ErrorReason::InputMustHaveTheSameSize);
+        }
+
         let array = self.data.to_slice();
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
         let other = factor.data(..);
@@ -153,7 +165,7 @@ where
         );
 
         let sum = partition
-            .cedge_iter(array_to_complex(array))
+            .cedge_iter(array_to_complex(&array[0..data_length]))
             .zip(partition.cedge_iter(array_to_complex(other)))
             .fold(Complex::<T>::zero(), |sum, (a, b)| sum + *a * *b);
 
@@ -177,7 +189,15 @@ where
             return Err(ErrorReason::InputMustBeReal);
         }
 
+        if factor.is_complex() || self.domain() != factor.domain() {
+            return Err(ErrorReason::InputMetaDataMustAgree);
+        }
+
         let data_length = self.len();
+        if data_length != factor.len() {
+            return Err(ErrorReason::InputMustHaveTheSameSize);
+        }
+
         let array = self.data.to_slice();
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
         let other = factor.data(..);
@@ -228,6 +248,10 @@ where
         }
 
         let data_length = self.len();
+        if data_length != factor.len() {
+            return Err(ErrorReason::InputMustHaveTheSameSize);
+        }
+
         let array = self.data.to_slice();
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
         let other = factor.data(..);
@@ -251,7 +275,7 @@ where
         );
 
         let sum = partition
-            .cedge_iter(array_to_complex(array))
+            .cedge_iter(array_to_complex(&array[0..data_length]))
             .zip(partition.cedge_iter(array_to_complex(other)))
             .fold(Complex::<T>::zero(), |sum, (a, b)| sum + *a * *b);
 
-- 
2.43.0


From 30cb70a4e88e27c6706bd41282fb800d7c8548f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 18/71] fix: unwrap must not jump if a step is small modulo the
 divisor

---
 vector/src/vector_types/real/real_ops.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vector/src/vector_types/real/real_ops.rs b/vector/src/vector_types/real/real_ops.rs
index 640ad8e..b8cb465 100644
--- a/vector/src/vector_types/real/real_ops.rs
+++ b/vector/src/vector_types/real/real_ops.rs
@@ -272,13 +272,13 @@ where
         let half = divisor / T::from(2.0).unwrap();
         while j < data_length {
             let mut diff = data[j] - data[i];
-            if diff > half {
+            if diff > half || diff < -half {
                 diff = diff % divisor;
-                diff = diff - divisor;
-                data[j] = data[i] + diff;
-            } else if diff < -half {
-                diff = diff % divisor;
-                diff = diff + divisor;
+                if diff > half {
+                    diff = diff - divisor;
+                } else if diff < -half {
+                    diff = diff + divisor;
+                }
                 data[j] = data[i] + diff;
             }
 
-- 
2.43.0


From 61e547ecf186539ae1f4e196d8df4968e1f2ba48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 19/71] fix: get_magnitude and get_magnitude_squared must only
 consider the valid elements

---
 vector/src/vector_types/complex/complex_to_real.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/complex/complex_to_real.rs b/vector/src/vector_types/complex/complex_to_real.rs
index 8bd65c0..66621b7 100644
--- a/vector/src/vector_types/complex/complex_to_real.rs
+++ b/vector/src/vector_types/complex/complex_to_real.rs
@@ -543,7 +543,7 @@ where
             .expect("Target should be real and thus all values for len / 2 should be valid");
         destination.set_delta(self.delta);
         let temp = destination.data_mut(0..data_length / 2);
-        let array = &self.data.to_slice();
+        let array = &self.data.to_slice()[0..data_length];
         let partition = Reg::calc_data_alignment_reqs(array);
         Chunk::from_src_to_dest(
             complexity,
-- 
2.43.0


From 64a4800a8f7eb8bd3c8cb51db4ae725ed14c12f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 20/71] fix: get_real_imag and get_mag_phase set the delta of
 their targets like the other getters

---
 vector/src/vector_types/complex/complex_to_real.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vector/src/vector_types/complex/complex_to_real.rs b/vector/src/vector_types/complex/complex_to_real.rs
index 66621b7..232ef3b 100644
--- a/vector/src/vector_types/complex/complex_to_real.rs
+++ b/vector/src/vector_types/complex/complex_to_real.rs
@@ -678,6 +678,8 @@ where
             .expect("Target should be real and thus all values for len / 2 should be valid");
         imag.resize(data_length / 2)
             .expect("Target should be real and thus all values for len / 2 should be valid");
+        real.set_delta(self.delta);
+        imag.set_delta(self.delta);
         let real = real.data_mut(0..data_length / 2);
         let imag = imag.data_mut(0..data_length / 2);
         let data = self.data.to_slice();
@@ -698,6 +700,8 @@ where
         phase
             .resize(data_length / 2)
             .expect("Target should be real and thus all values for len / 2 should be valid");
+        mag.set_delta(self.delta);
+        phase.set_delta(self.delta);
         let mag = mag.data_mut(0..data_length / 2);
         let phase = phase.data_mut(0..data_length / 2);
         let data = self.data.to_slice();
-- 
2.43.0


From 762aa7a483a03d5af2075a7ac812abe7443c74d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 21/71] fix: statistics_split_prec keeps the compensation of
 each part on its own

---
 .../src/vector_types/general/precise_stats.rs  | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/vector/src/vector_types/general/precise_stats.rs b/vector/src/vector_types/general/precise_stats.rs
index a3e7202..9911e1f 100644
--- a/vector/src/vector_types/general/precise_stats.rs
+++ b/vector/src/vector_types/general/precise_stats.rs
@@ -259,11 +259,12 @@ where
             |array, range, len| {
                 let mut results = Statistics::empty_vec(len);
                 let mut j = range.start;
-                let mut sumc = 0.0;
-                let mut rmsc = 0.0;
+                let mut sumc = [0.0; STATS_VEC_CAPACTIY];
+                let mut rmsc = [0.0; STATS_VEC_CAPACTIY];
                 for num in array {
-                    let stats = &mut results[j % len];
-                    stats.add_prec(*num, j / len, &mut sumc, &mut rmsc);
+                    let col = j % len;
+                    let stats = &mut results[col];
+                    stats.add_prec(*num, j / len, &mut sumc[col], &mut rmsc[col]);
                     j += 1;
                 }
 
@@ -507,11 +508,12 @@ where
                 let mut results = Statistics::<Complex<f64>>::empty_vec(len);
                 let mut j = range.start / 2;
                 let array = array_to_complex(array);
-                let mut sumc = Complex64::zero();
-                let mut rmsc = Complex64::zero();
+                let mut sumc = [Complex64::zero(); STATS_VEC_CAPACTIY];
+                let mut rmsc = [Complex64::zero(); STATS_VEC_CAPACTIY];
                 for num in array {
-                    let stat = &mut results[j % len];
-                    stat.add_prec(*num, j / len, &mut sumc, &mut rmsc);
+                    let col = j % len;
+                    let stat = &mut results[col];
+                    stat.add_prec(*num, j / len, &mut sumc[col], &mut rmsc[col]);
                     j += 1;
                 }
 
-- 
2.43.0


From 805435b6c1b853cad6eaee5e4454c8cf353a835f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 22/71] fix: set_real_imag and set_mag_phase reject vectors in
 real number space

---
 vector/src/vector_types/complex/complex_to_real.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vector/src/vector_types/complex/complex_to_real.rs b/vector/src/vector_types/complex/complex_to_real.rs
index 232ef3b..1bbc669 100644
--- a/vector/src/vector_types/complex/complex_to_real.rs
+++ b/vector/src/vector_types/complex/complex_to_real.rs
@@ -728,6 +728,10 @@ where
     DO: PosEq<D> + Domain,
 {
     fn set_real_imag(&mut self, real: &O, imag: &O) -> VoidResult {
+        if !self.is_complex() {
+            self.mark_vector_as_invalid();
+            return Err(ErrorReason::InputMustBeComplex);
+        }
         {
             if real.len() != imag.len() {
                 return Err(ErrorReason::InvalidArgumentLength);
@@ -751,6 +755,10 @@ where
     }
 
     fn set_mag_phase(&mut self, mag: &O, phase: &O) -> VoidResult {
+        if !self.is_complex() {
+            self.mark_vector_as_invalid();
+            return Err(ErrorReason::InputMustBeComplex);
+        }
         {
             if mag.len() != phase.len() {
                 return Err(ErrorReason::InvalidArgumentLength);
-- 
2.43.0


From 0420f82ef0ae559e71bf7ecaeff847871d8c50f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:29 +0000
Subject: [PATCH 23/71] fix: a failed to_complex must not reinterpret the real
 data as complex points

---
 vector/src/vector_types/real/real_to_complex.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/vector/src/vector_types/real/real_to_complex.rs b/vector/src/vector_types/real/real_to_complex.rs
index 2589d8d..ebcbd38 100644
--- a/vector/src/vector_types/real/real_to_complex.rs
+++ b/vector/src/vector_types/real/real_to_complex.rs
@@ -76,10 +76,14 @@ where
         let result = self.zero_interleave(2);
         let domain = self.domain();
         match result {
-            Err(reason) => Err((
-                reason,
-                Self::ComplexResult::rededicate_with_runtime_data(self, true, domain),
-            )),
+            Err(reason) => {
+                // The data are still real numbers and thus must not be seen as complex points
+                self.valid_len = 0;
+                Err((
+                    reason,
+                    Self::ComplexResult::rededicate_with_runtime_data(self, true, domain),
+                ))
+            }
             Ok(()) => Ok(Self::ComplexResult::rededicate_with_runtime_data(
                 self, true, domain,
             )),
-- 
2.43.0


From 758018fab6f72bdd1a926b9ad85730386b1545a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:29 +0000
Subject: [PATCH 24/71] fix: rededicate_from drops the data if either the
 number space or the domain changes

---
 vector/src/vector_types/rededicate_and_relations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/rededicate_and_relations.rs b/vector/src/vector_types/rededicate_and_relations.rs
index 2c5e7ed..acef40b 100644
--- a/vector/src/vector_types/rededicate_and_relations.rs
+++ b/vector/src/vector_types/rededicate_and_relations.rs
@@ -337,7 +337,7 @@ where
         let is_complex = origin.is_complex();
         let domain = origin.domain();
         let mut result = Self::rededicate_from_force(origin);
-        if result.is_complex() != is_complex && result.domain() != domain {
+        if result.is_complex() != is_complex || result.domain() != domain {
             result
                 .resize(0)
                 .expect("Setting size to 0 should always succeed");
-- 
2.43.0


From b81382b42f13c000dafea46943e7e184d1c551a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 25/71] fix: symmetric functions are applied to chunks with the
 same distance to the center

---
 vector/src/multicore_support/no_threading.rs | 24 ++----
 vector/src/multicore_support/threading.rs    | 78 ++++++++++----------
 2 files changed, 47 insertions(+), 55 deletions(-)

diff --git a/vector/src/multicore_support/no_threading.rs b/vector/src/multicore_support/no_threading.rs
index b726787..6bbf54a 100644
--- a/vector/src/multicore_support/no_threading.rs
+++ b/vector/src/multicore_support/no_threading.rs
@@ -5,7 +5,6 @@ use crate::inline_vector::InlineVector;
 use crate::numbers::*;
 use std::iter::Iterator;
 use std::ops::Range;
-use std::slice::ChunksMut;
 
 /// Empty struct since multicore support is disabled
 #[derive(Debug, Copy, Clone)]
@@ -142,19 +141,21 @@ impl Chunk {
         S: Sync + Copy + Send,
     {
         let array_length = array.len();
-        let mut chunks = Chunk::partition_mut(array, step_size, 2);
-        let mut chunks1 = chunks.next().unwrap();
-        let len1 = chunks1.len();
-        let mut chunks2 = chunks.next().unwrap();
+        if array_length == 0 {
+            return;
+        }
+
+        let half = Chunk::calc_chunk_size(array_length, step_size, 2).min(array_length);
+        let (mut chunks1, mut chunks2) = array.split_at_mut(half);
         function(
             &mut chunks1,
             &Range {
                 start: 0,
-                end: len1,
+                end: half,
             },
             &mut chunks2,
             &Range {
-                start: len1,
+                start: half,
                 end: array_length,
             },
             arguments,
@@ -258,15 +259,6 @@ impl Chunk {
         );
     }
 
-    #[inline]
-    fn partition_mut<T>(array: &mut [T], step_size: usize, number_of_chunks: usize) -> ChunksMut<T>
-    where
-        T: Copy + Clone + Send,
-    {
-        let chunk_size = Chunk::calc_chunk_size(array.len(), step_size, number_of_chunks);
-        array.chunks_mut(chunk_size)
-    }
-
     #[inline]
     fn calc_chunk_size(array_length: usize, step_size: usize, number_of_chunks: usize) -> usize {
         let mut chunk_size = (array_length as f64 / number_of_chunks as f64).ceil() as usize;
diff --git a/vector/src/multicore_support/threading.rs b/vector/src/multicore_support/threading.rs
index f16919e..786f757 100644
--- a/vector/src/multicore_support/threading.rs
+++ b/vector/src/multicore_support/threading.rs
@@ -7,7 +7,7 @@ use crossbeam;
 use linreg::linear_regression;
 use num_cpus;
 use num_traits::FromPrimitive;
-use std::iter::Iterator;
+use std::iter::{self, Iterator};
 use std::mem;
 use std::ops::Range;
 use std::slice::{Chunks, ChunksMut};
@@ -562,52 +562,52 @@ impl Chunk {
         S: Sync + Copy + Send,
     {
         let array_length = array.len();
+        if array_length == 0 {
+            return;
+        }
+
         let number_of_chunks =
-            2 * Chunk::determine_number_of_chunks(array_length, complexity, settings);
-        if number_of_chunks > 2 {
-            let chunks = Chunk::partition_mut(array, step_size, number_of_chunks);
-            let ranges = Chunk::partition_in_ranges(array_length, step_size, chunks.len());
-            let mut i = 0;
-            let (mut chunks1, mut chunks2): (Vec<_>, Vec<_>) = chunks.partition(|_c| {
-                i += 1;
-                i <= number_of_chunks / 2
-            });
-            i = 0;
-            let (ranges1, ranges2): (Vec<_>, Vec<_>) = ranges.iter().partition(|_r| {
-                i += 1;
-                i <= number_of_chunks / 2
-            });
-            let chunks2 = chunks2.iter_mut().rev();
-            let ranges2 = ranges2.iter().rev();
-            let zipped1 = chunks1.iter_mut().zip(ranges1);
-            let zipped2 = chunks2.zip(ranges2);
+            Chunk::determine_number_of_chunks(array_length, complexity, settings).max(1);
+        // Chunks of both halves are counted from the outside so that a chunk of the first half
+        // and its counter part have the same distance to the center.
+        let half = Chunk::calc_chunk_size(array_length, step_size, 2).min(array_length);
+        let chunk_size = Chunk::calc_chunk_size(half, step_size, number_of_chunks);
+        let (first, second) = array.split_at_mut(half);
+        let chunks1 = first.chunks_mut(chunk_size);
+        let chunks2 = second
+            .rchunks_mut(chunk_size)
+            .map(Some)
+            .chain(iter::repeat_with(|| None));
+        let pairs = chunks1.zip(chunks2).enumerate().map(|(i, (chunk1, chunk2))| {
+            let start = i * chunk_size;
+            let end = array_length - start;
+            let chunk2: &mut [T] = match chunk2 {
+                Some(chunk2) => chunk2,
+                None => &mut [],
+            };
+            let range1 = Range {
+                start,
+                end: start + chunk1.len(),
+            };
+            let range2 = Range {
+                start: end - chunk2.len(),
+                end,
+            };
+            (chunk1, range1, chunk2, range2)
+        });
+        if number_of_chunks > 1 {
             crossbeam::scope(|scope| {
-                for chunk in zipped1.zip(zipped2) {
+                for (mut chunk1, range1, mut chunk2, range2) in pairs {
                     scope.spawn(move |_| {
-                        let (pair1, pair2) = chunk;
-                        function(pair1.0, pair1.1, pair2.0, pair2.1, arguments);
+                        function(&mut chunk1, &range1, &mut chunk2, &range2, arguments);
                     });
                 }
             })
             .expect("Failed to spawn thread");
         } else {
-            let mut chunks = Chunk::partition_mut(array, step_size, number_of_chunks);
-            let mut chunks1 = chunks.next().unwrap();
-            let len1 = chunks1.len();
-            let mut chunks2 = chunks.next().unwrap();
-            function(
-                &mut chunks1,
-                &Range {
-                    start: 0,
-                    end: len1,
-                },
-                &mut chunks2,
-                &Range {
-                    start: len1,
-                    end: array_length,
-                },
-                arguments,
-            );
+            for (mut chunk1, range1, mut chunk2, range2) in pairs {
+                function(&mut chunk1, &range1, &mut chunk2, &range2, arguments);
+            }
         }
     }
 
-- 
2.43.0


From 0cfb74f0a60f6c85ef1303bae4abca9f9f404b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 26/71] fix: an empty array can be divided into chunks

---
 vector/src/multicore_support/threading.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vector/src/multicore_support/threading.rs b/vector/src/multicore_support/threading.rs
index 786f757..dbfbaa3 100644
--- a/vector/src/multicore_support/threading.rs
+++ b/vector/src/multicore_support/threading.rs
@@ -374,7 +374,8 @@ impl Chunk {
             chunk_size += step_size - chunk_size % step_size;
         }
 
-        chunk_size
+        // An empty array has no chunks, but slices don't accept a chunk size of zero
+        chunk_size.max(1)
     }
 
     /// This function returns the ranges which correspond to the chunks generated by
-- 
2.43.0


From dd6b4216fe94c37f1164ee8823e4839fa33a2036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:14 +0000
Subject: [PATCH 27/71] fix: inverse transformations of generic vectors end up
 in time domain

---
 vector/src/vector_types/time_freq/freq_to_time.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/vector/src/vector_types/time_freq/freq_to_time.rs b/vector/src/vector_types/time_freq/freq_to_time.rs
index a101059..ad1e82b 100644
--- a/vector/src/vector_types/time_freq/freq_to_time.rs
+++ b/vector/src/vector_types/time_freq/freq_to_time.rs
@@ -142,7 +142,7 @@ where
         if self.domain() != DataDomain::Frequency {
             self.mark_vector_as_invalid();
             self.number_space.to_complex();
-            self.domain.to_freq();
+            self.domain.to_time();
             return Self::TimeResult::rededicate_from_force(self);
         }
 
@@ -153,7 +153,7 @@ where
 
         fft(&mut self, buffer, FftDirection::Inverse);
 
-        self.domain.to_freq();
+        self.domain.to_time();
         Self::TimeResult::rededicate_from_force(self)
     }
 
@@ -193,8 +193,8 @@ where
     {
         if self.domain() != DataDomain::Frequency || !self.is_complex() {
             self.mark_vector_as_invalid();
-            self.number_space.to_complex();
-            self.domain.to_freq();
+            self.number_space.to_real();
+            self.domain.to_time();
             return Err((
                 ErrorReason::InputMustBeInFrequencyDomain,
                 Self::RealTimeResult::rededicate_from_force(self),
@@ -203,8 +203,8 @@ where
 
         if self.points() > 0 && self.data(1).abs() > T::from(1e-10).unwrap() {
             self.mark_vector_as_invalid();
-            self.number_space.to_complex();
-            self.domain.to_freq();
+            self.number_space.to_real();
+            self.domain.to_time();
             return Err((
                 ErrorReason::InputMustBeConjSymmetric,
                 Self::RealTimeResult::rededicate_from_force(self),
@@ -215,8 +215,9 @@ where
 
         fft(&mut self, buffer, FftDirection::Inverse);
 
-        self.domain.to_freq();
+        self.domain.to_time();
         self.pure_complex_to_real_operation(buffer, |x, _arg| x.re, (), Complexity::Small);
+        self.number_space.to_real();
         Ok(Self::RealTimeResult::rededicate_from_force(self))
     }
 
-- 
2.43.0


From b829db81a818f6f4f94a5079b167a7d5bb7b3cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:14 +0000
Subject: [PATCH 28/71] fix: sifft scales by the number of points of the result
 and does not shift half of a spectrum

---
 vector/src/vector_types/time_freq/freq_to_time.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/vector/src/vector_types/time_freq/freq_to_time.rs b/vector/src/vector_types/time_freq/freq_to_time.rs
index ad1e82b..b083397 100644
--- a/vector/src/vector_types/time_freq/freq_to_time.rs
+++ b/vector/src/vector_types/time_freq/freq_to_time.rs
@@ -225,12 +225,15 @@ where
     where
         B: for<'a> Buffer<'a, S, T>,
     {
+        // The spectrum starts with 0 Hz, the result has twice as many points (without counting
+        // 0 Hz twice)
         let points = self.points();
-        self.scale(Complex::<T>::new(
-            T::one() / T::from(points).unwrap(),
-            T::zero(),
-        ));
-        self.ifft_shift();
+        if points > 0 {
+            self.scale(Complex::<T>::new(
+                T::one() / T::from(2 * points - 1).unwrap(),
+                T::zero(),
+            ));
+        }
         self.plain_sifft(buffer)
     }
 
-- 
2.43.0


From 34232ed9499abde5c0ac9210cb41b6390db54e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:14 +0000
Subject: [PATCH 29/71] fix: symmetric FFTs transform the points of the vector
 and keep half of the spectrum

---
 vector/src/vector_types/time_freq/time_to_freq.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/vector/src/vector_types/time_freq/time_to_freq.rs b/vector/src/vector_types/time_freq/time_to_freq.rs
index 029494e..89b30e2 100644
--- a/vector/src/vector_types/time_freq/time_to_freq.rs
+++ b/vector/src/vector_types/time_freq/time_to_freq.rs
@@ -178,7 +178,7 @@ where
 macro_rules! unmirror {
     ($self_: ident, $points: ident) => {
         let len = $points;
-        let len = len / 2 + 1;
+        let len = 2 * (len / 2 + 1);
         $self_
             .resize(len)
             .expect("Shrinking a vector should always succeed");
@@ -219,8 +219,6 @@ where
             ));
         }
 
-        self.zero_interleave_b(buffer, 2);
-        self.number_space.to_complex();
         let points = self.points();
         let mut result = self.plain_fft(buffer);
         unmirror!(result, points);
@@ -251,10 +249,8 @@ where
             ));
         }
 
-        self.zero_interleave_b(buffer, 2);
-        self.number_space.to_complex();
         let points = self.points();
-        let mut result = self.fft(buffer);
+        let mut result = self.plain_fft(buffer);
         unmirror!(result, points);
         Ok(result)
     }
@@ -287,11 +283,9 @@ where
             ));
         }
 
-        self.zero_interleave_b(buffer, 2);
-        self.number_space.to_complex();
         self.apply_window(window);
         let points = self.points();
-        let mut result = self.fft(buffer);
+        let mut result = self.plain_fft(buffer);
         unmirror!(result, points);
         Ok(result)
     }
-- 
2.43.0


From d12954aa6fd33fe6838b12c772174568a9a05955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:14 +0000
Subject: [PATCH 30/71] fix: mirror checks number space and domain and accepts
 empty vectors

---
 vector/src/vector_types/time_freq/freq.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/freq.rs b/vector/src/vector_types/time_freq/freq.rs
index f83b017..cfe5c89 100644
--- a/vector/src/vector_types/time_freq/freq.rs
+++ b/vector/src/vector_types/time_freq/freq.rs
@@ -53,12 +53,16 @@ where
     where
         B: for<'a> Buffer<'a, S, T>,
     {
-        if self.domain() != DataDomain::Frequency && !self.is_complex() {
+        if self.domain() != DataDomain::Frequency || !self.is_complex() {
             self.mark_vector_as_invalid();
             return;
         }
 
         let len = self.len();
+        if len == 0 {
+            return;
+        }
+
         let step = 2;
         let temp_len = 2 * len - step;
         let mut temp = buffer.borrow(temp_len);
-- 
2.43.0


From 43c6b09e8e0509ecc0962e28591978555a209286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:14 +0000
Subject: [PATCH 31/71] fix: fft_shift and ifft_shift reject vectors which are
 not a complex spectrum

---
 vector/src/vector_types/time_freq/freq.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/vector/src/vector_types/time_freq/freq.rs b/vector/src/vector_types/time_freq/freq.rs
index cfe5c89..8ed3ae8 100644
--- a/vector/src/vector_types/time_freq/freq.rs
+++ b/vector/src/vector_types/time_freq/freq.rs
@@ -87,10 +87,20 @@ where
     }
 
     fn fft_shift(&mut self) {
+        if self.domain() != DataDomain::Frequency || !self.is_complex() {
+            self.mark_vector_as_invalid();
+            return;
+        }
+
         self.swap_halves_priv(true)
     }
 
     fn ifft_shift(&mut self) {
+        if self.domain() != DataDomain::Frequency || !self.is_complex() {
+            self.mark_vector_as_invalid();
+            return;
+        }
+
         self.swap_halves_priv(false)
     }
 }
-- 
2.43.0


From e4be1d6a8cf1cd3f3957e4b2b30a026741f8fa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:14 +0000
Subject: [PATCH 32/71] fix: apply_window and unapply_window reject vectors
 which are not in time domain

---
 vector/src/vector_types/time_freq/time.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/time.rs b/vector/src/vector_types/time_freq/time.rs
index 7d40746..54dafd0 100644
--- a/vector/src/vector_types/time_freq/time.rs
+++ b/vector/src/vector_types/time_freq/time.rs
@@ -1,5 +1,5 @@
 use super::super::{
-    DspVec, MetaData, NumberSpace, RededicateForceOps, TimeDomain, ToFreqResult, ToSliceMut,
+    DataDomain, DspVec, MetaData, NumberSpace, RededicateForceOps, TimeDomain, ToFreqResult, ToSliceMut,
 };
 use crate::array_to_complex_mut;
 use crate::numbers::*;
@@ -30,6 +30,11 @@ where
     D: TimeDomain,
 {
     fn apply_window(&mut self, window: &dyn WindowFunction<T>) {
+        if self.domain() != DataDomain::Time {
+            self.mark_vector_as_invalid();
+            return;
+        }
+
         if self.is_complex() {
             self.multiply_window_priv(
                 window.is_symmetric(),
@@ -48,6 +53,11 @@ where
     }
 
     fn unapply_window(&mut self, window: &dyn WindowFunction<T>) {
+        if self.domain() != DataDomain::Time {
+            self.mark_vector_as_invalid();
+            return;
+        }
+
         if self.is_complex() {
             self.multiply_window_priv(
                 window.is_symmetric(),
-- 
2.43.0


From 2bcffafe93dd86c0ee5a09825ece929307357dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 33/71] fix: linear and hermite interpolation stay within the
 samples

---
 .../time_freq/real_interpolation.rs           | 118 +++++++-----------
 1 file changed, 42 insertions(+), 76 deletions(-)

diff --git a/vector/src/vector_types/time_freq/real_interpolation.rs b/vector/src/vector_types/time_freq/real_interpolation.rs
index 2b6626f..f1e56b3 100644
--- a/vector/src/vector_types/time_freq/real_interpolation.rs
+++ b/vector/src/vector_types/time_freq/real_interpolation.rs
@@ -34,7 +34,16 @@ where
     where
         B: for<'a> Buffer<'a, S, T>,
     {
+        if self.is_complex() {
+            self.mark_vector_as_invalid();
+            return;
+        }
+
         let data_len = self.len();
+        if data_len == 0 {
+            return;
+        }
+
         let dest_len = (T::from(data_len - 1).unwrap() * interpolation_factor)
             .round()
             .to_usize()
@@ -42,21 +51,19 @@ where
             + 1;
         let mut temp = buffer.borrow(dest_len);
         {
-            if self.is_complex() {
-                self.mark_vector_as_invalid();
-                return;
-            }
             let data = self.data.to_slice();
             let temp = temp.to_slice_mut();
             let data = &data[0..data_len];
             let dest = &mut temp[0..dest_len];
+            let last = T::from(data_len - 1).unwrap();
             let mut i = T::zero();
 
-            for num in &mut dest[0..dest_len - 1] {
-                let rounded = i / interpolation_factor + delay;
+            for num in dest {
+                // There is nothing to interpolate before the first and after the last sample
+                let rounded = (i / interpolation_factor + delay).max(T::zero()).min(last);
                 let beforef = rounded.floor();
                 let before = beforef.to_usize().unwrap();
-                let next = before + 1;
+                let next = (before + 1).min(data_len - 1);
                 let x0 = beforef;
                 let y0 = data[before];
                 let y1 = data[next];
@@ -64,7 +71,6 @@ where
                 (*num) = y0 + (y1 - y0) * (x - x0);
                 i = i + T::one();
             }
-            dest[dest_len - 1] = data[data_len - 1];
             self.valid_len = dest_len;
         }
         temp.trade(&mut self.data);
@@ -74,7 +80,16 @@ where
     where
         B: for<'a> Buffer<'a, S, T>,
     {
+        if self.is_complex() {
+            self.mark_vector_as_invalid();
+            return;
+        }
+
         let data_len = self.len();
+        if data_len == 0 {
+            return;
+        }
+
         let dest_len = (T::from(data_len - 1).unwrap() * interpolation_factor)
             .round()
             .to_usize()
@@ -82,87 +97,38 @@ where
             + 1;
         let mut temp = buffer.borrow(dest_len);
         {
-            if self.is_complex() {
-                self.mark_vector_as_invalid();
-                return;
-            }
             let data = self.data.to_slice();
             let temp = temp.to_slice_mut();
             // Literature: http://paulbourke.net/miscellaneous/interpolation/
             let data = &data[0..data_len];
             let dest = &mut temp[0..dest_len];
             let mut i = T::zero();
-            let start = ((T::one() - delay) * interpolation_factor)
-                .ceil()
-                .to_usize()
-                .unwrap();
-            let end = start + 1;
             let half = T::from(0.5).unwrap();
             let one_point_five = T::from(1.5).unwrap();
             let two = T::from(2.0).unwrap();
             let two_point_five = T::from(2.5).unwrap();
-            for num in &mut dest[0..start] {
-                let rounded = i / interpolation_factor + delay;
-                let beforef = rounded.floor();
-                let before = beforef.to_usize().unwrap();
-                assert_eq!(before, 0);
-                let next = before + 1;
-                let next_next = next + 1;
-                let y1 = data[before];
-                let y2 = data[next];
-                let y3 = data[next_next];
-                let x = rounded - beforef;
-                let y0 = y1 - (y2 - y1);
-                let x2 = x * x;
-                let a0 = -half * y0 + one_point_five * y1 - one_point_five * y2 + half * y3;
-                let a1 = y0 - two_point_five * y1 + two * y2 - half * y3;
-                let a2 = -half * y0 + half * y2;
-                let a3 = y1;
-
-                (*num) = (a0 * x * x2) + (a1 * x2) + (a2 * x) + a3;
-                i = i + T::one();
-            }
-
-            for num in &mut dest[start..dest_len - end] {
-                let rounded = i / interpolation_factor + delay;
-                let beforef = rounded.floor();
-                let before = beforef.to_usize().unwrap();
-                let before_before = before - 1;
-                let next = before + 1;
-                let next_next = next + 1;
-                let y0 = data[before_before];
-                let y1 = data[before];
-                let y2 = data[next];
-                let y3 = data[next_next];
-                let x = rounded - beforef;
-                let x2 = x * x;
-                let a0 = -half * y0 + one_point_five * y1 - one_point_five * y2 + half * y3;
-                let a1 = y0 - two_point_five * y1 + two * y2 - half * y3;
-                let a2 = -half * y0 + half * y2;
-                let a3 = y1;
-
-                (*num) = (a0 * x * x2) + (a1 * x2) + (a2 * x) + a3;
-                i = i + T::one();
-            }
+            // The data continues linearly before the first and after the last sample
+            let last = data_len as isize - 1;
+            let sample = |pos: isize| {
+                if pos < 0 {
+                    let slope = data[1.min(data_len - 1)] - data[0];
+                    data[0] + slope * T::from(pos).unwrap()
+                } else if pos > last {
+                    let slope = data[data_len - 1] - data[data_len - 1 - 1.min(data_len - 1)];
+                    data[data_len - 1] + slope * T::from(pos - last).unwrap()
+                } else {
+                    data[pos as usize]
+                }
+            };
 
-            for num in &mut dest[dest_len - end..dest_len] {
+            for num in dest {
                 let rounded = i / interpolation_factor + delay;
                 let beforef = rounded.floor();
-                let before = beforef.to_usize().unwrap();
-                assert!(before + 2 >= data_len);
-                let before_before = before - 1;
-                let y0 = data[before_before];
-                let y1 = data[before];
-                let y2 = if before < data_len - 1 {
-                    data[before + 1]
-                } else {
-                    y1 + (y1 - y0)
-                };
-                let y3 = if before < data_len - 2 {
-                    data[before + 2]
-                } else {
-                    y2 + (y2 - y1)
-                };
+                let before = beforef.to_isize().unwrap();
+                let y0 = sample(before - 1);
+                let y1 = sample(before);
+                let y2 = sample(before + 1);
+                let y3 = sample(before + 2);
                 let x = rounded - beforef;
                 let x2 = x * x;
                 let a0 = -half * y0 + one_point_five * y1 - one_point_five * y2 + half * y3;
-- 
2.43.0


From bb83e44486a9b4d4ad01eb3fd0af94084d76ea34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:18 +0000
Subject: [PATCH 34/71] fix: convolve with a real function fills every tap of
 the optimized impulse response

---
 vector/src/vector_types/time_freq/convolution.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/convolution.rs b/vector/src/vector_types/time_freq/convolution.rs
index 2276539..d29cee5 100644
--- a/vector/src/vector_types/time_freq/convolution.rs
+++ b/vector/src/vector_types/time_freq/convolution.rs
@@ -157,12 +157,13 @@ where
                 multicore_settings: MultiCoreSettings::default(),
             };
 
+            let step = if imp_resp.is_complex() { 2 } else { 1 };
             let mut i = 0;
             let mut j = -(T::from(len).unwrap());
             while i < imp_resp.len() {
                 let value = function.calc(j * ratio_inv);
                 *imp_resp.data_mut(i) = value;
-                i += 2;
+                i += step;
                 j = j + T::one();
             }
 
-- 
2.43.0


From ad33b356470fffa2cc1741f3fb39f8ae185660c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:18 +0000
Subject: [PATCH 35/71] fix: convolve with a complex function fills the
 optimized impulse response in pairs

---
 vector/src/vector_types/time_freq/convolution.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vector/src/vector_types/time_freq/convolution.rs b/vector/src/vector_types/time_freq/convolution.rs
index d29cee5..dfc229d 100644
--- a/vector/src/vector_types/time_freq/convolution.rs
+++ b/vector/src/vector_types/time_freq/convolution.rs
@@ -219,11 +219,11 @@ where
         let points = calc_points(len, ratio, self.is_complex());
         if would_benefit_from_simd(self.len(), len, ratio) && can_use_simd::<T>(points) {
             let mut imp_resp = DspVec {
-                data: InlineVector::of_size(T::zero(), 2 * points),
+                data: InlineVector::of_size(T::zero(), points),
                 delta: self.delta(),
                 domain: self.domain.clone(),
                 number_space: self.number_space.clone(),
-                valid_len: self.valid_len,
+                valid_len: points,
                 multicore_settings: MultiCoreSettings::default(),
             };
 
@@ -232,7 +232,7 @@ where
             while i < imp_resp.len() {
                 let value = function.calc(j * ratio_inv);
                 *imp_resp.data_mut(i) = value.re;
-                i += 2;
+                i += 1;
                 *imp_resp.data_mut(i) = value.im;
                 i += 1;
                 j = j + T::one();
-- 
2.43.0


From cd3ddc11f4cf51e2f22aeec2e3f836d04fa687e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 36/71] fix: overlap_discard calculates every value after the
 last FFT block

---
 vector/src/vector_types/time_freq/convolution.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/convolution.rs b/vector/src/vector_types/time_freq/convolution.rs
index dfc229d..13dc7cd 100644
--- a/vector/src/vector_types/time_freq/convolution.rs
+++ b/vector/src/vector_types/time_freq/convolution.rs
@@ -339,7 +339,13 @@ where
         let scratch_len = 2 * std::cmp::max(fft.get_inplace_scratch_len(), fft.get_outofplace_scratch_len()); // Times 2 as the fft is complex
         let signal_freq_len = 2 * fft_len;
         let tmp_len = 2 * fft_len;
-        let remainder_len = x_len - x_len % fft_len;
+        // Position after the last FFT block, everything which isn't covered by a block
+        // is calculated with the scalar convolution
+        let mut last_position = step_size;
+        while last_position + fft_len < x_len {
+            last_position += step_size;
+        }
+        let remainder_len = 2 * (x_len - (last_position + imp_len / 2));
         let mut array =
             buffer.borrow(filter_response_padded_len + scratch_len + signal_freq_len + tmp_len + remainder_len);
         {
-- 
2.43.0


From b2f8938b10624d86d989f1d08f05cbea9b027568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 37/71] fix: functions are evaluated at the frequencies of the
 FFT shifted spectrum

---
 vector/src/vector_types/time_freq/mod.rs | 28 +++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index f439466..37ace1b 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -624,7 +624,33 @@ where
         TT: Zero + Mul<Output = TT> + Copy + Send + Sync + From<T>,
     {
         let two = T::one() + T::one();
-        if !is_symmetric {
+        if is_fft_shifted && (!is_symmetric || self.points() % 2 != 0) {
+            // The points `k` and `points - k` of a FFT shifted spectrum form a pair. With an odd
+            // number of points they can't be processed as the pairs of a centered spectrum.
+            let len = self.len();
+            let points = self.points();
+            let data = self.data.to_slice_mut();
+            let converted = convert_mut(&mut data[0..len]);
+            Chunk::execute_with_range(
+                Complexity::Medium,
+                &self.multicore_settings,
+                converted,
+                1,
+                (ratio, function_arg),
+                move |array, range, (ratio, arg)| {
+                    let scale = TT::from(ratio);
+                    let max = T::from(points).unwrap() / two;
+                    for (num, i) in array.iter_mut().zip(range) {
+                        let x = if i <= points / 2 {
+                            T::from(i).unwrap()
+                        } else {
+                            -T::from(points - i).unwrap()
+                        };
+                        *num = (*num) * scale * fun(arg, x / max * ratio);
+                    }
+                },
+            );
+        } else if !is_symmetric {
             let len = self.len();
             let points = self.points();
             let data = self.data.to_slice_mut();
-- 
2.43.0


From ab9d08a430b65aa34137f2b0cf7541d1aad14cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 38/71] fix: the linear phase of a delay counts the positive
 frequencies of odd spectra

---
 vector/src/vector_types/time_freq/interpolation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index ef044b7..bb1b71e 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -326,8 +326,8 @@ where
         let pi = T::PI();
         let two = T::one() + T::one();
         let points = self.len() / 2;
-        let pos_points = points / 2;
-        let neg_points = points - pos_points;
+        let neg_points = points / 2;
+        let pos_points = points - neg_points;
         let phase_inc = two * pi * delay / T::from(points).unwrap();
         {
             let len = self.len();
-- 
2.43.0


From e29bf1ef2dd38e29d79304266277f7c06d01b90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:38 +0000
Subject: [PATCH 39/71] fix: correlate accepts arguments which were prepared
 without padding

---
 vector/src/vector_types/time_freq/correlation.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/correlation.rs b/vector/src/vector_types/time_freq/correlation.rs
index 3c73db3..d0000b8 100644
--- a/vector/src/vector_types/time_freq/correlation.rs
+++ b/vector/src/vector_types/time_freq/correlation.rs
@@ -147,7 +147,9 @@ where
         }
 
         let points = other.points();
-        self.zero_pad_b(buffer, points, PaddingOption::Surround)?;
+        if points != self.points() {
+            self.zero_pad_b(buffer, points, PaddingOption::Surround)?;
+        }
         // The next steps: fft, mul, ifft
         let complex = (self.data_mut(..)).to_complex_time_vec();
         let mut buffer = NoTradeBuffer::new(buffer.borrow(buffer.alloc_len()));
-- 
2.43.0


From 360036e962c925dda1afb8687ebb8c5ad8a8833c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:12 +0000
Subject: [PATCH 40/71] fix: the optimized interpolatef uses the same samples
 and function values as the scalar one

---
 .../vector_types/time_freq/interpolation.rs   | 26 +++++++++----------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index bb1b71e..5fd39f2 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -1,7 +1,7 @@
 use super::super::{
     Buffer, BufferBorrow, ComplexOps, DataDomain, Domain, DspVec, ErrorReason, FloatIndex,
     FloatIndexMut, FrequencyToTimeDomainOperations, GenDspVec, InsertZerosOps, InsertZerosOpsBuffered, MetaData,
-    NoTradeBuffer, NumberSpace, PaddingOption, ResizeBufferedOps, ResizeOps, ScaleOps,
+    NoTradeBuffer, NumberSpace, PaddingOption, ReorganizeDataOps, ResizeBufferedOps, ResizeOps, ScaleOps,
     TimeToFrequencyDomainOperations, ToComplexVector, ToDspVector, ToSliceMut, Vector, VoidResult,
 };
 use super::{create_shifted_copies, WrappingIterator};
@@ -170,7 +170,7 @@ where
     let mut imp_resp =
         InlineVector::of_size(T::zero(), data_len).to_gen_dsp_vec(complex_result, DataDomain::Time);
     let mut i = 0;
-    let mut j = -(T::from(conv_len).unwrap() - T::one()) + delay;
+    let mut j = -T::from(conv_len).unwrap() + delay;
     while i < data_len {
         let value = function.calc(j - offset);
         *imp_resp.data_mut(i) = value;
@@ -219,11 +219,14 @@ where
                 conv_len,
                 self.is_complex(),
                 interpolation_factor,
-                delay,
+                -delay, // Same direction as `interpolate`
             );
             let mut shifts = InlineVector::with_capacity(vectors.len() * number_of_shifts);
             for vector in &vectors[..] {
-                let shifted_copies = create_shifted_copies(vector);
+                // `create_shifted_copies` reverses its argument
+                let mut reversed = vector.clone();
+                reversed.reverse();
+                let shifted_copies = create_shifted_copies(&reversed);
                 for shift in shifted_copies.iter() {
                     shifts.push(shift.clone());
                 }
@@ -233,13 +236,13 @@ where
             let temp = temp.to_slice_mut();
             let dest = convert_mut(&mut temp[0..new_len]);
             let len = dest.len();
-            let scalar_len = vectors[0].points() * interpolation_factor;
+            let scalar_len = (vectors[0].points() + Reg::LEN) * interpolation_factor;
 
             let partition = Reg::calc_data_alignment_reqs(&data[0..data_len]);
             let left_points = partition.left / step;
             let simd = Reg::array_to_regs(partition.center(data));
             // Without any SIMD register all points are on the edge
-            let (edge_left, edge_right) = if simd.is_empty() {
+            let (edge_left, edge_right) = if simd.is_empty() || 2 * scalar_len > len {
                 (len, 0)
             } else {
                 (scalar_len, scalar_len)
@@ -256,16 +259,11 @@ where
                 move |dest_range, range, simd| {
                     let mut i = range.start + scalar_len;
                     for num in dest_range {
-                        let rounded = (i + interpolation_factor - 1) / interpolation_factor;
-                        let end = rounded + conv_len - left_points;
+                        let rounded = i / interpolation_factor;
+                        let end = rounded + conv_len + 1 - left_points;
                         let simd_end = (end + simd_len_in_t - 1) / simd_len_in_t;
                         let simd_shift = end % simd_len_in_t;
                         let factor_shift = i % interpolation_factor;
-                        // The reasoning for the next match is analog to the explanation in the
-                        // create_shifted_copies function.
-                        // We need the inverse of the mod unless we start with zero
-                        let factor_shift =
-                            (interpolation_factor - factor_shift) % interpolation_factor;
                         let selection = factor_shift * simd_len_in_t + simd_shift;
                         let shifted = &shifts[selection];
                         let mut sum = Reg::splat(T::zero());
@@ -308,7 +306,7 @@ where
     {
         let rounded = i / interpolation_factor;
         let iter =
-            WrappingIterator::new(data, rounded as isize - conv_len as isize, 2 * conv_len + 1);
+            WrappingIterator::new(data, rounded as isize - conv_len as isize - 1, 2 * conv_len + 1);
         let vector = &vectors[i % interpolation_factor];
         let step = if vector.is_complex() { 2 } else { 1 };
         let mut sum = TT::zero();
-- 
2.43.0


From 8e1dc3f43a5fc55c565e8b044bdfa60cb2e6f4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:41 +0000
Subject: [PATCH 41/71] fix: convolve_signal doesn't expect that registers can
 be loaded from the data

---
 vector/src/vector_types/time_freq/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index 37ace1b..1dff997 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -572,10 +572,16 @@ where
             let step = if self.is_complex() { 2 } else { 1 };
             let scalar_left_points = partition.left / step;
             let simd = Reg::array_to_regs(partition.center(data));
+            // Without any registers (depends on the alignment of the data) everything is scalar
+            let (scalar_left, scalar_right) = if simd.is_empty() {
+                (points, 0)
+            } else {
+                (scalar_len, scalar_len)
+            };
             Chunk::execute_with_range(
                 Complexity::Large,
                 &self.multicore_settings,
-                &mut dest[scalar_len..points - scalar_len],
+                &mut dest[scalar_left..points - scalar_right],
                 1,
                 simd,
                 move |dest_range, range, simd| {
@@ -596,7 +602,7 @@ where
                     }
                 },
             );
-            for (i, num) in IndexedEdgeIteratorMut::new(dest, scalar_len, scalar_len) {
+            for (i, num) in IndexedEdgeIteratorMut::new(dest, scalar_left, scalar_right) {
                 *num = Self::convolve_iteration(
                     complex,
                     other_iter,
-- 
2.43.0


From aee4422a5a90869bb1b63d64092cd10e1f2b86ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:41 +0000
Subject: [PATCH 42/71] fix: functions are multiplied with the zero frequency
 of a single point

---
 vector/src/vector_types/time_freq/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index 1dff997..b66751b 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -670,7 +670,8 @@ where
                 move |array, range, (ratio, arg)| {
                     let scale = TT::from(ratio);
                     let offset = if points % 2 != 0 { 1 } else { 0 };
-                    let max = T::from(points - offset).unwrap() / two;
+                    // A single point is at zero
+                    let max = T::from((points - offset).max(2)).unwrap() / two;
                     let mut j =
                         -(T::from(points - offset).unwrap()) / two + T::from(range.start).unwrap();
                     for num in array {
@@ -699,7 +700,8 @@ where
                     let len1 = array1.len();
                     let len2 = array2.len();
                     let offset = points % 2;
-                    let max = T::from(points - offset).unwrap() / two;
+                    // A single point is at zero
+                    let max = T::from((points - offset).max(2)).unwrap() / two;
                     let center = T::from(points - offset).unwrap() / two;
                     let mut j1 = -center + T::from(range1.start).unwrap();
                     let mut j2 = center - T::from(range2.end - 1).unwrap();
-- 
2.43.0


From 4965c6ea70fe5cea8990757ddb33b8818c871f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:41 +0000
Subject: [PATCH 43/71] fix: prepare_argument_padded accepts empty vectors and
 single points

---
 vector/src/vector_types/time_freq/correlation.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/vector/src/vector_types/time_freq/correlation.rs b/vector/src/vector_types/time_freq/correlation.rs
index d0000b8..4a0d802 100644
--- a/vector/src/vector_types/time_freq/correlation.rs
+++ b/vector/src/vector_types/time_freq/correlation.rs
@@ -107,10 +107,13 @@ where
         B: for<'a> Buffer<'a, S, T>,
     {
         let points = self.points();
-        self.zero_pad_b(buffer, 2 * points - 1, PaddingOption::Surround)
-            .expect(
-                "zero_pad_b shouldn't fail since the argument is always larger than the vector",
-            );
+        // There is nothing to pad for an empty argument or a single point
+        if points > 1 {
+            self.zero_pad_b(buffer, 2 * points - 1, PaddingOption::Surround)
+                .expect(
+                    "zero_pad_b shouldn't fail since the argument is always larger than the vector",
+                );
+        }
         let mut result = self.plain_fft(buffer);
         result.conj();
         result
-- 
2.43.0


From 7190334e81548db34bd6c900bb14ed4b54e12233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:47 +0000
Subject: [PATCH 44/71] fix: generic complex vectors over a slice with an odd
 length are empty

---
 vector/src/vector_types/support_core.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/support_core.rs b/vector/src/vector_types/support_core.rs
index a121d5a..a8906b3 100644
--- a/vector/src/vector_types/support_core.rs
+++ b/vector/src/vector_types/support_core.rs
@@ -522,7 +522,10 @@ where
     T: RealNumber,
 {
     fn to_gen_dsp_vec(self, is_complex: bool, domain: DataDomain) -> GenDspVec<Self, T> {
-        let len = self.len();
+        let mut len = self.len();
+        if len % 2 != 0 && is_complex {
+            len = 0;
+        }
         GenDspVec {
             data: self,
             delta: T::one(),
-- 
2.43.0


From 784ad193efd0d7c9b1b72deb91028e1adc590a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:47 +0000
Subject: [PATCH 45/71] fix: complex vectors converted with from from an odd
 length are empty

---
 vector/src/vector_types/to_from_vec_conversions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/to_from_vec_conversions.rs b/vector/src/vector_types/to_from_vec_conversions.rs
index a2f3db3..eaa2638 100644
--- a/vector/src/vector_types/to_from_vec_conversions.rs
+++ b/vector/src/vector_types/to_from_vec_conversions.rs
@@ -255,7 +255,7 @@ where
             delta: T::one(),
             domain: meta::Time,
             number_space: meta::Complex,
-            valid_len: len,
+            valid_len: if len % 2 == 0 { len } else { 0 },
             multicore_settings: MultiCoreSettings::default(),
         }
     }
@@ -296,7 +296,7 @@ where
             delta: T::one(),
             domain: meta::Freq,
             number_space: meta::Complex,
-            valid_len: len,
+            valid_len: if len % 2 == 0 { len } else { 0 },
             multicore_settings: MultiCoreSettings::default(),
         }
     }
-- 
2.43.0


From 7a8416d57524dc0b86ad2bd8ac9773607f735bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:09 +0000
Subject: [PATCH 46/71] fix: conversion between complex and interleaved storage
 accepts empty and odd allocations

---
 vector/src/vector_types/support_std.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/vector/src/vector_types/support_std.rs b/vector/src/vector_types/support_std.rs
index 8a1c3cd..cbb4d70 100644
--- a/vector/src/vector_types/support_std.rs
+++ b/vector/src/vector_types/support_std.rs
@@ -644,13 +644,12 @@ where
     T: RealNumber,
 {
     expand_to_full_capacity(&mut vec);
-    let boxed = vec.into_boxed_slice();
+    let mut boxed = vec.into_boxed_slice();
     let len = boxed.len();
     unsafe {
-        let mut trans: Box<[T]> = mem::transmute(boxed);
-        let vec = Vec::<T>::from_raw_parts(&mut trans[0] as *mut T, len * 2, len * 2);
-        mem::forget(trans); // TODO memory leak?
-        vec
+        let ptr = boxed.as_mut_ptr() as *mut T;
+        mem::forget(boxed);
+        Vec::<T>::from_raw_parts(ptr, len * 2, len * 2)
     }
 }
 
@@ -659,14 +658,16 @@ where
     T: RealNumber,
 {
     expand_to_full_capacity(&mut vec);
-    let boxed = vec.into_boxed_slice();
+    if vec.len() % 2 != 0 {
+        // The last element isn't a complete complex number
+        vec.pop();
+    }
+    let mut boxed = vec.into_boxed_slice();
     let len = boxed.len();
     unsafe {
-        let mut trans: Box<[Complex<T>]> = mem::transmute(boxed);
-        let vec =
-            Vec::<Complex<T>>::from_raw_parts(&mut trans[0] as *mut Complex<T>, len / 2, len / 2);
-        mem::forget(trans); // TODO memory leak?
-        vec
+        let ptr = boxed.as_mut_ptr() as *mut Complex<T>;
+        mem::forget(boxed);
+        Vec::<Complex<T>>::from_raw_parts(ptr, len / 2, len / 2)
     }
 }
 
-- 
2.43.0


From 361b925b66dd8700c0fbf8ef50f5b282bebaa0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:09 +0000
Subject: [PATCH 47/71] fix: a vector converted from a complex vector contains
 only the valid points

---
 vector/src/vector_types/support_std.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/support_std.rs b/vector/src/vector_types/support_std.rs
index cbb4d70..64533db 100644
--- a/vector/src/vector_types/support_std.rs
+++ b/vector/src/vector_types/support_std.rs
@@ -626,7 +626,10 @@ where
     fn from(mut vector: DspVec<Vec<T>, T, meta::Complex, D>) -> Self {
         let len = vector.valid_len;
         vector.data.truncate(len);
-        interleaved_vec_to_complex_vec(vector.data)
+        let mut result = interleaved_vec_to_complex_vec(vector.data);
+        // Remove everything which the conversion added to fill the capacity
+        result.truncate(len / 2);
+        result
     }
 }
 
-- 
2.43.0


From 2083aef24761dccfee8f32bc709d08246b4443ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:09 +0000
Subject: [PATCH 48/71] fix: get of a complex slice accepts a storage with an
 odd length

---
 vector/src/vector_types/support_core.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/support_core.rs b/vector/src/vector_types/support_core.rs
index a8906b3..636f1e2 100644
--- a/vector/src/vector_types/support_core.rs
+++ b/vector/src/vector_types/support_core.rs
@@ -790,7 +790,8 @@ where
 
     fn get(self) -> (Self::Output, usize) {
         let len = self.valid_len / 2;
-        (array_to_complex(self.data), len)
+        let even = self.data.len() & !1;
+        (array_to_complex(&self.data[..even]), len)
     }
 }
 
@@ -803,6 +804,7 @@ where
 
     fn get(self) -> (Self::Output, usize) {
         let len = self.valid_len / 2;
-        (array_to_complex_mut(self.data), len)
+        let even = self.data.len() & !1;
+        (array_to_complex_mut(&mut self.data[..even]), len)
     }
 }
-- 
2.43.0


From c989734cfefac02f8f9ba17e21e1a3d213ccec20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:17 +0000
Subject: [PATCH 49/71] fix: the complex indexers return an empty array if the
 vector isn't complex

---
 .../src/vector_types/vec_impl_and_indexers.rs | 37 ++++++++++++++-----
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/vector/src/vector_types/vec_impl_and_indexers.rs b/vector/src/vector_types/vec_impl_and_indexers.rs
index 36d17e7..d029aa8 100644
--- a/vector/src/vector_types/vec_impl_and_indexers.rs
+++ b/vector/src/vector_types/vec_impl_and_indexers.rs
@@ -464,6 +464,23 @@ where
     }
 }
 
+impl<S, T, N, D> DspVec<S, T, N, D>
+where
+    S: ToSlice<T>,
+    T: RealNumber,
+    N: NumberSpace,
+    D: Domain,
+{
+    /// The number of elements which can be accessed as complex data.
+    fn complex_len(&self) -> usize {
+        if self.is_complex() {
+            self.valid_len
+        } else {
+            0
+        }
+    }
+}
+
 impl<S, T, N, D> ComplexIndex<usize> for DspVec<S, T, N, D>
 where
     S: ToSlice<T>,
@@ -474,7 +491,7 @@ where
     type Output = Complex<T>;
 
     fn datac(&self, index: usize) -> &Complex<T> {
-        let len = self.valid_len;
+        let len = self.complex_len();
         let slice = self.data.to_slice();
         let slice = array_to_complex(&slice[0..len]);
         &slice[index]
@@ -489,7 +506,7 @@ where
     D: Domain,
 {
     fn datac_mut(&mut self, index: usize) -> &mut Complex<T> {
-        let len = self.valid_len;
+        let len = self.complex_len();
         let slice = self.data.to_slice_mut();
         let slice = array_to_complex_mut(&mut slice[0..len]);
         &mut slice[index]
@@ -506,7 +523,7 @@ where
     type Output = [Complex<T>];
 
     fn datac(&self, _index: RangeFull) -> &[Complex<T>] {
-        let len = self.valid_len;
+        let len = self.complex_len();
         let slice = self.data.to_slice();
         array_to_complex(&slice[0..len])
     }
@@ -520,7 +537,7 @@ where
     D: Domain,
 {
     fn datac_mut(&mut self, _index: RangeFull) -> &mut [Complex<T>] {
-        let len = self.valid_len;
+        let len = self.complex_len();
         let slice = self.data.to_slice_mut();
         array_to_complex_mut(&mut slice[0..len])
     }
@@ -536,7 +553,7 @@ where
     type Output = [Complex<T>];
 
     fn datac(&self, index: RangeFrom<usize>) -> &[Complex<T>] {
-        let len = self.valid_len;
+        let len = self.complex_len();
         let slice = self.data.to_slice();
         let slice = array_to_complex(&slice[0..len]);
         &slice[index]
@@ -551,7 +568,7 @@ where
     D: Domain,
 {
     fn datac_mut(&mut self, index: RangeFrom<usize>) -> &mut [Complex<T>] {
-        let len = self.valid_len;
+        let len = self.complex_len();
         let slice = self.data.to_slice_mut();
         let slice = array_to_complex_mut(&mut slice[0..len]);
         &mut slice[index]
@@ -568,7 +585,7 @@ where
     type Output = [Complex<T>];
 
     fn datac(&self, index: RangeTo<usize>) -> &[Complex<T>] {
-        let len = self.valid_len;
+        let len = self.complex_len();
         let slice = self.data.to_slice();
         let slice = array_to_complex(&slice[0..len]);
         &slice[index]
@@ -583,7 +600,7 @@ where
     D: Domain,
 {
     fn datac_mut(&mut self, index: RangeTo<usize>) -> &mut [Complex<T>] {
-        let len = self.valid_len;
+        let len = self.complex_len();
         let slice = self.data.to_slice_mut();
         let slice = array_to_complex_mut(&mut slice[0..len]);
         &mut slice[index]
@@ -600,7 +617,7 @@ where
     type Output = [Complex<T>];
 
     fn datac(&self, index: Range<usize>) -> &[Complex<T>] {
-        let len = self.valid_len;
+        let len = self.complex_len();
         let slice = self.data.to_slice();
         let slice = array_to_complex(&slice[0..len]);
         &slice[index]
@@ -615,7 +632,7 @@ where
     D: Domain,
 {
     fn datac_mut(&mut self, index: Range<usize>) -> &mut [Complex<T>] {
-        let len = self.valid_len;
+        let len = self.complex_len();
         let slice = self.data.to_slice_mut();
         let slice = array_to_complex_mut(&mut slice[0..len]);
         &mut slice[index]
-- 
2.43.0


From 18dcca653b9a44e820dea8e540d1e6f058530d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:37 +0000
Subject: [PATCH 50/71] fix: get_real, get_imag, get_magnitude and get_phase
 only need room for the points of the vector

---
 .../src/vector_types/complex/complex_to_real.rs   | 15 ---------------
 1 file changed, 15 deletions(-)

diff --git a/vector/src/vector_types/complex/complex_to_real.rs b/vector/src/vector_types/complex/complex_to_real.rs
index 1bbc669..c744b33 100644
--- a/vector/src/vector_types/complex/complex_to_real.rs
+++ b/vector/src/vector_types/complex/complex_to_real.rs
@@ -608,9 +608,6 @@ where
 {
     fn get_real(&self, destination: &mut O) {
         assert_self_complex_and_target_real!(self, destination);
-        destination
-            .resize(self.len())
-            .expect("Target is real and thus all values are valid");
         self.pure_complex_into_real_target_operation(
             destination,
             |x, _arg| x.re,
@@ -621,9 +618,6 @@ where
 
     fn get_imag(&self, destination: &mut O) {
         assert_self_complex_and_target_real!(self, destination);
-        destination
-            .resize(self.len())
-            .expect("Target is real and thus all values are valid");
         self.pure_complex_into_real_target_operation(
             destination,
             |x, _arg| x.im,
@@ -634,9 +628,6 @@ where
 
     fn get_magnitude(&self, destination: &mut O) {
         assert_self_complex_and_target_real!(self, destination);
-        destination
-            .resize(self.len())
-            .expect("Target is real and thus all values are valid");
         sel_reg!(self.simd_complex_into_real_target_operation::<T>(
             destination,
             |x| x.complex_abs(),
@@ -647,9 +638,6 @@ where
 
     fn get_magnitude_squared(&self, destination: &mut O) {
         assert_self_complex_and_target_real!(self, destination);
-        destination
-            .resize(self.len())
-            .expect("Target is real and thus all values are valid");
         sel_reg!(self.simd_complex_into_real_target_operation::<T>(
             destination,
             |x| x.complex_abs_squared(),
@@ -660,9 +648,6 @@ where
 
     fn get_phase(&self, destination: &mut O) {
         assert_self_complex_and_target_real!(self, destination);
-        destination
-            .resize(self.len())
-            .expect("Target is real and thus all values are valid");
         self.pure_complex_into_real_target_operation(
             destination,
             |x, _arg| x.arg(),
-- 
2.43.0


From 8f2f7723f3a6c577686b52261f6b26f02e4b2961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:07 +0000
Subject: [PATCH 51/71] fix: abs of very large and very small numbers, which
 overflowed when they were squared

---
 vector/src/vector_types/real/real_ops.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/vector/src/vector_types/real/real_ops.rs b/vector/src/vector_types/real/real_ops.rs
index b8cb465..3eba4e0 100644
--- a/vector/src/vector_types/real/real_ops.rs
+++ b/vector/src/vector_types/real/real_ops.rs
@@ -242,12 +242,7 @@ where
 {
     fn abs(&mut self) {
         assert_real!(self);
-        sel_reg!(self.simd_real_operation::<T>(
-            |x, _arg| (x * x).sqrt(),
-            |x, _arg| x.abs(),
-            (),
-            Complexity::Small
-        ));
+        self.pure_real_operation(|x, _arg| x.abs(), (), Complexity::Small);
     }
 }
 
-- 
2.43.0


From 5eef6c4124f4cb8cac1dbd55d37d90ca3bcf35d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:07 +0000
Subject: [PATCH 52/71] fix: merge into a complex vector must not read past the
 end of sources with an odd length

---
 vector/src/vector_types/general/data_reorganization.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index b32bec4..3e9d054 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -532,6 +532,10 @@ where
                 }
             }
 
+            if self.is_complex() && sources[0].len() % 2 != 0 {
+                return Err(ErrorReason::InputMustHaveAnEvenLength);
+            }
+
             self.resize(sources[0].len() * num_sources)?;
 
             let data_length = self.len();
-- 
2.43.0


From ba5411bd9d6385fb83d837b1298b7064f4992253 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:27:07 +0000
Subject: [PATCH 53/71] fix: magnitude and magnitude_squared of f64 vectors
 with AVX2 repeated every other point

---
 vector/src/simd_extensions/avx.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/simd_extensions/avx.rs b/vector/src/simd_extensions/avx.rs
index dc478bd..d1c4bb4 100644
--- a/vector/src/simd_extensions/avx.rs
+++ b/vector/src/simd_extensions/avx.rs
@@ -333,7 +333,7 @@ impl Simd<f64> for f64x4 {
     #[inline]
     fn store_half(self, target: &mut [f64], index: usize) {
         target[index] = self.extract(0);
-        target[index + 1] = self.extract(1);
+        target[index + 1] = self.extract(2);
     }
 
     #[inline]
-- 
2.43.0


From 4c4ae089e5ec13d03acb2195690ac79bcaf0b2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:07 +0000
Subject: [PATCH 54/71] fix: logarithm approximation was off by up to 2% in the
 upper half of every octave

---
 vector/src/simd_extensions/approximations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/simd_extensions/approximations.rs b/vector/src/simd_extensions/approximations.rs
index 8c4b441..c2de96c 100644
--- a/vector/src/simd_extensions/approximations.rs
+++ b/vector/src/simd_extensions/approximations.rs
@@ -69,7 +69,7 @@ macro_rules! simd_approx_impl {
                 let one = $regf::splat(1.0);
                 let onef_as_uint: $regu = unsafe { mem::transmute(one) };
                 let half = $regf::splat(0.5);
-                let sqrthf = $regf::splat(2.0.sqrt());
+                let sqrthf = $regf::splat(0.5.sqrt());
                 let log_p0 = $regf::splat(7.0376836292E-2);
                 let log_p1 = $regf::splat(-1.1514610310E-1);
                 let log_p2 = $regf::splat(1.1676998740E-1);
-- 
2.43.0


From f9395efae58391c970ea31dd7ea4ff7eece74d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:11 +0000
Subject: [PATCH 55/71] fix: convolve_signal with an impulse response in a
 storage of odd size panicked

---
 vector/src/vector_types/time_freq/convolution.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/convolution.rs b/vector/src/vector_types/time_freq/convolution.rs
index 13dc7cd..b4fabd4 100644
--- a/vector/src/vector_types/time_freq/convolution.rs
+++ b/vector/src/vector_types/time_freq/convolution.rs
@@ -368,7 +368,7 @@ where
             let (filter_response_padded, _) = filter_response_padded.getf();
 
             let signal_time = self.data.to_slice_mut();
-            let filter_response: &[Complex<T>] = array_to_complex(&filter_response[..]);
+            let filter_response: &[Complex<T>] = array_to_complex(&filter_response[0..2 * imp_len]);
             let filter_response_padded: &mut [Complex<T>] =
                 array_to_complex_mut(&mut filter_response_padded[0..2 * fft_len]);
             let signal_time: &mut [Complex<T>] = array_to_complex_mut(&mut signal_time[0..2 * x_len]);
-- 
2.43.0


From c8bd051908941783c8a84f9698e85a077a7caf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:32 +0000
Subject: [PATCH 56/71] fix: get_magnitude, get_magnitude_squared and get_phase
 of a matrix returned the imaginary part

---
 matrix/src/complex.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matrix/src/complex.rs b/matrix/src/complex.rs
index b2495e0..2a4fbe4 100644
--- a/matrix/src/complex.rs
+++ b/matrix/src/complex.rs
@@ -134,19 +134,19 @@ macro_rules! add_mat_impl {
 
 				fn get_magnitude(&self, destination: &mut O) {
                     for (o, v) in destination.rows_mut().iter_mut().zip(self.rows()) {
-						v.get_imag(o);
+						v.get_magnitude(o);
 					}
 				}
 
 				fn get_magnitude_squared(&self, destination: &mut O) {
                     for (o, v) in destination.rows_mut().iter_mut().zip(self.rows()) {
-						v.get_imag(o);
+						v.get_magnitude_squared(o);
 					}
 				}
 
 				fn get_phase(&self, destination: &mut O) {
                     for (o, v) in destination.rows_mut().iter_mut().zip(self.rows()) {
-						v.get_imag(o);
+						v.get_phase(o);
 					}
 				}
 
-- 
2.43.0


From adea0189528b4eaa2214a3c579edb50d9eb4581f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:32 +0000
Subject: [PATCH 57/71] fix: diff_with_start and cum_sum of a matrix calculated
 diff

---
 matrix/src/general/elementary.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/src/general/elementary.rs b/matrix/src/general/elementary.rs
index e9e8aaa..7b94333 100644
--- a/matrix/src/general/elementary.rs
+++ b/matrix/src/general/elementary.rs
@@ -213,13 +213,13 @@ macro_rules! add_mat_impl {
 
 				fn diff_with_start(&mut self)  {
 					for v in self.rows_mut() {
-						v.diff()
+						v.diff_with_start()
 					}
 				}
 
 				fn cum_sum(&mut self)  {
 					for v in self.rows_mut() {
-						v.diff()
+						v.cum_sum()
 					}
 				}
 			}
-- 
2.43.0


From 4694e90ef01e03eee200ae8a027614052ac36cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:32 +0000
Subject: [PATCH 58/71] fix: convolution of a complex matrix with impulse
 responses only used the first points of the rows

---
 vector/src/vector_types/time_freq/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index b66751b..9721a3f 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -415,7 +415,7 @@ where
                 .collect();
             let data_vecs: InlineVector<&[Complex<T>]> = data_vecs
                 .iter()
-                .map(|o| array_to_complex(&o[0..impulse_response[0].len()]))
+                .map(|o| array_to_complex(&o[0..len]))
                 .collect();
             let dest = array_to_complex_mut(&mut target[0..len]);
             let conv_len = conv_len as isize;
-- 
2.43.0


From c53ababba282c5c256aa11f0e6314100e48dda42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:32 +0000
Subject: [PATCH 59/71] fix: sum and sum_sq for three and four rows were
 implemented for the matrix with two rows

---
 matrix/src/general/statistics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/src/general/statistics.rs b/matrix/src/general/statistics.rs
index 49a628c..4a24251 100644
--- a/matrix/src/general/statistics.rs
+++ b/matrix/src/general/statistics.rs
@@ -187,7 +187,7 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> SumOps<[T; 3]> for Matrix2xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> SumOps<[T; 3]> for Matrix3xN<V, S, T>
 where
     V: SumOps<T>,
 {
@@ -212,7 +212,7 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> SumOps<[T; 4]> for Matrix2xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> SumOps<[T; 4]> for Matrix4xN<V, S, T>
 where
     V: SumOps<T>,
 {
-- 
2.43.0


From f6611de560ddb4bac13277371947bcd5a794e791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:10 +0000
Subject: [PATCH 60/71] fix: statistics of matrices had a trait bound which no
 vector fulfills

---
 matrix/src/general/statistics.rs | 104 +++++++++++++++----------------
 1 file changed, 52 insertions(+), 52 deletions(-)

diff --git a/matrix/src/general/statistics.rs b/matrix/src/general/statistics.rs
index 4a24251..7360a9a 100644
--- a/matrix/src/general/statistics.rs
+++ b/matrix/src/general/statistics.rs
@@ -1,13 +1,13 @@
 use super::*;
 use crate::IntoFixedLength;
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsOps<T> for MatrixMxN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber, O> StatisticsOps<O> for MatrixMxN<V, S, T>
 where
-    V: StatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: StatisticsOps<O, Result = Statistics<O>>,
 {
-    type Result = Vec<Statistics<T>>;
+    type Result = Vec<Statistics<O>>;
 
-    fn statistics(&self) -> Vec<Statistics<T>> {
+    fn statistics(&self) -> Vec<Statistics<O>> {
         let mut result = Vec::with_capacity(self.col_len());
         for v in self.rows() {
             let res = v.statistics();
@@ -18,13 +18,13 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsSplitOps<T> for MatrixMxN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber, O> StatisticsSplitOps<O> for MatrixMxN<V, S, T>
 where
-    V: StatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: StatisticsSplitOps<O, Result = StatsVec<Statistics<O>>>,
 {
-    type Result = Vec<StatsVec<Statistics<T>>>;
+    type Result = Vec<StatsVec<Statistics<O>>>;
 
-    fn statistics_split(&self, len: usize) -> ScalarResult<Vec<StatsVec<Statistics<T>>>> {
+    fn statistics_split(&self, len: usize) -> ScalarResult<Vec<StatsVec<Statistics<O>>>> {
         let mut result = Vec::with_capacity(self.col_len());
         for v in self.rows() {
             let res = v.statistics_split(len)?;
@@ -35,11 +35,11 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsOps<T> for Matrix2xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber, O> StatisticsOps<O> for Matrix2xN<V, S, T>
 where
-    V: StatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: StatisticsOps<O, Result = Statistics<O>>,
 {
-    type Result = [Statistics<T>; 2];
+    type Result = [Statistics<O>; 2];
 
     fn statistics(&self) -> Self::Result {
         let mut result = Vec::with_capacity(self.col_len());
@@ -52,11 +52,11 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsSplitOps<T> for Matrix2xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber, O> StatisticsSplitOps<O> for Matrix2xN<V, S, T>
 where
-    V: StatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: StatisticsSplitOps<O, Result = StatsVec<Statistics<O>>>,
 {
-    type Result = [StatsVec<Statistics<T>>; 2];
+    type Result = [StatsVec<Statistics<O>>; 2];
 
     fn statistics_split(&self, len: usize) -> ScalarResult<Self::Result> {
         let mut result = Vec::with_capacity(self.col_len());
@@ -69,11 +69,11 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsOps<T> for Matrix3xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber, O> StatisticsOps<O> for Matrix3xN<V, S, T>
 where
-    V: StatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: StatisticsOps<O, Result = Statistics<O>>,
 {
-    type Result = [Statistics<T>; 3];
+    type Result = [Statistics<O>; 3];
 
     fn statistics(&self) -> Self::Result {
         let mut result = Vec::with_capacity(self.col_len());
@@ -86,11 +86,11 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsSplitOps<T> for Matrix3xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber, O> StatisticsSplitOps<O> for Matrix3xN<V, S, T>
 where
-    V: StatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: StatisticsSplitOps<O, Result = StatsVec<Statistics<O>>>,
 {
-    type Result = [StatsVec<Statistics<T>>; 3];
+    type Result = [StatsVec<Statistics<O>>; 3];
 
     fn statistics_split(&self, len: usize) -> ScalarResult<Self::Result> {
         let mut result = Vec::with_capacity(self.col_len());
@@ -103,11 +103,11 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsOps<T> for Matrix4xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber, O> StatisticsOps<O> for Matrix4xN<V, S, T>
 where
-    V: StatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: StatisticsOps<O, Result = Statistics<O>>,
 {
-    type Result = [Statistics<T>; 4];
+    type Result = [Statistics<O>; 4];
 
     fn statistics(&self) -> Self::Result {
         let mut result = Vec::with_capacity(self.col_len());
@@ -120,11 +120,11 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsSplitOps<T> for Matrix4xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber, O> StatisticsSplitOps<O> for Matrix4xN<V, S, T>
 where
-    V: StatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: StatisticsSplitOps<O, Result = StatsVec<Statistics<O>>>,
 {
-    type Result = [StatsVec<Statistics<T>>; 4];
+    type Result = [StatsVec<Statistics<O>>; 4];
 
     fn statistics_split(&self, len: usize) -> ScalarResult<Self::Result> {
         let mut result = Vec::with_capacity(self.col_len());
@@ -237,13 +237,13 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsOps<T> for MatrixMxN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber, O> PreciseStatisticsOps<O> for MatrixMxN<V, S, T>
 where
-    V: PreciseStatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: PreciseStatisticsOps<O, Result = Statistics<O>>,
 {
-    type Result = Vec<Statistics<T>>;
+    type Result = Vec<Statistics<O>>;
 
-    fn statistics_prec(&self) -> Vec<Statistics<T>> {
+    fn statistics_prec(&self) -> Vec<Statistics<O>> {
         let mut result = Vec::with_capacity(self.col_len());
         for v in self.rows() {
             let res = v.statistics_prec();
@@ -254,13 +254,13 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsSplitOps<T> for MatrixMxN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber, O> PreciseStatisticsSplitOps<O> for MatrixMxN<V, S, T>
 where
-    V: PreciseStatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: PreciseStatisticsSplitOps<O, Result = StatsVec<Statistics<O>>>,
 {
-    type Result = Vec<StatsVec<Statistics<T>>>;
+    type Result = Vec<StatsVec<Statistics<O>>>;
 
-    fn statistics_split_prec(&self, len: usize) -> ScalarResult<Vec<StatsVec<Statistics<T>>>> {
+    fn statistics_split_prec(&self, len: usize) -> ScalarResult<Vec<StatsVec<Statistics<O>>>> {
         let mut result = Vec::with_capacity(self.col_len());
         for v in self.rows() {
             let res = v.statistics_split_prec(len)?;
@@ -271,11 +271,11 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsOps<T> for Matrix2xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber, O> PreciseStatisticsOps<O> for Matrix2xN<V, S, T>
 where
-    V: PreciseStatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: PreciseStatisticsOps<O, Result = Statistics<O>>,
 {
-    type Result = [Statistics<T>; 2];
+    type Result = [Statistics<O>; 2];
 
     fn statistics_prec(&self) -> Self::Result {
         let mut result = Vec::with_capacity(self.col_len());
@@ -288,11 +288,11 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsSplitOps<T> for Matrix2xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber, O> PreciseStatisticsSplitOps<O> for Matrix2xN<V, S, T>
 where
-    V: PreciseStatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: PreciseStatisticsSplitOps<O, Result = StatsVec<Statistics<O>>>,
 {
-    type Result = [StatsVec<Statistics<T>>; 2];
+    type Result = [StatsVec<Statistics<O>>; 2];
 
     fn statistics_split_prec(&self, len: usize) -> ScalarResult<Self::Result> {
         let mut result = Vec::with_capacity(self.col_len());
@@ -305,11 +305,11 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsOps<T> for Matrix3xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber, O> PreciseStatisticsOps<O> for Matrix3xN<V, S, T>
 where
-    V: PreciseStatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: PreciseStatisticsOps<O, Result = Statistics<O>>,
 {
-    type Result = [Statistics<T>; 3];
+    type Result = [Statistics<O>; 3];
 
     fn statistics_prec(&self) -> Self::Result {
         let mut result = Vec::with_capacity(self.col_len());
@@ -322,11 +322,11 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsSplitOps<T> for Matrix3xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber, O> PreciseStatisticsSplitOps<O> for Matrix3xN<V, S, T>
 where
-    V: PreciseStatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: PreciseStatisticsSplitOps<O, Result = StatsVec<Statistics<O>>>,
 {
-    type Result = [StatsVec<Statistics<T>>; 3];
+    type Result = [StatsVec<Statistics<O>>; 3];
 
     fn statistics_split_prec(&self, len: usize) -> ScalarResult<Self::Result> {
         let mut result = Vec::with_capacity(self.col_len());
@@ -339,11 +339,11 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsOps<T> for Matrix4xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber, O> PreciseStatisticsOps<O> for Matrix4xN<V, S, T>
 where
-    V: PreciseStatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: PreciseStatisticsOps<O, Result = Statistics<O>>,
 {
-    type Result = [Statistics<T>; 4];
+    type Result = [Statistics<O>; 4];
 
     fn statistics_prec(&self) -> Self::Result {
         let mut result = Vec::with_capacity(self.col_len());
@@ -356,11 +356,11 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsSplitOps<T> for Matrix4xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber, O> PreciseStatisticsSplitOps<O> for Matrix4xN<V, S, T>
 where
-    V: PreciseStatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: PreciseStatisticsSplitOps<O, Result = StatsVec<Statistics<O>>>,
 {
-    type Result = [StatsVec<Statistics<T>>; 4];
+    type Result = [StatsVec<Statistics<O>>; 4];
 
     fn statistics_split_prec(&self, len: usize) -> ScalarResult<Self::Result> {
         let mut result = Vec::with_capacity(self.col_len());
-- 
2.43.0


From 07e3a83036613ecfe368f72a041ad143dff93b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:22 +0000
Subject: [PATCH 61/71] fix: convolution of a matrix with impulse responses
 must report disagreeing meta data and frequency domain input as the vector
 operation does

---
 vector/src/vector_types/time_freq/mod.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index 9721a3f..18738d8 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -16,8 +16,8 @@ mod real_interpolation;
 pub use self::real_interpolation::*;
 
 use super::{
-    Buffer, BufferBorrow, Domain, DspVec, ErrorReason, GetMetaData, MetaData, NumberSpace,
-    ToSliceMut, Vector, VoidResult,
+    Buffer, BufferBorrow, DataDomain, Domain, DspVec, ErrorReason, GetMetaData, MetaData,
+    NumberSpace, ToSliceMut, Vector, VoidResult,
 };
 use crate::gpu_support::GpuSupport;
 use crate::inline_vector::InlineVector;
@@ -373,6 +373,22 @@ where
             return Err(ErrorReason::InvalidArgumentLength);
         }
 
+        let first = matrix[0];
+        for v in matrix.iter().chain(impulse_response.iter()) {
+            let delta_ratio = first.delta() / v.delta();
+            if v.is_complex() != first.is_complex()
+                || v.domain() != first.domain()
+                || delta_ratio > T::from(1.1).unwrap()
+                || delta_ratio < T::from(0.9).unwrap()
+            {
+                return Err(ErrorReason::InputMetaDataMustAgree);
+            }
+        }
+
+        if first.domain() != DataDomain::Time {
+            return Err(ErrorReason::InputMustBeInTimeDomain);
+        }
+
         let expected_len = matrix[0].len();
         for v in &matrix[..] {
             if v.len() != expected_len {
-- 
2.43.0


From 07f6ced5e2bb3aa1f8f66cb2f6e164d9efee3ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:23 +0000
Subject: [PATCH 62/71] fix: convolution of a matrix with a wrong number of
 impulse response rows returned unset rows

---
 matrix/src/time_freq.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/matrix/src/time_freq.rs b/matrix/src/time_freq.rs
index 4aef619..5ba9f5a 100644
--- a/matrix/src/time_freq.rs
+++ b/matrix/src/time_freq.rs
@@ -440,6 +440,10 @@ macro_rules! convolve_signal {
     ($self_: expr, $buffer: ident, $impulse_response: ident) => {{
         let col_len = $self_.col_len();
         let row_len = $self_.row_len();
+        if $impulse_response.len() != col_len {
+            return Err(ErrorReason::InvalidArgumentLength);
+        }
+
         let mut target = $buffer.borrow(row_len * col_len);
         {
             let rows: Vec<&DspVec<S, T, N, D>> = $self_.rows().iter().collect();
-- 
2.43.0


From 39933a8b825bf373f9fd1f2de59339fc1000e57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:36 +0000
Subject: [PATCH 63/71] fix: atan32 and atan64 calculated the tangent

---
 interop/src/facade32.rs | 2 +-
 interop/src/facade64.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index 61f890d..79549e8 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -446,7 +446,7 @@ pub extern "C" fn acos32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
 
 #[no_mangle]
 pub extern "C" fn atan32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
-    vector.convert_vec(|v, _| Ok(v.tan()))
+    vector.convert_vec(|v, _| Ok(v.atan()))
 }
 
 #[no_mangle]
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index b54d5aa..a89aa12 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -447,7 +447,7 @@ pub extern "C" fn acos64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
 
 #[no_mangle]
 pub extern "C" fn atan64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
-    vector.convert_vec(|v, _| Ok(v.tan()))
+    vector.convert_vec(|v, _| Ok(v.atan()))
 }
 
 #[no_mangle]
-- 
2.43.0


From b2acec2ff061f048672dc3631c5f11979f62d29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:36 +0000
Subject: [PATCH 64/71] fix: sub32 and sub64 expected a pointer to a pointer as
 operand

---
 interop/src/facade32.rs | 2 +-
 interop/src/facade64.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index 79549e8..c5fc82f 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -175,7 +175,7 @@ pub extern "C" fn add32(vector: Box<VecBuf>, operand: &VecBuf) -> VectorInteropR
 }
 
 #[no_mangle]
-pub extern "C" fn sub32(vector: Box<VecBuf>, operand: &VecBox) -> VectorInteropResult<VecBuf> {
+pub extern "C" fn sub32(vector: Box<VecBuf>, operand: &VecBuf) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| v.sub(&operand.vec))
 }
 
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index a89aa12..2872878 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -176,7 +176,7 @@ pub extern "C" fn add64(vector: Box<VecBuf>, operand: &VecBuf) -> VectorInteropR
 }
 
 #[no_mangle]
-pub extern "C" fn sub64(vector: Box<VecBuf>, operand: &VecBox) -> VectorInteropResult<VecBuf> {
+pub extern "C" fn sub64(vector: Box<VecBuf>, operand: &VecBuf) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| v.sub(&operand.vec))
 }
 
-- 
2.43.0


From 0e0f2f5837a3bb224f0dc3a33cb38d643b5e65cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:36 +0000
Subject: [PATCH 65/71] fix: functions of the interface without a vector as
 result returned an error code in case of success

---
 interop/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interop/src/lib.rs b/interop/src/lib.rs
index 0f8b45d..47f7867 100644
--- a/interop/src/lib.rs
+++ b/interop/src/lib.rs
@@ -99,7 +99,7 @@ where
 
 pub fn convert_void(result: VoidResult) -> i32 {
     match result {
-        Ok(()) => 9,
+        Ok(()) => 0,
         Err(err) => translate_error(err),
     }
 }
-- 
2.43.0


From 226a7f8f9cef49b570399b1d258e698029b94a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:37 +0000
Subject: [PATCH 66/71] fix: overwrite_data refused to overwrite the whole
 vector

---
 interop/src/facade32.rs | 2 +-
 interop/src/facade64.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index c5fc82f..40838ad 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -830,7 +830,7 @@ pub extern "C" fn overwrite_data32(
     len: usize,
 ) -> VectorInteropResult<VecBuf> {
     let data = unsafe { slice::from_raw_parts(data, len) };
-    if len < vector.vec.len() {
+    if len <= vector.vec.len() {
         vector.vec.data_mut(0..len).clone_from_slice(&data);
         VectorInteropResult {
             result_code: 0,
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index 2872878..1a3a6e2 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -831,7 +831,7 @@ pub extern "C" fn overwrite_data64(
     len: usize,
 ) -> VectorInteropResult<VecBuf> {
     let data = unsafe { slice::from_raw_parts(data, len) };
-    if len < vector.vec.len() {
+    if len <= vector.vec.len() {
         vector.vec.data_mut(0..len).clone_from_slice(&data);
         VectorInteropResult {
             result_code: 0,
-- 
2.43.0


From 55bd96ad0315d8f4528a63589c817c1f007a5bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:37 +0000
Subject: [PATCH 67/71] fix: fft_shift and ifft_shift were not exported

---
 interop/src/facade32.rs | 2 ++
 interop/src/facade64.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index 40838ad..666c220 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -960,10 +960,12 @@ pub extern "C" fn mirror32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, b| Ok(v.mirror(b)))
 }
 
+#[no_mangle]
 pub extern "C" fn fft_shift32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| Ok(v.fft_shift()))
 }
 
+#[no_mangle]
 pub extern "C" fn ifft_shift32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| Ok(v.ifft_shift()))
 }
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index 1a3a6e2..93c6361 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -961,10 +961,12 @@ pub extern "C" fn mirror64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, b| Ok(v.mirror(b)))
 }
 
+#[no_mangle]
 pub extern "C" fn fft_shift64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| Ok(v.fft_shift()))
 }
 
+#[no_mangle]
 pub extern "C" fn ifft_shift64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| Ok(v.ifft_shift()))
 }
-- 
2.43.0


From c1f0c6ae8d6dcf5f1c08aad311734211557438c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:37 +0000
Subject: [PATCH 68/71] fix: clone and the getters of the interface freed the
 vector they read

---
 interop/src/facade32.rs | 16 ++++++++--------
 interop/src/facade64.rs | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index 666c220..0cdb943 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -561,12 +561,12 @@ pub extern "C" fn magnitude32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf
 }
 
 #[no_mangle]
-pub extern "C" fn get_magnitude32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_magnitude32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_magnitude(&mut destination.vec)))
 }
 
 #[no_mangle]
-pub extern "C" fn get_magnitude_squared32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_magnitude_squared32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_magnitude_squared(&mut destination.vec)))
 }
 
@@ -649,12 +649,12 @@ pub extern "C" fn map_aggregate_complex32(
 }
 
 #[no_mangle]
-pub extern "C" fn get_real32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_real32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_real(&mut destination.vec)))
 }
 
 #[no_mangle]
-pub extern "C" fn get_imag32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_imag32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_imag(&mut destination.vec)))
 }
 
@@ -664,7 +664,7 @@ pub extern "C" fn phase32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
 }
 
 #[no_mangle]
-pub extern "C" fn get_phase32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_phase32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_phase(&mut destination.vec)))
 }
 
@@ -684,7 +684,7 @@ pub extern "C" fn plain_ifft32(vector: Box<VecBuf>) -> VectorInteropResult<VecBu
 }
 
 #[no_mangle]
-pub extern "C" fn clone32(vector: Box<VecBuf>) -> Box<VecBuf> {
+pub extern "C" fn clone32(vector: &VecBuf) -> Box<VecBuf> {
     Box::new(VecBuf {
         vec: vector.vec.clone(),
         buffer: SingleBuffer::new(),
@@ -766,7 +766,7 @@ pub extern "C" fn mul_smaller_vector32(
 
 #[no_mangle]
 pub extern "C" fn get_real_imag32(
-    vector: Box<VecBuf>,
+    vector: &VecBuf,
     real: &mut VecBuf,
     imag: &mut VecBuf,
 ) -> i32 {
@@ -775,7 +775,7 @@ pub extern "C" fn get_real_imag32(
 
 #[no_mangle]
 pub extern "C" fn get_mag_phase32(
-    vector: Box<VecBuf>,
+    vector: &VecBuf,
     mag: &mut VecBuf,
     phase: &mut VecBuf,
 ) -> i32 {
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index 93c6361..859e6a9 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -562,12 +562,12 @@ pub extern "C" fn magnitude64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf
 }
 
 #[no_mangle]
-pub extern "C" fn get_magnitude64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_magnitude64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_magnitude(&mut destination.vec)))
 }
 
 #[no_mangle]
-pub extern "C" fn get_magnitude_squared64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_magnitude_squared64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_magnitude_squared(&mut destination.vec)))
 }
 
@@ -650,12 +650,12 @@ pub extern "C" fn map_aggregate_complex64(
 }
 
 #[no_mangle]
-pub extern "C" fn get_real64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_real64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_real(&mut destination.vec)))
 }
 
 #[no_mangle]
-pub extern "C" fn get_imag64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_imag64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_imag(&mut destination.vec)))
 }
 
@@ -665,7 +665,7 @@ pub extern "C" fn phase64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
 }
 
 #[no_mangle]
-pub extern "C" fn get_phase64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_phase64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_phase(&mut destination.vec)))
 }
 
@@ -685,7 +685,7 @@ pub extern "C" fn plain_ifft64(vector: Box<VecBuf>) -> VectorInteropResult<VecBu
 }
 
 #[no_mangle]
-pub extern "C" fn clone64(vector: Box<VecBuf>) -> Box<VecBuf> {
+pub extern "C" fn clone64(vector: &VecBuf) -> Box<VecBuf> {
     Box::new(VecBuf {
         vec: vector.vec.clone(),
         buffer: SingleBuffer::new(),
@@ -767,7 +767,7 @@ pub extern "C" fn mul_smaller_vector64(
 
 #[no_mangle]
 pub extern "C" fn get_real_imag64(
-    vector: Box<VecBuf>,
+    vector: &VecBuf,
     real: &mut VecBuf,
     imag: &mut VecBuf,
 ) -> i32 {
@@ -776,7 +776,7 @@ pub extern "C" fn get_real_imag64(
 
 #[no_mangle]
 pub extern "C" fn get_mag_phase64(
-    vector: Box<VecBuf>,
+    vector: &VecBuf,
     mag: &mut VecBuf,
     phase: &mut VecBuf,
 ) -> i32 {
-- 
2.43.0


From 831f4db672b98347a4a42c525b1d2a2f51e22efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:37 +0000
Subject: [PATCH 69/71] fix: documentation of the result codes of the interface

---
 interop/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/interop/src/lib.rs b/interop/src/lib.rs
index 47f7867..ea0ae85 100644
--- a/interop/src/lib.rs
+++ b/interop/src/lib.rs
@@ -119,6 +119,8 @@ pub fn convert_void(result: VoidResult) -> i32 {
 /// 10. ArgumentFunctionMustBeSymmetric
 /// 11. InvalidNumberOfArgumentsForCombinedOp
 /// 12. VectorMustNotBeEmpty
+/// 13. VectorMustHaveAnEvenLength
+/// 14. TypeCanNotResize
 ///
 /// all other values are undefined. If you see a value which isn't listed here then
 /// please report a bug.
@@ -202,7 +204,7 @@ pub fn translate_to_padding_option(value: i32) -> PaddingOption {
 /// Result of a vector operation. Check the ```result_code```.
 #[repr(C)]
 pub struct VectorInteropResult<T> {
-    /// This value is zero in case of error. All other values mean that an error
+    /// This value is zero in case of success. All other values mean that an error
     /// occurred and the data in the vector might be unchanged or invalid.
     /// Error codes are described in `translate_error`.
     pub result_code: i32,
@@ -214,7 +216,7 @@ pub struct VectorInteropResult<T> {
 /// Result of a vector operation. Check the ```result_code```.
 #[repr(C)]
 pub struct BinaryVectorInteropResult<T> {
-    /// This value is zero in case of error. All other values mean that an error
+    /// This value is zero in case of success. All other values mean that an error
     /// occurred and the data in the vector might be unchanged or invalid.
     /// Error codes are described in `translate_error`.
     pub result_code: i32,
@@ -232,7 +234,7 @@ pub struct ScalarInteropResult<T>
 where
     T: Sized,
 {
-    /// This value is zero in case of error. All other values mean that an error
+    /// This value is zero in case of success. All other values mean that an error
     /// occurred and the data in the vector might be unchanged or invalid.
     /// Error codes are described in `translate_error`.
     pub result_code: i32,
-- 
2.43.0


From 30fe876a90eaf6a743b08fa59069133d353dc670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:47 +0000
Subject: [PATCH 70/71] fix: lookup tables returned their first point for
 arguments below their range

---
 vector/src/conv_types.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vector/src/conv_types.rs b/vector/src/conv_types.rs
index 9a60f03..fdedcb5 100644
--- a/vector/src/conv_types.rs
+++ b/vector/src/conv_types.rs
@@ -166,6 +166,9 @@ macro_rules! add_linear_table_lookup_impl {
                         let center_float = center as $data_type;
                         let x = x / self.delta + center_float;
                         let round_float = x.round();
+                        if round_float < 0.0 {
+                            return $result_type::zero();
+                        }
                         let round = round_float as usize;
                         if round >= len {
                             return $result_type::zero();
-- 
2.43.0


From 07876b383909c73eadc9df9e50937db3ca65cb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:47 +0000
Subject: [PATCH 71/71] fix: raised cosine function was off by up to 50% next
 to its removable singularity

---
 vector/src/conv_types.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/vector/src/conv_types.rs b/vector/src/conv_types.rs
index fdedcb5..685d6ca 100644
--- a/vector/src/conv_types.rs
+++ b/vector/src/conv_types.rs
@@ -415,14 +415,16 @@ where
         let two = T::from(2.0).unwrap();
         let pi = T::PI();
         let four = two * two;
-        if x.abs() == one / (two * self.rolloff) {
+        let arg = two * self.rolloff * x;
+        let denominator = one - (arg * arg);
+        // The digits of both, numerator and denominator, cancel out close to the singularity
+        if denominator.abs() < T::epsilon().sqrt() {
             let arg = pi / two / self.rolloff;
             return (arg).sin() / arg * pi / four;
         }
 
         let pi_x = pi * x;
-        let arg = two * self.rolloff * x;
-        pi_x.sin() * (pi_x * self.rolloff).cos() / pi_x / (one - (arg * arg))
+        pi_x.sin() * (pi_x * self.rolloff).cos() / pi_x / denominator
     }
 }
 
-- 
2.43.0

