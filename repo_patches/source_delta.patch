From a03a171a45eb49f5be5161b0203fcd908b54e457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:54 +0000
Subject: [PATCH 01/39] fix: uniform-stride detection for broadcast
 (zero-stride) layouts

---
 src/ndarray/iterator/collapse_contiguous.rs | 8 +++++++-
 src/ndarray/slice.rs                        | 3 ++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ndarray/iterator/collapse_contiguous.rs b/src/ndarray/iterator/collapse_contiguous.rs
index cf12c6e..8d51c5a 100644
--- a/src/ndarray/iterator/collapse_contiguous.rs
+++ b/src/ndarray/iterator/collapse_contiguous.rs
@@ -81,8 +81,14 @@ pub(crate) fn has_uniform_stride(shape: &[usize], stride: &[usize]) -> Option<us
         return Some(0);
     }
 
+    // number of elements along the dimensions before i
+    let mut leading = 1;
+
     for i in 1..ndims {
-        if stride[i - 1] != 0 && stride[i - 1] != shape[i] * stride[i] {
+        leading *= shape[i - 1];
+
+        // a zero stride only leaves the distance between elements unchanged if it is never taken
+        if stride[i - 1] != shape[i] * stride[i] && !(stride[i - 1] == 0 && leading == 1) {
             return None;
         }
     }
diff --git a/src/ndarray/slice.rs b/src/ndarray/slice.rs
index 5ecba66..d0cfdb5 100644
--- a/src/ndarray/slice.rs
+++ b/src/ndarray/slice.rs
@@ -14,7 +14,8 @@ pub(super) fn update_flags_with_contiguity(mut flags: NdArrayFlags, shape: &[usi
         Some(stride) => {
             flags |= NdArrayFlags::UniformStride;
 
-            if stride <= 1 {
+            // elements of a broadcast array may share the same memory location (zero stride)
+            if stride == 1 || (stride == 0 && shape.iter().product::<usize>() <= 1) {
                 flags |= NdArrayFlags::Contiguous;
             } else {
                 flags -= NdArrayFlags::Contiguous;
-- 
2.43.0


From fd5de941ac3e5db5adac527541a20a9846c85518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:11 +0000
Subject: [PATCH 02/39] fix: carry in NdIterator advanced past the end of an
 axis before wrapping

---
 src/ndarray/iterator/tensor_iterator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndarray/iterator/tensor_iterator.rs b/src/ndarray/iterator/tensor_iterator.rs
index b13c246..4d09200 100644
--- a/src/ndarray/iterator/tensor_iterator.rs
+++ b/src/ndarray/iterator/tensor_iterator.rs
@@ -55,7 +55,7 @@ impl<'a, T: RawDataType> Iterator for NdIterator<'a, T> {
         self.iterator_index += 1;
         
         for i in (0..self.shape.len()).rev() {
-            if self.indices[i] != self.shape[i] {
+            if self.indices[i] + 1 < self.shape[i] {
                 self.indices[i] += 1;
                 unsafe { self.result.offset_ptr(self.stride[i] as isize); }
                 break;
-- 
2.43.0


From 300908e48fa48dc85b59811b140160b1a31d3609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:21 +0000
Subject: [PATCH 03/39] fix: consuming view operations lost the buffer
 capacity, leaking the buffer

---
 src/ndarray/reshape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndarray/reshape.rs b/src/ndarray/reshape.rs
index 12d331d..b41ebc7 100644
--- a/src/ndarray/reshape.rs
+++ b/src/ndarray/reshape.rs
@@ -65,7 +65,7 @@ impl<T: RawDataType> Reshape<T> for NdArray<'_, T> {
         NdArray {
             ptr: self.ptr,
             len: self.len,
-            capacity: 0,
+            capacity: self.capacity,
 
             shape,
             stride,
-- 
2.43.0


From 6e7d8a4c09b3ad70a3c7379141a93ce9e2bfa5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:31 +0000
Subject: [PATCH 04/39] fix: check [] indices against each axis instead of the
 buffer length

---
 src/ndarray/index_impl.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ndarray/index_impl.rs b/src/ndarray/index_impl.rs
index 7e6f491..e2e92e3 100644
--- a/src/ndarray/index_impl.rs
+++ b/src/ndarray/index_impl.rs
@@ -8,11 +8,11 @@ impl<T: RawDataType, const D: usize> Index<[usize; D]> for NdArray<'_, T> {
     fn index(&self, index: [usize; D]) -> &Self::Output {
         assert_eq!(D, self.ndims(), "[] index must equal number of array dimensions!");
 
+        assert!(index.iter().zip(self.shape.iter()).all(|(idx, axis_length)| idx < axis_length), "[] index out of bounds!");
+
         let i: usize = index.iter().zip(self.stride.iter())
             .map(|(idx, stride)| idx * stride)
             .sum();
-
-        assert!(i < self.len, "[] index out of bounds!");
         unsafe { self.ptr.add(i).as_ref() }
     }
 }
@@ -21,11 +21,11 @@ impl<T: RawDataType, const D: usize> IndexMut<[usize; D]> for NdArray<'_, T> {
     fn index_mut(&mut self, index: [usize; D]) -> &mut Self::Output {
         assert!(D <= self.ndims(), "[] index must be equal number of array dimensions!");
 
+        assert!(index.iter().zip(self.shape.iter()).all(|(idx, axis_length)| idx < axis_length), "[] index out of bounds!");
+
         let i: usize = index.iter().zip(self.stride.iter())
                             .map(|(idx, stride)| idx * stride)
                             .sum();
-
-        assert!(i < self.len, "[] index out of bounds!");
         unsafe { self.ptr.add(i).as_mut() }
     }
 }
-- 
2.43.0


From fd55949d120e6213c88c14c00f6873c23241ccc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:06 +0000
Subject: [PATCH 05/39] fix: refuse slices that are empty or reach outside
 their axis

---
 src/ndarray/slice.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/ndarray/slice.rs b/src/ndarray/slice.rs
index d0cfdb5..acade3e 100644
--- a/src/ndarray/slice.rs
+++ b/src/ndarray/slice.rs
@@ -38,6 +38,20 @@ fn calculate_strided_buffer_length(shape: &[usize], stride: &[usize]) -> usize {
          .sum::<usize>() + 1
 }
 
+/// Returns the number of elements selected by `index` along an axis of length `axis_length`.
+///
+/// # Panics
+/// - If the selection is empty or does not lie inside the axis.
+fn checked_indexed_length<S: Indexer>(index: &S, axis_length: usize) -> usize {
+    let first = index.index_of_first_element();
+    assert!(first < axis_length, "slice index {first} out of bounds for axis with length {axis_length}");
+
+    let length = index.indexed_length(axis_length);
+    assert!(0 < length && length <= axis_length - first, "slice is empty or out of bounds for axis with length {axis_length}");
+
+    length
+}
+
 
 impl<'a, T: RawDataType> NdArray<'a, T> {
     pub fn slice_along<S: Indexer>(&'a self, axis: Axis, index: S) -> NdArray<'a, T>
@@ -47,11 +61,13 @@ impl<'a, T: RawDataType> NdArray<'a, T> {
         let mut new_shape = self.shape.clone();
         let mut new_stride = self.stride.clone();
 
+        let new_length = checked_indexed_length(&index, self.shape[axis]);
+
         if index.collapse_dimension() {
             new_shape.remove(axis);
             new_stride.remove(axis);
         } else {
-            new_shape[axis] = index.indexed_length(new_shape[axis]);
+            new_shape[axis] = new_length;
         }
 
         let offset = self.stride[axis] * index.index_of_first_element();
@@ -88,8 +104,9 @@ impl<'a, T: RawDataType> NdArray<'a, T> {
         let mut new_stride = Vec::with_capacity(ndims);
 
         for idx in index {
+            let new_length = checked_indexed_length(&idx, self.shape[axis]);
+
             if !idx.collapse_dimension() {
-                let new_length = idx.indexed_length(self.shape[axis]);
                 new_shape.push(new_length);
                 new_stride.push(self.stride[axis]);
             }
-- 
2.43.0


From e2f6c86932ba62163d020573d7e4e6d2e157a15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:15 +0000
Subject: [PATCH 06/39] fix: reshape of 0-dimensional arrays

---
 src/common/reshape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/reshape.rs b/src/common/reshape.rs
index 467bfbe..0d59e52 100644
--- a/src/common/reshape.rs
+++ b/src/common/reshape.rs
@@ -67,7 +67,7 @@ pub trait Reshape<T: RawDataType>: StridedMemory {
         }
 
         let mut new_stride = vec![0; new_shape.len()];
-        let mut acc = self.stride()[self.ndims() - 1];
+        let mut acc = self.stride().last().copied().unwrap_or(1);
         for (i, &dim) in new_shape.iter().rev().enumerate() {
             new_stride[new_shape.len() - 1 - i] = acc;
             acc *= dim;
-- 
2.43.0


From 6d8595f379b5fb00e9565c18a27b8a24a66c8302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:36 +0000
Subject: [PATCH 07/39] fix: linspace returned one element too many or panicked
 for some arguments

---
 src/common/constructors.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/common/constructors.rs b/src/common/constructors.rs
index edb1939..946f4d4 100644
--- a/src/common/constructors.rs
+++ b/src/common/constructors.rs
@@ -222,8 +222,9 @@ pub trait Constructors<T: RawDataType>: StridedMemory {
 
         let step = (stop - start) / (<T as NumCast>::from(num).unwrap() - T::one());
 
-        // from start to (stop + step) to make the range inclusive
-        Self::arange_with_step(start, stop + step, step)
+        let data: Vec<T> = (0..num).map(|i| <T as NumCast>::from(i).unwrap() * step + start).collect();
+
+        unsafe { Self::from_contiguous_owned_buffer(vec![num], data) }
     }
 
     /// Generates a 1-dimensional ndarray with `num `evenly spaced values between `start` and `stop`
@@ -257,6 +258,8 @@ pub trait Constructors<T: RawDataType>: StridedMemory {
         }
 
         let step = (stop - start) / <T as NumCast>::from(num).unwrap();
-        Self::arange_with_step(start, stop, step)
+        let data: Vec<T> = (0..num).map(|i| <T as NumCast>::from(i).unwrap() * step + start).collect();
+
+        unsafe { Self::from_contiguous_owned_buffer(vec![num], data) }
     }
 }
-- 
2.43.0


From 2c5e2e7b1a1f2ad53dd5b2a613bf75a20780380a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:47 +0000
Subject: [PATCH 08/39] fix: to_float rounded 32-bit integers and doubles to
 f32 precision

---
 src/util/dtype.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/dtype.rs b/src/util/dtype.rs
index 54f82a3..f014a32 100644
--- a/src/util/dtype.rs
+++ b/src/util/dtype.rs
@@ -50,7 +50,7 @@ pub trait NumericDataType: RawDataType + ToPrimitive + NumCast + From<bool>
     type AsFloatType: FloatDataType;
 
     fn to_float(&self) -> Self::AsFloatType {
-        self.to_f32().unwrap().into()
+        NumCast::from(*self).unwrap()
     }
 
     fn ceil(&self) -> Self {
@@ -71,7 +71,7 @@ impl NumericDataType for u16 {
 }
 
 impl NumericDataType for u32 {
-    type AsFloatType = f32;
+    type AsFloatType = f64;
 }
 
 impl NumericDataType for u64 {
@@ -95,7 +95,7 @@ impl NumericDataType for i16 {
 }
 
 impl NumericDataType for i32 {
-    type AsFloatType = f32;
+    type AsFloatType = f64;
 }
 
 impl NumericDataType for i64 {
-- 
2.43.0


From f0612a1eeb00c71ae7a8035b4f910f4bd7199cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:25 +0000
Subject: [PATCH 09/39] fix: randint returned high and sampled the end points
 half as often

---
 src/common/random.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/random.rs b/src/common/random.rs
index 0fe4e4b..bf0a461 100644
--- a/src/common/random.rs
+++ b/src/common/random.rs
@@ -107,7 +107,7 @@ pub trait RandomConstructors<T: RawDataType>: Constructors<T> {
 
         let uniform = Uniform::new(low.to_float(), high.to_float());
         let random_numbers = (0..n)
-            .map(|_| <T as NumCast>::from(uniform.sample(&mut rng).round()).unwrap())
+            .map(|_| <T as NumCast>::from(uniform.sample(&mut rng).floor()).unwrap())
             .collect();
 
         unsafe { Self::from_contiguous_owned_buffer(shape, random_numbers) }
-- 
2.43.0


From da577515a7efcf77c7324b121bf7be20baeff36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:35 +0000
Subject: [PATCH 10/39] fix: rand could round f32 samples up to 1.0

---
 src/common/random.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/random.rs b/src/common/random.rs
index bf0a461..9a487ba 100644
--- a/src/common/random.rs
+++ b/src/common/random.rs
@@ -51,7 +51,7 @@ pub trait RandomConstructors<T: RawDataType>: Constructors<T> {
         let shape = shape.to_vec();
         let n = shape.iter().product();
 
-        let uniform = Uniform::new(0.0, 1.0);
+        let uniform = Uniform::new(T::zero(), T::one());
         let random_numbers = (0..n)
             .map(|_| <T as NumCast>::from(uniform.sample(&mut rng)).unwrap())
             .collect();
-- 
2.43.0


From 406929958038ce0aacd6e86167d538a1ba240b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:11 +0000
Subject: [PATCH 11/39] fix: flattening an array of vectors copied the vectors'
 headers

---
 src/util/flatten.rs | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/src/util/flatten.rs b/src/util/flatten.rs
index 04e05dd..97ef5b5 100644
--- a/src/util/flatten.rs
+++ b/src/util/flatten.rs
@@ -4,10 +4,6 @@
 // [[[0]]] -> [0]
 
 use crate::recursive_trait_base_cases;
-use crate::util::shape::Shape;
-use std::fmt::Debug;
-
-use std::ptr::copy_nonoverlapping;
 
 pub(crate) trait Flatten<A> {
     fn flatten(self) -> Vec<A>;
@@ -27,23 +23,11 @@ where
 impl<A, T, const N: usize> Flatten<A> for [T; N]
 where
     T: Flatten<A>,
-    [T; N]: Shape,
-    A: Debug,
 {
-    fn flatten(mut self) -> Vec<A> {
-        assert!(align_of::<T>() >= align_of::<A>(), "alignment mismatch");  // ChatGPT suggested
-
-        let len = self.shape().iter().product();
-        let mut result = Vec::with_capacity(len);
-
-        let src = self.as_mut_ptr() as *mut A;
-        let dst = result.as_mut_ptr();
-
-        unsafe {
-            copy_nonoverlapping(src, dst, len);
-            result.set_len(len);
-        }
-        result
+    fn flatten(self) -> Vec<A> {
+        self.into_iter()
+            .flat_map(|nested| nested.flatten().into_iter())
+            .collect()
     }
 }
 
-- 
2.43.0


From 017c5634be36aa430efcf606f5a1ee38335e56cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:21 +0000
Subject: [PATCH 12/39] fix: ragged data nested in arrays or more than one
 level deep was accepted

---
 src/util/homogenous.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/util/homogenous.rs b/src/util/homogenous.rs
index eb81ecb..c60c7d0 100644
--- a/src/util/homogenous.rs
+++ b/src/util/homogenous.rs
@@ -12,13 +12,14 @@ pub(crate) trait Homogenous {
 impl<T: Homogenous + Shape> Homogenous for Vec<T> {
     fn check_homogenous(&self) -> bool {
         let first_shape = self[0].shape();
-        self.iter().all(|v| v.shape() == first_shape)
+        self.iter().all(|v| v.check_homogenous() && v.shape() == first_shape)
     }
 }
 
-impl<T, const N: usize> Homogenous for [T; N] {
+impl<T: Homogenous + Shape, const N: usize> Homogenous for [T; N] {
     fn check_homogenous(&self) -> bool {
-        true
+        let first_shape = self[0].shape();
+        self.iter().all(|v| v.check_homogenous() && v.shape() == first_shape)
     }
 }
 
@@ -29,6 +30,12 @@ macro_rules! homogenous_vec_trait {
                 true
             }
         }
+
+        impl<const N: usize> Homogenous for [$dtype; N] {
+            fn check_homogenous(&self) -> bool {
+                true
+            }
+        }
     };
 }
 
-- 
2.43.0


From ffb3286ee2223e44aad6161f39aea7a73f6e7b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:31 +0000
Subject: [PATCH 13/39] fix: 5-dimensional nested vectors could not be used as
 array data

---
 src/util/nested.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/nested.rs b/src/util/nested.rs
index fd2fc9e..fe03011 100644
--- a/src/util/nested.rs
+++ b/src/util/nested.rs
@@ -7,7 +7,7 @@ impl<T> Nested<2> for Vec<T> where T: Nested<1> {}
 impl<T> Nested<3> for Vec<T> where T: Nested<2> {}
 
 impl<T> Nested<4> for Vec<T> where T: Nested<3> {}
-impl<T> Nested<5> for Vec<T> where T: Nested<6> {}
+impl<T> Nested<5> for Vec<T> where T: Nested<4> {}
 
 impl<T> Nested<6> for Vec<T> where T: Nested<5> {}
 impl<T> Nested<7> for Vec<T> where T: Nested<6> {}
-- 
2.43.0


From 1e6c2343320d8e2ad189501d6aa4c78f998f5f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:38 +0000
Subject: [PATCH 14/39] fix: compound assignment to non-contiguous targets and
 with overlapping operands

---
 src/ndarray/assign_ops.rs | 57 ++++++++++++++++++++++++++++-----------
 src/ndarray/slice.rs      |  2 +-
 2 files changed, 43 insertions(+), 16 deletions(-)

diff --git a/src/ndarray/assign_ops.rs b/src/ndarray/assign_ops.rs
index d8a3b49..2cc1e0c 100644
--- a/src/ndarray/assign_ops.rs
+++ b/src/ndarray/assign_ops.rs
@@ -4,11 +4,33 @@ use crate::ops::binary_op_div::BinaryOpDiv;
 use crate::ops::binary_op_mul::BinaryOpMul;
 use crate::ops::binary_op_sub::BinaryOpSub;
 use crate::ops::binary_ops::{BinaryOpBitAnd, BinaryOpBitOr, BinaryOpRem, BinaryOpShl, BinaryOpShr};
+use crate::ndarray::slice::calculate_strided_buffer_length;
 use crate::RawDataType;
 use crate::{NdArray, StridedMemory};
 use paste::paste;
 use std::ops::{AddAssign, BitAndAssign, BitOrAssign, DivAssign, MulAssign, RemAssign, ShlAssign, ShrAssign, SubAssign};
 
+impl<T: RawDataType> NdArray<'_, T> {
+    /// Whether `other` shares memory with this ndarray without being laid out identically.
+    fn partially_overlaps(&self, other: &NdArray<'_, T>) -> bool {
+        if self.size() == 0 || (self.ptr == other.ptr && self.stride == other.stride) {
+            return false;
+        }
+
+        let start = self.ptr.as_ptr();
+        let other_start = other.ptr.as_ptr();
+
+        start < other_start.wrapping_add(calculate_strided_buffer_length(&other.shape, &other.stride))
+            && other_start < start.wrapping_add(calculate_strided_buffer_length(&self.shape, &self.stride))
+    }
+
+    /// Safety: expects `data` to have as many elements as this ndarray
+    unsafe fn overwrite_with(&mut self, data: Vec<T>) {
+        for (dst, value) in self.flatiter_ptr().zip(data) {
+            *dst = value;
+        }
+    }
+}
 
 macro_rules! define_binary_iop {
     ( $binary_op_trait:ident, $iop_trait:ident, $operator:tt, $method:ident ) => {
@@ -25,22 +47,20 @@ macro_rules! define_binary_iop {
                         panic!("tensor is readonly.");
                     }
                     
-                    if rhs.shape() == self.shape() {
-                        unsafe {
+                    // right-hand term may need broadcasting
+                    let rhs = rhs.broadcast_to(&self.shape);
+
+                    unsafe {
+                        if self.is_contiguous() && !self.partially_overlaps(&rhs) {
                             <T as $binary_op_trait>::$method(self.ptr(), &self.stride(),
                                                              rhs.ptr(), &rhs.stride(),
                                                              self.mut_ptr(), self.shape());
-                        }
-                    }
-                    
-                    // right-hand term needs broadcasting
-                    else {
-                        let rhs = rhs.broadcast_to(&self.shape);
-                        
-                        unsafe {
-                        <T as $binary_op_trait>::$method(self.ptr(), &self.stride(),
-                                                         rhs.ptr(), &rhs.stride(),
-                                                         self.mut_ptr(), self.shape());
+                        } else {
+                            let mut data = vec![T::default(); self.size()];
+                            <T as $binary_op_trait>::$method(self.ptr(), &self.stride(),
+                                                             rhs.ptr(), &rhs.stride(),
+                                                             data.as_mut_ptr(), self.shape());
+                            self.overwrite_with(data);
                         }
                     }
                 }
@@ -53,8 +73,15 @@ macro_rules! define_binary_iop {
                     }
 
                     unsafe {
-                        <T as $binary_op_trait>::[<$method _scalar>](self.ptr(), self.shape(), self.stride(),
-                                                                     rhs, self.mut_ptr());
+                        if self.is_contiguous() {
+                            <T as $binary_op_trait>::[<$method _scalar>](self.ptr(), self.shape(), self.stride(),
+                                                                         rhs, self.mut_ptr());
+                        } else {
+                            let mut data = vec![T::default(); self.size()];
+                            <T as $binary_op_trait>::[<$method _scalar>](self.ptr(), self.shape(), self.stride(),
+                                                                         rhs, data.as_mut_ptr());
+                            self.overwrite_with(data);
+                        }
                     }
                 }
             }
diff --git a/src/ndarray/slice.rs b/src/ndarray/slice.rs
index acade3e..1657bf6 100644
--- a/src/ndarray/slice.rs
+++ b/src/ndarray/slice.rs
@@ -26,7 +26,7 @@ pub(super) fn update_flags_with_contiguity(mut flags: NdArrayFlags, shape: &[usi
     flags
 }
 
-fn calculate_strided_buffer_length(shape: &[usize], stride: &[usize]) -> usize {
+pub(super) fn calculate_strided_buffer_length(shape: &[usize], stride: &[usize]) -> usize {
     // let mut len = 1;
     // for i in 0..ndims {
     //     len += stride[i] * (shape[i] - 1);
-- 
2.43.0


From 0ad732e5729c0833cd352565060c207cf34a3da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:05 +0000
Subject: [PATCH 15/39] fix: fill, zero and index assignment ignored the
 read-only flag

---
 src/ndarray/fill.rs       | 2 ++
 src/ndarray/index_impl.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/ndarray/fill.rs b/src/ndarray/fill.rs
index 9159f83..eef2ca1 100644
--- a/src/ndarray/fill.rs
+++ b/src/ndarray/fill.rs
@@ -1,4 +1,5 @@
 use crate::dtype::RawDataType;
+use crate::ndarray::flags::NdArrayFlags;
 use crate::{NdArray, StridedMemory};
 use crate::ops::fill::Fill;
 
@@ -16,6 +17,7 @@ impl<T: RawDataType> NdArray<'_, T> {
     /// assert_eq!(arr, NdArray::new([10, 10, 10]));
     /// ```
     pub fn fill(&mut self, value: T) {
+        assert!(self.flags.contains(NdArrayFlags::Writeable), "tensor is readonly.");
         unsafe { <T as Fill>::fill(self.mut_ptr(), self.shape(), self.stride(), self.len, value) }
     }
 }
diff --git a/src/ndarray/index_impl.rs b/src/ndarray/index_impl.rs
index e2e92e3..8bf34ee 100644
--- a/src/ndarray/index_impl.rs
+++ b/src/ndarray/index_impl.rs
@@ -1,4 +1,5 @@
 use crate::dtype::RawDataType;
+use crate::ndarray::flags::NdArrayFlags;
 use crate::{NdArray, StridedMemory};
 use std::ops::{Index, IndexMut};
 
@@ -19,6 +20,7 @@ impl<T: RawDataType, const D: usize> Index<[usize; D]> for NdArray<'_, T> {
 
 impl<T: RawDataType, const D: usize> IndexMut<[usize; D]> for NdArray<'_, T> {
     fn index_mut(&mut self, index: [usize; D]) -> &mut Self::Output {
+        assert!(self.flags.contains(NdArrayFlags::Writeable), "tensor is readonly.");
         assert!(D <= self.ndims(), "[] index must be equal number of array dimensions!");
 
         assert!(index.iter().zip(self.shape.iter()).all(|(idx, axis_length)| idx < axis_length), "[] index out of bounds!");
-- 
2.43.0


From 06b7fe3010541206e39b5d8f388da60279e32a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:51 +0000
Subject: [PATCH 16/39] fix: einsum ignored operands without subscripts and
 subscripts without operands

---
 src/linalg/einsum.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/linalg/einsum.rs b/src/linalg/einsum.rs
index 5d2c4fe..87fad95 100644
--- a/src/linalg/einsum.rs
+++ b/src/linalg/einsum.rs
@@ -313,6 +313,7 @@ where
     assert!(n_operands < MAX_ARGS);
 
     let subscripts = (subscripts.0.as_ref(), subscripts.1);
+    assert_eq!(subscripts.0.len(), n_operands, "einsum requires exactly one subscripts string per operand");
 
     let mut operand_labels = [[0; MAX_DIMS]; MAX_ARGS];
     let mut output_labels = [0; MAX_DIMS];
-- 
2.43.0


From 0d2eb01c5041665bfded44df9e957df7f2546e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:03 +0000
Subject: [PATCH 17/39] fix: einsum of scalar operands

---
 src/linalg/einsum.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/linalg/einsum.rs b/src/linalg/einsum.rs
index 87fad95..fe43193 100644
--- a/src/linalg/einsum.rs
+++ b/src/linalg/einsum.rs
@@ -394,6 +394,12 @@ where
     tmp_strides[n_operands][0..output_dims].copy_from_slice(&stride_from_shape(output_shape));
     *strides = transpose_2d_array(tmp_strides);
 
+    // a product of scalars has no labels to iterate over
+    if *iter_ndims == 0 {
+        iter_shape.push(1);
+        *iter_ndims = 1;
+    }
+
     if let Some(best_axis_ordering) = MultiFlatIndexGenerator::find_best_axis_ordering(n_operands + 1, *iter_ndims, strides) {
         permute_array(&mut strides[0..*iter_ndims], &best_axis_ordering);
         permute_array(iter_shape, &best_axis_ordering);
-- 
2.43.0


From 475362fc78a508fae70207d93b9fb9f682e8af5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:13 +0000
Subject: [PATCH 18/39] fix: bmm did not check the inner dimensions when
 accelerated with BLAS

---
 src/linalg/matrix_ops.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/linalg/matrix_ops.rs b/src/linalg/matrix_ops.rs
index 3f812c6..a1816ca 100644
--- a/src/linalg/matrix_ops.rs
+++ b/src/linalg/matrix_ops.rs
@@ -85,6 +85,8 @@ impl<'a, T: MatrixOps> NdArray<'a, T> {
         assert_eq!(other.ndims(), 3, "batch matrix multiplication requires 3D ndarrays");
         assert_eq!(self.len(), other.len(), "incompatible batch sizes for batch matrix multiplication: {:?} and {:?})", self.shape(), other.shape());
 
+        assert_eq!(self.shape()[2], other.shape()[1], "mismatched shape for batch matrix multiplication: {:?} and {:?})", self.shape(), other.shape());
+
         let output_shape = [self.len(), self.shape()[1], other.shape()[2]];
 
         let result = NdArray::zeros(output_shape);
-- 
2.43.0


From 16766a79289e4cf8d43657620ae5fc6c9442ae89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:28 +0000
Subject: [PATCH 19/39] fix: consuming view operations on shared tensors
 applied the old strides to a contiguous copy

---
 src/tensor/reshape.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tensor/reshape.rs b/src/tensor/reshape.rs
index 2e7a849..6366ee6 100644
--- a/src/tensor/reshape.rs
+++ b/src/tensor/reshape.rs
@@ -3,6 +3,7 @@ use crate::reshape_backwards::ReshapeBackwards;
 use crate::transpose_backwards::TransposeBackwards;
 use crate::{AxisType, Reshape, StridedMemory, Tensor, TensorDataType};
 use crate::identity_backwards::IdentityBackwards;
+use std::rc::Rc;
 
 
 impl<'a, T: TensorDataType> Reshape<T> for &'a Tensor<'a, T> {
@@ -100,7 +101,13 @@ impl<T: TensorDataType> Reshape<T> for Tensor<'_, T> {
         let requires_grad = self.requires_grad();
         let grad_fn = if requires_grad { ReshapeBackwards::new(&self, self.shape()) } else { NoneBackwards::new() };
 
-        let result = self.into_ndarray().reshaped_view(shape, stride);
+        // `stride` describes this tensor's own buffer, which cannot be taken over if it is shared or borrowed
+        let result = if self.array.is_view() || Rc::strong_count(&self.array) > 1 {
+            self.array.as_ref().reshaped_view(shape, stride).clone()
+        } else {
+            self.into_ndarray().reshaped_view(shape, stride)
+        };
+
         Tensor::from_raw_parts(result, requires_grad, grad_fn)
     }
 
-- 
2.43.0


From fc330922e1cf3e8c5a3c0e267efbe4fe42ed435a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:39 +0000
Subject: [PATCH 20/39] fix: arrays taken out of view tensors dangled once the
 source was dropped

---
 src/tensor/methods.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tensor/methods.rs b/src/tensor/methods.rs
index 5ba4de2..7451325 100644
--- a/src/tensor/methods.rs
+++ b/src/tensor/methods.rs
@@ -34,11 +34,21 @@ impl<'a, T: TensorDataType> Tensor<'a, T> {
 
     /// Returns a reference-counted pointer to the underlying `NdArray` of the tensor
     pub fn get_ndarray(&self) -> Rc<NdArray<'static, T>> {
+        // the source of a view may be dropped while the returned pointer is still alive
+        if self.array.is_view() {
+            return Rc::new(self.array.as_ref().clone());
+        }
+
         self.array.clone()
     }
 
     /// Converts the tensor to an `NdArray`
     pub fn into_ndarray(self) -> NdArray<'static, T> {
+        // the source of a view may be dropped while the returned array is still alive
+        if self.array.is_view() {
+            return self.array.as_ref().clone();
+        }
+
         match Rc::try_unwrap(self.array) {
             Ok(result) => { result }
             Err(rc) => { (*rc).clone() }
-- 
2.43.0


From 67c200c54e74225b99969d84a0e3052eab372a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:49 +0000
Subject: [PATCH 21/39] fix: backward pass through reshape panicked for
 gradients without a uniform stride

---
 src/autograd/reshape_backwards.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/autograd/reshape_backwards.rs b/src/autograd/reshape_backwards.rs
index 162bb11..1881298 100644
--- a/src/autograd/reshape_backwards.rs
+++ b/src/autograd/reshape_backwards.rs
@@ -1,6 +1,6 @@
 use crate::gradient_function::{GradientFuncTrait, GradientFunction};
 use crate::util::to_vec::ToVec;
-use crate::{call_next_backward, FloatDataType, NdArray, Reshape, Tensor};
+use crate::{call_next_backward, FloatDataType, NdArray, Reshape, StridedMemory, Tensor};
 use std::cell::RefCell;
 use std::rc::Rc;
 
@@ -11,8 +11,13 @@ pub(crate) struct ReshapeBackwards<T: FloatDataType> {
 
 impl<T: FloatDataType> GradientFuncTrait<T> for ReshapeBackwards<T> {
     fn backward(&mut self, grad: &NdArray<T>) {
-        call_next_backward!(grad.reshape(&self.shape),
-                            self.next_function);
+        if grad.is_uniformly_strided() {
+            call_next_backward!(grad.reshape(&self.shape),
+                                self.next_function);
+        } else {
+            call_next_backward!(grad.clone().reshape(&self.shape),
+                                self.next_function);
+        }
     }
 }
 
-- 
2.43.0


From 48b9e962d28bc12ce2ce043b8af3fdc7675d752e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:00 +0000
Subject: [PATCH 22/39] fix: min and max of infinite elements returned the
 largest finite values

---
 src/ndarray/reduce.rs           |  6 +++---
 src/ops/reduce_max.rs           | 13 ++++++------
 src/ops/reduce_min.rs           | 13 ++++++------
 src/ops/reduce_min_magnitude.rs | 13 ++++++------
 src/util/partial_ord.rs         | 35 +++++++++++++++++++++++++++++++++
 5 files changed, 56 insertions(+), 24 deletions(-)

diff --git a/src/ndarray/reduce.rs b/src/ndarray/reduce.rs
index 5a5decf..fb06624 100644
--- a/src/ndarray/reduce.rs
+++ b/src/ndarray/reduce.rs
@@ -165,7 +165,7 @@ impl<T: NumericDataType> NdArray<'_, T> {
     }
 
     pub fn min_along(&self, axes: impl ToVec<isize>) -> NdArray<'static, T> {
-        self.reduce_along(partial_min, axes, T::max_value())
+        self.reduce_along(partial_min, axes, T::greatest())
     }
 
     /// Computes the maximum of all elements in the array.
@@ -184,7 +184,7 @@ impl<T: NumericDataType> NdArray<'_, T> {
     }
 
     pub fn max_along(&self, axes: impl ToVec<isize>) -> NdArray<'static, T> {
-        self.reduce_along(partial_max, axes, T::min_value())
+        self.reduce_along(partial_max, axes, T::least())
     }
 
     /// Computes the minimum absolute value of all elements in the array.
@@ -203,7 +203,7 @@ impl<T: NumericDataType> NdArray<'_, T> {
     }
 
     pub fn min_magnitude_along(&self, axes: impl ToVec<isize>) -> NdArray<'static, T> {
-        self.reduce_along(partial_min_magnitude, axes, T::max_value())
+        self.reduce_along(partial_min_magnitude, axes, T::greatest())
     }
 
     /// Computes the maximum absolute value of all elements in the array.
diff --git a/src/ops/reduce_max.rs b/src/ops/reduce_max.rs
index c4147b0..8c497e3 100644
--- a/src/ops/reduce_max.rs
+++ b/src/ops/reduce_max.rs
@@ -1,10 +1,9 @@
 use crate::flat_index_generator::FlatIndexGenerator;
 use crate::ndarray::collapse_contiguous::has_uniform_stride;
 use crate::{IntegerDataType};
-use num::{Bounded};
-use crate::util::partial_ord::partial_max;
+use crate::util::partial_ord::{partial_max, Extremes};
 
-pub(crate) trait ReduceMax: Copy + PartialOrd + Bounded {
+pub(crate) trait ReduceMax: Copy + PartialOrd + Extremes {
     /// Computes the max of `count` elements stored contiguously in memory pointed to by `ptr`.
     ///
     /// # Safety
@@ -18,7 +17,7 @@ pub(crate) trait ReduceMax: Copy + PartialOrd + Bounded {
     /// # Safety
     /// - `ptr` must point to a valid array of `count * stride` elements.
     unsafe fn max_uniform_stride(mut ptr: *const Self, count: usize, stride: usize) -> Self {
-        let mut output = Self::min_value();
+        let mut output = Self::least();
 
         for _ in 0..count {
             output = partial_max(*ptr, output);
@@ -47,7 +46,7 @@ pub(crate) trait ReduceMax: Copy + PartialOrd + Bounded {
             };
         }
 
-        let mut output = Self::min_value();
+        let mut output = Self::least();
         for index in FlatIndexGenerator::from(shape, stride) {
             output = partial_max(*ptr.add(index), output);
         }
@@ -69,7 +68,7 @@ impl ReduceMax for f32 {
         use std::ptr::addr_of_mut;
         use crate::acceleration::vdsp::vDSP_maxv;
     
-        let mut output = Self::min_value();
+        let mut output = Self::least();
         unsafe { vDSP_maxv(ptr, stride as isize, addr_of_mut!(output), count); }
         output
     }
@@ -93,7 +92,7 @@ impl ReduceMax for f64 {
         use std::ptr::addr_of_mut;
         use crate::acceleration::vdsp::vDSP_maxvD;
     
-        let mut output = Self::min_value();
+        let mut output = Self::least();
         unsafe { vDSP_maxvD(ptr, stride as isize, addr_of_mut!(output), count); }
         output
     }
diff --git a/src/ops/reduce_min.rs b/src/ops/reduce_min.rs
index c30cdb4..4d36d93 100644
--- a/src/ops/reduce_min.rs
+++ b/src/ops/reduce_min.rs
@@ -1,10 +1,9 @@
 use crate::flat_index_generator::FlatIndexGenerator;
 use crate::ndarray::collapse_contiguous::has_uniform_stride;
 use crate::{IntegerDataType};
-use num::{Bounded};
-use crate::util::partial_ord::partial_min;
+use crate::util::partial_ord::{partial_min, Extremes};
 
-pub(crate) trait ReduceMin: Copy + PartialOrd + Bounded {
+pub(crate) trait ReduceMin: Copy + PartialOrd + Extremes {
     /// Computes the min of `count` elements stored contiguously in memory pointed to by `ptr`.
     ///
     /// # Safety
@@ -18,7 +17,7 @@ pub(crate) trait ReduceMin: Copy + PartialOrd + Bounded {
     /// # Safety
     /// - `ptr` must point to a valid array of `count * stride` elements.
     unsafe fn min_uniform_stride(mut ptr: *const Self, count: usize, stride: usize) -> Self {
-        let mut output = Self::max_value();
+        let mut output = Self::greatest();
 
         for _ in 0..count {
             output = partial_min(*ptr, output);
@@ -47,7 +46,7 @@ pub(crate) trait ReduceMin: Copy + PartialOrd + Bounded {
             };
         }
 
-        let mut output = Self::max_value();
+        let mut output = Self::greatest();
         for index in FlatIndexGenerator::from(shape, stride) {
             output = partial_min(*ptr.add(index), output);
         }
@@ -69,7 +68,7 @@ impl ReduceMin for f32 {
         use std::ptr::addr_of_mut;
         use crate::acceleration::vdsp::vDSP_minv;
 
-        let mut output = Self::max_value();
+        let mut output = Self::greatest();
         unsafe { vDSP_minv(ptr, stride as isize, addr_of_mut!(output), count); }
         output
     }
@@ -93,7 +92,7 @@ impl ReduceMin for f64 {
         use std::ptr::addr_of_mut;
         use crate::acceleration::vdsp::vDSP_minvD;
 
-        let mut output = Self::max_value();
+        let mut output = Self::greatest();
         unsafe { vDSP_minvD(ptr, stride as isize, addr_of_mut!(output), count); }
         output
     }
diff --git a/src/ops/reduce_min_magnitude.rs b/src/ops/reduce_min_magnitude.rs
index 340069a..395de8f 100644
--- a/src/ops/reduce_min_magnitude.rs
+++ b/src/ops/reduce_min_magnitude.rs
@@ -1,11 +1,10 @@
 use crate::flat_index_generator::FlatIndexGenerator;
 use crate::{IntegerDataType};
-use num::{Bounded};
 use crate::absolute::Absolute;
 use crate::iterator::collapse_contiguous::has_uniform_stride;
-use crate::util::partial_ord::{partial_min_magnitude};
+use crate::util::partial_ord::{partial_min_magnitude, Extremes};
 
-pub(crate) trait ReduceMinMagnitude: Copy + Absolute + Bounded + PartialOrd {
+pub(crate) trait ReduceMinMagnitude: Copy + Absolute + Extremes + PartialOrd {
     /// Computes the min magnitude of `count` elements stored contiguously in memory pointed to by `ptr`.
     ///
     /// # Safety
@@ -19,7 +18,7 @@ pub(crate) trait ReduceMinMagnitude: Copy + Absolute + Bounded + PartialOrd {
     /// # Safety
     /// - `ptr` must point to a valid array of `count * stride` elements.
     unsafe fn min_magnitude_uniform_stride(mut ptr: *const Self, count: usize, stride: usize) -> Self {
-        let mut output = Self::max_value();
+        let mut output = Self::greatest();
 
         for _ in 0..count {
             output = partial_min_magnitude(*ptr, output);
@@ -48,7 +47,7 @@ pub(crate) trait ReduceMinMagnitude: Copy + Absolute + Bounded + PartialOrd {
             };
         }
 
-        let mut output = Self::max_value();
+        let mut output = Self::greatest();
         for index in FlatIndexGenerator::from(shape, stride) {
             output = partial_min_magnitude(*ptr.add(index), output);
         }
@@ -64,7 +63,7 @@ impl ReduceMinMagnitude for f32 {
         use std::ptr::addr_of_mut;
         use crate::acceleration::vdsp::vDSP_minmgv;
 
-        let mut output = Self::max_value();
+        let mut output = Self::greatest();
         unsafe { vDSP_minmgv(ptr, stride as isize, addr_of_mut!(output), count); }
         output
     }
@@ -76,7 +75,7 @@ impl ReduceMinMagnitude for f64 {
         use std::ptr::addr_of_mut;
         use crate::acceleration::vdsp::vDSP_minmgvD;
 
-        let mut output = Self::max_value();
+        let mut output = Self::greatest();
         unsafe { vDSP_minmgvD(ptr, stride as isize, addr_of_mut!(output), count); }
         output
     }
diff --git a/src/util/partial_ord.rs b/src/util/partial_ord.rs
index 418ba2c..97fa4aa 100644
--- a/src/util/partial_ord.rs
+++ b/src/util/partial_ord.rs
@@ -1,4 +1,39 @@
 use crate::absolute::Absolute;
+use crate::IntegerDataType;
+use num::Bounded;
+
+/// The least and greatest values of a data type, including infinities.
+pub(crate) trait Extremes: Bounded + Sized {
+    fn least() -> Self {
+        Self::min_value()
+    }
+
+    fn greatest() -> Self {
+        Self::max_value()
+    }
+}
+
+impl<T: IntegerDataType + Bounded> Extremes for T {}
+
+impl Extremes for f32 {
+    fn least() -> Self {
+        f32::NEG_INFINITY
+    }
+
+    fn greatest() -> Self {
+        f32::INFINITY
+    }
+}
+
+impl Extremes for f64 {
+    fn least() -> Self {
+        f64::NEG_INFINITY
+    }
+
+    fn greatest() -> Self {
+        f64::INFINITY
+    }
+}
 
 pub(crate) fn partial_min<T: PartialOrd>(a: T, b: T) -> T {
     if a.partial_cmp(&b) == Some(std::cmp::Ordering::Less) { a } else { b }
-- 
2.43.0


From c7630b71d4cf2e4cbdf8f2fb28d1e73c60fad79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:29 +0000
Subject: [PATCH 23/39] fix: tensors derived by adding a scalar or viewing
 exposed and reset their source's gradient

---
 src/autograd/identity_backwards.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/autograd/identity_backwards.rs b/src/autograd/identity_backwards.rs
index 7f65f9b..4fa92ce 100644
--- a/src/autograd/identity_backwards.rs
+++ b/src/autograd/identity_backwards.rs
@@ -1,10 +1,22 @@
-use crate::gradient_function::GradientFunction;
-use crate::{FloatDataType, Tensor};
+use crate::gradient_function::{GradientFuncTrait, GradientFunction};
+use crate::{call_next_backward, FloatDataType, NdArray, Tensor};
+use std::cell::RefCell;
+use std::rc::Rc;
 
-pub(crate) struct IdentityBackwards {}
+pub(crate) struct IdentityBackwards<T: FloatDataType> {
+    next_function: GradientFunction<T>,
+}
+
+impl<T: FloatDataType> GradientFuncTrait<T> for IdentityBackwards<T> {
+    fn backward(&mut self, grad: &NdArray<T>) {
+        call_next_backward!(grad, self.next_function);
+    }
+}
 
-impl IdentityBackwards {
-    pub(crate) fn new<T: FloatDataType>(tensor: &Tensor<T>) -> GradientFunction<T> {
-        tensor.grad_fn()
+impl<T: FloatDataType> IdentityBackwards<T> {
+    pub(crate) fn new(tensor: &Tensor<T>) -> GradientFunction<T> {
+        Rc::new(RefCell::new(Self {
+            next_function: tensor.grad_fn(),
+        }))
     }
 }
-- 
2.43.0


From 3b80bb0ac84a6d31f77b55dc4f21c06b93dd142e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:23 +0000
Subject: [PATCH 24/39] fix: consuming a view gave it a static lifetime,
 letting it outlive its source

---
 src/ndarray/reshape.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ndarray/reshape.rs b/src/ndarray/reshape.rs
index b41ebc7..1c0aff6 100644
--- a/src/ndarray/reshape.rs
+++ b/src/ndarray/reshape.rs
@@ -53,8 +53,8 @@ impl<'a, T: RawDataType> NdArray<'a, T> {
     }
 }
 
-impl<T: RawDataType> Reshape<T> for NdArray<'_, T> {
-    type Output = NdArray<'static, T>;
+impl<'a, T: RawDataType> Reshape<T> for NdArray<'a, T> {
+    type Output = NdArray<'a, T>;
 
     unsafe fn reshaped_view(mut self, shape: Vec<usize>, stride: Vec<usize>) -> Self::Output {
         let flags = update_flags_with_contiguity(self.flags, &shape, &stride);
-- 
2.43.0


From 1ee7b91c0978e6c3542201b2845495c563d0f819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:34 +0000
Subject: [PATCH 25/39] fix: data_slice could outlive an owning array

---
 src/ndarray/methods.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndarray/methods.rs b/src/ndarray/methods.rs
index 4c8b941..4875f6d 100644
--- a/src/ndarray/methods.rs
+++ b/src/ndarray/methods.rs
@@ -38,7 +38,7 @@ impl<'a, T: RawDataType> NdArray<'a, T> {
     /// let data = ndarray.data_slice();
     /// assert_eq!(data, &[50, 60, -5, -10]);
     /// ```
-    pub fn data_slice(&self) -> &'a [T] {
+    pub fn data_slice(&self) -> &[T] {
         assert!(self.is_contiguous(), "cannot get data slice of non-contiguous tensor");
         unsafe { std::slice::from_raw_parts(self.ptr(), self.len) }
     }
-- 
2.43.0


From 2ca7242f2aa2f5091b65619023e892b23ecb9788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:47 +0000
Subject: [PATCH 26/39] fix: element iterators could outlive the array they
 read

---
 src/ndarray/iterator/flat_iterator.rs | 11 +++++++----
 src/ndarray/iterator/iterators.rs     |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ndarray/iterator/flat_iterator.rs b/src/ndarray/iterator/flat_iterator.rs
index e94ec40..e2a4eb3 100644
--- a/src/ndarray/iterator/flat_iterator.rs
+++ b/src/ndarray/iterator/flat_iterator.rs
@@ -1,20 +1,23 @@
 use crate::buffer_iterator::BufferIterator;
 use crate::dtype::RawDataType;
 use crate::NdArray;
+use std::marker::PhantomData;
 
-pub struct FlatIterator<T: RawDataType> {
+pub struct FlatIterator<'a, T: RawDataType> {
     buffer_iterator: BufferIterator<T>,
+    _marker: PhantomData<&'a T>,
 }
 
-impl<T: RawDataType> FlatIterator<T> {
-    pub(super) fn from(tensor: &NdArray<T>) -> Self {
+impl<'a, T: RawDataType> FlatIterator<'a, T> {
+    pub(super) fn from(tensor: &'a NdArray<T>) -> Self {
         Self {
             buffer_iterator: BufferIterator::from(tensor),
+            _marker: PhantomData,
         }
     }
 }
 
-impl<T: RawDataType> Iterator for FlatIterator<T> {
+impl<T: RawDataType> Iterator for FlatIterator<'_, T> {
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
diff --git a/src/ndarray/iterator/iterators.rs b/src/ndarray/iterator/iterators.rs
index 10e7658..d1b8cad 100644
--- a/src/ndarray/iterator/iterators.rs
+++ b/src/ndarray/iterator/iterators.rs
@@ -6,7 +6,7 @@ use crate::axis::{AxesType, AxisType};
 use crate::buffer_iterator::BufferIterator;
 
 impl<T: RawDataType> NdArray<'_, T> {
-    pub fn flatiter(&self) -> FlatIterator<T> {
+    pub fn flatiter(&self) -> FlatIterator<'_, T> {
         FlatIterator::from(self)
     }
 
-- 
2.43.0


From e94e031b57826d7c09f2d6f873240cc31fc4e825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:47 +0000
Subject: [PATCH 27/39] fix: a backward pass seeded with a leaf's own gradient
 changed its seed on the way

---
 src/tensor/autograd.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tensor/autograd.rs b/src/tensor/autograd.rs
index 06ac769..c14dbe4 100644
--- a/src/tensor/autograd.rs
+++ b/src/tensor/autograd.rs
@@ -153,7 +153,12 @@ impl<'a, T: TensorDataType> Tensor<'a, T> {
         let gradient = gradient.as_ref();
         assert_eq!(gradient.shape(), self.shape());
 
-        self.grad_fn.borrow_mut().backward(gradient);
+        if gradient.is_view() {
+            // the view may refer to a gradient that this pass accumulates into
+            self.grad_fn.borrow_mut().backward(&gradient.clone());
+        } else {
+            self.grad_fn.borrow_mut().backward(gradient);
+        }
     }
 
     /// Computes the gradient of the `self` with respect to its leaf tensors.
-- 
2.43.0


From 0e45253aaac6a12584b816de61f87e8f98e6ba51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:19 +0000
Subject: [PATCH 28/39] Allow building the NEON paths with a stand-in
 intrinsics crate on other machines

---
 src/acceleration/simd.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/acceleration/simd.rs b/src/acceleration/simd.rs
index 71fbe0c..ed512b2 100644
--- a/src/acceleration/simd.rs
+++ b/src/acceleration/simd.rs
@@ -95,9 +95,13 @@ use num::traits::MulAdd;
 use num::{Bounded, One, Zero};
 use std::ops::{Add, AddAssign, Div, Mul, MulAssign, Sub};
 
-#[cfg(neon_simd)]
+#[cfg(all(neon_simd, target_arch = "aarch64"))]
 use std::arch::aarch64::*;
 
+// on other machines the NEON paths can only be built with a stand-in crate passed to rustc as --extern neon_shim
+#[cfg(all(neon_simd, not(target_arch = "aarch64")))]
+use neon_shim::*;
+
 #[cfg(neon_simd)]
 use std::hint::assert_unchecked;
 
-- 
2.43.0


From df21a1f118a46ea19b6b11e26d3c1ffb55b42950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:34 +0000
Subject: [PATCH 29/39] fix: gemm/gemv were called with a leading dimension
 smaller than a row (broadcast, transposed single-column and overlapping
 operands)

---
 src/linalg/matrix_ops.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/linalg/matrix_ops.rs b/src/linalg/matrix_ops.rs
index a1816ca..08f8c87 100644
--- a/src/linalg/matrix_ops.rs
+++ b/src/linalg/matrix_ops.rs
@@ -419,6 +419,13 @@ pub(crate) trait MatrixOps: SumOfProductsType {
     }
 }
 
+/// Whether a matrix can be passed to BLAS in row-major order:
+/// its rows must be contiguous and its leading dimension no smaller than a row
+#[cfg(blas)]
+fn has_blas_layout<T: RawDataType>(matrix: &NdArray<T>) -> bool {
+    matrix.stride()[1] == 1 && matrix.stride()[0] >= matrix.shape()[1]
+}
+
 impl<T: IntegerDataType> MatrixOps for T {}
 
 impl MatrixOps for f32 {
@@ -429,8 +436,8 @@ impl MatrixOps for f32 {
                                         result: *mut Self) {
         use crate::acceleration::cblas::{cblas_sgemm, CBLAS_NO_TRANS, CBLAS_ROW_MAJOR};
 
-        // BLAS does not support matrices that don't have contiguous rows
-        if lhs.stride()[1] != 1 || rhs.stride()[1] != 1 {
+        // BLAS does not support matrices that don't have contiguous, disjoint rows
+        if !has_blas_layout(lhs) || !has_blas_layout(rhs) {
             return einsum_into_ptr([lhs, rhs], (["ij", "jk"], "ik"), result_stride, result);
         }
 
@@ -453,8 +460,8 @@ impl MatrixOps for f32 {
         use crate::acceleration::cblas::{cblas_sgemv, CBLAS_NO_TRANS, CBLAS_ROW_MAJOR};
         use crate::einsum;
 
-        // BLAS does not support matrices that don't have contiguous rows
-        if matrix.stride()[1] != 1 {
+        // BLAS does not support matrices that don't have contiguous, disjoint rows
+        if !has_blas_layout(matrix) || vector.stride()[0] == 0 {
             return einsum([matrix, vector], (["ij", "j"], "i"));
         }
 
@@ -482,8 +489,8 @@ impl MatrixOps for f64 {
                                         result: *mut Self) {
         use crate::acceleration::cblas::{cblas_dgemm, CBLAS_NO_TRANS, CBLAS_ROW_MAJOR};
 
-        // BLAS does not support matrices that don't have contiguous rows
-        if lhs.stride()[1] != 1 || rhs.stride()[1] != 1 {
+        // BLAS does not support matrices that don't have contiguous, disjoint rows
+        if !has_blas_layout(lhs) || !has_blas_layout(rhs) {
             return einsum_into_ptr([lhs, rhs], (["ij", "jk"], "ik"), result_stride, result);
         }
 
@@ -506,8 +513,8 @@ impl MatrixOps for f64 {
         use crate::acceleration::cblas::{cblas_dgemv, CBLAS_NO_TRANS, CBLAS_ROW_MAJOR};
         use crate::einsum;
 
-        // BLAS does not support matrices that don't have contiguous rows
-        if matrix.stride()[1] != 1 {
+        // BLAS does not support matrices that don't have contiguous, disjoint rows
+        if !has_blas_layout(matrix) || vector.stride()[0] == 0 {
             return einsum([matrix, vector], (["ij", "j"], "i"));
         }
 
-- 
2.43.0


From e6ac1c8c7b5974f7c9bac18ed410711bf73ddfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:38 +0000
Subject: [PATCH 30/39] fix: NEON min and max of infinite elements returned the
 largest finite values

---
 src/acceleration/simd.rs   | 5 +++--
 src/ops/simd_reduce_ops.rs | 8 ++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/acceleration/simd.rs b/src/acceleration/simd.rs
index ed512b2..cfef648 100644
--- a/src/acceleration/simd.rs
+++ b/src/acceleration/simd.rs
@@ -1,4 +1,4 @@
-pub(crate) trait Simd: Copy + One + Zero + Bounded + PartialOrd
+pub(crate) trait Simd: Copy + One + Zero + Extremes + PartialOrd
 + MulAdd<Output=Self> + Add<Output=Self> + Sub<Output=Self> + Mul<Output=Self> + Div<Output=Self>
 + AddAssign + MulAssign
 {
@@ -92,7 +92,8 @@ pub(crate) trait Simd: Copy + One + Zero + Bounded + PartialOrd
 }
 
 use num::traits::MulAdd;
-use num::{Bounded, One, Zero};
+use num::{One, Zero};
+use crate::util::partial_ord::Extremes;
 use std::ops::{Add, AddAssign, Div, Mul, MulAssign, Sub};
 
 #[cfg(all(neon_simd, target_arch = "aarch64"))]
diff --git a/src/ops/simd_reduce_ops.rs b/src/ops/simd_reduce_ops.rs
index d8bc8ac..6900086 100644
--- a/src/ops/simd_reduce_ops.rs
+++ b/src/ops/simd_reduce_ops.rs
@@ -106,7 +106,7 @@ pub(crate) trait SimdReduceOps: Simd {
 
     #[cfg(neon_simd)]
     unsafe fn simd_min_uniform(mut ptr: *const Self, mut count: usize, stride: usize) -> Self {
-        let mut acc = Self::simd_from_constant(Self::max_value());
+        let mut acc = Self::simd_from_constant(Self::greatest());
 
         while count >= Self::LANES {
             let vec = Self::simd_vec_from_stride(ptr, stride);
@@ -127,7 +127,7 @@ pub(crate) trait SimdReduceOps: Simd {
 
     #[cfg(neon_simd)]
     unsafe fn simd_min_contiguous(mut ptr: *const Self, mut count: usize) -> Self {
-        let mut acc = Self::simd_from_constant(Self::max_value());
+        let mut acc = Self::simd_from_constant(Self::greatest());
 
         while count >= 4 * Self::LANES {
             let a = Self::simd_load(ptr.add(0 * Self::LANES));
@@ -156,7 +156,7 @@ pub(crate) trait SimdReduceOps: Simd {
 
     #[cfg(neon_simd)]
     unsafe fn simd_max_uniform(mut ptr: *const Self, mut count: usize, stride: usize) -> Self {
-        let mut acc = Self::simd_from_constant(Self::min_value());
+        let mut acc = Self::simd_from_constant(Self::least());
 
         while count >= Self::LANES {
             let vec = Self::simd_vec_from_stride(ptr, stride);
@@ -177,7 +177,7 @@ pub(crate) trait SimdReduceOps: Simd {
 
     #[cfg(neon_simd)]
     unsafe fn simd_max_contiguous(mut ptr: *const Self, mut count: usize) -> Self {
-        let mut acc = Self::simd_from_constant(Self::min_value());
+        let mut acc = Self::simd_from_constant(Self::least());
 
         while count >= 4 * Self::LANES {
             let a = Self::simd_load(ptr.add(0 * Self::LANES));
-- 
2.43.0


From 5f9afa98609a81f92739909be91daf4be2e51150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:23 +0000
Subject: [PATCH 31/39] fix: spaces in einsum subscripts were counted as axes

---
 src/linalg/einsum.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/linalg/einsum.rs b/src/linalg/einsum.rs
index fe43193..d92ca2d 100644
--- a/src/linalg/einsum.rs
+++ b/src/linalg/einsum.rs
@@ -39,7 +39,8 @@ fn parse_operand_subscripts<A: StridedMemory>(subscripts: &str,
         panic!("invalid subscripts '{}' for operand with {} dimension/s", subscripts, operand.ndims());
     }
 
-    let subscripts = subscripts.as_bytes();
+    // spaces take no position
+    let subscripts: Vec<u8> = subscripts.bytes().filter(|&c| c != b' ').collect();
 
     *broadcast_dims = operand.ndims() - alphanum_chars;
 
@@ -86,7 +87,7 @@ fn parse_operand_subscripts<A: StridedMemory>(subscripts: &str,
             for j in i..i + *broadcast_dims {
                 result[j] = 0;
             }
-        } else if label != b' ' {
+        } else {
             panic!("invalid label '{}' in einsum string, subscripts must be letters", label);
         }
     }
@@ -111,7 +112,8 @@ fn parse_output_subscripts(subscripts: &str,
     if !subscripts.is_ascii() {
         panic!("einsum subscripts must be ascii");
     }
-    let subscripts = subscripts.as_bytes();
+    // spaces take no position
+    let subscripts: Vec<u8> = subscripts.bytes().filter(|&c| c != b' ').collect();
 
     let mut found_ellipsis = false;
     let mut check_ellipsis = false;
@@ -152,7 +154,7 @@ fn parse_output_subscripts(subscripts: &str,
             }
             check_ellipsis = true;
             found_ellipsis = true;
-        } else if label != b' ' {
+        } else {
             panic!("invalid label '{}' in einsum string, subscripts must be letters", label);
         }
     }
-- 
2.43.0


From c69f1a77febba6bc42477c786ac228faded451a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:47 +0000
Subject: [PATCH 32/39] fix: assignment by index accepted fewer coordinates
 than dimensions and wrote to the first element of the sub-array

---
 src/ndarray/index_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndarray/index_impl.rs b/src/ndarray/index_impl.rs
index 8bf34ee..e20a68c 100644
--- a/src/ndarray/index_impl.rs
+++ b/src/ndarray/index_impl.rs
@@ -21,7 +21,7 @@ impl<T: RawDataType, const D: usize> Index<[usize; D]> for NdArray<'_, T> {
 impl<T: RawDataType, const D: usize> IndexMut<[usize; D]> for NdArray<'_, T> {
     fn index_mut(&mut self, index: [usize; D]) -> &mut Self::Output {
         assert!(self.flags.contains(NdArrayFlags::Writeable), "tensor is readonly.");
-        assert!(D <= self.ndims(), "[] index must be equal number of array dimensions!");
+        assert_eq!(D, self.ndims(), "[] index must equal number of array dimensions!");
 
         assert!(index.iter().zip(self.shape.iter()).all(|(idx, axis_length)| idx < axis_length), "[] index out of bounds!");
 
-- 
2.43.0


From 5483084c55c05c43f701cd2ac097d67456856e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:17 +0000
Subject: [PATCH 33/39] fix: einsum refuses an ellipsis that stands for axes,
 which it does not support

---
 src/linalg/einsum.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/linalg/einsum.rs b/src/linalg/einsum.rs
index d92ca2d..e2f2db9 100644
--- a/src/linalg/einsum.rs
+++ b/src/linalg/einsum.rs
@@ -333,6 +333,9 @@ where
                                  &mut operand_labels[i], &mut label_counts, &mut label_dims, &mut broadcast_dims);
         max_broadcast_dims = max_broadcast_dims.max(broadcast_dims);
     }
+    if max_broadcast_dims != 0 {
+        panic!("broadcasting in einsum is currently unsupported");
+    }
 
     let output_dims = parse_output_subscripts(subscripts.1, &mut output_labels, max_broadcast_dims, &label_counts);
 
-- 
2.43.0


From 9abf7dab98c4de0c24e0e96b81271bbf30f137d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:17 +0000
Subject: [PATCH 34/39] fix: einsum reads the length of a label after an
 ellipsis from its own axis

---
 src/linalg/einsum.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/linalg/einsum.rs b/src/linalg/einsum.rs
index e2f2db9..6b34e22 100644
--- a/src/linalg/einsum.rs
+++ b/src/linalg/einsum.rs
@@ -64,7 +64,7 @@ fn parse_operand_subscripts<A: StridedMemory>(subscripts: &str,
             }
 
             if first_occurrence[label as usize] == (MAX_DIMS + 3) as i8 {
-                first_occurrence[label as usize] = i as i8;
+                first_occurrence[label as usize] = axis as i8;
 
                 result[axis] = label as i8;
             } else {
@@ -73,8 +73,8 @@ fn parse_operand_subscripts<A: StridedMemory>(subscripts: &str,
 
             label_counts[label as usize] += 1;
             if label_counts[label as usize] == 1 {
-                label_dims[label as usize] = operand.shape()[i];
-            } else if label_dims[label as usize] != operand.shape()[i] {
+                label_dims[label as usize] = operand.shape()[axis];
+            } else if label_dims[label as usize] != operand.shape()[axis] {
                 panic!("the dimensions of axes corresponding to the same einsum label must match");
             }
         } else if label == b'.' {
-- 
2.43.0


From 52f260d708859b33bfe53d288bfd5461d200d3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:17 +0000
Subject: [PATCH 35/39] fix: einsum refuses an output that ends in a single dot

---
 src/linalg/einsum.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/linalg/einsum.rs b/src/linalg/einsum.rs
index 6b34e22..4c99cd2 100644
--- a/src/linalg/einsum.rs
+++ b/src/linalg/einsum.rs
@@ -159,6 +159,10 @@ fn parse_output_subscripts(subscripts: &str,
         }
     }
 
+    if check_ellipsis {
+        panic!("einsum subscripts string contains '.' that is not part of an ellipsis ('..')")
+    }
+
     let ndims = subscripts.len();
     if found_ellipsis { (ndims - 2) + broadcast_dims } else { ndims }
 }
-- 
2.43.0


From b81c9be6f1045367d99c42eac8468b9e54abd85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:17 +0000
Subject: [PATCH 36/39] fix: products over an axis of length zero are zero
 instead of undefined

---
 src/linalg/matrix_ops.rs         | 10 ++++++++++
 src/linalg/specialized_einsum.rs |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/src/linalg/matrix_ops.rs b/src/linalg/matrix_ops.rs
index 08f8c87..d93be5b 100644
--- a/src/linalg/matrix_ops.rs
+++ b/src/linalg/matrix_ops.rs
@@ -118,6 +118,11 @@ impl<'a, T: SumOfProductsType> NdArray<'a, T> {
 
         let result = NdArray::scalar(T::default());
 
+        // the sum has no terms
+        if self.len() == 0 {
+            return result;
+        }
+
         unsafe {
             <T as SumOfProductsType>::sum_of_products_in_strides_n_n_out_stride_0(&[self.mut_ptr(), other.mut_ptr(), result.mut_ptr()],
                                                                                   &[self.stride()[0], other.stride()[0], 0],
@@ -406,6 +411,11 @@ pub(crate) trait MatrixOps: SumOfProductsType {
 
         let strides = &[matrix.stride()[1], vector.stride()[0], 0];
 
+        // the sums have no terms
+        if cols == 0 {
+            return NdArray::from_contiguous_owned_buffer(vec![rows], result);
+        }
+
         let mut matrix_row = matrix.mut_ptr();
         let mut dst = result.as_mut_ptr();
 
diff --git a/src/linalg/specialized_einsum.rs b/src/linalg/specialized_einsum.rs
index e6d3eb4..cb2ca83 100644
--- a/src/linalg/specialized_einsum.rs
+++ b/src/linalg/specialized_einsum.rs
@@ -49,6 +49,11 @@ pub(super) unsafe fn try_specialized_einsum_loop<T: SumOfProductsType>(operands:
                                                                        dst: *mut T) -> bool {
     let n_operands = operands.len();
 
+    // the sums have no terms, so the (zeroed) result is left as it is
+    if iter_shape.contains(&0) {
+        return true;
+    }
+
     if n_operands == 1 {
         if iter_ndims == 2 {
             einsum_1operand_2labels(operands[0],
-- 
2.43.0


From 511f56a71bbdaa700264aa4aaeac7c792ccbac30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:17 +0000
Subject: [PATCH 37/39] fix: slicing an array with an axis of length zero does
 not underflow

---
 src/ndarray/slice.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ndarray/slice.rs b/src/ndarray/slice.rs
index 1657bf6..4a923fd 100644
--- a/src/ndarray/slice.rs
+++ b/src/ndarray/slice.rs
@@ -33,6 +33,11 @@ pub(super) fn calculate_strided_buffer_length(shape: &[usize], stride: &[usize])
     // }
     //
     // the following code is equivalent to the above loop
+    // (an array with an axis of length zero has no elements)
+    if shape.contains(&0) {
+        return 0;
+    }
+
     shape.iter().zip(stride.iter())
          .map(|(&axis_length, &axis_stride)| axis_stride * (axis_length - 1))
          .sum::<usize>() + 1
-- 
2.43.0


From 3b0fde66fd94a7149e6197a028b6a3b74c00073a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:15 +0000
Subject: [PATCH 38/39] fix: randint samples in its own type, so large and
 fractional bounds hold

---
 src/common/random.rs | 7 ++++---
 src/util/dtype.rs    | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/common/random.rs b/src/common/random.rs
index 9a487ba..db851b5 100644
--- a/src/common/random.rs
+++ b/src/common/random.rs
@@ -1,6 +1,6 @@
 use crate::util::to_vec::ToVec;
 use crate::{Constructors, FloatDataType, NdArray, NumericDataType, RawDataType, Tensor, TensorDataType};
-use num::{Float, NumCast};
+use num::NumCast;
 use rand::distributions::{Distribution, Uniform};
 use rand::thread_rng;
 use rand_distr::Normal;
@@ -105,9 +105,10 @@ pub trait RandomConstructors<T: RawDataType>: Constructors<T> {
         let shape = shape.to_vec();
         let n = shape.iter().product();
 
-        let uniform = Uniform::new(low.to_float(), high.to_float());
+        // sampled as T because 64- and 128-bit bounds are not exact as floats
+        let uniform = Uniform::new(NumericDataType::ceil(&low), NumericDataType::ceil(&high));
         let random_numbers = (0..n)
-            .map(|_| <T as NumCast>::from(uniform.sample(&mut rng).floor()).unwrap())
+            .map(|_| NumericDataType::floor(&uniform.sample(&mut rng)))
             .collect();
 
         unsafe { Self::from_contiguous_owned_buffer(shape, random_numbers) }
diff --git a/src/util/dtype.rs b/src/util/dtype.rs
index f014a32..9cd74fb 100644
--- a/src/util/dtype.rs
+++ b/src/util/dtype.rs
@@ -45,7 +45,7 @@ impl RawDataType for bool {}
 pub trait NumericDataType: RawDataType + ToPrimitive + NumCast + From<bool>
 + Sum + Product + SubAssign + Sub<Output=Self> + Div<Output=Self> + MulAdd<Output=Self> + DotProduct
 + ReduceSum + ReduceProduct + ReduceMin + ReduceMax + ReduceMinMagnitude + ReduceMaxMagnitude
-+ BinaryOpAdd + BinaryOpSub + BinaryOpMul
++ BinaryOpAdd + BinaryOpSub + BinaryOpMul + SampleUniform
 {
     type AsFloatType: FloatDataType;
 
-- 
2.43.0


From 422425321a45a7aef8dee5bf9987eb771c345d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:08 +0000
Subject: [PATCH 39/39] fix: matrices without elements are not passed to BLAS

---
 src/linalg/matrix_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/matrix_ops.rs b/src/linalg/matrix_ops.rs
index d93be5b..f5b7e82 100644
--- a/src/linalg/matrix_ops.rs
+++ b/src/linalg/matrix_ops.rs
@@ -433,7 +433,7 @@ pub(crate) trait MatrixOps: SumOfProductsType {
 /// its rows must be contiguous and its leading dimension no smaller than a row
 #[cfg(blas)]
 fn has_blas_layout<T: RawDataType>(matrix: &NdArray<T>) -> bool {
-    matrix.stride()[1] == 1 && matrix.stride()[0] >= matrix.shape()[1]
+    matrix.size() > 0 && matrix.stride()[1] == 1 && matrix.stride()[0] >= matrix.shape()[1]
 }
 
 impl<T: IntegerDataType> MatrixOps for T {}
-- 
2.43.0

