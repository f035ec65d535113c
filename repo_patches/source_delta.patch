From d10c7ff8ee5b67a35aeacae8104ea9a24cc28586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:40 +0000
Subject: [PATCH 01/26] fix: broadcast views are not uniformly strided or
 contiguous

A zero stride axis was skipped when deciding whether a view has a uniform
stride, so [3] broadcast to [2, 3] claimed to be contiguous, and cloning,
reshaping, filling or reducing it read or wrote past the source buffer.
---
 src/ndarray/iterator/collapse_contiguous.rs | 14 ++++++--------
 src/ndarray/slice.rs                        |  3 ++-
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/ndarray/iterator/collapse_contiguous.rs b/src/ndarray/iterator/collapse_contiguous.rs
index cf12c6e..fce76f8 100644
--- a/src/ndarray/iterator/collapse_contiguous.rs
+++ b/src/ndarray/iterator/collapse_contiguous.rs
@@ -76,18 +76,16 @@ pub(crate) fn collapse_to_uniform_stride(shape: &[usize], stride: &[usize]) -> (
 }
 
 pub(crate) fn has_uniform_stride(shape: &[usize], stride: &[usize]) -> Option<usize> {
-    let ndims = shape.len();
-    if ndims == 0 {
+    if shape.is_empty() {
         return Some(0);
     }
 
-    for i in 1..ndims {
-        if stride[i - 1] != 0 && stride[i - 1] != shape[i] * stride[i] {
-            return None;
-        }
+    // repeated (zero stride) axes only preserve a uniform stride if they have a single element
+    let (_, stride) = collapse_to_uniform_stride(shape, stride);
+    match stride[..] {
+        [stride] => Some(stride),
+        _ => None,
     }
-
-    Some(stride[ndims - 1])
 }
 
 #[cfg(test)]
diff --git a/src/ndarray/slice.rs b/src/ndarray/slice.rs
index 5ecba66..635a49a 100644
--- a/src/ndarray/slice.rs
+++ b/src/ndarray/slice.rs
@@ -14,7 +14,8 @@ pub(super) fn update_flags_with_contiguity(mut flags: NdArrayFlags, shape: &[usi
         Some(stride) => {
             flags |= NdArrayFlags::UniformStride;
 
-            if stride <= 1 {
+            // a stride of 0 only describes contiguous memory if there is a single element
+            if stride == 1 || (stride == 0 && shape.iter().product::<usize>() == 1) {
                 flags |= NdArrayFlags::Contiguous;
             } else {
                 flags -= NdArrayFlags::Contiguous;
-- 
2.43.0


From e0e2076dd73cf79fc9bc982f83211372e0013d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:49 +0000
Subject: [PATCH 02/26] fix: length of strided views covers every element

Transposed, diagonal and reshaped views of strided arrays recorded the number
of elements as the length of their buffer, so in-bounds indexes panicked.
---
 src/ndarray/reshape.rs | 6 +++---
 src/ndarray/slice.rs   | 6 +++++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ndarray/reshape.rs b/src/ndarray/reshape.rs
index 12d331d..65c2509 100644
--- a/src/ndarray/reshape.rs
+++ b/src/ndarray/reshape.rs
@@ -1,6 +1,6 @@
 use crate::dtype::RawDataType;
 use crate::ndarray::flags::NdArrayFlags;
-use crate::slice::update_flags_with_contiguity;
+use crate::slice::{calculate_strided_buffer_length, update_flags_with_contiguity};
 use crate::{NdArray, Reshape, StridedMemory};
 use crate::common::constructors::Constructors;
 
@@ -41,7 +41,7 @@ impl<'a, T: RawDataType> NdArray<'a, T> {
 
         NdArray {
             ptr: self.ptr.add(offset),
-            len: shape.iter().product(),
+            len: calculate_strided_buffer_length(&shape, &stride),
             capacity: 0,
 
             shape,
@@ -86,7 +86,7 @@ impl<'a, T: RawDataType> Reshape<T> for &'a NdArray<'a, T> {
 
         NdArray {
             ptr: self.ptr,
-            len: shape.iter().product(),
+            len: calculate_strided_buffer_length(&shape, &stride),
             capacity: self.capacity,
 
             shape,
diff --git a/src/ndarray/slice.rs b/src/ndarray/slice.rs
index 635a49a..becb2f4 100644
--- a/src/ndarray/slice.rs
+++ b/src/ndarray/slice.rs
@@ -26,7 +26,11 @@ pub(super) fn update_flags_with_contiguity(mut flags: NdArrayFlags, shape: &[usi
     flags
 }
 
-fn calculate_strided_buffer_length(shape: &[usize], stride: &[usize]) -> usize {
+pub(super) fn calculate_strided_buffer_length(shape: &[usize], stride: &[usize]) -> usize {
+    if shape.contains(&0) {
+        return 0;
+    }
+
     // let mut len = 1;
     // for i in 0..ndims {
     //     len += stride[i] * (shape[i] - 1);
-- 
2.43.0


From d4fbf8b6c3543da7f2636c1f994674738fa0e822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:58 +0000
Subject: [PATCH 03/26] fix: reshaping an owned array keeps its capacity

The consuming forms of reshape, transpose, squeeze, etc. set the capacity to 0
while keeping ownership, so the buffer leaked and into_data_vector() returned
a vector whose length exceeded its capacity.
---
 src/ndarray/reshape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndarray/reshape.rs b/src/ndarray/reshape.rs
index 65c2509..e414c37 100644
--- a/src/ndarray/reshape.rs
+++ b/src/ndarray/reshape.rs
@@ -65,7 +65,7 @@ impl<T: RawDataType> Reshape<T> for NdArray<'_, T> {
         NdArray {
             ptr: self.ptr,
             len: self.len,
-            capacity: 0,
+            capacity: self.capacity,
 
             shape,
             stride,
-- 
2.43.0


From 43710d66dfabb8f3a04eca3942493dc954b9f4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:46 +0000
Subject: [PATCH 04/26] fix: slices are bounds checked

slice() and slice_along() accepted indexes and ranges past the end of an axis
and returned views of memory outside of the array.
---
 src/ndarray/slice.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/ndarray/slice.rs b/src/ndarray/slice.rs
index becb2f4..89eae23 100644
--- a/src/ndarray/slice.rs
+++ b/src/ndarray/slice.rs
@@ -42,6 +42,21 @@ pub(super) fn calculate_strided_buffer_length(shape: &[usize], stride: &[usize])
          .sum::<usize>() + 1
 }
 
+/// Returns the first element and number of elements selected by `index` along an axis.
+///
+/// # Panics
+/// - If the selected elements are not in bounds, or if there are none.
+fn checked_bounds(index: &impl Indexer, axis_length: usize) -> (usize, usize) {
+    let first = index.index_of_first_element();
+    assert!(first < axis_length, "slice starting at {first} out of bounds for axis of length {axis_length}");
+
+    let length = index.indexed_length(axis_length);
+    assert!(length > 0 && length <= axis_length - first,
+            "slice of {length} elements starting at {first} out of bounds for axis of length {axis_length}");
+
+    (first, length)
+}
+
 
 impl<'a, T: RawDataType> NdArray<'a, T> {
     pub fn slice_along<S: Indexer>(&'a self, axis: Axis, index: S) -> NdArray<'a, T>
@@ -51,14 +66,16 @@ impl<'a, T: RawDataType> NdArray<'a, T> {
         let mut new_shape = self.shape.clone();
         let mut new_stride = self.stride.clone();
 
+        let (first, new_length) = checked_bounds(&index, self.shape[axis]);
+
         if index.collapse_dimension() {
             new_shape.remove(axis);
             new_stride.remove(axis);
         } else {
-            new_shape[axis] = index.indexed_length(new_shape[axis]);
+            new_shape[axis] = new_length;
         }
 
-        let offset = self.stride[axis] * index.index_of_first_element();
+        let offset = self.stride[axis] * first;
 
         let len = calculate_strided_buffer_length(&new_shape, &new_stride);
         
@@ -92,13 +109,14 @@ impl<'a, T: RawDataType> NdArray<'a, T> {
         let mut new_stride = Vec::with_capacity(ndims);
 
         for idx in index {
+            let (first, new_length) = checked_bounds(&idx, self.shape[axis]);
+
             if !idx.collapse_dimension() {
-                let new_length = idx.indexed_length(self.shape[axis]);
                 new_shape.push(new_length);
                 new_stride.push(self.stride[axis]);
             }
 
-            offset += self.stride[axis] * idx.index_of_first_element();
+            offset += self.stride[axis] * first;
             axis += 1;
         }
 
-- 
2.43.0


From a1a3963e29ec192be17bad12e968824360749e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:57 +0000
Subject: [PATCH 05/26] fix: indexes are bounds checked along every axis

Only the flattened index was checked, so a[[0, 4]] of a [2, 3] array returned
another element; mutable indexing also accepted too few indexes and wrote
through readonly (broadcast) views.
---
 src/ndarray/index_impl.rs | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/ndarray/index_impl.rs b/src/ndarray/index_impl.rs
index 7e6f491..68ae738 100644
--- a/src/ndarray/index_impl.rs
+++ b/src/ndarray/index_impl.rs
@@ -1,31 +1,41 @@
 use crate::dtype::RawDataType;
+use crate::ndarray::flags::NdArrayFlags;
 use crate::{NdArray, StridedMemory};
 use std::ops::{Index, IndexMut};
 
+impl<T: RawDataType> NdArray<'_, T> {
+    /// Returns the distance of the element at `index` from the first element of the array.
+    ///
+    /// # Panics
+    /// - If the length of `index` is not the number of dimensions.
+    /// - If `index` is out of bounds along any axis.
+    fn flat_index(&self, index: &[usize]) -> usize {
+        assert_eq!(index.len(), self.ndims(), "[] index must equal number of array dimensions!");
+        assert!(index.iter().zip(self.shape.iter()).all(|(idx, axis_length)| idx < axis_length),
+                "[] index out of bounds!");
+
+        index.iter().zip(self.stride.iter())
+             .map(|(idx, stride)| idx * stride)
+             .sum()
+    }
+}
+
 impl<T: RawDataType, const D: usize> Index<[usize; D]> for NdArray<'_, T> {
     type Output = T;
 
     fn index(&self, index: [usize; D]) -> &Self::Output {
-        assert_eq!(D, self.ndims(), "[] index must equal number of array dimensions!");
-
-        let i: usize = index.iter().zip(self.stride.iter())
-            .map(|(idx, stride)| idx * stride)
-            .sum();
-
-        assert!(i < self.len, "[] index out of bounds!");
+        let i = self.flat_index(&index);
         unsafe { self.ptr.add(i).as_ref() }
     }
 }
 
 impl<T: RawDataType, const D: usize> IndexMut<[usize; D]> for NdArray<'_, T> {
     fn index_mut(&mut self, index: [usize; D]) -> &mut Self::Output {
-        assert!(D <= self.ndims(), "[] index must be equal number of array dimensions!");
-
-        let i: usize = index.iter().zip(self.stride.iter())
-                            .map(|(idx, stride)| idx * stride)
-                            .sum();
+        if !self.flags.contains(NdArrayFlags::Writeable) {
+            panic!("tensor is readonly.");
+        }
 
-        assert!(i < self.len, "[] index out of bounds!");
+        let i = self.flat_index(&index);
         unsafe { self.ptr.add(i).as_mut() }
     }
 }
-- 
2.43.0


From ca8af22bc13563de5012ba0ef6efeb86205962eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:06 +0000
Subject: [PATCH 06/26] fix: fill and zero refuse readonly views

---
 src/ndarray/fill.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ndarray/fill.rs b/src/ndarray/fill.rs
index 9159f83..ecf15d7 100644
--- a/src/ndarray/fill.rs
+++ b/src/ndarray/fill.rs
@@ -1,4 +1,5 @@
 use crate::dtype::RawDataType;
+use crate::ndarray::flags::NdArrayFlags;
 use crate::{NdArray, StridedMemory};
 use crate::ops::fill::Fill;
 
@@ -6,6 +7,9 @@ use crate::ops::fill::Fill;
 impl<T: RawDataType> NdArray<'_, T> {
     /// Fills the entire array with a specified `value`.
     ///
+    /// # Panics
+    /// - If the array is a readonly view (the result of broadcasting).
+    ///
     /// # Example
     ///
     /// ```
@@ -16,6 +20,10 @@ impl<T: RawDataType> NdArray<'_, T> {
     /// assert_eq!(arr, NdArray::new([10, 10, 10]));
     /// ```
     pub fn fill(&mut self, value: T) {
+        if !self.flags.contains(NdArrayFlags::Writeable) {
+            panic!("tensor is readonly.");
+        }
+
         unsafe { <T as Fill>::fill(self.mut_ptr(), self.shape(), self.stride(), self.len, value) }
     }
 }
-- 
2.43.0


From 814fa052a0a218e9f67b9019d55800e7e95c8d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:52 +0000
Subject: [PATCH 07/26] fix: compound assignment to strided views

The kernels write contiguously, so compound assignment to a column, transpose
or other strided view modified elements outside of the view.
---
 src/ndarray/assign_ops.rs | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/ndarray/assign_ops.rs b/src/ndarray/assign_ops.rs
index d8a3b49..7653ec7 100644
--- a/src/ndarray/assign_ops.rs
+++ b/src/ndarray/assign_ops.rs
@@ -10,6 +10,19 @@ use paste::paste;
 use std::ops::{AddAssign, BitAndAssign, BitOrAssign, DivAssign, MulAssign, RemAssign, ShlAssign, ShrAssign, SubAssign};
 
 
+impl<T: RawDataType> NdArray<'_, T> {
+    /// Overwrites the elements of this array with `data` (in row-major order).
+    ///
+    /// # Safety
+    /// - Ensure the length of `data` is the number of elements in this array.
+    unsafe fn assign_data(&mut self, data: Vec<T>) {
+        for (dst, value) in self.flatiter_ptr().zip(data) {
+            *dst = value;
+        }
+    }
+}
+
+
 macro_rules! define_binary_iop {
     ( $binary_op_trait:ident, $iop_trait:ident, $operator:tt, $method:ident ) => {
         paste! {
@@ -25,7 +38,20 @@ macro_rules! define_binary_iop {
                         panic!("tensor is readonly.");
                     }
                     
-                    if rhs.shape() == self.shape() {
+                    // the kernels write contiguously, so strided arrays are assigned to separately
+                    if !self.is_contiguous() {
+                        let rhs = rhs.broadcast_to(&self.shape);
+                        let mut data = vec![T::default(); self.size()];
+
+                        unsafe {
+                            <T as $binary_op_trait>::$method(self.ptr(), &self.stride(),
+                                                             rhs.ptr(), &rhs.stride(),
+                                                             data.as_mut_ptr(), self.shape());
+                            self.assign_data(data);
+                        }
+                    }
+
+                    else if rhs.shape() == self.shape() {
                         unsafe {
                             <T as $binary_op_trait>::$method(self.ptr(), &self.stride(),
                                                              rhs.ptr(), &rhs.stride(),
@@ -52,6 +78,17 @@ macro_rules! define_binary_iop {
                         panic!("tensor is readonly.");
                     }
 
+                    if !self.is_contiguous() {
+                        let mut data = vec![T::default(); self.size()];
+
+                        unsafe {
+                            <T as $binary_op_trait>::[<$method _scalar>](self.ptr(), self.shape(), self.stride(),
+                                                                         rhs, data.as_mut_ptr());
+                            self.assign_data(data);
+                        }
+                        return;
+                    }
+
                     unsafe {
                         <T as $binary_op_trait>::[<$method _scalar>](self.ptr(), self.shape(), self.stride(),
                                                                      rhs, self.mut_ptr());
-- 
2.43.0


From 1c7bb0138abc060ef14e64622067cbab087da4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:01 +0000
Subject: [PATCH 08/26] fix: nditer carries into the next axis

The index along an axis was compared with its length after being incremented,
so iterating along several axes visited elements outside of the array.
---
 src/ndarray/iterator/tensor_iterator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndarray/iterator/tensor_iterator.rs b/src/ndarray/iterator/tensor_iterator.rs
index b13c246..4d09200 100644
--- a/src/ndarray/iterator/tensor_iterator.rs
+++ b/src/ndarray/iterator/tensor_iterator.rs
@@ -55,7 +55,7 @@ impl<'a, T: RawDataType> Iterator for NdIterator<'a, T> {
         self.iterator_index += 1;
         
         for i in (0..self.shape.len()).rev() {
-            if self.indices[i] != self.shape[i] {
+            if self.indices[i] + 1 < self.shape[i] {
                 self.indices[i] += 1;
                 unsafe { self.result.offset_ptr(self.stride[i] as isize); }
                 break;
-- 
2.43.0


From ca472e798c699ea8454f383326161a4def739174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:10 +0000
Subject: [PATCH 09/26] fix: scalars can be reshaped

Reshaping a dimensionless array (to [1], for example) underflowed; this also
made backward() panic for operands of shape [1] broadcast to more dimensions.
---
 src/common/reshape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/reshape.rs b/src/common/reshape.rs
index 467bfbe..0d59e52 100644
--- a/src/common/reshape.rs
+++ b/src/common/reshape.rs
@@ -67,7 +67,7 @@ pub trait Reshape<T: RawDataType>: StridedMemory {
         }
 
         let mut new_stride = vec![0; new_shape.len()];
-        let mut acc = self.stride()[self.ndims() - 1];
+        let mut acc = self.stride().last().copied().unwrap_or(1);
         for (i, &dim) in new_shape.iter().rev().enumerate() {
             new_stride[new_shape.len() - 1 - i] = acc;
             acc *= dim;
-- 
2.43.0


From 2456eff7f5a2c57a7005151df8f8b8a929ef817b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:18 +0000
Subject: [PATCH 10/26] fix: gradients of reshaped tensors may be strided

backward() panicked if the gradient flowing into a reshape, squeeze or
unsqueeze was not uniformly strided, such as after a transpose.
---
 src/autograd/reshape_backwards.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/autograd/reshape_backwards.rs b/src/autograd/reshape_backwards.rs
index 162bb11..1881298 100644
--- a/src/autograd/reshape_backwards.rs
+++ b/src/autograd/reshape_backwards.rs
@@ -1,6 +1,6 @@
 use crate::gradient_function::{GradientFuncTrait, GradientFunction};
 use crate::util::to_vec::ToVec;
-use crate::{call_next_backward, FloatDataType, NdArray, Reshape, Tensor};
+use crate::{call_next_backward, FloatDataType, NdArray, Reshape, StridedMemory, Tensor};
 use std::cell::RefCell;
 use std::rc::Rc;
 
@@ -11,8 +11,13 @@ pub(crate) struct ReshapeBackwards<T: FloatDataType> {
 
 impl<T: FloatDataType> GradientFuncTrait<T> for ReshapeBackwards<T> {
     fn backward(&mut self, grad: &NdArray<T>) {
-        call_next_backward!(grad.reshape(&self.shape),
-                            self.next_function);
+        if grad.is_uniformly_strided() {
+            call_next_backward!(grad.reshape(&self.shape),
+                                self.next_function);
+        } else {
+            call_next_backward!(grad.clone().reshape(&self.shape),
+                                self.next_function);
+        }
     }
 }
 
-- 
2.43.0


From c279374e5b20e445299f78d8364caf2f70e8a5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:28 +0000
Subject: [PATCH 11/26] fix: autograd graphs do not outlive the data of their
 operands

The computation graph kept pointers into the buffer of a viewed tensor but not
the tensor itself, so backward() read freed memory if the tensor was dropped.
into_ndarray() and get_ndarray() had the same problem.
---
 src/tensor/methods.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tensor/methods.rs b/src/tensor/methods.rs
index 5ba4de2..49ca955 100644
--- a/src/tensor/methods.rs
+++ b/src/tensor/methods.rs
@@ -33,12 +33,22 @@ impl<'a, T: TensorDataType> Tensor<'a, T> {
     }
 
     /// Returns a reference-counted pointer to the underlying `NdArray` of the tensor
+    ///
+    /// If the tensor is a view, its data is copied as the pointer can outlive the viewed tensor.
     pub fn get_ndarray(&self) -> Rc<NdArray<'static, T>> {
+        if self.is_view() {
+            return Rc::new(self.detach());
+        }
         self.array.clone()
     }
 
     /// Converts the tensor to an `NdArray`
+    ///
+    /// If the tensor is a view, its data is copied as the result can outlive the viewed tensor.
     pub fn into_ndarray(self) -> NdArray<'static, T> {
+        if self.is_view() {
+            return self.detach();
+        }
         match Rc::try_unwrap(self.array) {
             Ok(result) => { result }
             Err(rc) => { (*rc).clone() }
-- 
2.43.0


From bcb49758c9bf2e370f7590943a8c5a3e96d00765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:59 +0000
Subject: [PATCH 12/26] fix: views and data slices cannot outlive the viewed
 array

Reshaping a borrowed view by value, and data_slice(), returned values without
the lifetime of their source, so safe code could read freed memory.
---
 src/ndarray/methods.rs | 2 +-
 src/ndarray/reshape.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ndarray/methods.rs b/src/ndarray/methods.rs
index 4c8b941..4875f6d 100644
--- a/src/ndarray/methods.rs
+++ b/src/ndarray/methods.rs
@@ -38,7 +38,7 @@ impl<'a, T: RawDataType> NdArray<'a, T> {
     /// let data = ndarray.data_slice();
     /// assert_eq!(data, &[50, 60, -5, -10]);
     /// ```
-    pub fn data_slice(&self) -> &'a [T] {
+    pub fn data_slice(&self) -> &[T] {
         assert!(self.is_contiguous(), "cannot get data slice of non-contiguous tensor");
         unsafe { std::slice::from_raw_parts(self.ptr(), self.len) }
     }
diff --git a/src/ndarray/reshape.rs b/src/ndarray/reshape.rs
index e414c37..1f4d7e2 100644
--- a/src/ndarray/reshape.rs
+++ b/src/ndarray/reshape.rs
@@ -53,8 +53,8 @@ impl<'a, T: RawDataType> NdArray<'a, T> {
     }
 }
 
-impl<T: RawDataType> Reshape<T> for NdArray<'_, T> {
-    type Output = NdArray<'static, T>;
+impl<'a, T: RawDataType> Reshape<T> for NdArray<'a, T> {
+    type Output = NdArray<'a, T>;
 
     unsafe fn reshaped_view(mut self, shape: Vec<usize>, stride: Vec<usize>) -> Self::Output {
         let flags = update_flags_with_contiguity(self.flags, &shape, &stride);
-- 
2.43.0


From e153d9726480d45f38e0d03482aaacb8a2b445da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:23 +0000
Subject: [PATCH 13/26] fix: arrays of vectors, and nested ragged vectors

Arrays whose elements are vectors were constructed by reinterpreting the
vectors' headers as elements, and vectors that are ragged below the first two
levels (or inside of an array) were accepted.
---
 src/util/flatten.rs    | 24 ++++--------------------
 src/util/homogenous.rs | 13 ++++++++++---
 2 files changed, 14 insertions(+), 23 deletions(-)

diff --git a/src/util/flatten.rs b/src/util/flatten.rs
index 04e05dd..97ef5b5 100644
--- a/src/util/flatten.rs
+++ b/src/util/flatten.rs
@@ -4,10 +4,6 @@
 // [[[0]]] -> [0]
 
 use crate::recursive_trait_base_cases;
-use crate::util::shape::Shape;
-use std::fmt::Debug;
-
-use std::ptr::copy_nonoverlapping;
 
 pub(crate) trait Flatten<A> {
     fn flatten(self) -> Vec<A>;
@@ -27,23 +23,11 @@ where
 impl<A, T, const N: usize> Flatten<A> for [T; N]
 where
     T: Flatten<A>,
-    [T; N]: Shape,
-    A: Debug,
 {
-    fn flatten(mut self) -> Vec<A> {
-        assert!(align_of::<T>() >= align_of::<A>(), "alignment mismatch");  // ChatGPT suggested
-
-        let len = self.shape().iter().product();
-        let mut result = Vec::with_capacity(len);
-
-        let src = self.as_mut_ptr() as *mut A;
-        let dst = result.as_mut_ptr();
-
-        unsafe {
-            copy_nonoverlapping(src, dst, len);
-            result.set_len(len);
-        }
-        result
+    fn flatten(self) -> Vec<A> {
+        self.into_iter()
+            .flat_map(|nested| nested.flatten().into_iter())
+            .collect()
     }
 }
 
diff --git a/src/util/homogenous.rs b/src/util/homogenous.rs
index eb81ecb..c60c7d0 100644
--- a/src/util/homogenous.rs
+++ b/src/util/homogenous.rs
@@ -12,13 +12,14 @@ pub(crate) trait Homogenous {
 impl<T: Homogenous + Shape> Homogenous for Vec<T> {
     fn check_homogenous(&self) -> bool {
         let first_shape = self[0].shape();
-        self.iter().all(|v| v.shape() == first_shape)
+        self.iter().all(|v| v.check_homogenous() && v.shape() == first_shape)
     }
 }
 
-impl<T, const N: usize> Homogenous for [T; N] {
+impl<T: Homogenous + Shape, const N: usize> Homogenous for [T; N] {
     fn check_homogenous(&self) -> bool {
-        true
+        let first_shape = self[0].shape();
+        self.iter().all(|v| v.check_homogenous() && v.shape() == first_shape)
     }
 }
 
@@ -29,6 +30,12 @@ macro_rules! homogenous_vec_trait {
                 true
             }
         }
+
+        impl<const N: usize> Homogenous for [$dtype; N] {
+            fn check_homogenous(&self) -> bool {
+                true
+            }
+        }
     };
 }
 
-- 
2.43.0


From 3be7b7b9246122abe09d98227ad2cb4ba0690b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:48 +0000
Subject: [PATCH 14/26] fix: arange computes the number of elements in its own
 precision

The range and step were rounded to f32, so arange_with_step(0.0, 0.3, 0.1) of
doubles had an extra element, and ranges of large integers the wrong length.
---
 src/common/constructors.rs |  3 +--
 src/util/dtype.rs          | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/common/constructors.rs b/src/common/constructors.rs
index edb1939..968663f 100644
--- a/src/common/constructors.rs
+++ b/src/common/constructors.rs
@@ -179,8 +179,7 @@ pub trait Constructors<T: RawDataType>: StridedMemory {
     where
         T: NumericDataType
     {
-        let n = ((stop - start).to_float() / step.to_float()).ceil();
-        let n = NumCast::from(n).unwrap();
+        let n = T::num_steps(stop - start, step);
 
         let mut data: Vec<T> = vec![T::default(); n];
         for (i, item) in data.iter_mut().enumerate() {
diff --git a/src/util/dtype.rs b/src/util/dtype.rs
index 54f82a3..a0f064d 100644
--- a/src/util/dtype.rs
+++ b/src/util/dtype.rs
@@ -60,6 +60,16 @@ pub trait NumericDataType: RawDataType + ToPrimitive + NumCast + From<bool>
     fn floor(&self) -> Self {
         *self
     }
+
+    /// The number of steps of size `step` needed to cover `distance`.
+    fn num_steps(distance: Self, step: Self) -> usize {
+        let zero = Self::default();
+        let quotient = distance / step;
+        let remainder = distance - quotient * step;
+
+        let n: usize = NumCast::from(quotient).unwrap();
+        if remainder != zero && (remainder > zero) == (step > zero) { n + 1 } else { n }
+    }
 }
 
 impl NumericDataType for u8 {
@@ -113,6 +123,10 @@ impl NumericDataType for isize {
 impl NumericDataType for f32 {
     type AsFloatType = f32;
 
+    fn num_steps(distance: Self, step: Self) -> usize {
+        NumCast::from(num::Float::ceil(distance / step)).unwrap()
+    }
+
     fn ceil(&self) -> Self {
         num::Float::ceil(*self)
     }
@@ -125,6 +139,10 @@ impl NumericDataType for f32 {
 impl NumericDataType for f64 {
     type AsFloatType = f64;
 
+    fn num_steps(distance: Self, step: Self) -> usize {
+        NumCast::from(num::Float::ceil(distance / step)).unwrap()
+    }
+
     fn ceil(&self) -> Self {
         num::Float::ceil(*self)
     }
-- 
2.43.0


From d44feda33cce24f221931f7e06f6dd07dfd6528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:14 +0000
Subject: [PATCH 15/26] fix: linspace has exactly num elements

Depending on rounding, linspace and linspace_exclusive generated an element
too many or too few, and panicked if start and stop were equal.
---
 src/common/constructors.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/common/constructors.rs b/src/common/constructors.rs
index 968663f..b6d8e89 100644
--- a/src/common/constructors.rs
+++ b/src/common/constructors.rs
@@ -220,9 +220,9 @@ pub trait Constructors<T: RawDataType>: StridedMemory {
         }
 
         let step = (stop - start) / (<T as NumCast>::from(num).unwrap() - T::one());
+        let data = (0..num).map(|i| <T as NumCast>::from(i).unwrap() * step + start).collect();
 
-        // from start to (stop + step) to make the range inclusive
-        Self::arange_with_step(start, stop + step, step)
+        unsafe { Self::from_contiguous_owned_buffer(vec![num], data) }
     }
 
     /// Generates a 1-dimensional ndarray with `num `evenly spaced values between `start` and `stop`
@@ -256,6 +256,8 @@ pub trait Constructors<T: RawDataType>: StridedMemory {
         }
 
         let step = (stop - start) / <T as NumCast>::from(num).unwrap();
-        Self::arange_with_step(start, stop, step)
+        let data = (0..num).map(|i| <T as NumCast>::from(i).unwrap() * step + start).collect();
+
+        unsafe { Self::from_contiguous_owned_buffer(vec![num], data) }
     }
 }
-- 
2.43.0


From 1b5eab61b52f7bb6d1588810f034ab187898b670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:52 +0000
Subject: [PATCH 16/26] fix: randint never returns its exclusive upper bound

Floating point samples in [low, high) were rounded to the nearest integer,
which returned high and undersampled low, and bounds that a float cannot
represent were rounded. Sample integers instead.
---
 src/common/random.rs | 6 +++---
 src/util/dtype.rs    | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/common/random.rs b/src/common/random.rs
index 0fe4e4b..5b7c31b 100644
--- a/src/common/random.rs
+++ b/src/common/random.rs
@@ -1,6 +1,6 @@
 use crate::util::to_vec::ToVec;
 use crate::{Constructors, FloatDataType, NdArray, NumericDataType, RawDataType, Tensor, TensorDataType};
-use num::{Float, NumCast};
+use num::NumCast;
 use rand::distributions::{Distribution, Uniform};
 use rand::thread_rng;
 use rand_distr::Normal;
@@ -105,9 +105,9 @@ pub trait RandomConstructors<T: RawDataType>: Constructors<T> {
         let shape = shape.to_vec();
         let n = shape.iter().product();
 
-        let uniform = Uniform::new(low.to_float(), high.to_float());
+        let uniform = Uniform::new(low, high);
         let random_numbers = (0..n)
-            .map(|_| <T as NumCast>::from(uniform.sample(&mut rng).round()).unwrap())
+            .map(|_| uniform.sample(&mut rng).floor())
             .collect();
 
         unsafe { Self::from_contiguous_owned_buffer(shape, random_numbers) }
diff --git a/src/util/dtype.rs b/src/util/dtype.rs
index a0f064d..170e3ed 100644
--- a/src/util/dtype.rs
+++ b/src/util/dtype.rs
@@ -45,7 +45,7 @@ impl RawDataType for bool {}
 pub trait NumericDataType: RawDataType + ToPrimitive + NumCast + From<bool>
 + Sum + Product + SubAssign + Sub<Output=Self> + Div<Output=Self> + MulAdd<Output=Self> + DotProduct
 + ReduceSum + ReduceProduct + ReduceMin + ReduceMax + ReduceMinMagnitude + ReduceMaxMagnitude
-+ BinaryOpAdd + BinaryOpSub + BinaryOpMul
++ BinaryOpAdd + BinaryOpSub + BinaryOpMul + SampleUniform
 {
     type AsFloatType: FloatDataType;
 
@@ -168,7 +168,7 @@ impl IntegerDataType for i64 {}
 impl IntegerDataType for i128 {}
 impl IntegerDataType for isize {}
 
-pub trait FloatDataType: NumericDataType + Float + From<f32> + SampleUniform + Neg<Output=Self>
+pub trait FloatDataType: NumericDataType + Float + From<f32> + Neg<Output=Self>
 + SumOfProductsType + MatrixOps + BinaryOpDiv + UnaryOps {}
 
 impl FloatDataType for f32 {}
-- 
2.43.0


From 20fdafb9228e13fea5d288c6f8978d016220c797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:08 +0000
Subject: [PATCH 17/26] fix: rand of single precision is below one

Samples were drawn as f64 and rounded to f32, which can round up to 1.0.
---
 src/common/random.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/random.rs b/src/common/random.rs
index 5b7c31b..fb14e8d 100644
--- a/src/common/random.rs
+++ b/src/common/random.rs
@@ -51,9 +51,9 @@ pub trait RandomConstructors<T: RawDataType>: Constructors<T> {
         let shape = shape.to_vec();
         let n = shape.iter().product();
 
-        let uniform = Uniform::new(0.0, 1.0);
+        let uniform = Uniform::new(T::zero(), T::one());
         let random_numbers = (0..n)
-            .map(|_| <T as NumCast>::from(uniform.sample(&mut rng)).unwrap())
+            .map(|_| uniform.sample(&mut rng))
             .collect();
 
         unsafe { Self::from_contiguous_owned_buffer(shape, random_numbers) }
-- 
2.43.0


From ab4161333ca6876592a6694247ca4562dd0cafc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:53 +0000
Subject: [PATCH 18/26] fix: minimum and maximum of infinities

The reductions started from the largest finite value, so the minimum of
infinities (or the maximum of negative infinities) was finite.
---
 src/ndarray/reduce.rs           |  6 +++---
 src/ops/reduce_max.rs           | 17 +++++++++++++++--
 src/ops/reduce_min.rs           | 17 +++++++++++++++--
 src/ops/reduce_min_magnitude.rs | 17 +++++++++++++++--
 4 files changed, 48 insertions(+), 9 deletions(-)

diff --git a/src/ndarray/reduce.rs b/src/ndarray/reduce.rs
index 5a5decf..ed2c512 100644
--- a/src/ndarray/reduce.rs
+++ b/src/ndarray/reduce.rs
@@ -165,7 +165,7 @@ impl<T: NumericDataType> NdArray<'_, T> {
     }
 
     pub fn min_along(&self, axes: impl ToVec<isize>) -> NdArray<'static, T> {
-        self.reduce_along(partial_min, axes, T::max_value())
+        self.reduce_along(partial_min, axes, T::min_identity())
     }
 
     /// Computes the maximum of all elements in the array.
@@ -184,7 +184,7 @@ impl<T: NumericDataType> NdArray<'_, T> {
     }
 
     pub fn max_along(&self, axes: impl ToVec<isize>) -> NdArray<'static, T> {
-        self.reduce_along(partial_max, axes, T::min_value())
+        self.reduce_along(partial_max, axes, T::max_identity())
     }
 
     /// Computes the minimum absolute value of all elements in the array.
@@ -203,7 +203,7 @@ impl<T: NumericDataType> NdArray<'_, T> {
     }
 
     pub fn min_magnitude_along(&self, axes: impl ToVec<isize>) -> NdArray<'static, T> {
-        self.reduce_along(partial_min_magnitude, axes, T::max_value())
+        self.reduce_along(partial_min_magnitude, axes, T::min_magnitude_identity())
     }
 
     /// Computes the maximum absolute value of all elements in the array.
diff --git a/src/ops/reduce_max.rs b/src/ops/reduce_max.rs
index c4147b0..21a4760 100644
--- a/src/ops/reduce_max.rs
+++ b/src/ops/reduce_max.rs
@@ -5,6 +5,11 @@ use num::{Bounded};
 use crate::util::partial_ord::partial_max;
 
 pub(crate) trait ReduceMax: Copy + PartialOrd + Bounded {
+    /// The initial value of the reduction: no element is less than it.
+    fn max_identity() -> Self {
+        Self::min_value()
+    }
+
     /// Computes the max of `count` elements stored contiguously in memory pointed to by `ptr`.
     ///
     /// # Safety
@@ -18,7 +23,7 @@ pub(crate) trait ReduceMax: Copy + PartialOrd + Bounded {
     /// # Safety
     /// - `ptr` must point to a valid array of `count * stride` elements.
     unsafe fn max_uniform_stride(mut ptr: *const Self, count: usize, stride: usize) -> Self {
-        let mut output = Self::min_value();
+        let mut output = Self::max_identity();
 
         for _ in 0..count {
             output = partial_max(*ptr, output);
@@ -47,7 +52,7 @@ pub(crate) trait ReduceMax: Copy + PartialOrd + Bounded {
             };
         }
 
-        let mut output = Self::min_value();
+        let mut output = Self::max_identity();
         for index in FlatIndexGenerator::from(shape, stride) {
             output = partial_max(*ptr.add(index), output);
         }
@@ -58,6 +63,10 @@ pub(crate) trait ReduceMax: Copy + PartialOrd + Bounded {
 impl<T: IntegerDataType> ReduceMax for T {}
 
 impl ReduceMax for f32 {
+    fn max_identity() -> Self {
+        Self::NEG_INFINITY
+    }
+
     #[cfg(all(neon_simd, not(apple_vdsp)))]
     unsafe fn max_contiguous(ptr: *const Self, count: usize) -> Self {
         use crate::ops::simd_reduce_ops::SimdReduceOps;
@@ -82,6 +91,10 @@ impl ReduceMax for f32 {
 }
 
 impl ReduceMax for f64 {
+    fn max_identity() -> Self {
+        Self::NEG_INFINITY
+    }
+
     #[cfg(all(neon_simd, not(apple_vdsp)))]
     unsafe fn max_contiguous(ptr: *const Self, count: usize) -> Self {
         use crate::ops::simd_reduce_ops::SimdReduceOps;
diff --git a/src/ops/reduce_min.rs b/src/ops/reduce_min.rs
index c30cdb4..1402a3e 100644
--- a/src/ops/reduce_min.rs
+++ b/src/ops/reduce_min.rs
@@ -5,6 +5,11 @@ use num::{Bounded};
 use crate::util::partial_ord::partial_min;
 
 pub(crate) trait ReduceMin: Copy + PartialOrd + Bounded {
+    /// The initial value of the reduction: no element is greater than it.
+    fn min_identity() -> Self {
+        Self::max_value()
+    }
+
     /// Computes the min of `count` elements stored contiguously in memory pointed to by `ptr`.
     ///
     /// # Safety
@@ -18,7 +23,7 @@ pub(crate) trait ReduceMin: Copy + PartialOrd + Bounded {
     /// # Safety
     /// - `ptr` must point to a valid array of `count * stride` elements.
     unsafe fn min_uniform_stride(mut ptr: *const Self, count: usize, stride: usize) -> Self {
-        let mut output = Self::max_value();
+        let mut output = Self::min_identity();
 
         for _ in 0..count {
             output = partial_min(*ptr, output);
@@ -47,7 +52,7 @@ pub(crate) trait ReduceMin: Copy + PartialOrd + Bounded {
             };
         }
 
-        let mut output = Self::max_value();
+        let mut output = Self::min_identity();
         for index in FlatIndexGenerator::from(shape, stride) {
             output = partial_min(*ptr.add(index), output);
         }
@@ -58,6 +63,10 @@ pub(crate) trait ReduceMin: Copy + PartialOrd + Bounded {
 impl<T: IntegerDataType> ReduceMin for T {}
 
 impl ReduceMin for f32 {
+    fn min_identity() -> Self {
+        Self::INFINITY
+    }
+
     #[cfg(all(neon_simd, not(apple_vdsp)))]
     unsafe fn min_contiguous(ptr: *const Self, count: usize) -> Self {
         use crate::ops::simd_reduce_ops::SimdReduceOps;
@@ -82,6 +91,10 @@ impl ReduceMin for f32 {
 }
 
 impl ReduceMin for f64 {
+    fn min_identity() -> Self {
+        Self::INFINITY
+    }
+
     #[cfg(all(neon_simd, not(apple_vdsp)))]
     unsafe fn min_contiguous(ptr: *const Self, count: usize) -> Self {
         use crate::ops::simd_reduce_ops::SimdReduceOps;
diff --git a/src/ops/reduce_min_magnitude.rs b/src/ops/reduce_min_magnitude.rs
index 340069a..8fa939b 100644
--- a/src/ops/reduce_min_magnitude.rs
+++ b/src/ops/reduce_min_magnitude.rs
@@ -6,6 +6,11 @@ use crate::iterator::collapse_contiguous::has_uniform_stride;
 use crate::util::partial_ord::{partial_min_magnitude};
 
 pub(crate) trait ReduceMinMagnitude: Copy + Absolute + Bounded + PartialOrd {
+    /// The initial value of the reduction: no element is greater than it.
+    fn min_magnitude_identity() -> Self {
+        Self::max_value()
+    }
+
     /// Computes the min magnitude of `count` elements stored contiguously in memory pointed to by `ptr`.
     ///
     /// # Safety
@@ -19,7 +24,7 @@ pub(crate) trait ReduceMinMagnitude: Copy + Absolute + Bounded + PartialOrd {
     /// # Safety
     /// - `ptr` must point to a valid array of `count * stride` elements.
     unsafe fn min_magnitude_uniform_stride(mut ptr: *const Self, count: usize, stride: usize) -> Self {
-        let mut output = Self::max_value();
+        let mut output = Self::min_magnitude_identity();
 
         for _ in 0..count {
             output = partial_min_magnitude(*ptr, output);
@@ -48,7 +53,7 @@ pub(crate) trait ReduceMinMagnitude: Copy + Absolute + Bounded + PartialOrd {
             };
         }
 
-        let mut output = Self::max_value();
+        let mut output = Self::min_magnitude_identity();
         for index in FlatIndexGenerator::from(shape, stride) {
             output = partial_min_magnitude(*ptr.add(index), output);
         }
@@ -59,6 +64,10 @@ pub(crate) trait ReduceMinMagnitude: Copy + Absolute + Bounded + PartialOrd {
 impl<T: IntegerDataType> ReduceMinMagnitude for T {}
 
 impl ReduceMinMagnitude for f32 {
+    fn min_magnitude_identity() -> Self {
+        Self::INFINITY
+    }
+
     #[cfg(apple_vdsp)]
     unsafe fn min_magnitude_uniform_stride(ptr: *const Self, count: usize, stride: usize) -> Self {
         use std::ptr::addr_of_mut;
@@ -71,6 +80,10 @@ impl ReduceMinMagnitude for f32 {
 }
 
 impl ReduceMinMagnitude for f64 {
+    fn min_magnitude_identity() -> Self {
+        Self::INFINITY
+    }
+
     #[cfg(apple_vdsp)]
     unsafe fn min_magnitude_uniform_stride(ptr: *const Self, count: usize, stride: usize) -> Self {
         use std::ptr::addr_of_mut;
-- 
2.43.0


From 6775f633f3138bf6d84c1deb8a05504cf4d41f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:40 +0000
Subject: [PATCH 19/26] fix: einsum requires subscripts for every operand

Operands without subscripts were silently multiplied by their first element,
and subscripts without an operand were ignored.
---
 src/linalg/einsum.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/linalg/einsum.rs b/src/linalg/einsum.rs
index 5d2c4fe..a0b610c 100644
--- a/src/linalg/einsum.rs
+++ b/src/linalg/einsum.rs
@@ -313,6 +313,7 @@ where
     assert!(n_operands < MAX_ARGS);
 
     let subscripts = (subscripts.0.as_ref(), subscripts.1);
+    assert_eq!(subscripts.0.len(), n_operands, "einsum requires one subscripts string for each operand");
 
     let mut operand_labels = [[0; MAX_DIMS]; MAX_ARGS];
     let mut output_labels = [0; MAX_DIMS];
-- 
2.43.0


From ff7dbe684d5fc8eee3bc47b21f983be2d9a48d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:51 +0000
Subject: [PATCH 20/26] fix: einsum of dimensionless operands is their product

It panicked as there are no labels to iterate over.
---
 src/linalg/einsum.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/linalg/einsum.rs b/src/linalg/einsum.rs
index a0b610c..67ac8fd 100644
--- a/src/linalg/einsum.rs
+++ b/src/linalg/einsum.rs
@@ -398,6 +398,12 @@ where
         permute_array(&mut strides[0..*iter_ndims], &best_axis_ordering);
         permute_array(iter_shape, &best_axis_ordering);
     }
+
+    // the product of scalars is a single iteration
+    if *iter_ndims == 0 {
+        iter_shape.push(1);
+        *iter_ndims = 1;
+    }
 }
 
 
-- 
2.43.0


From a269336a019ecbae518fa85335f69117c948adbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:40 +0000
Subject: [PATCH 21/26] fix: refuse shapes whose number of elements overflows

---
 src/common/constructors.rs |  3 ++-
 src/common/random.rs       |  9 +++++----
 src/common/reshape.rs      |  3 ++-
 src/linalg/einsum.rs       |  4 ++--
 src/ndarray/broadcast.rs   |  4 +++-
 src/util/functions.rs      | 11 +++++++++++
 6 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/common/constructors.rs b/src/common/constructors.rs
index b6d8e89..e9bd101 100644
--- a/src/common/constructors.rs
+++ b/src/common/constructors.rs
@@ -1,4 +1,5 @@
 use crate::util::flatten::Flatten;
+use crate::util::functions::checked_size;
 use crate::util::nested::Nested;
 use crate::util::shape::Shape;
 use crate::util::to_vec::ToVec;
@@ -69,7 +70,7 @@ pub trait Constructors<T: RawDataType>: StridedMemory {
     fn full(n: T, shape: impl ToVec<usize>) -> Self {
         let shape = shape.to_vec();
 
-        let data = vec![n; shape.iter().product()];
+        let data = vec![n; checked_size(&shape)];
         assert!(!data.is_empty(), "cannot create an empty ndarray!");
 
         unsafe { Self::from_contiguous_owned_buffer(shape, data) }
diff --git a/src/common/random.rs b/src/common/random.rs
index fb14e8d..8c72243 100644
--- a/src/common/random.rs
+++ b/src/common/random.rs
@@ -1,3 +1,4 @@
+use crate::util::functions::checked_size;
 use crate::util::to_vec::ToVec;
 use crate::{Constructors, FloatDataType, NdArray, NumericDataType, RawDataType, Tensor, TensorDataType};
 use num::NumCast;
@@ -22,7 +23,7 @@ pub trait RandomConstructors<T: RawDataType>: Constructors<T> {
     {
         let mut rng = thread_rng();
         let shape = shape.to_vec();
-        let n = shape.iter().product();
+        let n = checked_size(&shape);
 
         let normal = Normal::new(0.0, 1.0).unwrap();
 
@@ -49,7 +50,7 @@ pub trait RandomConstructors<T: RawDataType>: Constructors<T> {
     {
         let mut rng = thread_rng();
         let shape = shape.to_vec();
-        let n = shape.iter().product();
+        let n = checked_size(&shape);
 
         let uniform = Uniform::new(T::zero(), T::one());
         let random_numbers = (0..n)
@@ -75,7 +76,7 @@ pub trait RandomConstructors<T: RawDataType>: Constructors<T> {
     {
         let mut rng = thread_rng();
         let shape = shape.to_vec();
-        let n = shape.iter().product();
+        let n = checked_size(&shape);
 
         let uniform = Uniform::new(low, high);
         let random_numbers = (0..n)
@@ -103,7 +104,7 @@ pub trait RandomConstructors<T: RawDataType>: Constructors<T> {
 
         let mut rng = thread_rng();
         let shape = shape.to_vec();
-        let n = shape.iter().product();
+        let n = checked_size(&shape);
 
         let uniform = Uniform::new(low, high);
         let random_numbers = (0..n)
diff --git a/src/common/reshape.rs b/src/common/reshape.rs
index 0d59e52..627a645 100644
--- a/src/common/reshape.rs
+++ b/src/common/reshape.rs
@@ -1,4 +1,5 @@
 use crate::{AxisType, StridedMemory, RawDataType};
+use crate::util::functions::checked_size;
 use crate::util::to_vec::ToVec;
 
 
@@ -62,7 +63,7 @@ pub trait Reshape<T: RawDataType>: StridedMemory {
                 "reshape requires uniformly strided array. This array has shape {:?} and stride {:?}.\
          Try `array.clone().reshape()` instead.", self.shape(), self.stride());
         
-        if self.size() != new_shape.iter().product() {
+        if self.size() != checked_size(&new_shape) {
             panic!("total number of elements must not change during reshape");
         }
 
diff --git a/src/linalg/einsum.rs b/src/linalg/einsum.rs
index 67ac8fd..493e4f1 100644
--- a/src/linalg/einsum.rs
+++ b/src/linalg/einsum.rs
@@ -4,7 +4,7 @@ use crate::iterator::multi_flat_index_generator::MultiFlatIndexGenerator;
 use crate::linalg::specialized_einsum::*;
 use crate::linalg::sum_of_products::SumOfProductsType;
 use crate::ndarray::{MAX_ARGS, MAX_DIMS};
-use crate::util::functions::{permute_array, transpose_2d_array};
+use crate::util::functions::{checked_size, permute_array, transpose_2d_array};
 use crate::{Constructors, NdArray, StridedMemory};
 use crate::ndarray::constructors::stride_from_shape;
 use crate::common::Reshape;
@@ -428,7 +428,7 @@ where
     prepare_einsum(operands, subscripts,
                    &mut strides, &mut iter_ndims, &mut iter_shape, &mut output_shape);
 
-    let mut output = vec![T::zero(); output_shape.iter().product()];
+    let mut output = vec![T::zero(); checked_size(&output_shape)];
 
     unsafe {
         if !try_specialized_einsum_loop(operands, &strides, iter_ndims, &iter_shape, output.as_mut_ptr()) {
diff --git a/src/ndarray/broadcast.rs b/src/ndarray/broadcast.rs
index a652300..f76c9d7 100644
--- a/src/ndarray/broadcast.rs
+++ b/src/ndarray/broadcast.rs
@@ -1,6 +1,6 @@
 use crate::dtype::RawDataType;
 use crate::ndarray::flags::NdArrayFlags;
-use crate::util::functions::pad;
+use crate::util::functions::{checked_size, pad};
 use crate::{NdArray, Reshape};
 
 
@@ -95,6 +95,7 @@ fn broadcast_shape(shape: &[usize], to: &[usize]) -> Vec<usize> {
         }
     }
 
+    checked_size(&to);
     to
 }
 
@@ -197,6 +198,7 @@ pub(crate) fn broadcast_shapes(first: &[usize], second: &[usize]) -> Vec<usize>
         }
     }
 
+    checked_size(&shape1);
     shape1
 }
 
diff --git a/src/util/functions.rs b/src/util/functions.rs
index 5bc24b6..8caf3d1 100644
--- a/src/util/functions.rs
+++ b/src/util/functions.rs
@@ -21,6 +21,17 @@ pub(crate) fn permute_array<T: Clone>(arr: &mut [T], permutation: &[usize]) {
 }
 
 
+/// The number of elements of an array with the given shape.
+///
+/// # Panics
+/// - If the number of elements does not fit into a `usize`.
+pub(crate) fn checked_size(shape: &[usize]) -> usize {
+    shape.iter()
+         .try_fold(1usize, |size, &axis_length| size.checked_mul(axis_length))
+         .unwrap_or_else(|| panic!("shape {shape:?} has too many elements"))
+}
+
+
 /// Left pads a slice with a specified value until it reaches a specified length.
 ///
 /// # Parameters
-- 
2.43.0


From 6dd02c83915c4fd2d9f1ff17fe13920a1ac2a721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:00 +0000
Subject: [PATCH 22/26] fix: consuming reshapes of viewed or shared tensors
 keep their elements

---
 src/tensor/reshape.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tensor/reshape.rs b/src/tensor/reshape.rs
index 2e7a849..3b47d2b 100644
--- a/src/tensor/reshape.rs
+++ b/src/tensor/reshape.rs
@@ -3,6 +3,7 @@ use crate::reshape_backwards::ReshapeBackwards;
 use crate::transpose_backwards::TransposeBackwards;
 use crate::{AxisType, Reshape, StridedMemory, Tensor, TensorDataType};
 use crate::identity_backwards::IdentityBackwards;
+use std::rc::Rc;
 
 
 impl<'a, T: TensorDataType> Reshape<T> for &'a Tensor<'a, T> {
@@ -100,7 +101,13 @@ impl<T: TensorDataType> Reshape<T> for Tensor<'_, T> {
         let requires_grad = self.requires_grad();
         let grad_fn = if requires_grad { ReshapeBackwards::new(&self, self.shape()) } else { NoneBackwards::new() };
 
-        let result = self.into_ndarray().reshaped_view(shape, stride);
+        // `stride` describes the layout of this array, which a copy of it need not have
+        let result = if self.is_view() || Rc::strong_count(&self.array) > 1 {
+            self.array.as_ref().reshaped_view(shape, stride).clone()
+        } else {
+            self.into_ndarray().reshaped_view(shape, stride)
+        };
+
         Tensor::from_raw_parts(result, requires_grad, grad_fn)
     }
 
-- 
2.43.0


From 3cd8f66dff99216e3031479389f52e04a3c230af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:36 +0000
Subject: [PATCH 23/26] fix: vectors can be nested five and more levels deep

---
 src/util/nested.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/nested.rs b/src/util/nested.rs
index fd2fc9e..fe03011 100644
--- a/src/util/nested.rs
+++ b/src/util/nested.rs
@@ -7,7 +7,7 @@ impl<T> Nested<2> for Vec<T> where T: Nested<1> {}
 impl<T> Nested<3> for Vec<T> where T: Nested<2> {}
 
 impl<T> Nested<4> for Vec<T> where T: Nested<3> {}
-impl<T> Nested<5> for Vec<T> where T: Nested<6> {}
+impl<T> Nested<5> for Vec<T> where T: Nested<4> {}
 
 impl<T> Nested<6> for Vec<T> where T: Nested<5> {}
 impl<T> Nested<7> for Vec<T> where T: Nested<6> {}
-- 
2.43.0


From 0a8bc11172e7bb8167d119eaea3f06802e81af27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:59 +0000
Subject: [PATCH 24/26] fix: arange down from the largest number

---
 src/util/dtype.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/util/dtype.rs b/src/util/dtype.rs
index 170e3ed..c83c7a0 100644
--- a/src/util/dtype.rs
+++ b/src/util/dtype.rs
@@ -63,12 +63,16 @@ pub trait NumericDataType: RawDataType + ToPrimitive + NumCast + From<bool>
 
     /// The number of steps of size `step` needed to cover `distance`.
     fn num_steps(distance: Self, step: Self) -> usize {
-        let zero = Self::default();
-        let quotient = distance / step;
-        let remainder = distance - quotient * step;
-
-        let n: usize = NumCast::from(quotient).unwrap();
-        if remainder != zero && (remainder > zero) == (step > zero) { n + 1 } else { n }
+        match (distance.to_i128(), step.to_i128()) {
+            (Some(distance), Some(step)) => {
+                let quotient = distance.checked_div(step).unwrap();
+                let remainder = distance % step;
+
+                let n = if remainder != 0 && (remainder > 0) == (step > 0) { quotient + 1 } else { quotient };
+                n.to_usize().unwrap()
+            }
+            _ => distance.to_u128().unwrap().div_ceil(step.to_u128().unwrap()).to_usize().unwrap()
+        }
     }
 }
 
-- 
2.43.0


From 913e03848c61db575e33efa1c02729e7b1fd92db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:59 +0000
Subject: [PATCH 25/26] fix: randint with fractional bounds stays within them

---
 src/common/random.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/random.rs b/src/common/random.rs
index 8c72243..864f014 100644
--- a/src/common/random.rs
+++ b/src/common/random.rs
@@ -106,7 +106,7 @@ pub trait RandomConstructors<T: RawDataType>: Constructors<T> {
         let shape = shape.to_vec();
         let n = checked_size(&shape);
 
-        let uniform = Uniform::new(low, high);
+        let uniform = Uniform::new(low.ceil(), high.ceil());
         let random_numbers = (0..n)
             .map(|_| uniform.sample(&mut rng).floor())
             .collect();
-- 
2.43.0


From 4dc8c19e27a23fb00fce9631a2780bd4ad7c39c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:59 +0000
Subject: [PATCH 26/26] fix: a backward pass seeded with an accumulated
 gradient does not see its own updates

---
 src/tensor/autograd.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tensor/autograd.rs b/src/tensor/autograd.rs
index 06ac769..70916ea 100644
--- a/src/tensor/autograd.rs
+++ b/src/tensor/autograd.rs
@@ -150,10 +150,11 @@ impl<'a, T: TensorDataType> Tensor<'a, T> {
     /// assert_eq!(a.gradient().unwrap(), Tensor::new([6.0, 1.0, -1.0]));
     /// ```
     pub fn backward_with(&self, gradient: impl AsRef<NdArray<'a, T>>) {
-        let gradient = gradient.as_ref();
+        // the gradient may be (a view of) one that this backward pass accumulates into
+        let gradient = gradient.as_ref().clone();
         assert_eq!(gradient.shape(), self.shape());
 
-        self.grad_fn.borrow_mut().backward(gradient);
+        self.grad_fn.borrow_mut().backward(&gradient);
     }
 
     /// Computes the gradient of the `self` with respect to its leaf tensors.
-- 
2.43.0

