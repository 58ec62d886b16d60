From d9fab1fadeb13bb56d5c1e8dd78a2dc3718ea3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:43 +0000
Subject: [PATCH 01/11] fix: report the actual stride of arbitrary stride
 matrix layouts

stride() returned the stride of a contiguous matrix, so blocks of blocks and
products with blocks addressed the wrong elements.
---
 src/layouts/arbitrary_stride_column_major.rs | 2 +-
 src/layouts/arbitrary_stride_row_major.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/layouts/arbitrary_stride_column_major.rs b/src/layouts/arbitrary_stride_column_major.rs
index 3f062a4..ac21da6 100644
--- a/src/layouts/arbitrary_stride_column_major.rs
+++ b/src/layouts/arbitrary_stride_column_major.rs
@@ -52,7 +52,7 @@ impl LayoutType for ArbitraryStrideColumnMajor {
 
     #[inline]
     fn stride(&self) -> (IndexType, IndexType) {
-        (1, self.dim.0)
+        self.stride
     }
 
     #[inline]
diff --git a/src/layouts/arbitrary_stride_row_major.rs b/src/layouts/arbitrary_stride_row_major.rs
index e611a2d..e02b6fb 100644
--- a/src/layouts/arbitrary_stride_row_major.rs
+++ b/src/layouts/arbitrary_stride_row_major.rs
@@ -51,7 +51,7 @@ impl LayoutType for ArbitraryStrideRowMajor {
 
     #[inline]
     fn stride(&self) -> (IndexType, IndexType) {
-        (self.dim.1, 1)
+        self.stride
     }
 
     #[inline]
-- 
2.43.0


From 18f79a036eeaa87bbf20668a16d686a3822cf261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:43 +0000
Subject: [PATCH 02/11] fix: map 1d vector indices to in-range 2d indices

Row (column) vectors have the single row (column) 0, not 1.
---
 src/layouts/arbitrary_stride_column_vector.rs | 2 +-
 src/layouts/arbitrary_stride_row_vector.rs    | 2 +-
 src/layouts/column_vector.rs                  | 2 +-
 src/layouts/row_vector.rs                     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/layouts/arbitrary_stride_column_vector.rs b/src/layouts/arbitrary_stride_column_vector.rs
index ab1251f..bd01119 100644
--- a/src/layouts/arbitrary_stride_column_vector.rs
+++ b/src/layouts/arbitrary_stride_column_vector.rs
@@ -27,7 +27,7 @@ impl LayoutType for ArbitraryStrideColumnVector {
 
     #[inline]
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
-        (index, 1)
+        (index, 0)
     }
 
     #[inline]
diff --git a/src/layouts/arbitrary_stride_row_vector.rs b/src/layouts/arbitrary_stride_row_vector.rs
index 86ccf21..70bab47 100644
--- a/src/layouts/arbitrary_stride_row_vector.rs
+++ b/src/layouts/arbitrary_stride_row_vector.rs
@@ -27,7 +27,7 @@ impl LayoutType for ArbitraryStrideRowVector {
 
     #[inline]
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
-        (1, index)
+        (0, index)
     }
 
     #[inline]
diff --git a/src/layouts/column_vector.rs b/src/layouts/column_vector.rs
index 6b18f6d..210ac49 100644
--- a/src/layouts/column_vector.rs
+++ b/src/layouts/column_vector.rs
@@ -22,7 +22,7 @@ impl LayoutType for ColumnVector {
 
     #[inline]
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
-        (index, 1)
+        (index, 0)
     }
 
     #[inline]
diff --git a/src/layouts/row_vector.rs b/src/layouts/row_vector.rs
index cc4cfc3..f0f5241 100644
--- a/src/layouts/row_vector.rs
+++ b/src/layouts/row_vector.rs
@@ -22,7 +22,7 @@ impl LayoutType for RowVector {
 
     #[inline]
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
-        (1, index)
+        (0, index)
     }
 
     #[inline]
-- 
2.43.0


From 56efbf38ee1e337c89bf838af62b4a057523bc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:43 +0000
Subject: [PATCH 03/11] fix: check the number of columns in
 ColumnVector::from_dimension

The row count was compared with one, which refused every column vector of
length other than one and accepted (1, n).
---
 src/layouts/column_vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layouts/column_vector.rs b/src/layouts/column_vector.rs
index 210ac49..3254bde 100644
--- a/src/layouts/column_vector.rs
+++ b/src/layouts/column_vector.rs
@@ -64,7 +64,7 @@ impl LayoutType for ColumnVector {
 impl BaseLayoutType for ColumnVector {
     fn from_dimension(dim: (IndexType, IndexType)) -> Self {
         assert_eq!(
-            dim.0, 1,
+            dim.1, 1,
             "Number of columns is {} but must be one for ColumnVector.",
             dim.1
         );
-- 
2.43.0


From 7a17cdd5e02a76a772eaa97c6366fc733ba75e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:26 +0000
Subject: [PATCH 04/11] fix: require the container to hold the last element of
 a strided layout

Only the number of elements was compared, so safe access through a layout with
gaps could read and write beyond the end of the container.
---
 src/base_matrix.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/base_matrix.rs b/src/base_matrix.rs
index b993e47..acbefdc 100644
--- a/src/base_matrix.rs
+++ b/src/base_matrix.rs
@@ -42,6 +42,13 @@ impl<
             data.number_of_elements(),
             layout.number_of_elements(),
         );
+        assert!(
+            layout.number_of_elements() == 0
+                || layout.convert_1d_raw(layout.number_of_elements() - 1)
+                    < data.number_of_elements(),
+            "Number of elements in data: {}. But layout accesses elements beyond it.",
+            data.number_of_elements(),
+        );
         BaseMatrix::<Item, Data, L, RS, CS> {
             data,
             layout,
-- 
2.43.0


From 06841a7780600148101eaa7338bab7d1a11cb4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:26 +0000
Subject: [PATCH 05/11] fix: refuse dimensions and strides whose memory
 location overflows

Without overflow checks the element count and the location of the last element
wrapped around, so a container that is far too small was accepted.
---
 src/base_matrix.rs                            |  5 +++++
 src/layouts/arbitrary_stride_column_major.rs  | 10 ++++++++++
 src/layouts/arbitrary_stride_column_vector.rs |  6 ++++++
 src/layouts/arbitrary_stride_row_major.rs     | 10 ++++++++++
 src/layouts/arbitrary_stride_row_vector.rs    |  6 ++++++
 5 files changed, 37 insertions(+)

diff --git a/src/base_matrix.rs b/src/base_matrix.rs
index acbefdc..5db8a5e 100644
--- a/src/base_matrix.rs
+++ b/src/base_matrix.rs
@@ -36,6 +36,11 @@ impl<
     > BaseMatrix<Item, Data, L, RS, CS>
 {
     pub fn new(data: Data, layout: L) -> Self {
+        assert!(
+            layout.dim().0.checked_mul(layout.dim().1).is_some(),
+            "Number of elements overflows for dimension {:?}.",
+            layout.dim(),
+        );
         assert!(
             layout.number_of_elements() <= data.number_of_elements(),
             "Number of elements in data: {}. But layout number of elements is {})",
diff --git a/src/layouts/arbitrary_stride_column_major.rs b/src/layouts/arbitrary_stride_column_major.rs
index ac21da6..c92cd39 100644
--- a/src/layouts/arbitrary_stride_column_major.rs
+++ b/src/layouts/arbitrary_stride_column_major.rs
@@ -17,6 +17,16 @@ pub struct ArbitraryStrideColumnMajor {
 
 impl ArbitraryStrideColumnMajor {
     pub fn new(dim: (IndexType, IndexType), stride: (IndexType, IndexType)) -> Self {
+        let nonempty = dim.0 > 0 && dim.1 > 0;
+        let last_row = dim.0.saturating_sub(1).checked_mul(stride.0);
+        let last_col = dim.1.saturating_sub(1).checked_mul(stride.1);
+        let last = last_row.and_then(|row| last_col.and_then(|col| row.checked_add(col)));
+        assert!(
+            !nonempty || last.is_some(),
+            "Memory location overflows for dimension {:?} and stride {:?}.",
+            dim,
+            stride
+        );
         Self { dim, stride }
     }
 }
diff --git a/src/layouts/arbitrary_stride_column_vector.rs b/src/layouts/arbitrary_stride_column_vector.rs
index bd01119..75f5880 100644
--- a/src/layouts/arbitrary_stride_column_vector.rs
+++ b/src/layouts/arbitrary_stride_column_vector.rs
@@ -18,6 +18,12 @@ pub struct ArbitraryStrideColumnVector {
 
 impl ArbitraryStrideColumnVector {
     pub fn new(dim: IndexType, stride: IndexType) -> Self {
+        assert!(
+            dim.saturating_sub(1).checked_mul(stride).is_some(),
+            "Memory location overflows for dimension {} and stride {}.",
+            dim,
+            stride
+        );
         Self { dim, stride }
     }
 }
diff --git a/src/layouts/arbitrary_stride_row_major.rs b/src/layouts/arbitrary_stride_row_major.rs
index e02b6fb..206326d 100644
--- a/src/layouts/arbitrary_stride_row_major.rs
+++ b/src/layouts/arbitrary_stride_row_major.rs
@@ -16,6 +16,16 @@ pub struct ArbitraryStrideRowMajor {
 
 impl ArbitraryStrideRowMajor {
     pub fn new(dim: (IndexType, IndexType), stride: (IndexType, IndexType)) -> Self {
+        let nonempty = dim.0 > 0 && dim.1 > 0;
+        let last_row = dim.0.saturating_sub(1).checked_mul(stride.0);
+        let last_col = dim.1.saturating_sub(1).checked_mul(stride.1);
+        let last = last_row.and_then(|row| last_col.and_then(|col| row.checked_add(col)));
+        assert!(
+            !nonempty || last.is_some(),
+            "Memory location overflows for dimension {:?} and stride {:?}.",
+            dim,
+            stride
+        );
         Self { dim, stride }
     }
 }
diff --git a/src/layouts/arbitrary_stride_row_vector.rs b/src/layouts/arbitrary_stride_row_vector.rs
index 70bab47..a19c9e3 100644
--- a/src/layouts/arbitrary_stride_row_vector.rs
+++ b/src/layouts/arbitrary_stride_row_vector.rs
@@ -18,6 +18,12 @@ pub struct ArbitraryStrideRowVector {
 
 impl ArbitraryStrideRowVector {
     pub fn new(dim: IndexType, stride: IndexType) -> Self {
+        assert!(
+            dim.saturating_sub(1).checked_mul(stride).is_some(),
+            "Memory location overflows for dimension {} and stride {}.",
+            dim,
+            stride
+        );
         Self { dim, stride }
     }
 }
-- 
2.43.0


From 3148906a4e947b5a9f7f84adcaaae8098945c0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:26 +0000
Subject: [PATCH 06/11] fix: avoid overflow in the bounds check of block and
 block_mut

Without overflow checks a huge corner wrapped around and passed the check.
---
 src/matrix/matrix_slices.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/matrix/matrix_slices.rs b/src/matrix/matrix_slices.rs
index 2405171..3823406 100644
--- a/src/matrix/matrix_slices.rs
+++ b/src/matrix/matrix_slices.rs
@@ -22,10 +22,13 @@ macro_rules! block_matrix {
                 dim: (IndexType, IndexType),
             ) -> SliceMatrix<'a, Item, $StrideLayout, $RS, $CS> {
                 assert!(
-                    (top_left.0 + dim.0 <= self.layout().dim().0)
-                        & (top_left.1 + dim.1 <= self.layout().dim().1),
-                    "Lower right corner {:?} out of bounds for matrix with dim {:?}",
-                    (top_left.0 + dim.0 - 1, top_left.1 + dim.1 - 1),
+                    top_left.0 <= self.layout().dim().0
+                        && dim.0 <= self.layout().dim().0 - top_left.0
+                        && top_left.1 <= self.layout().dim().1
+                        && dim.1 <= self.layout().dim().1 - top_left.1,
+                    "Block at {:?} with dim {:?} out of bounds for matrix with dim {:?}",
+                    top_left,
+                    dim,
                     self.layout().dim()
                 );
                 let start_index = self.layout().convert_2d_raw(top_left.0, top_left.1);
@@ -51,10 +54,13 @@ macro_rules! block_matrix {
                 dim: (IndexType, IndexType),
             ) -> SliceMatrixMut<'a, Item, $StrideLayout, $RS, $CS> {
                 assert!(
-                    (top_left.0 + dim.0 <= self.layout().dim().0)
-                        & (top_left.1 + dim.1 <= self.layout().dim().1),
-                    "Lower right corner {:?} out of bounds for matrix with dim {:?}",
-                    (top_left.0 + dim.0 - 1, top_left.1 + dim.1 - 1),
+                    top_left.0 <= self.layout().dim().0
+                        && dim.0 <= self.layout().dim().0 - top_left.0
+                        && top_left.1 <= self.layout().dim().1
+                        && dim.1 <= self.layout().dim().1 - top_left.1,
+                    "Block at {:?} with dim {:?} out of bounds for matrix with dim {:?}",
+                    top_left,
+                    dim,
                     self.layout().dim()
                 );
                 let start_index = self.layout().convert_2d_raw(top_left.0, top_left.1);
-- 
2.43.0


From b62c64bcc35552d4ec19b10b66defa67c900a4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:26 +0000
Subject: [PATCH 07/11] fix: refuse split positions outside of the matrix

Without overflow checks they produced blocks beyond the end of the matrix.
---
 src/matrix/matrix_slices.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/matrix/matrix_slices.rs b/src/matrix/matrix_slices.rs
index 3823406..fd0d157 100644
--- a/src/matrix/matrix_slices.rs
+++ b/src/matrix/matrix_slices.rs
@@ -102,6 +102,12 @@ macro_rules! subdivide_matrix {
                 SliceMatrixMut<'a, Item, $StrideLayout, Dynamic, Dynamic>,
             ) {
                 let dim = self.layout().dim();
+                assert!(
+                    split_at.0 <= dim.0 && split_at.1 <= dim.1,
+                    "Split position {:?} out of bounds for matrix with dim {:?}",
+                    split_at,
+                    dim
+                );
                 let stride = self.layout().stride();
                 let ptr = self.get_pointer_mut();
                 let dim0 = split_at;
-- 
2.43.0


From 71c684f651ca058aa58af0eff05e1a7684e3c524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:26 +0000
Subject: [PATCH 08/11] fix: support empty blocks

The memory extent of a block without rows or columns underflowed.
---
 src/matrix/constructors.rs  | 12 ++++++++++--
 src/matrix/matrix_slices.rs | 12 ++++++------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/matrix/constructors.rs b/src/matrix/constructors.rs
index f99eb46..0ecb449 100644
--- a/src/matrix/constructors.rs
+++ b/src/matrix/constructors.rs
@@ -138,7 +138,11 @@ macro_rules! from_pointer_strided {
                 stride: (IndexType, IndexType),
             ) -> Self {
                 let new_layout = $L::new(dim, stride);
-                let nindices = new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1;
+                let nindices = if dim.0 == 0 || dim.1 == 0 {
+                    0
+                } else {
+                    new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1
+                };
                 let slice = std::slice::from_raw_parts_mut(ptr, nindices);
                 let data = SliceContainerMut::<'a, Item>::new(slice);
 
@@ -154,7 +158,11 @@ macro_rules! from_pointer_strided {
                 stride: (IndexType, IndexType),
             ) -> Self {
                 let new_layout = $L::new(dim, stride);
-                let nindices = new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1;
+                let nindices = if dim.0 == 0 || dim.1 == 0 {
+                    0
+                } else {
+                    new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1
+                };
                 let slice = std::slice::from_raw_parts(ptr, nindices);
                 let data = SliceContainer::<'a, Item>::new(slice);
 
diff --git a/src/matrix/matrix_slices.rs b/src/matrix/matrix_slices.rs
index fd0d157..8ec1ecf 100644
--- a/src/matrix/matrix_slices.rs
+++ b/src/matrix/matrix_slices.rs
@@ -34,7 +34,7 @@ macro_rules! block_matrix {
                 let start_index = self.layout().convert_2d_raw(top_left.0, top_left.1);
                 unsafe {
                     SliceMatrix::<'a, Item, $StrideLayout, $RS, $CS>::from_pointer(
-                        self.get_pointer().add(start_index),
+                        self.get_pointer().wrapping_add(start_index),
                         dim,
                         self.layout().stride(),
                     )
@@ -67,7 +67,7 @@ macro_rules! block_matrix {
 
                 unsafe {
                     SliceMatrixMut::<'a, Item, $StrideLayout, $RS, $CS>::from_pointer(
-                        self.get_pointer_mut().add(start_index),
+                        self.get_pointer_mut().wrapping_add(start_index),
                         dim,
                         self.layout().stride(),
                     )
@@ -128,22 +128,22 @@ macro_rules! subdivide_matrix {
                 let blocks = unsafe {
                     (
                         SliceMatrixMut::<'a, Item, $StrideLayout, Dynamic, Dynamic>::from_pointer(
-                            ptr.offset(start0),
+                            ptr.wrapping_offset(start0),
                             dim0,
                             stride,
                         ),
                         SliceMatrixMut::<'a, Item, $StrideLayout, Dynamic, Dynamic>::from_pointer(
-                            ptr.offset(start1),
+                            ptr.wrapping_offset(start1),
                             dim1,
                             stride,
                         ),
                         SliceMatrixMut::<'a, Item, $StrideLayout, Dynamic, Dynamic>::from_pointer(
-                            ptr.offset(start2),
+                            ptr.wrapping_offset(start2),
                             dim2,
                             stride,
                         ),
                         SliceMatrixMut::<'a, Item, $StrideLayout, Dynamic, Dynamic>::from_pointer(
-                            ptr.offset(start3),
+                            ptr.wrapping_offset(start3),
                             dim3,
                             stride,
                         ),
-- 
2.43.0


From 03a4bd7959ab2430e438793be274bcca3219f6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:26 +0000
Subject: [PATCH 09/11] fix: correct rounding in the index conversion of upper
 triangular layouts

For dimensions from 2^28 on the floating point square root selected the wrong row.
---
 src/layouts/upper_triangular.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/layouts/upper_triangular.rs b/src/layouts/upper_triangular.rs
index 8850079..2c99679 100644
--- a/src/layouts/upper_triangular.rs
+++ b/src/layouts/upper_triangular.rs
@@ -24,7 +24,14 @@ impl LayoutType for UpperTriangular {
     #[inline]
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
         let p = -0.5 + f64::sqrt(0.25 + 2.0 * (index as f64));
-        let p = f64::floor(p) as IndexType;
+        let mut p = f64::floor(p) as IndexType;
+        // Correct for rounding in the floating point square root.
+        while (p * (p + 1)) / 2 > index {
+            p -= 1;
+        }
+        while ((p + 1) * (p + 2)) / 2 <= index {
+            p += 1;
+        }
         (
             self.dim - 1 - p,
             self.dim - 1 - p + index - (p * (p + 1)) / 2,
-- 
2.43.0


From b581b7dea86db8f66b47baa95e3fd3c84671d6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:26 +0000
Subject: [PATCH 10/11] fix: take the length of a row vector from its layout

The container may hold more elements than the vector has.
---
 src/base_matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base_matrix.rs b/src/base_matrix.rs
index 5db8a5e..6cc270f 100644
--- a/src/base_matrix.rs
+++ b/src/base_matrix.rs
@@ -161,7 +161,7 @@ macro_rules! vector_length {
             > BaseMatrix<Item, Data, $Layout, RS, CS>
         {
             pub fn length(&self) -> IndexType {
-                self.data.number_of_elements()
+                self.layout.number_of_elements()
             }
         }
     };
-- 
2.43.0


From f74f07fdb2436e4b7f1774bbfe44f53038f36348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:50 +0000
Subject: [PATCH 11/11] fix: evaluate the dimension argument of mat! only once

The expression was expanded twice, so its side effects happened twice and the
two evaluations could disagree.
---
 src/macros.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 86568dc..51de8a7 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -6,24 +6,26 @@ macro_rules! mat {
     ($ScalarType:ty, $dim:expr) => {
         mat![$ScalarType, $dim, RowMajor]
     };
-    ($ScalarType:ty, $dim:expr, RowMajor) => {
+    ($ScalarType:ty, $dim:expr, RowMajor) => {{
+        let dim = $dim;
         $crate::GenericBaseMatrixMut::<
             $ScalarType,
             $crate::RowMajor,
             $crate::VectorContainer<$ScalarType>,
             $crate::Dynamic,
             $crate::Dynamic,
-        >::zeros_from_dim($dim.0, $dim.1)
-    };
-    ($ScalarType:ty, $dim:expr, ColumnMajor) => {
+        >::zeros_from_dim(dim.0, dim.1)
+    }};
+    ($ScalarType:ty, $dim:expr, ColumnMajor) => {{
+        let dim = $dim;
         $crate::GenericBaseMatrixMut::<
             $ScalarType,
             $crate::ColumnMajor,
             $crate::VectorContainer<$ScalarType>,
             $crate::Dynamic,
             $crate::Dynamic,
-        >::zeros_from_dim($dim.0, $dim.1)
-    };
+        >::zeros_from_dim(dim.0, dim.1)
+    }};
 }
 
 #[macro_export]
-- 
2.43.0

