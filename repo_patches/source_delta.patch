From 1162e38ac142b8c267532827b2b070d0b4f591f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:19:49 +0000
Subject: [PATCH 01/11] fix: return zero for the first out-of-range index of a
 dense multivector

get_by_idx(1 << dim) panicked, while any larger index, and every
out-of-range index of a sparse multivector, gives zero.
---
 src/coeff_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coeff_storage.rs b/src/coeff_storage.rs
index 4773bb6..23754d6 100644
--- a/src/coeff_storage.rs
+++ b/src/coeff_storage.rs
@@ -41,7 +41,7 @@ where
 
     #[inline(always)]
     fn get_by_idx(&self, idx: IndexType) -> T {
-        if idx > self.array.len() {
+        if idx >= self.array.len() {
             return T::zero();
         }
         self.array[idx].clone()
-- 
2.43.0


From 01d3ed8c63a889413a91ecc84f00be4d7af8a19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:19:49 +0000
Subject: [PATCH 02/11] fix: do not report an invertible representation as
 singular

A zero on the diagonal below the current pivot is not a sign of a
singular matrix: a later row can still be swapped in as the pivot.
Singular matrices are still detected when no pivot is left.
---
 src/fftrepr/matrix.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/fftrepr/matrix.rs b/src/fftrepr/matrix.rs
index 96cb73d..feefaf4 100644
--- a/src/fftrepr/matrix.rs
+++ b/src/fftrepr/matrix.rs
@@ -66,9 +66,6 @@ pub(crate) fn matrix_inv<T: DivRing + Clone + Norm>(
                     return None;
                 }
             }
-            if w[(j, j)].is_zero() {
-                return None;
-            }
         }
     }
     // To diagonal
-- 
2.43.0


From 7b4883855d3d56484f1b0090d987b1d1115da4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:19:49 +0000
Subject: [PATCH 03/11] fix: return InvalidShape from iclifft_into when the
 sizes do not match

A destination shorter than the matrix made it panic. A longer one had
its unrelated tail multiplied by powers of i.
---
 src/clifft/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/clifft/mod.rs b/src/clifft/mod.rs
index 219671c..2db9481 100644
--- a/src/clifft/mod.rs
+++ b/src/clifft/mod.rs
@@ -298,6 +298,9 @@ pub fn iclifft_into(
     matrix: ArrayView2<Complex64>,
     mut dest: ArrayViewMut1<Complex64>,
 ) -> Result<(), ClError> {
+    if dest.len() != matrix.len() {
+        return Err(ClError::InvalidShape);
+    }
     iclifft_nn_into(matrix, dest.view_mut())?;
 
     // Multiply imaginary basis vectors of Cl(m, m) by -i to produce Cl(2m) multivector
-- 
2.43.0


From b3c02c93fb6ae40e36887ef75c03fb1f9e7588fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:19:49 +0000
Subject: [PATCH 04/11] fix: make pga_point work for the origin

The point was divided by the length of its coordinate vector, which is
zero at the origin and gave a multivector with infinite coefficients.
---
 src/pga.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pga.rs b/src/pga.rs
index c2c1e79..2d60670 100644
--- a/src/pga.rs
+++ b/src/pga.rs
@@ -23,8 +23,8 @@ where
 {
     fn pga_point(coords: impl IntoIterator<Item = f64>) -> Result<Self, ClError> {
         let mut coords: Vec<f64> = coords.into_iter().collect();
-        let mag = coords.iter().map(|c| c * c).sum::<f64>().sqrt();
         coords.push(f64::one());
+        let mag = coords.iter().map(|c| c * c).sum::<f64>().sqrt();
         let p = Self::from_vector(coords)?.dual();
         Ok(p / mag)
     }
-- 
2.43.0


From ed5dcf72a9757ff713beb9e8dc0f9f5e2d45b420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:19:49 +0000
Subject: [PATCH 05/11] fix: reject an extra coordinate in pga_translation

One coordinate too many was stored as a coefficient of the null vector,
so the result was not a translation motor.
---
 src/pga.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pga.rs b/src/pga.rs
index 2d60670..da3d452 100644
--- a/src/pga.rs
+++ b/src/pga.rs
@@ -37,6 +37,10 @@ where
     }
 
     fn pga_translation(direction: impl IntoIterator<Item = f64>) -> Result<Self, ClError> {
+        let direction: Vec<f64> = direction.into_iter().collect();
+        if direction.len() > SPC_DIM {
+            return Err(ClError::InvalidShape);
+        }
         let e_idx = A::proj_mask();
         let bivec = Self::from_indexed_iter(
             direction
-- 
2.43.0


From 81def2444b9cb84f879e981397a5301ca05fd43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:19:49 +0000
Subject: [PATCH 06/11] fix: do not keep coefficients that a filter predicate
 set to zero

coeff_count counted such coefficients as non-zero.
---
 src/mv_sparse.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mv_sparse.rs b/src/mv_sparse.rs
index 9374c66..bc66d38 100644
--- a/src/mv_sparse.rs
+++ b/src/mv_sparse.rs
@@ -45,11 +45,14 @@ where
     }
 
     /// Drop all the coefficients for which the predicate is false.
-    pub fn filter_inplace<F>(&mut self, f: F)
+    pub fn filter_inplace<F>(&mut self, mut f: F)
     where
         F: FnMut(&IndexType, &mut T) -> bool,
     {
-        self.coeffs.coeffs.retain(f);
+        // The predicate can modify the coefficients, don't keep the ones that became zero
+        self.coeffs
+            .coeffs
+            .retain(|idx, c| f(idx, c) && !c.is_zero());
     }
 
     /// Consume self and return it without all the coefficients for which the predicate is false.
-- 
2.43.0


From 204326721e818d1e5193c8b6a1128791e3e6ca8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:19:49 +0000
Subject: [PATCH 07/11] fix: scale the argument of exp enough for its series to
 converge

The series is cut when 1/i! becomes negligible, which assumes that the
powers of the scaled argument do not grow. Limiting each coefficient to 1
is not enough for that: a sum of 16 commuting blades in Cl(4,4) gave a
result that was 25% off.
---
 src/fftrepr/mod.rs | 10 +++++-----
 src/lib.rs         | 12 ++++++------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/fftrepr/mod.rs b/src/fftrepr/mod.rs
index 25f0fb5..cbed92c 100644
--- a/src/fftrepr/mod.rs
+++ b/src/fftrepr/mod.rs
@@ -106,13 +106,13 @@ where
         let mut coeff = 1.0;
         let mut i = 1;
 
-        // Ensure that the magnitude and all the coefficients are below 1
-        // so that the series doesn't blow up
+        // Ensure that the sum of norms in every row is not above 1,
+        // so that every next power is not bigger than the previous one
+        // and the series doesn't blow up
         let mut max_c: f64 = 1.0;
-        for (_, ci) in self.arr.indexed_iter() {
-            max_c = f64::max(ci.norm(), max_c);
+        for row in self.arr.axis_iter(Axis(1)) {
+            max_c = max_c.max(row.iter().map(|c| c.norm()).sum());
         }
-        max_c = max_c.max(self.mag2().norm().sqrt());
         max_c = max_c.ceil();
         let int_pow = max_c as usize;
         let normalized_self = self / max_c;
diff --git a/src/lib.rs b/src/lib.rs
index a8a5840..8feef52 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -302,14 +302,14 @@ where
         let mut coeff = 1.0;
         let mut i = 1;
 
-        // Ensure that the magnitude and all the coefficients are below 1
-        // so that the series doesn't blow up
-        let mut max_c: f64 = 1.0;
+        // Ensure that the sum of norms of all the coefficients is not above 1,
+        // so that every next power is not bigger than the previous one
+        // and the series doesn't blow up
+        let mut max_c: f64 = 0.0;
         for (_, ci) in self.coeff_enumerate() {
-            max_c = f64::max(ci.norm(), max_c);
+            max_c += ci.norm();
         }
-        max_c = max_c.max(self.mag2().norm().sqrt());
-        max_c = max_c.ceil();
+        max_c = max_c.max(1.0).ceil();
         let int_pow = max_c as usize;
         let inv_max_c = T::from(1.0 / max_c);
         let normalized_mv = self * &inv_max_c;
-- 
2.43.0


From b496917412c4c3e205a8c6ade49ed937d1f22b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:20:15 +0000
Subject: [PATCH 08/11] fix: support algebras with as many dimensions as there
 are index bits

declare_algebra! accepts 64 generators, but the bounds computed as
1 << dim overflowed. Every sparse multivector operation in such an algebra
panicked, or silently lost all the coefficients in release builds.
---
 src/algebra.rs       | 2 +-
 src/coeff_storage.rs | 9 ++++++---
 src/lib.rs           | 2 +-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/algebra.rs b/src/algebra.rs
index f372cef..af3a104 100644
--- a/src/algebra.rs
+++ b/src/algebra.rs
@@ -201,7 +201,7 @@ where
     }
 
     fn index_iter() -> impl Iterator<Item = IndexType> {
-        0..(1 << AB::dim())
+        0..=(AB::real_mask() | AB::imag_mask() | AB::proj_mask())
     }
 
     fn grade_index_iter(weight: usize) -> impl Iterator<Item = IndexType> {
diff --git a/src/coeff_storage.rs b/src/coeff_storage.rs
index 23754d6..539ddd7 100644
--- a/src/coeff_storage.rs
+++ b/src/coeff_storage.rs
@@ -125,7 +125,7 @@ where
 #[derive(Debug, Clone)]
 pub struct SparseStorage<T> {
     dim: usize,
-    size: IndexType,
+    max_idx: IndexType,
     pub(crate) coeffs: HashMap<IndexType, T>,
 }
 
@@ -136,7 +136,10 @@ where
     fn new(dim: usize) -> Self {
         SparseStorage {
             dim,
-            size: (1 << dim) as IndexType,
+            // Not `(1 << dim) - 1`, because `dim` can be equal to the bit length of IndexType
+            max_idx: IndexType::MAX
+                .checked_shr(IndexType::BITS - dim as u32)
+                .unwrap_or(0),
             coeffs: HashMap::new(),
         }
     }
@@ -146,7 +149,7 @@ where
     }
 
     fn set_by_idx(&mut self, idx: IndexType, value: T) {
-        if idx < self.size {
+        if idx <= self.max_idx {
             if value.is_zero() {
                 self.coeffs.remove(&idx);
             } else {
diff --git a/src/lib.rs b/src/lib.rs
index 8feef52..05d4080 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -94,7 +94,7 @@ where
     pub fn from_indexed_iter(iter: impl Iterator<Item = (IndexType, T)>) -> Result<Self, ClError> {
         let mut ret = Self::default();
         for (idx, c) in iter {
-            if idx >= (1 << A::dim()) {
+            if idx & !(A::real_mask() | A::imag_mask() | A::proj_mask()) != 0 {
                 return Err(ClError::IndexOutOfBounds);
             }
             ret.coeffs.set_by_idx(idx, c);
-- 
2.43.0


From cc97e68a3ba654be6227352cff8b1b16419e0dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:57 +0000
Subject: [PATCH 09/11] fix: keep rounding residue of the elimination out of
 the matrix inverse

The entries below the diagonal are left at the rounding error of rows that
are not normalised yet. The back substitution mixed them into the result, so
the inverse of a well-conditioned matrix with large entries was inaccurate.
---
 src/fftrepr/matrix.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fftrepr/matrix.rs b/src/fftrepr/matrix.rs
index feefaf4..47c034c 100644
--- a/src/fftrepr/matrix.rs
+++ b/src/fftrepr/matrix.rs
@@ -73,7 +73,8 @@ pub(crate) fn matrix_inv<T: DivRing + Clone + Norm>(
         for j in (0..i).rev() {
             // Accommodate for non-commutative T, such as quaternions.
             let coeff = T::one().ref_div(&w[(i, i)]).ref_mul(&w[(j, i)]);
-            for m in j..2 * n {
+            // Columns before the i-th hold only the rounding residue of the elimination.
+            for m in i..2 * n {
                 w[(j, m)] = w[(j, m)].ref_sub(&coeff.ref_mul(&w[(i, m)]));
             }
         }
-- 
2.43.0


From c16ccd3d12cf159475479966816aa81b6c88aeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:47:34 +0000
Subject: [PATCH 10/11] fix: do not truncate the grade when enumerating sparse
 coefficients

---
 src/coeff_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coeff_storage.rs b/src/coeff_storage.rs
index 539ddd7..452bd31 100644
--- a/src/coeff_storage.rs
+++ b/src/coeff_storage.rs
@@ -177,7 +177,7 @@ where
         T: 'a,
     {
         self.coeff_enumerate()
-            .filter(move |(idx, _)| idx.count_ones() == (grade as u32))
+            .filter(move |(idx, _)| idx.count_ones() as usize == grade)
     }
 
     fn add(&self, rhs: &Self) -> Self {
-- 
2.43.0


From 223888ae1276f03838b5ae6182990ec122cd4b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:47:34 +0000
Subject: [PATCH 11/11] fix: end the iteration over a grade that does not fit
 into isize

---
 src/index_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/index_utils.rs b/src/index_utils.rs
index af571f6..0fb141d 100644
--- a/src/index_utils.rs
+++ b/src/index_utils.rs
@@ -24,7 +24,7 @@ impl std::iter::Iterator for GradeIter {
     type Item = IndexType;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.pos + 1 < self.weight as isize {
+        if self.pos < -1 || ((self.pos + 1) as usize) < self.weight {
             return None;
         }
 
-- 
2.43.0

