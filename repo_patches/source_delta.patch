From 342830d4aa423890b8f62e228e8c8a7488389710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 01/20] fix: sub_matrix checks the end of the range against the
 matrix

The extent was compared with the dimensions instead of the end of the range,
so that sub_matrix(0, 2, 1, 4) of a 3x3 matrix returned elements of the next
row, and slices spanning a full dimension were refused.
---
 src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 29a28fe..d76cef1 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -414,7 +414,7 @@ impl<T : Copy> Matrix<T> {
   pub fn sub_matrix(&self, start_row : usize, start_col : usize, end_row : usize, end_col : usize) -> Matrix<T> {
     assert!(start_row < end_row);
     assert!(start_col < end_col);
-    assert!((end_row - start_row) < self.no_rows && (end_col - start_col) < self.cols() && start_row != end_row && start_col != end_col);
+    assert!(end_row <= self.no_rows && end_col <= self.cols());
     let rows = end_row - start_row;
     let cols = end_col - start_col;
     let elems = rows * cols;
-- 
2.43.0


From 369622595004f28a9bacbd35c7d86a42e5281220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 02/20] fix: get_q of a tall matrix returns an orthogonal Q

Only the first n diagonal elements of the m-by-m identity were set before
applying the reflections, so Q was singular for m > n.
---
 src/decomp/qr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomp/qr.rs b/src/decomp/qr.rs
index 0f23479..2600106 100755
--- a/src/decomp/qr.rs
+++ b/src/decomp/qr.rs
@@ -154,7 +154,7 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
     let mut qdata : Vec<T> = vec![num::zero(); m * m];
 
     // Set the diagonal elements to 1
-    for minor in 0..cmp::min(m, n) {
+    for minor in 0..m {
       qdata[minor * m + minor] = num::one();
     }
 
-- 
2.43.0


From 4d05b480ed06060682f50386d9db484df5887da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 03/20] fix: QR solve applies the stored Householder
 reflections

The reflection factor was the one for JAMA's normalised vectors, but the stored
vectors are not normalised, so solve returned a wrong X.
---
 src/decomp/qr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomp/qr.rs b/src/decomp/qr.rs
index 2600106..00fb323 100755
--- a/src/decomp/qr.rs
+++ b/src/decomp/qr.rs
@@ -215,7 +215,7 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
         for i in k..m {
           s = s + self.qr.get_data()[i * self.qr.cols() + k].clone() * xdata[i * nx + j].clone();
         }
-        s = - s / self.qr.get_data()[k * self.qr.cols() + k].clone();
+        s = s / (self.rdiag[k].clone() * self.qr.get_data()[k * self.qr.cols() + k].clone());
         for i in k..m {
           xdata[i * nx + j] = xdata[i * nx + j].clone() + s * self.qr.get_data()[i * self.qr.cols() + k].clone();
         }
-- 
2.43.0


From 1a67717e1a0227c874b7f8f2ea7690f748f6b1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 04/20] fix: QR solve returns the n-by-nx solution of
 overdetermined systems

The m-by-nx work array was passed as the n-by-nx result, so every m > n system
panicked.
---
 src/decomp/qr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decomp/qr.rs b/src/decomp/qr.rs
index 00fb323..dfc77ab 100755
--- a/src/decomp/qr.rs
+++ b/src/decomp/qr.rs
@@ -234,7 +234,8 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
       }
     }
 
-    Some(Matrix::new(self.qr.cols(), b.cols(), xdata))
+    xdata.truncate(n * nx);
+    Some(Matrix::new(n, nx, xdata))
   }
 }
 
-- 
2.43.0


From fed0493f341d5c6f401531d6e961e5c0a7280f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 05/20] fix: SVD rank of a matrix with more rows than columns

rank walked the diagonal by the number of rows and panicked for tall matrices.
---
 src/decomp/svd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomp/svd.rs b/src/decomp/svd.rs
index 17c7fb7..feb1e3e 100755
--- a/src/decomp/svd.rs
+++ b/src/decomp/svd.rs
@@ -441,7 +441,7 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
     let max_dim : T = num::cast(cmp::max(self.u.rows(), self.v.rows())).unwrap();
     let tol = max_dim * self.s.get(0, 0) * eps;
     let mut r = 0;
-    for i in 0..self.s.rows() {
+    for i in 0..cmp::min(self.s.rows(), self.s.cols()) {
       if self.s.get(i, i) > tol {
         r += 1;
       }
-- 
2.43.0


From b20a331b470f30860166d2d800dffd2a891567d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 06/20] fix: vector_p_norm takes absolute values before the
 power

A negative element with a non-integer p made the norm NaN.
---
 src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index d76cef1..1a1c142 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -821,7 +821,7 @@ impl<T : Float + ApproxEq<T> + Signed + Copy> Matrix<T> {
 
     let mut s : T = num::zero();
     for i in 0..self.data.len() {
-      s = s + num::abs(self.data[i].powf(p.clone()));
+      s = s + num::abs(self.data[i].clone()).powf(p.clone());
     }
 
     s.powf(num::one::<T>() / p)
-- 
2.43.0


From 5523da47c67cba438d3d45777fb792abf39084c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 07/20] fix: SVD and eigen convergence tests use the epsilon of
 the element type

With the f64 epsilon hard-coded, single precision iterations could never reach
the convergence criterion and did not terminate.
---
 src/decomp/eigen.rs | 4 ++--
 src/decomp/svd.rs   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index 5859170..7f4d3b1 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -148,7 +148,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
 
     let mut f : T = num::zero();
     let mut tst1 : T = num::zero();
-    let eps : T = num::cast(2.0f64.powf(-52.0)).unwrap();
+    let eps : T = Float::epsilon();
     for l in 0..n {
       // Find small subdiagonal element
       tst1 = tst1.max(num::abs(ddata[l].clone()) + num::abs(edata[l].clone()));
@@ -353,7 +353,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
     let mut n = nn - 1;
     let low : isize = 0;
     let high = nn - 1;
-    let eps : T = num::cast(2.0f64.powf(-52.0)).unwrap();
+    let eps : T = Float::epsilon();
     let mut exshift = num::zero();
     let mut p = num::zero();
     let mut q = num::zero();
diff --git a/src/decomp/svd.rs b/src/decomp/svd.rs
index feb1e3e..33413de 100755
--- a/src/decomp/svd.rs
+++ b/src/decomp/svd.rs
@@ -223,7 +223,7 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
 
     // Main iteration loop for the singular values.
     let pp = p - 1;
-    let eps : T = num::cast(2.0f64.powf(-52.0)).unwrap();
+    let eps : T = Float::epsilon();
     let tiny : T = num::cast(2.0f64.powf(-966.0)).unwrap();
     while p > 0 {
       // Here is where a test for too many iterations would go.
@@ -437,7 +437,7 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
   }
 
   pub fn rank(&self) -> usize {
-    let eps : T = num::cast(2.0f64.powf(-52.0)).unwrap();
+    let eps : T = Float::epsilon();
     let max_dim : T = num::cast(cmp::max(self.u.rows(), self.v.rows())).unwrap();
     let tol = max_dim * self.s.get(0, 0) * eps;
     let mut r = 0;
-- 
2.43.0


From f1e3693de29ebf1ea3e6cfb6c22ed10e9eb64558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 08/20] fix: m! refuses rows of different lengths

A ragged literal whose element count happened to be divisible by the number of
rows was silently reflowed, e.g. m!(1, 2, 3; 4) became 2-by-2.
---
 src/macros.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/macros.rs b/src/macros.rs
index cb4928e..ce15978 100755
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -15,9 +15,11 @@ macro_rules! m_one {
 /// Helper macro for m!
 #[macro_export]
 macro_rules! m_rec(
+  ( @len [ $($i:expr),* ] ) => ( (0 $(+ m_one!($i))*) );
   ( [ $($row:tt),* ] [$($i:expr),*]) => ({
      let _rows = 0 $(+ m_one!($row) )*;
      let _cols = (0 $(+ m_one!($i))*) / _rows;
+     $( assert!(m_rec!(@len $row) == _cols); )*
      Matrix::new(
        _rows,
        _cols,
-- 
2.43.0


From d755622b83d531636b4845a8b2fdbc6a34e68e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 09/20] fix: EigenDecomposition refuses non-square matrices

A tall matrix was silently replaced by its top square block.
---
 src/decomp/eigen.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index 7f4d3b1..c575d3a 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -753,6 +753,8 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
   }
 
   pub fn new(a : &Matrix<T>) -> EigenDecomposition<T> {
+    assert!(a.rows() == a.cols());
+
     let n = a.cols();
 
     let mut vdata = alloc_dirty_vec(n * n);
-- 
2.43.0


From d11792c227e859bf90aae04497894309e2178154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 10/20] fix: id, zero, random and the vector constructors
 refuse empty dimensions

Like Matrix::new; the matrices they built had no valid column count.
---
 src/matrix.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/matrix.rs b/src/matrix.rs
index 1a1c142..32209e1 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -110,6 +110,7 @@ impl<T : Copy> Matrix<T> {
 
 impl<T : Num + Copy> Matrix<T> {
   pub fn id(m : usize, n : usize) -> Matrix<T> {
+    assert!(m > 0 && n > 0);
     let elems = m * n;
     let mut d : Vec<T> = alloc_dirty_vec(elems);
     for i in 0..elems {
@@ -122,6 +123,7 @@ impl<T : Num + Copy> Matrix<T> {
   }
 
   pub fn zero(no_rows : usize, no_cols : usize) -> Matrix<T> {
+    assert!(no_rows > 0 && no_cols > 0);
     let elems = no_rows * no_cols;
     let mut d : Vec<T> = alloc_dirty_vec(elems);
     for i in 0..elems {
@@ -163,6 +165,7 @@ impl<T : Num + Copy> Matrix<T> {
   }
 
   pub fn zero_vector(no_rows : usize) -> Matrix<T> {
+    assert!(no_rows > 0);
     let mut d : Vec<T> = alloc_dirty_vec(no_rows);
     for i in 0..no_rows {
       d[i] = num::zero();
@@ -171,6 +174,7 @@ impl<T : Num + Copy> Matrix<T> {
   }
 
   pub fn one_vector(no_rows : usize) -> Matrix<T> {
+    assert!(no_rows > 0);
     let mut d : Vec<T> = alloc_dirty_vec(no_rows);
     for i in 0..no_rows {
       d[i] = num::one();
@@ -569,6 +573,7 @@ impl<T : Debug + Copy> Debug for Matrix<T> {
 
 impl<T : Rand + Copy> Matrix<T> {
   pub fn random(no_rows : usize, no_cols : usize) -> Matrix<T> {
+    assert!(no_rows > 0 && no_cols > 0);
     let elems = no_rows * no_cols;
     let mut d = alloc_dirty_vec(elems);
     for i in 0..elems {
-- 
2.43.0


From 409615f39600b3eb98aa09797fce2922d7f96c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 11/20] fix: QR does not square column lengths

The squared length of a short (or long) column under/overflowed, and the
reflection built from it was not orthogonal: Q of e.g. the 20-by-20 all-ones
f32 matrix was not orthogonal, because each step leaves a rounding error column
that is shorter by a factor of epsilon.
---
 src/decomp/qr.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/decomp/qr.rs b/src/decomp/qr.rs
index dfc77ab..e744855 100755
--- a/src/decomp/qr.rs
+++ b/src/decomp/qr.rs
@@ -46,16 +46,24 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
   fn perform_householder_reflection(minor : usize, qrdata : &mut Vec<T>, m : usize, n : usize, rdiag : &mut Vec<T>) {
     // Calculate the length of the minor:th minor column vector. As we are dealing with a sub matrix from the diagonal down and right,
     // the column vector corresponds to the row range minor .. (m - 1).
-    let mut x_norm_sqr : T = num::zero();
+    // The squares are not formed, as they would under/overflow long before the length does.
+    let mut x_norm : T = num::zero();
     for i in minor..m {
-      let c = qrdata[i * n + minor].clone();
-      x_norm_sqr = x_norm_sqr + c * c;
+      x_norm = x_norm.hypot(qrdata[i * n + minor].clone());
+    }
+
+    // A length this close to the underflow limit has lost the precision a reflection needs. The column is zero for all practical purposes.
+    if x_norm <= T::min_positive_value() / T::epsilon() {
+      for i in minor..m {
+        qrdata[i * n + minor] = num::zero();
+      }
+      x_norm = num::zero();
     }
 
     // We know the size of the reflected coordinate (the lenght of the column vector), but not the sign yet.
     // Reflection will flip the sign of the corresponding coordinate element, so sign of the reflected
     // coordinate will be the opposite of the current coordinate element.
-    let a = if qrdata[minor * n + minor].clone() > num::zero() { - x_norm_sqr.sqrt() } else { x_norm_sqr.sqrt() };
+    let a = if qrdata[minor * n + minor].clone() > num::zero() { - x_norm } else { x_norm };
     rdiag[minor] = a.clone();
 
     // If the length of the column vector is zero, the column is already zero and there's nothing to do.
@@ -90,12 +98,12 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
       //      = x + <x,u>/(a*qrdata[k * n + k]) u
       //      = x + factor * u
       for column in (minor + 1)..n {
-        // factor = <x, u>/(a * qrdata[k * n + k])
+        // factor = <x, u / a>/qrdata[k * n + k]
         let mut x_dot_u : T = num::zero();
         for row in minor..m {
-          x_dot_u = x_dot_u + qrdata[row * n + minor].clone() * qrdata[row * n + column].clone();
+          x_dot_u = x_dot_u + (qrdata[row * n + minor].clone() / a) * qrdata[row * n + column].clone();
         }
-        let factor = x_dot_u / (a * qrdata[minor * n + minor].clone());
+        let factor = x_dot_u / qrdata[minor * n + minor].clone();
 
         // Hx = x + factor * u
         for row in minor..m {
@@ -179,9 +187,9 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
         for column in minor..m {
           let mut x_dot_u : T = num::zero();
           for row in minor..m {
-            x_dot_u = x_dot_u + self.qr.get_data()[row * n + minor].clone() * qdata[row * m + column].clone();
+            x_dot_u = x_dot_u + (self.qr.get_data()[row * n + minor].clone() / self.rdiag[minor].clone()) * qdata[row * m + column].clone();
           }
-          let factor = x_dot_u / (self.rdiag[minor].clone() * self.qr.get_data()[minor * n + minor].clone());
+          let factor = x_dot_u / self.qr.get_data()[minor * n + minor].clone();
 
           for row in minor..m {
             qdata[row * m + column] = qdata[row * m + column].clone() + factor * self.qr.get_data()[row * n + minor].clone();
@@ -213,9 +221,9 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
       for j in 0..nx {
         let mut s : T = num::zero();
         for i in k..m {
-          s = s + self.qr.get_data()[i * self.qr.cols() + k].clone() * xdata[i * nx + j].clone();
+          s = s + (self.qr.get_data()[i * self.qr.cols() + k].clone() / self.rdiag[k].clone()) * xdata[i * nx + j].clone();
         }
-        s = s / (self.rdiag[k].clone() * self.qr.get_data()[k * self.qr.cols() + k].clone());
+        s = s / self.qr.get_data()[k * self.qr.cols() + k].clone();
         for i in k..m {
           xdata[i * nx + j] = xdata[i * nx + j].clone() + s * self.qr.get_data()[i * self.qr.cols() + k].clone();
         }
-- 
2.43.0


From 88132ddb207b288cc02418ccfc04360df31e8d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 12/20] fix: SVD of low rank matrices returns orthogonal U and
 V

Each bidiagonalisation step of a low rank matrix leaves rounding error rows and
columns that are shorter by a factor of epsilon, and after enough steps the
reflections were built from subnormal numbers without the precision to be
orthogonal. U of the 43-by-40 all-ones f64 matrix was not orthogonal. (In single
precision the threshold that keeps the iteration out of that range was zero.)
---
 src/decomp/svd.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/decomp/svd.rs b/src/decomp/svd.rs
index 33413de..d4ee683 100755
--- a/src/decomp/svd.rs
+++ b/src/decomp/svd.rs
@@ -60,6 +60,10 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
     let mut edata = alloc_dirty_vec(n);
     let mut workdata : Vec<T> = alloc_dirty_vec(m);
 
+    // Anything smaller has lost the precision a rotation or reflection needs to
+    // underflow, and is taken as zero. (2^-966 for f64).
+    let tiny : T = num::cast::<f64, T>(16.0).unwrap() * (T::min_positive_value() / T::epsilon());
+
     // Reduce A to bidiagonal form, storing the diagonal elements
     // in s and the super-diagonal elements in e.
     let nct = cmp::min(m - 1, n);
@@ -73,6 +77,9 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
         for i in k..m {
           sdata[k] = hypot(sdata[k].clone(), adata[i * n + k].clone());
         }
+        if sdata[k].clone() <= tiny {
+          sdata[k] = num::zero();
+        }
         if sdata[k].clone() != num::zero() {
           if adata[k * n + k].clone() < num::zero() {
             sdata[k] = - sdata[k].clone();
@@ -115,6 +122,9 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
         for i in (k + 1)..n {
           edata[k] = hypot(edata[k].clone(), edata[i].clone());
         }
+        if edata[k].clone() <= tiny {
+          edata[k] = num::zero();
+        }
         if edata[k].clone() != num::zero() {
           if edata[k + 1].clone() < num::zero() {
             edata[k] = - edata[k].clone();
@@ -224,7 +234,6 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
     // Main iteration loop for the singular values.
     let pp = p - 1;
     let eps : T = Float::epsilon();
-    let tiny : T = num::cast(2.0f64.powf(-966.0)).unwrap();
     while p > 0 {
       // Here is where a test for too many iterations would go.
 
-- 
2.43.0


From 070a120cc66bb70627eb475e31c5ae8eead1241a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 13/20] fix: eigen decomposition of low rank matrices
 terminates

The Hessenberg form of a low rank matrix has a diagonal block of rounding errors
of rounding errors, where eps * s and the products that make up the shift
underflow, and the iteration made no progress. The decomposition of e.g. a
32-by-32 rank one integer matrix did not terminate.
---
 src/decomp/eigen.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index c575d3a..ecf6c76 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -261,7 +261,12 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
       for i in m..(high + 1) {
         scale = scale + num::abs(hdata[i * n + (m - 1)].clone());
       }
-      if scale != num::zero() {
+      if scale <= T::min_positive_value() / T::epsilon() {
+        // The column has lost the precision a reflection needs to underflow. Take it as zero.
+        for i in m..(high + 1) {
+          hdata[i * n + (m - 1)] = num::zero();
+        }
+      } else {
         // Compute Householder transformation.
         let mut h : T = num::zero();
         for i in (m..(high + 1)).rev() {
@@ -388,7 +393,8 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
         if s == num::zero() {
           s = norm.clone();
         }
-        if num::abs(hdata[(l * nn + (l - 1)) as usize].clone()) < (eps * s) {
+        // (The second bound keeps the products formed by the iteration out of the underflow range.)
+        if num::abs(hdata[(l * nn + (l - 1)) as usize].clone()) < (eps * s).max(eps * eps * norm) {
           break;
         }
         l -= 1;
-- 
2.43.0


From 9f3f238216771d546c3766d3f6bc364364d723fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 14/20] fix: constructors refuse dimensions whose product
 overflows

---
 src/matrix.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 32209e1..b2336d7 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -24,7 +24,7 @@ pub struct Matrix<T> {
 
 impl<T : Copy> Matrix<T> {
   pub fn new(no_rows : usize, no_cols : usize, data : Vec<T>) -> Matrix<T> {
-    assert!(no_rows * no_cols == data.len());
+    assert!(no_rows.checked_mul(no_cols) == Some(data.len()));
     assert!(no_rows > 0 && no_cols > 0);
     Matrix { no_rows : no_rows, data : data }
   }
@@ -111,7 +111,7 @@ impl<T : Copy> Matrix<T> {
 impl<T : Num + Copy> Matrix<T> {
   pub fn id(m : usize, n : usize) -> Matrix<T> {
     assert!(m > 0 && n > 0);
-    let elems = m * n;
+    let elems = m.checked_mul(n).unwrap();
     let mut d : Vec<T> = alloc_dirty_vec(elems);
     for i in 0..elems {
       d[i] = num::zero();
@@ -124,7 +124,7 @@ impl<T : Num + Copy> Matrix<T> {
 
   pub fn zero(no_rows : usize, no_cols : usize) -> Matrix<T> {
     assert!(no_rows > 0 && no_cols > 0);
-    let elems = no_rows * no_cols;
+    let elems = no_rows.checked_mul(no_cols).unwrap();
     let mut d : Vec<T> = alloc_dirty_vec(elems);
     for i in 0..elems {
       d[i] = num::zero();
@@ -574,7 +574,7 @@ impl<T : Debug + Copy> Debug for Matrix<T> {
 impl<T : Rand + Copy> Matrix<T> {
   pub fn random(no_rows : usize, no_cols : usize) -> Matrix<T> {
     assert!(no_rows > 0 && no_cols > 0);
-    let elems = no_rows * no_cols;
+    let elems = no_rows.checked_mul(no_cols).unwrap();
     let mut d = alloc_dirty_vec(elems);
     for i in 0..elems {
       d[i] = rand::random::<T>();
-- 
2.43.0


From 26fdafd141b1d38dbec09392bf03e2a133257ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 15/20] fix: Debug aligns elements whose text is not ASCII

---
 src/matrix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index b2336d7..a090710 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -549,7 +549,7 @@ impl<T : Debug + Copy> Debug for Matrix<T> {
   fn fmt(&self, fmt: &mut Formatter) -> Result {
     let max_width =
       self.data.iter().fold(0, |maxlen, elem| {
-        let l = format!("{:?}", elem).len();
+        let l = format!("{:?}", elem).chars().count();
         if maxlen > l { maxlen } else { l }
       });
 
@@ -558,7 +558,7 @@ impl<T : Debug + Copy> Debug for Matrix<T> {
       try!(write!(fmt, "|"));
       for col in 0..self.cols() {
         let v = self.get_ref(row, col).clone();
-        let slen = format!("{:?}", v).len();
+        let slen = format!("{:?}", v).chars().count();
         let mut padding = " ".to_owned();
         for _ in 0..(max_width-slen) {
           padding.push_str(" ");
-- 
2.43.0


From 78e758e9231505f51d42d09bdb9a4f2d44ba24f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:30 +0000
Subject: [PATCH 16/20] fix: block_diag refuses dimensions whose product
 overflows

---
 src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index a090710..0c7cde6 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -152,7 +152,7 @@ impl<T : Num + Copy> Matrix<T> {
     let min_dim = cmp::min(m, n);
     assert!(data.len() == min_dim);
 
-    let elems = m * n;
+    let elems = m.checked_mul(n).unwrap();
     let mut d : Vec<T> = alloc_dirty_vec(elems);
     for i in 0..elems {
       d[i] = num::zero();
-- 
2.43.0


From d2ab4cbd87ea0a24fb158e4087e47d28d87bfb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 17/20] fix: symmetric eigenvectors of low rank matrices are
 orthogonal

---
 src/decomp/eigen.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index ecf6c76..eb8fa03 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -149,12 +149,14 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
     let mut f : T = num::zero();
     let mut tst1 : T = num::zero();
     let eps : T = Float::epsilon();
+    // Anything smaller has lost the precision a rotation needs to underflow, and is taken as zero.
+    let tiny : T = T::min_positive_value() / eps;
     for l in 0..n {
       // Find small subdiagonal element
       tst1 = tst1.max(num::abs(ddata[l].clone()) + num::abs(edata[l].clone()));
       let mut m = l;
       while m < n {
-        if num::abs(edata[m].clone()) <= (eps * tst1) {
+        if num::abs(edata[m].clone()) <= (eps * tst1).max(tiny) {
           break;
         }
         m += 1;
@@ -213,7 +215,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
           ddata[l] = c * p;
 
           // Check for convergence.
-          if num::abs(edata[l].clone()) <= (eps * tst1) {
+          if num::abs(edata[l].clone()) <= (eps * tst1).max(tiny) {
             break;
           }
         }
-- 
2.43.0


From 0393e908e859ed56dfaf8a385de4b62422a117ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 18/20] fix: symmetric eigen does not square the off-diagonal
 elements

---
 src/decomp/eigen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index eb8fa03..f92a006 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -210,7 +210,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
               vdata[k * n + i] = c * vdata[k * n + i].clone() - s * h;
             }
           }
-          p = - s * s2 * c3 * el1 * edata[l].clone() / dl1;
+          p = - s * s2 * c3 * el1 * (edata[l].clone() / dl1);
           edata[l] = s * p;
           ddata[l] = c * p;
 
-- 
2.43.0


From 39fd3e9628f1feeaba24ba67c2b8c73519c37b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 19/20] fix: general eigen iteration leaves its stagnation
 cycles

---
 src/decomp/eigen.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index f92a006..2d51049 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -479,13 +479,14 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
           w = hdata[(n * nn + (n - 1)) as usize].clone() * hdata[((n - 1) * nn + n) as usize].clone();
         }
 
-        // Wilkinson's original ad hoc shift
-        if iter == 10 {
+        // Wilkinson's original ad hoc shift, repeated with growing size for as long as the iteration makes no progress.
+        if (iter > 0) && (iter % 10 == 0) && (iter != 30) {
           exshift = exshift + x;
           for i in low..(n + 1) {
             hdata[(i * nn + i) as usize] = hdata[(i * nn + i) as usize].clone() - x;
           }
           s = num::abs(hdata[(n * nn + (n - 1)) as usize].clone()) + num::abs(hdata[((n - 1) * nn + (n - 2)) as usize].clone());
+          s = s * num::cast(iter / 10).unwrap();
           let tmp : T = num::cast(0.75).unwrap();
           y = tmp * s;
           x = y.clone();
-- 
2.43.0


From c899d1c7472e6bf20ea2801185935d2aaf68dd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:05 +0000
Subject: [PATCH 20/20] fix: Cholesky refuses matrices with a NaN on the
 diagonal

---
 src/decomp/cholesky.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomp/cholesky.rs b/src/decomp/cholesky.rs
index ba7c593..e9ad277 100755
--- a/src/decomp/cholesky.rs
+++ b/src/decomp/cholesky.rs
@@ -94,7 +94,7 @@ impl<T : Float + ApproxEq<T>> CholeskyDecomposition<T> {
       // Solve L[j][j]. (Diagonals).
       // L[j][j] = sqrt(A[j][j] - SUM { L[j][0 .. (j - 1)]^2 }).
       d = m.get(j, j) - d;
-      if d <= num::zero() {
+      if !(d > num::zero()) {
         // A is not positive definite; Cholesky decomposition does not exists.
         return None
       }
-- 
2.43.0

