From 4bc19cbeb164e0aee2701f58621867f95e4065fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:33 +0000
Subject: [PATCH 01/13] fix: avoid signed overflow constructing Slice(INT_MAX)

---
 include/sleipnir/autodiff/slice.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/sleipnir/autodiff/slice.hpp b/include/sleipnir/autodiff/slice.hpp
index be4f477..b37e556 100644
--- a/include/sleipnir/autodiff/slice.hpp
+++ b/include/sleipnir/autodiff/slice.hpp
@@ -47,7 +47,10 @@ class SLEIPNIR_DLLEXPORT Slice {
   // NOLINTNEXTLINE (google-explicit-constructor)
   constexpr Slice(int start) {
     this->start = start;
-    this->stop = (start == -1) ? std::numeric_limits<int>::max() : start + 1;
+    // Avoid UB for start + 1 if start is INT_MAX
+    this->stop = (start == -1 || start == std::numeric_limits<int>::max())
+                     ? std::numeric_limits<int>::max()
+                     : start + 1;
     this->step = 1;
   }
 
-- 
2.43.0


From 1a86e895f1d32d029b948369dc87721983b74fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:21 +0000
Subject: [PATCH 02/13] fix: reject line search trial steps with nonfinite
 constraint violation

---
 include/sleipnir/optimization/solver/util/filter.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sleipnir/optimization/solver/util/filter.hpp b/include/sleipnir/optimization/solver/util/filter.hpp
index 5ecc11d..8761c97 100644
--- a/include/sleipnir/optimization/solver/util/filter.hpp
+++ b/include/sleipnir/optimization/solver/util/filter.hpp
@@ -111,8 +111,10 @@ class Filter {
     using std::isfinite;
     using std::pow;
 
-    // Reject steps with nonfinite cost or constraint violation above maximum
+    // Reject steps with nonfinite cost, nonfinite constraint violation, or
+    // constraint violation above maximum
     if (!isfinite(trial_entry.cost) ||
+        !isfinite(trial_entry.constraint_violation) ||
         trial_entry.constraint_violation > max_constraint_violation) {
       return false;
     }
-- 
2.43.0


From a9046884fe77f0c8d1de9a04183a555dba2648f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:50 +0000
Subject: [PATCH 03/13] fix: multistart must not prefer a cheaper failed solve
 over a successful one

---
 include/sleipnir/optimization/multistart.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/optimization/multistart.hpp b/include/sleipnir/optimization/multistart.hpp
index 9527994..6e2986c 100644
--- a/include/sleipnir/optimization/multistart.hpp
+++ b/include/sleipnir/optimization/multistart.hpp
@@ -64,8 +64,10 @@ MultistartResult<Scalar, DecisionVariables> multistart(
 
   return *std::ranges::min_element(results, [](const auto& a, const auto& b) {
     // Prioritize successful solve
-    if (a.status == ExitStatus::SUCCESS && b.status != ExitStatus::SUCCESS) {
-      return true;
+    bool a_succeeded = a.status == ExitStatus::SUCCESS;
+    bool b_succeeded = b.status == ExitStatus::SUCCESS;
+    if (a_succeeded != b_succeeded) {
+      return a_succeeded;
     }
 
     // Otherwise prioritize solution with lower cost
-- 
2.43.0


From 09ff58c5fa32f3b3bb6735d87835920f8d42a28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:24 +0000
Subject: [PATCH 04/13] fix: keep assigned object alive when releasing its
 owner in IntrusiveSharedPtr

---
 .../sleipnir/util/intrusive_shared_ptr.hpp    | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/include/sleipnir/util/intrusive_shared_ptr.hpp b/include/sleipnir/util/intrusive_shared_ptr.hpp
index b4f0c32..ee219d4 100644
--- a/include/sleipnir/util/intrusive_shared_ptr.hpp
+++ b/include/sleipnir/util/intrusive_shared_ptr.hpp
@@ -86,16 +86,20 @@ class IntrusiveSharedPtr {
       return *this;
     }
 
-    if (m_ptr != nullptr) {
-      dec_ref_count(m_ptr);
-    }
+    // Take the new reference first because releasing the old object can destroy
+    // rhs if that object owns it
+    T* ptr = rhs.m_ptr;
 
-    m_ptr = rhs.m_ptr;
+    if (ptr != nullptr) {
+      inc_ref_count(ptr);
+    }
 
     if (m_ptr != nullptr) {
-      inc_ref_count(m_ptr);
+      dec_ref_count(m_ptr);
     }
 
+    m_ptr = ptr;
+
     return *this;
   }
 
@@ -112,16 +116,20 @@ class IntrusiveSharedPtr {
       return *this;
     }
 
-    if (m_ptr != nullptr) {
-      dec_ref_count(m_ptr);
-    }
+    // Take the new reference first because releasing the old object can destroy
+    // rhs if that object owns it
+    T* ptr = rhs.m_ptr;
 
-    m_ptr = rhs.m_ptr;
+    if (ptr != nullptr) {
+      inc_ref_count(ptr);
+    }
 
     if (m_ptr != nullptr) {
-      inc_ref_count(m_ptr);
+      dec_ref_count(m_ptr);
     }
 
+    m_ptr = ptr;
+
     return *this;
   }
 
-- 
2.43.0


From 357671b6e83550d8d548ba316ca9d2e733e419d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 05/13] fix: Don't treat linear constraints with a zero
 gradient as bounds

---
 .../sleipnir/optimization/solver/util/bounds.hpp    | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/sleipnir/optimization/solver/util/bounds.hpp b/include/sleipnir/optimization/solver/util/bounds.hpp
index 85e46fb..475c518 100644
--- a/include/sleipnir/optimization/solver/util/bounds.hpp
+++ b/include/sleipnir/optimization/solver/util/bounds.hpp
@@ -104,10 +104,12 @@ Bounds<Scalar> get_bounds(
     }
     const Eigen::SparseVector<Scalar>& row_A_i =
         A_i.innerVector(constraint_index);
-    const auto non_zeros = row_A_i.nonZeros();
-    slp_assert(non_zeros != 0);
-    if (non_zeros > 1) {
-      // Constraint is in more than one variable and therefore not a bound.
+    // Stored entries can be zero (e.g., when terms of a variable cancel), so
+    // only count the ones that are not.
+    const auto non_zeros = (row_A_i.coeffs() != Scalar(0)).count();
+    if (non_zeros != 1) {
+      // Constraint is in more than one variable, or in none of them, and
+      // therefore not a bound.
       continue;
     }
 
@@ -120,6 +122,9 @@ Bounds<Scalar> get_bounds(
     // element), and c(0) = b. If c(x) ≥ 0, then since either a < 0 or a > 0, we
     // have either x ≤ -b/a or x ≥ -b/a, respectively. ∎
     typename Eigen::SparseVector<Scalar>::InnerIterator row_iter(row_A_i);
+    while (row_iter.value() == Scalar(0)) {
+      ++row_iter;
+    }
     const auto constraint_coefficient =
         row_iter
             .value();  // The nonzero value of the j-th constraint's gradient.
-- 
2.43.0


From 72a62e0681ee2c42409f5e8c1ccdc421bd2b821d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:12 +0000
Subject: [PATCH 06/13] fix: in-place matrix product with an operand that
 aliases the destination

---
 include/sleipnir/autodiff/variable_block.hpp  | 14 ++------------
 include/sleipnir/autodiff/variable_matrix.hpp | 14 ++------------
 2 files changed, 4 insertions(+), 24 deletions(-)

diff --git a/include/sleipnir/autodiff/variable_block.hpp b/include/sleipnir/autodiff/variable_block.hpp
index 9edeb0e..0f423d8 100644
--- a/include/sleipnir/autodiff/variable_block.hpp
+++ b/include/sleipnir/autodiff/variable_block.hpp
@@ -436,18 +436,8 @@ class VariableBlock : public SleipnirBase {
   VariableBlock<Mat>& operator*=(const MatrixLike auto& rhs) {
     slp_assert(cols() == rhs.rows() && cols() == rhs.cols());
 
-    for (int i = 0; i < rows(); ++i) {
-      Mat lhs_old_row = row(i);
-      for (int j = 0; j < rhs.cols(); ++j) {
-        Variable sum{Scalar(0)};
-        for (int k = 0; k < cols(); ++k) {
-          sum += lhs_old_row[k] * rhs[k, j];
-        }
-        (*this)[i, j] = sum;
-      }
-    }
-
-    return *this;
+    // Compute the whole product before assigning it since rhs may alias *this
+    return *this = *this * rhs;
   }
 
   /// Compound matrix multiplication-assignment operator.
diff --git a/include/sleipnir/autodiff/variable_matrix.hpp b/include/sleipnir/autodiff/variable_matrix.hpp
index 6562a6a..43265ca 100644
--- a/include/sleipnir/autodiff/variable_matrix.hpp
+++ b/include/sleipnir/autodiff/variable_matrix.hpp
@@ -643,18 +643,8 @@ class VariableMatrix : public SleipnirBase {
   VariableMatrix& operator*=(const MatrixLike auto& rhs) {
     slp_assert(cols() == rhs.rows() && cols() == rhs.cols());
 
-    for (int i = 0; i < rows(); ++i) {
-      VariableMatrix lhs_old_row = row(i);
-      for (int j = 0; j < rhs.cols(); ++j) {
-        Variable sum{Scalar(0)};
-        for (int k = 0; k < cols(); ++k) {
-          sum += lhs_old_row[k] * rhs[k, j];
-        }
-        (*this)[i, j] = sum;
-      }
-    }
-
-    return *this;
+    // Compute the whole product before assigning it since rhs may alias *this
+    return *this = *this * rhs;
   }
 
   /// Compound matrix-scalar multiplication-assignment operator.
-- 
2.43.0


From 6d8710c13bf62afc2c2b29b848460043cd95173d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:24 +0000
Subject: [PATCH 07/13] fix: scaling a matrix by one of its own elements

---
 include/sleipnir/autodiff/variable_block.hpp  | 6 ++++--
 include/sleipnir/autodiff/variable_matrix.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/sleipnir/autodiff/variable_block.hpp b/include/sleipnir/autodiff/variable_block.hpp
index 0f423d8..4c806d4 100644
--- a/include/sleipnir/autodiff/variable_block.hpp
+++ b/include/sleipnir/autodiff/variable_block.hpp
@@ -444,7 +444,8 @@ class VariableBlock : public SleipnirBase {
   ///
   /// @param rhs Variable to multiply.
   /// @return Result of multiplication.
-  VariableBlock<Mat>& operator*=(const ScalarLike auto& rhs) {
+  VariableBlock<Mat>& operator*=(ScalarLike auto rhs) {
+    // rhs is passed by value since it may alias an element of *this
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
         (*this)[row, col] *= rhs;
@@ -458,7 +459,8 @@ class VariableBlock : public SleipnirBase {
   ///
   /// @param rhs Variable to divide.
   /// @return Result of division.
-  VariableBlock<Mat>& operator/=(const ScalarLike auto& rhs) {
+  VariableBlock<Mat>& operator/=(ScalarLike auto rhs) {
+    // rhs is passed by value since it may alias an element of *this
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
         (*this)[row, col] /= rhs;
diff --git a/include/sleipnir/autodiff/variable_matrix.hpp b/include/sleipnir/autodiff/variable_matrix.hpp
index 43265ca..8fdc92d 100644
--- a/include/sleipnir/autodiff/variable_matrix.hpp
+++ b/include/sleipnir/autodiff/variable_matrix.hpp
@@ -651,7 +651,8 @@ class VariableMatrix : public SleipnirBase {
   ///
   /// @param rhs Variable to multiply.
   /// @return Result of multiplication.
-  VariableMatrix& operator*=(const ScalarLike auto& rhs) {
+  VariableMatrix& operator*=(ScalarLike auto rhs) {
+    // rhs is passed by value since it may alias an element of *this
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
         (*this)[row, col] *= rhs;
@@ -722,7 +723,8 @@ class VariableMatrix : public SleipnirBase {
   ///
   /// @param rhs Variable to divide.
   /// @return Result of division.
-  VariableMatrix& operator/=(const ScalarLike auto& rhs) {
+  VariableMatrix& operator/=(ScalarLike auto rhs) {
+    // rhs is passed by value since it may alias an element of *this
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
         (*this)[row, col] /= rhs;
-- 
2.43.0


From 41591babd0e762d19211b466c6e7c2e5a577d09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 08/13] fix: const slicing, const segments and const iterator
 decrement of a VariableBlock compile

---
 include/sleipnir/autodiff/variable_block.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sleipnir/autodiff/variable_block.hpp b/include/sleipnir/autodiff/variable_block.hpp
index 4c806d4..2292959 100644
--- a/include/sleipnir/autodiff/variable_block.hpp
+++ b/include/sleipnir/autodiff/variable_block.hpp
@@ -357,7 +357,7 @@ class VariableBlock : public SleipnirBase {
                                             int row_slice_length,
                                             Slice col_slice,
                                             int col_slice_length) const {
-    return VariableBlock{
+    return VariableBlock<const Mat>{
         *m_mat,
         {m_row_slice.start + row_slice.start * m_row_slice.step,
          m_row_slice.start + row_slice.stop * m_row_slice.step,
@@ -386,7 +386,7 @@ class VariableBlock : public SleipnirBase {
   /// @param offset The offset of the segment.
   /// @param length The length of the segment.
   /// @return A segment of the variable vector.
-  const VariableBlock<Mat> segment(int offset, int length) const {
+  const VariableBlock<const Mat> segment(int offset, int length) const {
     slp_assert(cols() == 1);
     slp_assert(offset >= 0 && offset < rows());
     slp_assert(length >= 0 && length <= rows() - offset);
@@ -699,7 +699,7 @@ class VariableBlock : public SleipnirBase {
     }
 
     constexpr const_iterator operator--(int) noexcept {
-      iterator retval = *this;
+      const_iterator retval = *this;
       --(*this);
       return retval;
     }
-- 
2.43.0


From cdafe89675f2f2d135de709d785ea149aca931c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:53 +0000
Subject: [PATCH 09/13] fix: element access through a non-const VariableBlock
 of a const matrix

operator[](int, int) const and the non-const operator[](Slice, Slice) were
ambiguous for block[row, col]; GCC then silently reads block[col].
---
 include/sleipnir/autodiff/variable_block.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/autodiff/variable_block.hpp b/include/sleipnir/autodiff/variable_block.hpp
index 2292959..f862ce0 100644
--- a/include/sleipnir/autodiff/variable_block.hpp
+++ b/include/sleipnir/autodiff/variable_block.hpp
@@ -301,7 +301,9 @@ class VariableBlock : public SleipnirBase {
   /// @param row_slice The row slice.
   /// @param col_slice The column slice.
   /// @return A slice of the variable matrix.
-  VariableBlock<Mat> operator[](Slice row_slice, Slice col_slice) {
+  VariableBlock<Mat> operator[](Slice row_slice, Slice col_slice)
+    requires(!std::is_const_v<Mat>)
+  {
     int row_slice_length = row_slice.adjust(m_row_slice_length);
     int col_slice_length = col_slice.adjust(m_col_slice_length);
     return (*this)[row_slice, row_slice_length, col_slice, col_slice_length];
@@ -330,7 +332,9 @@ class VariableBlock : public SleipnirBase {
   /// @param col_slice_length The column slice length.
   /// @return A slice of the variable matrix.
   VariableBlock<Mat> operator[](Slice row_slice, int row_slice_length,
-                                Slice col_slice, int col_slice_length) {
+                                Slice col_slice, int col_slice_length)
+    requires(!std::is_const_v<Mat>)
+  {
     return VariableBlock{
         *m_mat,
         {m_row_slice.start + row_slice.start * m_row_slice.step,
-- 
2.43.0


From 6b582baab667ced3e8a19b6c9dc6b2bdb5238dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:33 +0000
Subject: [PATCH 10/13] fix: iterating a non-const VariableBlock of a const
 matrix compiles

---
 include/sleipnir/autodiff/variable_block.hpp | 24 ++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/sleipnir/autodiff/variable_block.hpp b/include/sleipnir/autodiff/variable_block.hpp
index f862ce0..78cffd4 100644
--- a/include/sleipnir/autodiff/variable_block.hpp
+++ b/include/sleipnir/autodiff/variable_block.hpp
@@ -727,12 +727,20 @@ class VariableBlock : public SleipnirBase {
   /// Returns begin iterator.
   ///
   /// @return Begin iterator.
-  iterator begin() { return iterator(this, 0); }
+  iterator begin()
+    requires(!std::is_const_v<Mat>)
+  {
+    return iterator(this, 0);
+  }
 
   /// Returns end iterator.
   ///
   /// @return End iterator.
-  iterator end() { return iterator(this, rows() * cols()); }
+  iterator end()
+    requires(!std::is_const_v<Mat>)
+  {
+    return iterator(this, rows() * cols());
+  }
 
   /// Returns begin iterator.
   ///
@@ -757,12 +765,20 @@ class VariableBlock : public SleipnirBase {
   /// Returns reverse begin iterator.
   ///
   /// @return Reverse begin iterator.
-  reverse_iterator rbegin() { return reverse_iterator{end()}; }
+  reverse_iterator rbegin()
+    requires(!std::is_const_v<Mat>)
+  {
+    return reverse_iterator{end()};
+  }
 
   /// Returns reverse end iterator.
   ///
   /// @return Reverse end iterator.
-  reverse_iterator rend() { return reverse_iterator{begin()}; }
+  reverse_iterator rend()
+    requires(!std::is_const_v<Mat>)
+  {
+    return reverse_iterator{begin()};
+  }
 
   /// Returns const reverse begin iterator.
   ///
-- 
2.43.0


From 3c8e20e59cc698453dd7fc60e30269470b1a8f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:32 +0000
Subject: [PATCH 11/13] fix: solve() with a 1x1 matrix solves for every column
 of the right-hand side

---
 include/sleipnir/autodiff/variable_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sleipnir/autodiff/variable_matrix.hpp b/include/sleipnir/autodiff/variable_matrix.hpp
index 8fdc92d..567e1d3 100644
--- a/include/sleipnir/autodiff/variable_matrix.hpp
+++ b/include/sleipnir/autodiff/variable_matrix.hpp
@@ -1512,7 +1512,7 @@ VariableMatrix<Scalar> solve(const VariableMatrix<Scalar>& A,
 
   if (A.rows() == 1 && A.cols() == 1) {
     // Compute optimal inverse instead of using Eigen's general solver
-    return B[0, 0] / A[0, 0];
+    return B / A[0, 0];
   } else if (A.rows() == 2 && A.cols() == 2) {
     // Compute optimal inverse instead of using Eigen's general solver
     //
-- 
2.43.0


From 68cb1e5cd50af987520394f44fd5314a0d26eb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:29 +0000
Subject: [PATCH 12/13] fix: a point with non-finite derivatives is never
 reported as optimal

---
 .../optimization/solver/util/kkt_error.hpp    | 35 +++++++++++++++----
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/include/sleipnir/optimization/solver/util/kkt_error.hpp b/include/sleipnir/optimization/solver/util/kkt_error.hpp
index 1e391ad..9b96295 100644
--- a/include/sleipnir/optimization/solver/util/kkt_error.hpp
+++ b/include/sleipnir/optimization/solver/util/kkt_error.hpp
@@ -3,6 +3,7 @@
 #pragma once
 
 #include <algorithm>
+#include <limits>
 
 #include <Eigen/Core>
 #include <Eigen/SparseCore>
@@ -33,6 +34,11 @@ Scalar kkt_error(const Eigen::Vector<Scalar, Eigen::Dynamic>& g) {
   //   ∇f = 0
 
   if constexpr (T == KKTErrorType::INF_NORM_SCALED) {
+    // The norm can ignore NaNs, which would make the point look optimal
+    if (!g.allFinite()) {
+      return std::numeric_limits<Scalar>::infinity();
+    }
+
     return g.template lpNorm<Eigen::Infinity>();
   } else if constexpr (T == KKTErrorType::ONE_NORM) {
     return g.template lpNorm<1>();
@@ -65,11 +71,18 @@ Scalar kkt_error(const Eigen::Vector<Scalar, Eigen::Dynamic>& g,
     Scalar s_d =
         std::max(s_max, y.template lpNorm<1>() / Scalar(y.rows())) / s_max;
 
+    const Eigen::Vector<Scalar, Eigen::Dynamic> stationarity =
+        g - A_e.transpose() * y;
+
+    // The norms can ignore NaNs, which would make the point look optimal
+    if (!stationarity.allFinite() || !c_e.allFinite()) {
+      return std::numeric_limits<Scalar>::infinity();
+    }
+
     // ‖∇f − Aₑᵀy‖_∞ / s_d
     // ‖cₑ‖_∞
-    return std::max(
-        {(g - A_e.transpose() * y).template lpNorm<Eigen::Infinity>() / s_d,
-         c_e.template lpNorm<Eigen::Infinity>()});
+    return std::max({stationarity.template lpNorm<Eigen::Infinity>() / s_d,
+                     c_e.template lpNorm<Eigen::Infinity>()});
   } else if constexpr (T == KKTErrorType::ONE_NORM) {
     return (g - A_e.transpose() * y).template lpNorm<1>() +
            c_e.template lpNorm<1>();
@@ -123,14 +136,22 @@ Scalar kkt_error(const Eigen::Vector<Scalar, Eigen::Dynamic>& g,
     const Eigen::Vector<Scalar, Eigen::Dynamic> μe =
         Eigen::Vector<Scalar, Eigen::Dynamic>::Constant(s.rows(), μ);
 
+    const Eigen::Vector<Scalar, Eigen::Dynamic> stationarity =
+        g - A_e.transpose() * y - A_i.transpose() * z;
+    const Eigen::Vector<Scalar, Eigen::Dynamic> complementarity = S * z - μe;
+
+    // The norms can ignore NaNs, which would make the point look optimal
+    if (!stationarity.allFinite() || !complementarity.allFinite() ||
+        !c_e.allFinite() || !(c_i - s).allFinite()) {
+      return std::numeric_limits<Scalar>::infinity();
+    }
+
     // ‖∇f − Aₑᵀy − Aᵢᵀz‖_∞ / s_d
     // ‖Sz − μe‖_∞ / s_c
     // ‖cₑ‖_∞
     // ‖cᵢ − s‖_∞
-    return std::max({(g - A_e.transpose() * y - A_i.transpose() * z)
-                             .template lpNorm<Eigen::Infinity>() /
-                         s_d,
-                     (S * z - μe).template lpNorm<Eigen::Infinity>() / s_c,
+    return std::max({stationarity.template lpNorm<Eigen::Infinity>() / s_d,
+                     complementarity.template lpNorm<Eigen::Infinity>() / s_c,
                      c_e.template lpNorm<Eigen::Infinity>(),
                      (c_i - s).template lpNorm<Eigen::Infinity>()});
   } else if constexpr (T == KKTErrorType::ONE_NORM) {
-- 
2.43.0


From a8d5d93db0111cf4a3b84701e6e917732206e535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:39 +0000
Subject: [PATCH 13/13] fix: a callback's stop during feasibility restoration
 ends the solve

---
 .../sleipnir/optimization/solver/interior_point.hpp  | 12 +++++++++++-
 include/sleipnir/optimization/solver/sqp.hpp         | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index 408cbaa..9007c65 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -732,8 +732,12 @@ ExitStatus interior_point(
       // Feasibility restoration phase
       gch::small_vector<std::function<bool(const IterationInfo<Scalar>& info)>>
           callbacks;
+      bool callback_requested_stop = false;
       for (auto& callback : iteration_callbacks) {
-        callbacks.emplace_back(callback);
+        callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
+          callback_requested_stop = callback(info);
+          return callback_requested_stop;
+        });
       }
       callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
         DenseVector trial_x =
@@ -761,6 +765,12 @@ ExitStatus interior_point(
 #endif
                                           x, s, y, z, μ, iterations);
 
+      // Feasibility restoration reports a stop as success, but only the callback
+      // added above ends it without ending the solve
+      if (callback_requested_stop) {
+        return ExitStatus::CALLBACK_REQUESTED_STOP;
+      }
+
       if (status != ExitStatus::SUCCESS) {
         // Report failure
         return status;
diff --git a/include/sleipnir/optimization/solver/sqp.hpp b/include/sleipnir/optimization/solver/sqp.hpp
index f3c3cfb..99b351f 100644
--- a/include/sleipnir/optimization/solver/sqp.hpp
+++ b/include/sleipnir/optimization/solver/sqp.hpp
@@ -515,8 +515,12 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
       // Feasibility restoration phase
       gch::small_vector<std::function<bool(const IterationInfo<Scalar>& info)>>
           callbacks;
+      bool callback_requested_stop = false;
       for (auto& callback : iteration_callbacks) {
-        callbacks.emplace_back(callback);
+        callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
+          callback_requested_stop = callback(info);
+          return callback_requested_stop;
+        });
       }
       callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
         DenseVector trial_x =
@@ -536,6 +540,12 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
       auto status = feasibility_restoration<Scalar>(matrices, callbacks,
                                                     options, x, y, iterations);
 
+      // Feasibility restoration reports a stop as success, but only the callback
+      // added above ends it without ending the solve
+      if (callback_requested_stop) {
+        return ExitStatus::CALLBACK_REQUESTED_STOP;
+      }
+
       if (status != ExitStatus::SUCCESS) {
         // Report failure
         return status;
-- 
2.43.0

