From 15abf831fa5f2b47c7e51362e9b5e1d560fd2026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 01/18] fix: handle aliasing in VariableMatrix and
 VariableBlock compound multiply/divide

A *= A, A *= block-of-A, A *= A[i, j] and A /= A[i, j] read elements of the
right-hand side after they had been overwritten.
---
 include/sleipnir/autodiff/variable_block.hpp  | 15 ++++++---------
 include/sleipnir/autodiff/variable_matrix.hpp | 15 ++++++---------
 2 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/include/sleipnir/autodiff/variable_block.hpp b/include/sleipnir/autodiff/variable_block.hpp
index 9edeb0e..0d3e7e7 100644
--- a/include/sleipnir/autodiff/variable_block.hpp
+++ b/include/sleipnir/autodiff/variable_block.hpp
@@ -436,14 +436,11 @@ class VariableBlock : public SleipnirBase {
   VariableBlock<Mat>& operator*=(const MatrixLike auto& rhs) {
     slp_assert(cols() == rhs.rows() && cols() == rhs.cols());
 
+    // Compute the product before assigning it since rhs may alias this block
+    Mat result = *this * rhs;
     for (int i = 0; i < rows(); ++i) {
-      Mat lhs_old_row = row(i);
-      for (int j = 0; j < rhs.cols(); ++j) {
-        Variable sum{Scalar(0)};
-        for (int k = 0; k < cols(); ++k) {
-          sum += lhs_old_row[k] * rhs[k, j];
-        }
-        (*this)[i, j] = sum;
+      for (int j = 0; j < cols(); ++j) {
+        (*this)[i, j] = result[i, j];
       }
     }
 
@@ -454,7 +451,7 @@ class VariableBlock : public SleipnirBase {
   ///
   /// @param rhs Variable to multiply.
   /// @return Result of multiplication.
-  VariableBlock<Mat>& operator*=(const ScalarLike auto& rhs) {
+  VariableBlock<Mat>& operator*=(ScalarLike auto rhs) {
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
         (*this)[row, col] *= rhs;
@@ -468,7 +465,7 @@ class VariableBlock : public SleipnirBase {
   ///
   /// @param rhs Variable to divide.
   /// @return Result of division.
-  VariableBlock<Mat>& operator/=(const ScalarLike auto& rhs) {
+  VariableBlock<Mat>& operator/=(ScalarLike auto rhs) {
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
         (*this)[row, col] /= rhs;
diff --git a/include/sleipnir/autodiff/variable_matrix.hpp b/include/sleipnir/autodiff/variable_matrix.hpp
index 6562a6a..026cffb 100644
--- a/include/sleipnir/autodiff/variable_matrix.hpp
+++ b/include/sleipnir/autodiff/variable_matrix.hpp
@@ -643,14 +643,11 @@ class VariableMatrix : public SleipnirBase {
   VariableMatrix& operator*=(const MatrixLike auto& rhs) {
     slp_assert(cols() == rhs.rows() && cols() == rhs.cols());
 
+    // Compute the product before assigning it since rhs may alias this matrix
+    VariableMatrix result = *this * rhs;
     for (int i = 0; i < rows(); ++i) {
-      VariableMatrix lhs_old_row = row(i);
-      for (int j = 0; j < rhs.cols(); ++j) {
-        Variable sum{Scalar(0)};
-        for (int k = 0; k < cols(); ++k) {
-          sum += lhs_old_row[k] * rhs[k, j];
-        }
-        (*this)[i, j] = sum;
+      for (int j = 0; j < cols(); ++j) {
+        (*this)[i, j] = result[i, j];
       }
     }
 
@@ -661,7 +658,7 @@ class VariableMatrix : public SleipnirBase {
   ///
   /// @param rhs Variable to multiply.
   /// @return Result of multiplication.
-  VariableMatrix& operator*=(const ScalarLike auto& rhs) {
+  VariableMatrix& operator*=(ScalarLike auto rhs) {
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
         (*this)[row, col] *= rhs;
@@ -732,7 +729,7 @@ class VariableMatrix : public SleipnirBase {
   ///
   /// @param rhs Variable to divide.
   /// @return Result of division.
-  VariableMatrix& operator/=(const ScalarLike auto& rhs) {
+  VariableMatrix& operator/=(ScalarLike auto rhs) {
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
         (*this)[row, col] /= rhs;
-- 
2.43.0


From 1fc29cfafed2e598f5bb010947b47fd8c5140915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 02/18] fix: solve() with a 1x1 left-hand side dropped
 right-hand side columns

---
 include/sleipnir/autodiff/variable_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sleipnir/autodiff/variable_matrix.hpp b/include/sleipnir/autodiff/variable_matrix.hpp
index 026cffb..6fdb6a4 100644
--- a/include/sleipnir/autodiff/variable_matrix.hpp
+++ b/include/sleipnir/autodiff/variable_matrix.hpp
@@ -1517,7 +1517,7 @@ VariableMatrix<Scalar> solve(const VariableMatrix<Scalar>& A,
 
   if (A.rows() == 1 && A.cols() == 1) {
     // Compute optimal inverse instead of using Eigen's general solver
-    return B[0, 0] / A[0, 0];
+    return B / A[0, 0];
   } else if (A.rows() == 2 && A.cols() == 2) {
     // Compute optimal inverse instead of using Eigen's general solver
     //
-- 
2.43.0


From dcac73a0e8d049afa3b10e621eda2437b7ee2cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:28 +0000
Subject: [PATCH 03/18] fix: views of const variable matrices

Indexing a non-const view of a const matrix with two integers was ambiguous
(GCC fell back to the comma operator and returned the wrong element), and the
const overloads of VariableBlock's slicing and segment() did not compile.
---
 include/sleipnir/autodiff/variable_block.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/sleipnir/autodiff/variable_block.hpp b/include/sleipnir/autodiff/variable_block.hpp
index 0d3e7e7..214b342 100644
--- a/include/sleipnir/autodiff/variable_block.hpp
+++ b/include/sleipnir/autodiff/variable_block.hpp
@@ -301,7 +301,9 @@ class VariableBlock : public SleipnirBase {
   /// @param row_slice The row slice.
   /// @param col_slice The column slice.
   /// @return A slice of the variable matrix.
-  VariableBlock<Mat> operator[](Slice row_slice, Slice col_slice) {
+  VariableBlock<Mat> operator[](Slice row_slice, Slice col_slice)
+    requires(!std::is_const_v<Mat>)
+  {
     int row_slice_length = row_slice.adjust(m_row_slice_length);
     int col_slice_length = col_slice.adjust(m_col_slice_length);
     return (*this)[row_slice, row_slice_length, col_slice, col_slice_length];
@@ -330,7 +332,9 @@ class VariableBlock : public SleipnirBase {
   /// @param col_slice_length The column slice length.
   /// @return A slice of the variable matrix.
   VariableBlock<Mat> operator[](Slice row_slice, int row_slice_length,
-                                Slice col_slice, int col_slice_length) {
+                                Slice col_slice, int col_slice_length)
+    requires(!std::is_const_v<Mat>)
+  {
     return VariableBlock{
         *m_mat,
         {m_row_slice.start + row_slice.start * m_row_slice.step,
@@ -357,7 +361,7 @@ class VariableBlock : public SleipnirBase {
                                             int row_slice_length,
                                             Slice col_slice,
                                             int col_slice_length) const {
-    return VariableBlock{
+    return VariableBlock<const Mat>{
         *m_mat,
         {m_row_slice.start + row_slice.start * m_row_slice.step,
          m_row_slice.start + row_slice.stop * m_row_slice.step,
@@ -386,7 +390,7 @@ class VariableBlock : public SleipnirBase {
   /// @param offset The offset of the segment.
   /// @param length The length of the segment.
   /// @return A segment of the variable vector.
-  const VariableBlock<Mat> segment(int offset, int length) const {
+  const VariableBlock<const Mat> segment(int offset, int length) const {
     slp_assert(cols() == 1);
     slp_assert(offset >= 0 && offset < rows());
     slp_assert(length >= 0 && length <= rows() - offset);
-- 
2.43.0


From d6a475daa3484e3e33db159a9c29288e8183ec15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:33 +0000
Subject: [PATCH 04/18] fix: linear constraints whose variables cancel out
 aren't bounds

---
 .../sleipnir/optimization/solver/util/bounds.hpp  | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/sleipnir/optimization/solver/util/bounds.hpp b/include/sleipnir/optimization/solver/util/bounds.hpp
index 85e46fb..148e51a 100644
--- a/include/sleipnir/optimization/solver/util/bounds.hpp
+++ b/include/sleipnir/optimization/solver/util/bounds.hpp
@@ -105,9 +105,8 @@ Bounds<Scalar> get_bounds(
     const Eigen::SparseVector<Scalar>& row_A_i =
         A_i.innerVector(constraint_index);
     const auto non_zeros = row_A_i.nonZeros();
-    slp_assert(non_zeros != 0);
-    if (non_zeros > 1) {
-      // Constraint is in more than one variable and therefore not a bound.
+    if (non_zeros != 1) {
+      // Constraint isn't in exactly one variable and therefore not a bound.
       continue;
     }
 
@@ -123,6 +122,12 @@ Bounds<Scalar> get_bounds(
     const auto constraint_coefficient =
         row_iter
             .value();  // The nonzero value of the j-th constraint's gradient.
+    if (constraint_coefficient == Scalar(0)) {
+      // The variable cancels out of the constraint (e.g., x - x + 1 ≥ 0), so
+      // it's not a bound.
+      continue;
+    }
+
     const auto decision_variable_index = row_iter.index();
     const auto decision_variable_value =
         decision_variables[decision_variable_index].value();
@@ -137,10 +142,6 @@ Bounds<Scalar> get_bounds(
       constraint_constant = inequality_constraints[constraint_index].value();
     }
 
-    // Shouldn't happen since the constraint is supposed to be linear and not a
-    // constant.
-    slp_assert(constraint_coefficient != Scalar(0));
-
     using std::isfinite;
 
     // We should always get a finite value when evaluating the constraint at
-- 
2.43.0


From d7ac06a5acfe2ca52639b6522f3d12083e0c5a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:22 +0000
Subject: [PATCH 05/18] fix: make single-shooting's initial state a decision
 variable so it can be constrained

---
 include/sleipnir/optimization/ocp.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/optimization/ocp.hpp b/include/sleipnir/optimization/ocp.hpp
index 5e20b9b..1f5187b 100644
--- a/include/sleipnir/optimization/ocp.hpp
+++ b/include/sleipnir/optimization/ocp.hpp
@@ -149,9 +149,10 @@ class OCP : public Problem<Scalar> {
       m_X = this->decision_variable(num_states, m_num_steps + 1);
       constrain_direct_collocation();
     } else if (transcription_method == TranscriptionMethod::SINGLE_SHOOTING) {
-      // In single-shooting the states aren't decision variables, but instead
-      // depend on the input and previous states
+      // In single-shooting the states after the initial state aren't decision
+      // variables, but instead depend on the input and previous states
       m_X = VariableMatrix<Scalar>{num_states, m_num_steps + 1};
+      m_X.col(0) = this->decision_variable(num_states);
       constrain_single_shooting();
     }
   }
-- 
2.43.0


From b4ece743681ed3f60f9c865a56d53da9112a2ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:06 +0000
Subject: [PATCH 06/18] fix: reject filter entries with nonfinite constraint
 violation

---
 include/sleipnir/optimization/solver/util/filter.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sleipnir/optimization/solver/util/filter.hpp b/include/sleipnir/optimization/solver/util/filter.hpp
index 5ecc11d..8761c97 100644
--- a/include/sleipnir/optimization/solver/util/filter.hpp
+++ b/include/sleipnir/optimization/solver/util/filter.hpp
@@ -111,8 +111,10 @@ class Filter {
     using std::isfinite;
     using std::pow;
 
-    // Reject steps with nonfinite cost or constraint violation above maximum
+    // Reject steps with nonfinite cost, nonfinite constraint violation, or
+    // constraint violation above maximum
     if (!isfinite(trial_entry.cost) ||
+        !isfinite(trial_entry.constraint_violation) ||
         trial_entry.constraint_violation > max_constraint_violation) {
       return false;
     }
-- 
2.43.0


From 90b8ea3c5e5f5915cac6c560e9556883e38dbcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 07/18] fix: multistart: rank successful results before
 unsuccessful ones symmetrically

---
 include/sleipnir/optimization/multistart.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/optimization/multistart.hpp b/include/sleipnir/optimization/multistart.hpp
index 9527994..415cd27 100644
--- a/include/sleipnir/optimization/multistart.hpp
+++ b/include/sleipnir/optimization/multistart.hpp
@@ -64,8 +64,10 @@ MultistartResult<Scalar, DecisionVariables> multistart(
 
   return *std::ranges::min_element(results, [](const auto& a, const auto& b) {
     // Prioritize successful solve
-    if (a.status == ExitStatus::SUCCESS && b.status != ExitStatus::SUCCESS) {
-      return true;
+    bool a_success = a.status == ExitStatus::SUCCESS;
+    bool b_success = b.status == ExitStatus::SUCCESS;
+    if (a_success != b_success) {
+      return a_success;
     }
 
     // Otherwise prioritize solution with lower cost
-- 
2.43.0


From 2f8adc8ea0c33466efad95a363a3ddf43989dccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 08/18] fix: feasibility restoration: keep the constraint
 Hessian when enlarging it

---
 .../optimization/solver/util/feasibility_restoration.hpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
index 2261215..198c3e6 100644
--- a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
+++ b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
@@ -228,7 +228,7 @@ ExitStatus feasibility_restoration(
         //
         //   −∇ₓₓ²yᵀcₑ(x)
         auto H_c = matrices.H_c(x, y);
-        H_c.resize(x_p.rows(), x_p.rows());
+        H_c.conservativeResize(x_p.rows(), x_p.rows());
 
         // Lagrangian Hessian
         //
@@ -483,7 +483,7 @@ ExitStatus feasibility_restoration(
         //
         //   −∇ₓₓ²yᵀcₑ(x) − ∇ₓₓ²zᵀcᵢ(x)
         auto H_c = matrices.H_c(x, y, z);
-        H_c.resize(x_p.rows(), x_p.rows());
+        H_c.conservativeResize(x_p.rows(), x_p.rows());
 
         // Lagrangian Hessian
         //
-- 
2.43.0


From 7f9199a2c66b0ed9c1627795481d06adffc6e8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 09/18] fix: pool: keep free blocks of different sizes apart

---
 include/sleipnir/util/pool.hpp | 48 ++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/include/sleipnir/util/pool.hpp b/include/sleipnir/util/pool.hpp
index 32c4495..a002d83 100644
--- a/include/sleipnir/util/pool.hpp
+++ b/include/sleipnir/util/pool.hpp
@@ -4,6 +4,7 @@
 
 #include <cstddef>
 #include <memory>
+#include <utility>
 
 #include <gch/small_vector.hpp>
 
@@ -48,24 +49,26 @@ class SLEIPNIR_DLLEXPORT PoolResource {
   [[nodiscard]]
   void* allocate(size_t bytes, [[maybe_unused]] size_t alignment =
                                    alignof(std::max_align_t)) {
-    if (m_free_list.empty()) {
-      add_chunk(bytes);
+    auto& list = free_list(bytes);
+
+    if (list.empty()) {
+      add_chunk(bytes, list);
     }
 
-    auto ptr = m_free_list.back();
-    m_free_list.pop_back();
+    auto ptr = list.back();
+    list.pop_back();
     return ptr;
   }
 
   /// Gives a block of memory back to the pool.
   ///
   /// @param p A pointer to the block of memory.
-  /// @param bytes Number of bytes in the block (unused).
+  /// @param bytes Number of bytes in the block.
   /// @param alignment Alignment of the block (unused).
   void deallocate(
-      void* p, [[maybe_unused]] size_t bytes,
+      void* p, size_t bytes,
       [[maybe_unused]] size_t alignment = alignof(std::max_align_t)) {
-    m_free_list.emplace_back(p);
+    free_list(bytes).emplace_back(p);
   }
 
   /// Returns true if this pool resource has the same backing storage as
@@ -82,22 +85,45 @@ class SLEIPNIR_DLLEXPORT PoolResource {
   ///
   /// @return The number of blocks from this pool resource that are in use.
   size_t blocks_in_use() const noexcept {
-    return m_buffer.size() * blocks_per_chunk - m_free_list.size();
+    size_t free_blocks = 0;
+    for (const auto& [bytes, list] : m_free_lists) {
+      free_blocks += list.size();
+    }
+    return m_buffer.size() * blocks_per_chunk - free_blocks;
   }
 
  private:
   gch::small_vector<std::unique_ptr<std::byte[]>> m_buffer;
-  gch::small_vector<void*> m_free_list;
   size_t blocks_per_chunk;
 
+  /// Free blocks for each block size. Blocks of different sizes (e.g.,
+  /// expressions with different scalar types) can't be interchanged.
+  gch::small_vector<std::pair<size_t, gch::small_vector<void*>>> m_free_lists;
+
+  /// Returns the free list for the given block size.
+  ///
+  /// @param bytes_per_block Number of bytes in the block.
+  /// @return The free list for the given block size.
+  gch::small_vector<void*>& free_list(size_t bytes_per_block) {
+    for (auto& [bytes, list] : m_free_lists) {
+      if (bytes == bytes_per_block) {
+        return list;
+      }
+    }
+    return m_free_lists
+        .emplace_back(bytes_per_block, gch::small_vector<void*>{})
+        .second;
+  }
+
   /// Adds a memory chunk to the pool, partitions it into blocks with the given
   /// number of bytes, and appends pointers to them to the free list.
   ///
   /// @param bytes_per_block Number of bytes in the block.
-  void add_chunk(size_t bytes_per_block) {
+  /// @param list The free list for the block size.
+  void add_chunk(size_t bytes_per_block, gch::small_vector<void*>& list) {
     m_buffer.emplace_back(new std::byte[bytes_per_block * blocks_per_chunk]);
     for (int i = blocks_per_chunk - 1; i >= 0; --i) {
-      m_free_list.emplace_back(m_buffer.back().get() + bytes_per_block * i);
+      list.emplace_back(m_buffer.back().get() + bytes_per_block * i);
     }
   }
 };
-- 
2.43.0


From 00e34ca38054abb4d2f1640bd22e11f0aa030bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 10/18] fix: newton: report factorization failure

---
 include/sleipnir/optimization/solver/newton.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sleipnir/optimization/solver/newton.hpp b/include/sleipnir/optimization/solver/newton.hpp
index 76304f0..43c9d86 100644
--- a/include/sleipnir/optimization/solver/newton.hpp
+++ b/include/sleipnir/optimization/solver/newton.hpp
@@ -183,7 +183,9 @@ ExitStatus newton(
     // Solve the Newton-KKT system
     //
     // Hpˣ = −∇f
-    solver.compute(H);
+    if (solver.compute(H).info() != Eigen::Success) [[unlikely]] {
+      return ExitStatus::FACTORIZATION_FAILED;
+    }
 
     kkt_matrix_decomp_profiler.stop();
     ScopedProfiler kkt_system_solve_profiler{kkt_system_solve_prof};
-- 
2.43.0


From d2ea7ac5aab958f729edcda4391192520993eb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 11/18] fix: solvers: do not report success at a point with
 nonfinite derivatives

---
 include/sleipnir/optimization/solver/interior_point.hpp | 5 ++++-
 include/sleipnir/optimization/solver/newton.hpp         | 4 +++-
 include/sleipnir/optimization/solver/sqp.hpp            | 5 ++++-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index 408cbaa..4cf0944 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -379,7 +379,10 @@ ExitStatus interior_point(
     }
   }};
 
-  while (E_0 > Scalar(options.tolerance)) {
+  // NaNs compare false with everything and max() can drop them, so a point with
+  // nonfinite derivatives is never considered converged
+  while (!(E_0 <= Scalar(options.tolerance)) || !all_finite(g) ||
+         !all_finite(A_e) || !all_finite(A_i)) {
     ScopedProfiler inner_iter_profiler{inner_iter_prof};
     ScopedProfiler feasibility_check_profiler{feasibility_check_prof};
 
diff --git a/include/sleipnir/optimization/solver/newton.hpp b/include/sleipnir/optimization/solver/newton.hpp
index 43c9d86..12d1de5 100644
--- a/include/sleipnir/optimization/solver/newton.hpp
+++ b/include/sleipnir/optimization/solver/newton.hpp
@@ -158,7 +158,9 @@ ExitStatus newton(
     }
   }};
 
-  while (E_0 > Scalar(options.tolerance)) {
+  // NaNs compare false with everything and max() can drop them, so a point with
+  // nonfinite derivatives is never considered converged
+  while (!(E_0 <= Scalar(options.tolerance)) || !all_finite(g)) {
     ScopedProfiler inner_iter_profiler{inner_iter_prof};
     ScopedProfiler feasibility_check_profiler{feasibility_check_prof};
 
diff --git a/include/sleipnir/optimization/solver/sqp.hpp b/include/sleipnir/optimization/solver/sqp.hpp
index f3c3cfb..054d0e1 100644
--- a/include/sleipnir/optimization/solver/sqp.hpp
+++ b/include/sleipnir/optimization/solver/sqp.hpp
@@ -256,7 +256,10 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
     }
   }};
 
-  while (E_0 > Scalar(options.tolerance)) {
+  // NaNs compare false with everything and max() can drop them, so a point with
+  // nonfinite derivatives is never considered converged
+  while (!(E_0 <= Scalar(options.tolerance)) || !all_finite(g) ||
+         !all_finite(A_e)) {
     ScopedProfiler inner_iter_profiler{inner_iter_prof};
     ScopedProfiler feasibility_check_profiler{feasibility_check_prof};
 
-- 
2.43.0


From 5ce486c2de439b3240dee3209c114f6a6be05c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 12/18] fix: sqp, interior_point: honour a stop requested
 during feasibility restoration

---
 .../sleipnir/optimization/solver/interior_point.hpp   | 11 ++++++++++-
 include/sleipnir/optimization/solver/sqp.hpp          | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index 4cf0944..81d714b 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -735,8 +735,12 @@ ExitStatus interior_point(
       // Feasibility restoration phase
       gch::small_vector<std::function<bool(const IterationInfo<Scalar>& info)>>
           callbacks;
+      bool user_requested_stop = false;
       for (auto& callback : iteration_callbacks) {
-        callbacks.emplace_back(callback);
+        callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
+          user_requested_stop = callback(info);
+          return user_requested_stop;
+        });
       }
       callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
         DenseVector trial_x =
@@ -764,6 +768,11 @@ ExitStatus interior_point(
 #endif
                                           x, s, y, z, μ, iterations);
 
+      // A stop requested by the user also stops feasibility restoration
+      if (user_requested_stop) {
+        return ExitStatus::CALLBACK_REQUESTED_STOP;
+      }
+
       if (status != ExitStatus::SUCCESS) {
         // Report failure
         return status;
diff --git a/include/sleipnir/optimization/solver/sqp.hpp b/include/sleipnir/optimization/solver/sqp.hpp
index 054d0e1..914bdf0 100644
--- a/include/sleipnir/optimization/solver/sqp.hpp
+++ b/include/sleipnir/optimization/solver/sqp.hpp
@@ -518,8 +518,12 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
       // Feasibility restoration phase
       gch::small_vector<std::function<bool(const IterationInfo<Scalar>& info)>>
           callbacks;
+      bool user_requested_stop = false;
       for (auto& callback : iteration_callbacks) {
-        callbacks.emplace_back(callback);
+        callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
+          user_requested_stop = callback(info);
+          return user_requested_stop;
+        });
       }
       callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
         DenseVector trial_x =
@@ -539,6 +543,11 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
       auto status = feasibility_restoration<Scalar>(matrices, callbacks,
                                                     options, x, y, iterations);
 
+      // A stop requested by the user also stops feasibility restoration
+      if (user_requested_stop) {
+        return ExitStatus::CALLBACK_REQUESTED_STOP;
+      }
+
       if (status != ExitStatus::SUCCESS) {
         // Report failure
         return status;
-- 
2.43.0


From 468825665e271af6cd7aab8c512fb8edb8f2d9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:07 +0000
Subject: [PATCH 13/18] fix: assigning a function_ref refers to the other's
 callable

A non-const or temporary function_ref matched the callable overload, so the
assigned one referred to the other function_ref object (which may be gone)
or, for self-assignment, to itself.
---
 include/sleipnir/util/function_ref.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/sleipnir/util/function_ref.hpp b/include/sleipnir/util/function_ref.hpp
index 55cd08a..fcbca9a 100644
--- a/include/sleipnir/util/function_ref.hpp
+++ b/include/sleipnir/util/function_ref.hpp
@@ -55,10 +55,11 @@ class function_ref<R(Args...)> {
   /// @param f Callable to which to refer.
   /// @return `*this`
   template <typename F>
-    requires std::is_invocable_r_v<R, F&&, Args...>
+    requires(!std::is_same_v<std::decay_t<F>, function_ref> &&
+             std::is_invocable_r_v<R, F &&, Args...>)
   constexpr function_ref<R(Args...)>& operator=(F&& f) noexcept {
-    obj_ = reinterpret_cast<void*>(std::addressof(f));
-    callback_ = [](void* obj, Args... args) {
+    obj_ = const_cast<void*>(reinterpret_cast<const void*>(std::addressof(f)));
+    callback_ = [](void* obj, Args... args) -> R {
       return std::invoke(
           *reinterpret_cast<typename std::add_pointer<F>::type>(obj),
           std::forward<Args>(args)...);
-- 
2.43.0


From 3881c21c0eb6eaa0000006663f661a6bbf77e1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:09 +0000
Subject: [PATCH 14/18] fix: copy assignment of a shared pointer whose source
 its old object owns

Releasing the old object first destroyed rhs (and possibly the object it
points to) before it was read, e.g. for node = node->child.
---
 .../sleipnir/util/intrusive_shared_ptr.hpp    | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/sleipnir/util/intrusive_shared_ptr.hpp b/include/sleipnir/util/intrusive_shared_ptr.hpp
index b4f0c32..808f0ba 100644
--- a/include/sleipnir/util/intrusive_shared_ptr.hpp
+++ b/include/sleipnir/util/intrusive_shared_ptr.hpp
@@ -86,16 +86,17 @@ class IntrusiveSharedPtr {
       return *this;
     }
 
-    if (m_ptr != nullptr) {
-      dec_ref_count(m_ptr);
-    }
-
-    m_ptr = rhs.m_ptr;
+    // Release the old object last since it may own rhs
+    auto old_ptr = std::exchange(m_ptr, rhs.m_ptr);
 
     if (m_ptr != nullptr) {
       inc_ref_count(m_ptr);
     }
 
+    if (old_ptr != nullptr) {
+      dec_ref_count(old_ptr);
+    }
+
     return *this;
   }
 
@@ -112,16 +113,17 @@ class IntrusiveSharedPtr {
       return *this;
     }
 
-    if (m_ptr != nullptr) {
-      dec_ref_count(m_ptr);
-    }
-
-    m_ptr = rhs.m_ptr;
+    // Release the old object last since it may own rhs
+    auto old_ptr = std::exchange(m_ptr, rhs.m_ptr);
 
     if (m_ptr != nullptr) {
       inc_ref_count(m_ptr);
     }
 
+    if (old_ptr != nullptr) {
+      dec_ref_count(old_ptr);
+    }
+
     return *this;
   }
 
-- 
2.43.0


From 55bda4df0ebfa5cb6b22b4fbd7dbf9e6195c3bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 15/18] fix: move assignment of a shared pointer whose source
 its old object owns

Swapping left the old object owning itself, so node = std::move(node->child)
leaked it, and move assignment from a pointer to a derived type didn't
compile.
---
 include/sleipnir/util/intrusive_shared_ptr.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/util/intrusive_shared_ptr.hpp b/include/sleipnir/util/intrusive_shared_ptr.hpp
index 808f0ba..039ff05 100644
--- a/include/sleipnir/util/intrusive_shared_ptr.hpp
+++ b/include/sleipnir/util/intrusive_shared_ptr.hpp
@@ -152,7 +152,12 @@ class IntrusiveSharedPtr {
       return *this;
     }
 
-    std::swap(m_ptr, rhs.m_ptr);
+    // Release the old object last since it may own rhs
+    auto old_ptr = std::exchange(m_ptr, std::exchange(rhs.m_ptr, nullptr));
+
+    if (old_ptr != nullptr) {
+      dec_ref_count(old_ptr);
+    }
 
     return *this;
   }
@@ -169,7 +174,12 @@ class IntrusiveSharedPtr {
       return *this;
     }
 
-    std::swap(m_ptr, rhs.m_ptr);
+    // Release the old object last since it may own rhs
+    auto old_ptr = std::exchange(m_ptr, std::exchange(rhs.m_ptr, nullptr));
+
+    if (old_ptr != nullptr) {
+      dec_ref_count(old_ptr);
+    }
 
     return *this;
   }
-- 
2.43.0


From 9d5b8ea5845119e95f821789208bfdc732e2ff3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:48 +0000
Subject: [PATCH 16/18] fix: slice of a single index INT_MAX overflowed

---
 include/sleipnir/autodiff/slice.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/sleipnir/autodiff/slice.hpp b/include/sleipnir/autodiff/slice.hpp
index be4f477..b37e556 100644
--- a/include/sleipnir/autodiff/slice.hpp
+++ b/include/sleipnir/autodiff/slice.hpp
@@ -47,7 +47,10 @@ class SLEIPNIR_DLLEXPORT Slice {
   // NOLINTNEXTLINE (google-explicit-constructor)
   constexpr Slice(int start) {
     this->start = start;
-    this->stop = (start == -1) ? std::numeric_limits<int>::max() : start + 1;
+    // Avoid UB for start + 1 if start is INT_MAX
+    this->stop = (start == -1 || start == std::numeric_limits<int>::max())
+                     ? std::numeric_limits<int>::max()
+                     : start + 1;
     this->step = 1;
   }
 
-- 
2.43.0


From 762b69f622c5d118ec37f9f118724e6892e5e17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 17/18] fix: solvers: do not accept a trial point with
 nonfinite cost after a failed line search

---
 include/sleipnir/optimization/solver/interior_point.hpp | 6 ++++--
 include/sleipnir/optimization/solver/newton.hpp         | 9 +++++----
 include/sleipnir/optimization/solver/sqp.hpp            | 6 ++++--
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index 81d714b..8cacda7 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -708,8 +708,10 @@ ExitStatus interior_point(
             matrices.g(trial_x), matrices.A_e(trial_x), trial_c_e,
             matrices.A_i(trial_x), trial_c_i, trial_s, trial_y, trial_z, μ);
 
-        // If the step using αᵐᵃˣ reduced the KKT error, accept it anyway
-        if (next_kkt_error <= Scalar(0.999) * current_kkt_error) {
+        // If the step using αᵐᵃˣ has a finite cost and reduced the KKT error,
+        // accept it anyway
+        if (isfinite(trial_f) &&
+            next_kkt_error <= Scalar(0.999) * current_kkt_error) {
           // Accept step
           break;
         }
diff --git a/include/sleipnir/optimization/solver/newton.hpp b/include/sleipnir/optimization/solver/newton.hpp
index 12d1de5..23d5d9d 100644
--- a/include/sleipnir/optimization/solver/newton.hpp
+++ b/include/sleipnir/optimization/solver/newton.hpp
@@ -234,14 +234,15 @@ ExitStatus newton(
         Scalar current_kkt_error = kkt_error<Scalar, KKTErrorType::ONE_NORM>(g);
 
         trial_x = x + α_max * p_x;
+        trial_f = matrices.f(trial_x);
 
         Scalar next_kkt_error =
             kkt_error<Scalar, KKTErrorType::ONE_NORM>(matrices.g(trial_x));
 
-        // If the step using αᵐᵃˣ reduced the KKT error, accept it anyway
-        if (next_kkt_error <= Scalar(0.999) * current_kkt_error) {
-          trial_f = matrices.f(trial_x);
-
+        // If the step using αᵐᵃˣ has a finite cost and reduced the KKT error,
+        // accept it anyway
+        if (isfinite(trial_f) &&
+            next_kkt_error <= Scalar(0.999) * current_kkt_error) {
           // Accept step
           break;
         }
diff --git a/include/sleipnir/optimization/solver/sqp.hpp b/include/sleipnir/optimization/solver/sqp.hpp
index 914bdf0..392f671 100644
--- a/include/sleipnir/optimization/solver/sqp.hpp
+++ b/include/sleipnir/optimization/solver/sqp.hpp
@@ -496,8 +496,10 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
         Scalar next_kkt_error = kkt_error<Scalar, KKTErrorType::ONE_NORM>(
             matrices.g(trial_x), matrices.A_e(trial_x), trial_c_e, trial_y);
 
-        // If the step using αᵐᵃˣ reduced the KKT error, accept it anyway
-        if (next_kkt_error <= Scalar(0.999) * current_kkt_error) {
+        // If the step using αᵐᵃˣ has a finite cost and reduced the KKT error,
+        // accept it anyway
+        if (isfinite(trial_f) &&
+            next_kkt_error <= Scalar(0.999) * current_kkt_error) {
           // Accept step
           break;
         }
-- 
2.43.0


From 1b074ecb44b168c6b0fb8733aaf6eac59fdb1265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:16 +0000
Subject: [PATCH 18/18] fix: diagnostics: list equality constraints violated in
 either direction

---
 include/sleipnir/util/print_diagnostics.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/util/print_diagnostics.hpp b/include/sleipnir/util/print_diagnostics.hpp
index 86276da..ece6023 100644
--- a/include/sleipnir/util/print_diagnostics.hpp
+++ b/include/sleipnir/util/print_diagnostics.hpp
@@ -95,7 +95,7 @@ void print_too_few_dofs_error(
   slp::println("The problem has too few degrees of freedom.");
   slp::println("Violated constraints (cₑ(x) = 0) in order of declaration:");
   for (int row = 0; row < c_e.rows(); ++row) {
-    if (c_e[row] < Scalar(0)) {
+    if (c_e[row] != Scalar(0)) {
       slp::println("  {}/{}: {} = 0", row + 1, c_e.rows(), c_e[row]);
     }
   }
@@ -118,7 +118,7 @@ void print_c_e_local_infeasibility_error(
       "constraints.");
   slp::println("Violated constraints (cₑ(x) = 0) in order of declaration:");
   for (int row = 0; row < c_e.rows(); ++row) {
-    if (c_e[row] < Scalar(0)) {
+    if (c_e[row] != Scalar(0)) {
       slp::println("  {}/{}: {} = 0", row + 1, c_e.rows(), c_e[row]);
     }
   }
-- 
2.43.0

