From c0f85069eb4571e915bb55198953d8b0a0502a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:28 +0000
Subject: [PATCH 01/32] fix: Read rhs before releasing old object in
 IntrusiveSharedPtr copy assignment

---
 .../sleipnir/util/intrusive_shared_ptr.hpp    | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/sleipnir/util/intrusive_shared_ptr.hpp b/include/sleipnir/util/intrusive_shared_ptr.hpp
index b4f0c32..0cec3ad 100644
--- a/include/sleipnir/util/intrusive_shared_ptr.hpp
+++ b/include/sleipnir/util/intrusive_shared_ptr.hpp
@@ -86,16 +86,18 @@ class IntrusiveSharedPtr {
       return *this;
     }
 
-    if (m_ptr != nullptr) {
-      dec_ref_count(m_ptr);
-    }
-
-    m_ptr = rhs.m_ptr;
+    // Releasing the old object can destroy rhs (e.g., ptr = ptr->next), so take
+    // ownership of the new object first
+    T* old_ptr = std::exchange(m_ptr, rhs.m_ptr);
 
     if (m_ptr != nullptr) {
       inc_ref_count(m_ptr);
     }
 
+    if (old_ptr != nullptr) {
+      dec_ref_count(old_ptr);
+    }
+
     return *this;
   }
 
@@ -112,16 +114,18 @@ class IntrusiveSharedPtr {
       return *this;
     }
 
-    if (m_ptr != nullptr) {
-      dec_ref_count(m_ptr);
-    }
-
-    m_ptr = rhs.m_ptr;
+    // Releasing the old object can destroy rhs (e.g., ptr = ptr->next), so take
+    // ownership of the new object first
+    T* old_ptr = std::exchange(m_ptr, rhs.m_ptr);
 
     if (m_ptr != nullptr) {
       inc_ref_count(m_ptr);
     }
 
+    if (old_ptr != nullptr) {
+      dec_ref_count(old_ptr);
+    }
+
     return *this;
   }
 
-- 
2.43.0


From 4290ebe677058ef3dc0c22f1560305cfcc69b02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:28 +0000
Subject: [PATCH 02/32] fix: Make IntrusiveSharedPtr converting move assignment
 compile

---
 include/sleipnir/util/intrusive_shared_ptr.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/sleipnir/util/intrusive_shared_ptr.hpp b/include/sleipnir/util/intrusive_shared_ptr.hpp
index 0cec3ad..5eb7f27 100644
--- a/include/sleipnir/util/intrusive_shared_ptr.hpp
+++ b/include/sleipnir/util/intrusive_shared_ptr.hpp
@@ -171,7 +171,11 @@ class IntrusiveSharedPtr {
       return *this;
     }
 
-    std::swap(m_ptr, rhs.m_ptr);
+    T* old_ptr = std::exchange(m_ptr, std::exchange(rhs.m_ptr, nullptr));
+
+    if (old_ptr != nullptr) {
+      dec_ref_count(old_ptr);
+    }
 
     return *this;
   }
-- 
2.43.0


From cb55985a5f752a39a6643a458a5d2106f7ea0808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:10 +0000
Subject: [PATCH 03/32] fix: Avoid signed overflow in Slice(INT_MAX)

---
 include/sleipnir/autodiff/slice.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/sleipnir/autodiff/slice.hpp b/include/sleipnir/autodiff/slice.hpp
index be4f477..b37e556 100644
--- a/include/sleipnir/autodiff/slice.hpp
+++ b/include/sleipnir/autodiff/slice.hpp
@@ -47,7 +47,10 @@ class SLEIPNIR_DLLEXPORT Slice {
   // NOLINTNEXTLINE (google-explicit-constructor)
   constexpr Slice(int start) {
     this->start = start;
-    this->stop = (start == -1) ? std::numeric_limits<int>::max() : start + 1;
+    // Avoid UB for start + 1 if start is INT_MAX
+    this->stop = (start == -1 || start == std::numeric_limits<int>::max())
+                     ? std::numeric_limits<int>::max()
+                     : start + 1;
     this->step = 1;
   }
 
-- 
2.43.0


From 1b3c3332f3ddcb34c9474bd30a293e4de3f19d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:41 +0000
Subject: [PATCH 04/32] fix: Make function_ref assignment from a non-const
 function_ref copy its callable

---
 include/sleipnir/util/function_ref.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sleipnir/util/function_ref.hpp b/include/sleipnir/util/function_ref.hpp
index 55cd08a..fab629b 100644
--- a/include/sleipnir/util/function_ref.hpp
+++ b/include/sleipnir/util/function_ref.hpp
@@ -55,7 +55,8 @@ class function_ref<R(Args...)> {
   /// @param f Callable to which to refer.
   /// @return `*this`
   template <typename F>
-    requires std::is_invocable_r_v<R, F&&, Args...>
+    requires(!std::is_same_v<std::decay_t<F>, function_ref> &&
+             std::is_invocable_r_v<R, F &&, Args...>)
   constexpr function_ref<R(Args...)>& operator=(F&& f) noexcept {
     obj_ = reinterpret_cast<void*>(std::addressof(f));
     callback_ = [](void* obj, Args... args) {
-- 
2.43.0


From a20d9d019f44d69dcb55da758823464be746eae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:41 +0000
Subject: [PATCH 05/32] fix: Let function_ref refer to const callables and
 discard or convert their results

---
 include/sleipnir/util/function_ref.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/sleipnir/util/function_ref.hpp b/include/sleipnir/util/function_ref.hpp
index fab629b..968776c 100644
--- a/include/sleipnir/util/function_ref.hpp
+++ b/include/sleipnir/util/function_ref.hpp
@@ -37,7 +37,7 @@ class function_ref<R(Args...)> {
       : obj_(const_cast<void*>(
             reinterpret_cast<const void*>(std::addressof(f)))) {
     callback_ = [](void* obj, Args... args) -> R {
-      return std::invoke(
+      return std::invoke_r<R>(
           *reinterpret_cast<typename std::add_pointer<F>::type>(obj),
           std::forward<Args>(args)...);
     };
@@ -58,9 +58,10 @@ class function_ref<R(Args...)> {
     requires(!std::is_same_v<std::decay_t<F>, function_ref> &&
              std::is_invocable_r_v<R, F &&, Args...>)
   constexpr function_ref<R(Args...)>& operator=(F&& f) noexcept {
-    obj_ = reinterpret_cast<void*>(std::addressof(f));
-    callback_ = [](void* obj, Args... args) {
-      return std::invoke(
+    obj_ = const_cast<void*>(
+        reinterpret_cast<const void*>(std::addressof(f)));
+    callback_ = [](void* obj, Args... args) -> R {
+      return std::invoke_r<R>(
           *reinterpret_cast<typename std::add_pointer<F>::type>(obj),
           std::forward<Args>(args)...);
     };
-- 
2.43.0


From 91c01adc266ff819c0d5f0bdab29a5a60979baf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:31 +0000
Subject: [PATCH 06/32] fix: Reject nonfinite constraint violations in Filter
 and report the rejection's reason

---
 include/sleipnir/optimization/solver/util/filter.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sleipnir/optimization/solver/util/filter.hpp b/include/sleipnir/optimization/solver/util/filter.hpp
index 5ecc11d..e047ea1 100644
--- a/include/sleipnir/optimization/solver/util/filter.hpp
+++ b/include/sleipnir/optimization/solver/util/filter.hpp
@@ -113,7 +113,9 @@ class Filter {
 
     // Reject steps with nonfinite cost or constraint violation above maximum
     if (!isfinite(trial_entry.cost) ||
+        !isfinite(trial_entry.constraint_violation) ||
         trial_entry.constraint_violation > max_constraint_violation) {
+      m_last_rejection_due_to_filter = false;
       return false;
     }
 
-- 
2.43.0


From 98985bb8ccf12ec0537a0f35869c1625d00539a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:52 +0000
Subject: [PATCH 07/32] fix: keep a free list per block size in PoolResource

Blocks were carved with the size of the first allocation, so mixing scalar
types of different sizes handed out overlapping blocks.
---
 include/sleipnir/util/pool.hpp | 47 ++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/include/sleipnir/util/pool.hpp b/include/sleipnir/util/pool.hpp
index 32c4495..aea2cea 100644
--- a/include/sleipnir/util/pool.hpp
+++ b/include/sleipnir/util/pool.hpp
@@ -4,6 +4,7 @@
 
 #include <cstddef>
 #include <memory>
+#include <utility>
 
 #include <gch/small_vector.hpp>
 
@@ -48,24 +49,26 @@ class SLEIPNIR_DLLEXPORT PoolResource {
   [[nodiscard]]
   void* allocate(size_t bytes, [[maybe_unused]] size_t alignment =
                                    alignof(std::max_align_t)) {
-    if (m_free_list.empty()) {
-      add_chunk(bytes);
+    auto& list = free_list(bytes);
+
+    if (list.empty()) {
+      add_chunk(bytes, list);
     }
 
-    auto ptr = m_free_list.back();
-    m_free_list.pop_back();
+    auto ptr = list.back();
+    list.pop_back();
     return ptr;
   }
 
   /// Gives a block of memory back to the pool.
   ///
   /// @param p A pointer to the block of memory.
-  /// @param bytes Number of bytes in the block (unused).
+  /// @param bytes Number of bytes in the block.
   /// @param alignment Alignment of the block (unused).
   void deallocate(
-      void* p, [[maybe_unused]] size_t bytes,
+      void* p, size_t bytes,
       [[maybe_unused]] size_t alignment = alignof(std::max_align_t)) {
-    m_free_list.emplace_back(p);
+    free_list(bytes).emplace_back(p);
   }
 
   /// Returns true if this pool resource has the same backing storage as
@@ -82,22 +85,44 @@ class SLEIPNIR_DLLEXPORT PoolResource {
   ///
   /// @return The number of blocks from this pool resource that are in use.
   size_t blocks_in_use() const noexcept {
-    return m_buffer.size() * blocks_per_chunk - m_free_list.size();
+    size_t blocks = m_buffer.size() * blocks_per_chunk;
+    for (const auto& [bytes, list] : m_free_lists) {
+      blocks -= list.size();
+    }
+    return blocks;
   }
 
  private:
   gch::small_vector<std::unique_ptr<std::byte[]>> m_buffer;
-  gch::small_vector<void*> m_free_list;
+
+  /// Pairs of block size in bytes and list of free blocks with that size.
+  gch::small_vector<std::pair<size_t, gch::small_vector<void*>>> m_free_lists;
+
   size_t blocks_per_chunk;
 
+  /// Returns the list of free blocks with the given number of bytes.
+  ///
+  /// @param bytes_per_block Number of bytes in the block.
+  /// @return The list of free blocks with the given number of bytes.
+  gch::small_vector<void*>& free_list(size_t bytes_per_block) {
+    for (auto& [bytes, list] : m_free_lists) {
+      if (bytes == bytes_per_block) {
+        return list;
+      }
+    }
+    m_free_lists.emplace_back(bytes_per_block, gch::small_vector<void*>{});
+    return m_free_lists.back().second;
+  }
+
   /// Adds a memory chunk to the pool, partitions it into blocks with the given
   /// number of bytes, and appends pointers to them to the free list.
   ///
   /// @param bytes_per_block Number of bytes in the block.
-  void add_chunk(size_t bytes_per_block) {
+  /// @param list The free list for blocks with that size.
+  void add_chunk(size_t bytes_per_block, gch::small_vector<void*>& list) {
     m_buffer.emplace_back(new std::byte[bytes_per_block * blocks_per_chunk]);
     for (int i = blocks_per_chunk - 1; i >= 0; --i) {
-      m_free_list.emplace_back(m_buffer.back().get() + bytes_per_block * i);
+      list.emplace_back(m_buffer.back().get() + bytes_per_block * i);
     }
   }
 };
-- 
2.43.0


From 1f58aab2b05fad7305da3a2a92c2fecd10c3b84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:10 +0000
Subject: [PATCH 08/32] fix: make views of const matrices readable

Indexing a non-const view of a const matrix with [row, col] was ambiguous
(GCC parses it as a comma expression and silently reads element col), nested
views and segments of a const view of a mutable matrix did not compile, and
const_iterator's postfix decrement returned the wrong iterator type.
---
 include/sleipnir/autodiff/variable_block.hpp | 21 ++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/sleipnir/autodiff/variable_block.hpp b/include/sleipnir/autodiff/variable_block.hpp
index 9edeb0e..5833aa3 100644
--- a/include/sleipnir/autodiff/variable_block.hpp
+++ b/include/sleipnir/autodiff/variable_block.hpp
@@ -29,6 +29,11 @@ class VariableBlock : public SleipnirBase {
   /// Scalar type alias.
   using Scalar = typename Mat::Scalar;
 
+  /// Element reference type; elements of a const matrix are const.
+  using Reference = std::conditional_t<std::is_const_v<Mat>,
+                                       const Variable<Scalar>&,
+                                       Variable<Scalar>&>;
+
   /// Copy constructor.
   VariableBlock(const VariableBlock<Mat>&) = default;
 
@@ -221,9 +226,7 @@ class VariableBlock : public SleipnirBase {
   /// @param row The scalar subblock's row.
   /// @param col The scalar subblock's column.
   /// @return A scalar subblock at the given row and column.
-  Variable<Scalar>& operator[](int row, int col)
-    requires(!std::is_const_v<Mat>)
-  {
+  Reference operator[](int row, int col) {
     slp_assert(row >= 0 && row < rows());
     slp_assert(col >= 0 && col < cols());
     return (*m_mat)[m_row_slice.start + row * m_row_slice.step,
@@ -246,9 +249,7 @@ class VariableBlock : public SleipnirBase {
   ///
   /// @param index The scalar subblock's index.
   /// @return A scalar subblock at the given index.
-  Variable<Scalar>& operator[](int index)
-    requires(!std::is_const_v<Mat>)
-  {
+  Reference operator[](int index) {
     slp_assert(index >= 0 && index < rows() * cols());
     return (*this)[index / cols(), index % cols()];
   }
@@ -357,7 +358,7 @@ class VariableBlock : public SleipnirBase {
                                             int row_slice_length,
                                             Slice col_slice,
                                             int col_slice_length) const {
-    return VariableBlock{
+    return VariableBlock<const Mat>{
         *m_mat,
         {m_row_slice.start + row_slice.start * m_row_slice.step,
          m_row_slice.start + row_slice.stop * m_row_slice.step,
@@ -386,7 +387,7 @@ class VariableBlock : public SleipnirBase {
   /// @param offset The offset of the segment.
   /// @param length The length of the segment.
   /// @return A segment of the variable vector.
-  const VariableBlock<Mat> segment(int offset, int length) const {
+  const VariableBlock<const Mat> segment(int offset, int length) const {
     slp_assert(cols() == 1);
     slp_assert(offset >= 0 && offset < rows());
     slp_assert(length >= 0 && length <= rows() - offset);
@@ -639,7 +640,7 @@ class VariableBlock : public SleipnirBase {
     using value_type = Variable<Scalar>;
     using difference_type = std::ptrdiff_t;
     using pointer = Variable<Scalar>*;
-    using reference = Variable<Scalar>&;
+    using reference = Reference;
 
     constexpr iterator() noexcept = default;
 
@@ -707,7 +708,7 @@ class VariableBlock : public SleipnirBase {
     }
 
     constexpr const_iterator operator--(int) noexcept {
-      iterator retval = *this;
+      const_iterator retval = *this;
       --(*this);
       return retval;
     }
-- 
2.43.0


From b89142750069a0e99414a203584fca5ea4964178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:19 +0000
Subject: [PATCH 09/32] fix: read operands of block assignments before
 overwriting them

Assigning overlapping blocks of one matrix, and compound assignment whose
right-hand side is (part of) the destination, read elements that had
already been overwritten.
---
 include/sleipnir/autodiff/variable_block.hpp  | 51 +++++++++----------
 include/sleipnir/autodiff/variable_matrix.hpp | 30 +++--------
 2 files changed, 31 insertions(+), 50 deletions(-)

diff --git a/include/sleipnir/autodiff/variable_block.hpp b/include/sleipnir/autodiff/variable_block.hpp
index 5833aa3..a35cc15 100644
--- a/include/sleipnir/autodiff/variable_block.hpp
+++ b/include/sleipnir/autodiff/variable_block.hpp
@@ -55,6 +55,11 @@ class VariableBlock : public SleipnirBase {
     } else {
       slp_assert(rows() == values.rows() && cols() == values.cols());
 
+      if (m_mat == values.m_mat) {
+        // The blocks may overlap, so read all values before writing any
+        return *this = Mat{values};
+      }
+
       for (int row = 0; row < rows(); ++row) {
         for (int col = 0; col < cols(); ++col) {
           (*this)[row, col] = values[row, col];
@@ -86,6 +91,11 @@ class VariableBlock : public SleipnirBase {
     } else {
       slp_assert(rows() == values.rows() && cols() == values.cols());
 
+      if (m_mat == values.m_mat) {
+        // The blocks may overlap, so read all values before writing any
+        return *this = Mat{values};
+      }
+
       for (int row = 0; row < rows(); ++row) {
         for (int col = 0; col < cols(); ++col) {
           (*this)[row, col] = values[row, col];
@@ -198,6 +208,11 @@ class VariableBlock : public SleipnirBase {
   VariableBlock<Mat>& operator=(const Mat& values) {
     slp_assert(rows() == values.rows() && cols() == values.cols());
 
+    if (m_mat == &values) {
+      // The block is part of the matrix, so read all values before writing any
+      return *this = Mat{values};
+    }
+
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
         (*this)[row, col] = values[row, col];
@@ -437,25 +452,15 @@ class VariableBlock : public SleipnirBase {
   VariableBlock<Mat>& operator*=(const MatrixLike auto& rhs) {
     slp_assert(cols() == rhs.rows() && cols() == rhs.cols());
 
-    for (int i = 0; i < rows(); ++i) {
-      Mat lhs_old_row = row(i);
-      for (int j = 0; j < rhs.cols(); ++j) {
-        Variable sum{Scalar(0)};
-        for (int k = 0; k < cols(); ++k) {
-          sum += lhs_old_row[k] * rhs[k, j];
-        }
-        (*this)[i, j] = sum;
-      }
-    }
-
-    return *this;
+    // rhs may overlap this block, so compute all values before writing any
+    return *this = *this * rhs;
   }
 
   /// Compound matrix multiplication-assignment operator.
   ///
   /// @param rhs Variable to multiply.
   /// @return Result of multiplication.
-  VariableBlock<Mat>& operator*=(const ScalarLike auto& rhs) {
+  VariableBlock<Mat>& operator*=(const ScalarLike auto rhs) {
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
         (*this)[row, col] *= rhs;
@@ -469,7 +474,7 @@ class VariableBlock : public SleipnirBase {
   ///
   /// @param rhs Variable to divide.
   /// @return Result of division.
-  VariableBlock<Mat>& operator/=(const ScalarLike auto& rhs) {
+  VariableBlock<Mat>& operator/=(const ScalarLike auto rhs) {
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
         (*this)[row, col] /= rhs;
@@ -486,13 +491,8 @@ class VariableBlock : public SleipnirBase {
   VariableBlock<Mat>& operator+=(const MatrixLike auto& rhs) {
     slp_assert(rows() == rhs.rows() && cols() == rhs.cols());
 
-    for (int row = 0; row < rows(); ++row) {
-      for (int col = 0; col < cols(); ++col) {
-        (*this)[row, col] += rhs[row, col];
-      }
-    }
-
-    return *this;
+    // rhs may overlap this block, so compute all values before writing any
+    return *this = *this + rhs;
   }
 
   /// Compound addition-assignment operator.
@@ -518,13 +518,8 @@ class VariableBlock : public SleipnirBase {
   VariableBlock<Mat>& operator-=(const MatrixLike auto& rhs) {
     slp_assert(rows() == rhs.rows() && cols() == rhs.cols());
 
-    for (int row = 0; row < rows(); ++row) {
-      for (int col = 0; col < cols(); ++col) {
-        (*this)[row, col] -= rhs[row, col];
-      }
-    }
-
-    return *this;
+    // rhs may overlap this block, so compute all values before writing any
+    return *this = *this - rhs;
   }
 
   /// Compound subtraction-assignment operator.
diff --git a/include/sleipnir/autodiff/variable_matrix.hpp b/include/sleipnir/autodiff/variable_matrix.hpp
index 6562a6a..970113c 100644
--- a/include/sleipnir/autodiff/variable_matrix.hpp
+++ b/include/sleipnir/autodiff/variable_matrix.hpp
@@ -643,16 +643,8 @@ class VariableMatrix : public SleipnirBase {
   VariableMatrix& operator*=(const MatrixLike auto& rhs) {
     slp_assert(cols() == rhs.rows() && cols() == rhs.cols());
 
-    for (int i = 0; i < rows(); ++i) {
-      VariableMatrix lhs_old_row = row(i);
-      for (int j = 0; j < rhs.cols(); ++j) {
-        Variable sum{Scalar(0)};
-        for (int k = 0; k < cols(); ++k) {
-          sum += lhs_old_row[k] * rhs[k, j];
-        }
-        (*this)[i, j] = sum;
-      }
-    }
+    // rhs may overlap this matrix, so compute all values before writing any
+    block(0, 0, rows(), cols()) = *this * rhs;
 
     return *this;
   }
@@ -661,7 +653,7 @@ class VariableMatrix : public SleipnirBase {
   ///
   /// @param rhs Variable to multiply.
   /// @return Result of multiplication.
-  VariableMatrix& operator*=(const ScalarLike auto& rhs) {
+  VariableMatrix& operator*=(const ScalarLike auto rhs) {
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
         (*this)[row, col] *= rhs;
@@ -732,7 +724,7 @@ class VariableMatrix : public SleipnirBase {
   ///
   /// @param rhs Variable to divide.
   /// @return Result of division.
-  VariableMatrix& operator/=(const ScalarLike auto& rhs) {
+  VariableMatrix& operator/=(const ScalarLike auto rhs) {
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
         (*this)[row, col] /= rhs;
@@ -809,11 +801,8 @@ class VariableMatrix : public SleipnirBase {
   VariableMatrix& operator+=(const MatrixLike auto& rhs) {
     slp_assert(rows() == rhs.rows() && cols() == rhs.cols());
 
-    for (int row = 0; row < rows(); ++row) {
-      for (int col = 0; col < cols(); ++col) {
-        (*this)[row, col] += rhs[row, col];
-      }
-    }
+    // rhs may overlap this matrix, so compute all values before writing any
+    block(0, 0, rows(), cols()) = *this + rhs;
 
     return *this;
   }
@@ -901,11 +890,8 @@ class VariableMatrix : public SleipnirBase {
   VariableMatrix& operator-=(const MatrixLike auto& rhs) {
     slp_assert(rows() == rhs.rows() && cols() == rhs.cols());
 
-    for (int row = 0; row < rows(); ++row) {
-      for (int col = 0; col < cols(); ++col) {
-        (*this)[row, col] -= rhs[row, col];
-      }
-    }
+    // rhs may overlap this matrix, so compute all values before writing any
+    block(0, 0, rows(), cols()) = *this - rhs;
 
     return *this;
   }
-- 
2.43.0


From e8fba636d93d59c8b3b11116a58ee862f751af98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:23 +0000
Subject: [PATCH 10/32] fix: never prefer a failed multistart result to a
 successful one

The comparator fell through to comparing costs when only the second result
was successful, so a cheaper failed solve could win.
---
 include/sleipnir/optimization/multistart.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/optimization/multistart.hpp b/include/sleipnir/optimization/multistart.hpp
index 9527994..415cd27 100644
--- a/include/sleipnir/optimization/multistart.hpp
+++ b/include/sleipnir/optimization/multistart.hpp
@@ -64,8 +64,10 @@ MultistartResult<Scalar, DecisionVariables> multistart(
 
   return *std::ranges::min_element(results, [](const auto& a, const auto& b) {
     // Prioritize successful solve
-    if (a.status == ExitStatus::SUCCESS && b.status != ExitStatus::SUCCESS) {
-      return true;
+    bool a_success = a.status == ExitStatus::SUCCESS;
+    bool b_success = b.status == ExitStatus::SUCCESS;
+    if (a_success != b_success) {
+      return a_success;
     }
 
     // Otherwise prioritize solution with lower cost
-- 
2.43.0


From cc5473f6e36e3d96b9ab7a6172cc6357160409f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:03 +0000
Subject: [PATCH 11/32] fix: tolerate linear constraints without exactly one
 nonzero gradient entry

A constraint whose variables cancel, or that depends on no decision
variable, hit an assertion (or a null dereference with assertions off), and
a bound written with a cancelling variable was not recognized.
---
 .../optimization/solver/util/bounds.hpp       | 29 ++++++++++---------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/include/sleipnir/optimization/solver/util/bounds.hpp b/include/sleipnir/optimization/solver/util/bounds.hpp
index 85e46fb..439e23c 100644
--- a/include/sleipnir/optimization/solver/util/bounds.hpp
+++ b/include/sleipnir/optimization/solver/util/bounds.hpp
@@ -104,10 +104,22 @@ Bounds<Scalar> get_bounds(
     }
     const Eigen::SparseVector<Scalar>& row_A_i =
         A_i.innerVector(constraint_index);
-    const auto non_zeros = row_A_i.nonZeros();
-    slp_assert(non_zeros != 0);
-    if (non_zeros > 1) {
-      // Constraint is in more than one variable and therefore not a bound.
+    // Find the nonzero values in the constraint's gradient. There may be none
+    // (e.g., the constraint only depends on variables that aren't decision
+    // variables), and values that cancelled out are stored as zeros.
+    int non_zeros = 0;
+    Scalar constraint_coefficient(0);
+    Eigen::Index decision_variable_index = 0;
+    for (typename Eigen::SparseVector<Scalar>::InnerIterator it{row_A_i}; it;
+         ++it) {
+      if (it.value() != Scalar(0)) {
+        ++non_zeros;
+        constraint_coefficient = it.value();
+        decision_variable_index = it.index();
+      }
+    }
+    if (non_zeros != 1) {
+      // Constraint isn't in exactly one variable and is therefore not a bound.
       continue;
     }
 
@@ -119,11 +131,6 @@ Bounds<Scalar> get_bounds(
     // and a ≠ 0. The gradient of c is then aeᵢ (where eᵢ denotes the i-th basis
     // element), and c(0) = b. If c(x) ≥ 0, then since either a < 0 or a > 0, we
     // have either x ≤ -b/a or x ≥ -b/a, respectively. ∎
-    typename Eigen::SparseVector<Scalar>::InnerIterator row_iter(row_A_i);
-    const auto constraint_coefficient =
-        row_iter
-            .value();  // The nonzero value of the j-th constraint's gradient.
-    const auto decision_variable_index = row_iter.index();
     const auto decision_variable_value =
         decision_variables[decision_variable_index].value();
     Scalar constraint_constant;
@@ -137,10 +144,6 @@ Bounds<Scalar> get_bounds(
       constraint_constant = inequality_constraints[constraint_index].value();
     }
 
-    // Shouldn't happen since the constraint is supposed to be linear and not a
-    // constant.
-    slp_assert(constraint_coefficient != Scalar(0));
-
     using std::isfinite;
 
     // We should always get a finite value when evaluating the constraint at
-- 
2.43.0


From 21063cf7c2bcd0e8aeb79d4c4569a537dff50562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:33 +0000
Subject: [PATCH 12/32] fix: write out identity scaling factors in feasibility
 restoration

---
 .../solver/util/feasibility_restoration.hpp   | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
index 2261215..70bc43e 100644
--- a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
+++ b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
@@ -176,8 +176,12 @@ ExitStatus feasibility_restoration(
 
   // Inherit the parent problem's scaling for the constraints, and use no
   // scaling for the cost function since it has changed. The new rows introduced
-  // are not scaled.
-  const ProblemScaling<Scalar> fr_scaling{Scalar(1), matrices.scaling.c_e,
+  // are not scaled. Identity scaling stores no constraint factors, so write them
+  // out.
+  const ProblemScaling<Scalar> fr_scaling{Scalar(1),
+                                          matrices.scaling.is_identity()
+                                              ? DenseVector::Ones(num_eq).eval()
+                                              : matrices.scaling.c_e,
                                           DenseVector::Ones(2 * num_eq)};
 
   InteriorPointMatrixCallbacks<Scalar> fr_matrix_callbacks{
@@ -422,11 +426,18 @@ ExitStatus feasibility_restoration(
 
   // Inherit the parent problem's scaling for the constraints, and use no
   // scaling for the cost function since it has changed. The new rows introduced
-  // are not scaled.
-  DenseVector fr_d_c_i{c_i.rows() + 2 * num_eq + 2 * num_ineq};
-  fr_d_c_i << matrices.scaling.c_i,
-      DenseVector::Ones(2 * num_eq + 2 * num_ineq);
-  const ProblemScaling<Scalar> fr_scaling{Scalar(1), matrices.scaling.c_e,
+  // are not scaled. Identity scaling stores no constraint factors, so write them
+  // out.
+  const bool identity_scaling = matrices.scaling.is_identity();
+  DenseVector fr_d_c_i =
+      DenseVector::Ones(c_i.rows() + 2 * num_eq + 2 * num_ineq);
+  if (!identity_scaling) {
+    fr_d_c_i.segment(0, c_i.rows()) = matrices.scaling.c_i;
+  }
+  const ProblemScaling<Scalar> fr_scaling{Scalar(1),
+                                          identity_scaling
+                                              ? DenseVector::Ones(num_eq).eval()
+                                              : matrices.scaling.c_e,
                                           fr_d_c_i};
 
   InteriorPointMatrixCallbacks<Scalar> fr_matrix_callbacks{
-- 
2.43.0


From cb137f9a1ce8f20f56fc42b4d3280d25bd23cfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:33 +0000
Subject: [PATCH 13/32] fix: iteration callbacks see the original problem
 during feasibility restoration and can stop it

---
 .../optimization/solver/interior_point.hpp    | 41 ++++++++++++++++++-
 include/sleipnir/optimization/solver/sqp.hpp  | 36 +++++++++++++++-
 2 files changed, 73 insertions(+), 4 deletions(-)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index 408cbaa..751f2fa 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -732,9 +732,42 @@ ExitStatus interior_point(
       // Feasibility restoration phase
       gch::small_vector<std::function<bool(const IterationInfo<Scalar>& info)>>
           callbacks;
-      for (auto& callback : iteration_callbacks) {
-        callbacks.emplace_back(callback);
+
+      // Iteration callbacks get information about the original problem instead
+      // of the feasibility restoration problem. They were already called for
+      // the current iteration.
+      const int initial_iteration = iterations;
+      bool stop_requested = false;
+      if (!iteration_callbacks.empty()) {
+        callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
+          if (info.iteration == initial_iteration) {
+            return false;
+          }
+
+          const DenseVector x =
+              info.x.segment(0, matrices.num_decision_variables);
+          const DenseVector s =
+              info.s.segment(0, matrices.num_inequality_constraints);
+          const DenseVector& y = info.y;
+          const DenseVector z =
+              info.z.segment(0, matrices.num_inequality_constraints);
+
+          const SparseVector g = matrices.g(x);
+          const SparseMatrix H = matrices.H(x, y, z);
+          const SparseMatrix A_e = matrices.A_e(x);
+          const SparseMatrix A_i = matrices.A_i(x);
+
+          for (const auto& callback : iteration_callbacks) {
+            if (callback({info.iteration, x, s, y, z, g, H, A_e, A_i})) {
+              stop_requested = true;
+              return true;
+            }
+          }
+
+          return false;
+        });
       }
+
       callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
         DenseVector trial_x =
             info.x.segment(0, matrices.num_decision_variables);
@@ -761,6 +794,10 @@ ExitStatus interior_point(
 #endif
                                           x, s, y, z, μ, iterations);
 
+      if (stop_requested) {
+        return ExitStatus::CALLBACK_REQUESTED_STOP;
+      }
+
       if (status != ExitStatus::SUCCESS) {
         // Report failure
         return status;
diff --git a/include/sleipnir/optimization/solver/sqp.hpp b/include/sleipnir/optimization/solver/sqp.hpp
index f3c3cfb..22abee1 100644
--- a/include/sleipnir/optimization/solver/sqp.hpp
+++ b/include/sleipnir/optimization/solver/sqp.hpp
@@ -515,9 +515,37 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
       // Feasibility restoration phase
       gch::small_vector<std::function<bool(const IterationInfo<Scalar>& info)>>
           callbacks;
-      for (auto& callback : iteration_callbacks) {
-        callbacks.emplace_back(callback);
+
+      // Iteration callbacks get information about the original problem instead
+      // of the feasibility restoration problem. They were already called for
+      // the current iteration.
+      const int initial_iteration = iterations;
+      bool stop_requested = false;
+      if (!iteration_callbacks.empty()) {
+        callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
+          if (info.iteration == initial_iteration) {
+            return false;
+          }
+
+          const DenseVector x =
+              info.x.segment(0, matrices.num_decision_variables);
+          const DenseVector& y = info.y;
+
+          const SparseVector g = matrices.g(x);
+          const SparseMatrix H = matrices.H(x, y);
+          const SparseMatrix A_e = matrices.A_e(x);
+
+          for (const auto& callback : iteration_callbacks) {
+            if (callback({info.iteration, x, {}, y, {}, g, H, A_e, {}})) {
+              stop_requested = true;
+              return true;
+            }
+          }
+
+          return false;
+        });
       }
+
       callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
         DenseVector trial_x =
             info.x.segment(0, matrices.num_decision_variables);
@@ -536,6 +564,10 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
       auto status = feasibility_restoration<Scalar>(matrices, callbacks,
                                                     options, x, y, iterations);
 
+      if (stop_requested) {
+        return ExitStatus::CALLBACK_REQUESTED_STOP;
+      }
+
       if (status != ExitStatus::SUCCESS) {
         // Report failure
         return status;
-- 
2.43.0


From 07d7cadfa4ccdf87f8da492c6d2341119ba830b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:33 +0000
Subject: [PATCH 14/32] fix: never report success with nonfinite residuals or
 factorize nonfinite systems

---
 .../optimization/solver/interior_point.hpp    |  6 ++--
 .../sleipnir/optimization/solver/newton.hpp   | 12 ++++---
 include/sleipnir/optimization/solver/sqp.hpp  |  6 ++--
 .../optimization/solver/util/kkt_error.hpp    | 34 +++++++++++++------
 4 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index 751f2fa..c2867ec 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -460,7 +460,8 @@ ExitStatus interior_point(
     //
     // [H + AᵢᵀΣAᵢ  Aₑᵀ][ pˣ] = −[∇f − Aₑᵀy − Aᵢᵀ(−Σcᵢ + μS⁻¹e + z)]
     // [    Aₑ       0 ][−pʸ]    [               cₑ                ]
-    if (solver.compute(lhs).info() != Eigen::Success) [[unlikely]] {
+    if (!all_finite(lhs) || !rhs.allFinite() ||
+        solver.compute(lhs).info() != Eigen::Success) [[unlikely]] {
       return ExitStatus::FACTORIZATION_FAILED;
     }
 
@@ -706,7 +707,8 @@ ExitStatus interior_point(
             matrices.A_i(trial_x), trial_c_i, trial_s, trial_y, trial_z, μ);
 
         // If the step using αᵐᵃˣ reduced the KKT error, accept it anyway
-        if (next_kkt_error <= Scalar(0.999) * current_kkt_error) {
+        if (isfinite(trial_f) &&
+            next_kkt_error <= Scalar(0.999) * current_kkt_error) {
           // Accept step
           break;
         }
diff --git a/include/sleipnir/optimization/solver/newton.hpp b/include/sleipnir/optimization/solver/newton.hpp
index 76304f0..00de631 100644
--- a/include/sleipnir/optimization/solver/newton.hpp
+++ b/include/sleipnir/optimization/solver/newton.hpp
@@ -183,7 +183,10 @@ ExitStatus newton(
     // Solve the Newton-KKT system
     //
     // Hpˣ = −∇f
-    solver.compute(H);
+    if (!all_finite(g) || !all_finite(H) ||
+        solver.compute(H).info() != Eigen::Success) [[unlikely]] {
+      return ExitStatus::FACTORIZATION_FAILED;
+    }
 
     kkt_matrix_decomp_profiler.stop();
     ScopedProfiler kkt_system_solve_profiler{kkt_system_solve_prof};
@@ -231,13 +234,14 @@ ExitStatus newton(
 
         trial_x = x + α_max * p_x;
 
+        trial_f = matrices.f(trial_x);
+
         Scalar next_kkt_error =
             kkt_error<Scalar, KKTErrorType::ONE_NORM>(matrices.g(trial_x));
 
         // If the step using αᵐᵃˣ reduced the KKT error, accept it anyway
-        if (next_kkt_error <= Scalar(0.999) * current_kkt_error) {
-          trial_f = matrices.f(trial_x);
-
+        if (isfinite(trial_f) &&
+            next_kkt_error <= Scalar(0.999) * current_kkt_error) {
           // Accept step
           break;
         }
diff --git a/include/sleipnir/optimization/solver/sqp.hpp b/include/sleipnir/optimization/solver/sqp.hpp
index 22abee1..be9f379 100644
--- a/include/sleipnir/optimization/solver/sqp.hpp
+++ b/include/sleipnir/optimization/solver/sqp.hpp
@@ -317,7 +317,8 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
     //
     // [H   Aₑᵀ][ pˣ] = −[∇f − Aₑᵀy]
     // [Aₑ   0 ][−pʸ]    [   cₑ    ]
-    if (solver.compute(lhs).info() != Eigen::Success) [[unlikely]] {
+    if (!all_finite(lhs) || !rhs.allFinite() ||
+        solver.compute(lhs).info() != Eigen::Success) [[unlikely]] {
       return ExitStatus::FACTORIZATION_FAILED;
     }
 
@@ -494,7 +495,8 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
             matrices.g(trial_x), matrices.A_e(trial_x), trial_c_e, trial_y);
 
         // If the step using αᵐᵃˣ reduced the KKT error, accept it anyway
-        if (next_kkt_error <= Scalar(0.999) * current_kkt_error) {
+        if (isfinite(trial_f) &&
+            next_kkt_error <= Scalar(0.999) * current_kkt_error) {
           // Accept step
           break;
         }
diff --git a/include/sleipnir/optimization/solver/util/kkt_error.hpp b/include/sleipnir/optimization/solver/util/kkt_error.hpp
index 1e391ad..50dd42e 100644
--- a/include/sleipnir/optimization/solver/util/kkt_error.hpp
+++ b/include/sleipnir/optimization/solver/util/kkt_error.hpp
@@ -3,6 +3,7 @@
 #pragma once
 
 #include <algorithm>
+#include <limits>
 
 #include <Eigen/Core>
 #include <Eigen/SparseCore>
@@ -21,6 +22,22 @@ enum class KKTErrorType {
   ONE_NORM
 };
 
+/// Returns the ∞-norm of a residual, or infinity if any entry is nonfinite so a
+/// nonfinite residual is never considered small.
+///
+/// @tparam Derived Derived type.
+/// @param residual The residual.
+template <typename Derived>
+typename Derived::Scalar finite_inf_norm(
+    const Eigen::MatrixBase<Derived>& residual) {
+  using Scalar = typename Derived::Scalar;
+
+  const Eigen::Vector<Scalar, Eigen::Dynamic> r = residual;
+
+  return r.allFinite() ? r.template lpNorm<Eigen::Infinity>()
+                       : std::numeric_limits<Scalar>::infinity();
+}
+
 /// Returns the KKT error for Newton's method.
 ///
 /// @tparam Scalar Scalar type.
@@ -33,7 +50,7 @@ Scalar kkt_error(const Eigen::Vector<Scalar, Eigen::Dynamic>& g) {
   //   ∇f = 0
 
   if constexpr (T == KKTErrorType::INF_NORM_SCALED) {
-    return g.template lpNorm<Eigen::Infinity>();
+    return finite_inf_norm(g);
   } else if constexpr (T == KKTErrorType::ONE_NORM) {
     return g.template lpNorm<1>();
   }
@@ -67,9 +84,8 @@ Scalar kkt_error(const Eigen::Vector<Scalar, Eigen::Dynamic>& g,
 
     // ‖∇f − Aₑᵀy‖_∞ / s_d
     // ‖cₑ‖_∞
-    return std::max(
-        {(g - A_e.transpose() * y).template lpNorm<Eigen::Infinity>() / s_d,
-         c_e.template lpNorm<Eigen::Infinity>()});
+    return std::max({finite_inf_norm(g - A_e.transpose() * y) / s_d,
+                     finite_inf_norm(c_e)});
   } else if constexpr (T == KKTErrorType::ONE_NORM) {
     return (g - A_e.transpose() * y).template lpNorm<1>() +
            c_e.template lpNorm<1>();
@@ -127,12 +143,10 @@ Scalar kkt_error(const Eigen::Vector<Scalar, Eigen::Dynamic>& g,
     // ‖Sz − μe‖_∞ / s_c
     // ‖cₑ‖_∞
     // ‖cᵢ − s‖_∞
-    return std::max({(g - A_e.transpose() * y - A_i.transpose() * z)
-                             .template lpNorm<Eigen::Infinity>() /
-                         s_d,
-                     (S * z - μe).template lpNorm<Eigen::Infinity>() / s_c,
-                     c_e.template lpNorm<Eigen::Infinity>(),
-                     (c_i - s).template lpNorm<Eigen::Infinity>()});
+    return std::max(
+        {finite_inf_norm(g - A_e.transpose() * y - A_i.transpose() * z) / s_d,
+         finite_inf_norm(S * z - μe) / s_c, finite_inf_norm(c_e),
+         finite_inf_norm(c_i - s)});
   } else if constexpr (T == KKTErrorType::ONE_NORM) {
     const auto S = s.asDiagonal();
     const Eigen::Vector<Scalar, Eigen::Dynamic> μe =
-- 
2.43.0


From f226dceb2f60aea3061e6631a548b3a5efdff7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:33 +0000
Subject: [PATCH 15/32] fix: check iteration and time limits before each
 iteration and across feasibility restoration

---
 .../optimization/solver/interior_point.hpp    | 29 +++++++++++-------
 .../sleipnir/optimization/solver/newton.hpp   | 20 ++++++-------
 include/sleipnir/optimization/solver/sqp.hpp  | 30 +++++++++++--------
 .../solver/util/feasibility_restoration.hpp   |  6 ++++
 4 files changed, 52 insertions(+), 33 deletions(-)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index c2867ec..9f27447 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -380,6 +380,16 @@ ExitStatus interior_point(
   }};
 
   while (E_0 > Scalar(options.tolerance)) {
+    // Check for max iterations
+    if (iterations >= options.max_iterations) {
+      return ExitStatus::MAX_ITERATIONS_EXCEEDED;
+    }
+
+    // Check for max wall clock time
+    if (std::chrono::steady_clock::now() - solve_start_time > options.timeout) {
+      return ExitStatus::TIMEOUT;
+    }
+
     ScopedProfiler inner_iter_profiler{inner_iter_prof};
     ScopedProfiler feasibility_check_profiler{feasibility_check_prof};
 
@@ -789,8 +799,15 @@ ExitStatus interior_point(
                    Scalar(0.9) * initial_entry.constraint_violation &&
                filter.try_add(initial_entry, trial_entry, D_ϕ_restoration, α);
       });
+
+      // Feasibility restoration has the remaining time available
+      auto restoration_options = options;
+      restoration_options.timeout -=
+          std::chrono::steady_clock::now() - solve_start_time;
+
       auto status =
-          feasibility_restoration<Scalar>(matrices, callbacks, options,
+          feasibility_restoration<Scalar>(matrices, callbacks,
+                                          restoration_options,
 #ifdef SLEIPNIR_ENABLE_BOUND_PROJECTION
                                           bound_constraint_mask,
 #endif
@@ -889,16 +906,6 @@ ExitStatus interior_point(
     }
 
     ++iterations;
-
-    // Check for max iterations
-    if (iterations >= options.max_iterations) {
-      return ExitStatus::MAX_ITERATIONS_EXCEEDED;
-    }
-
-    // Check for max wall clock time
-    if (std::chrono::steady_clock::now() - solve_start_time > options.timeout) {
-      return ExitStatus::TIMEOUT;
-    }
   }
 
   return ExitStatus::SUCCESS;
diff --git a/include/sleipnir/optimization/solver/newton.hpp b/include/sleipnir/optimization/solver/newton.hpp
index 00de631..7506cd5 100644
--- a/include/sleipnir/optimization/solver/newton.hpp
+++ b/include/sleipnir/optimization/solver/newton.hpp
@@ -159,6 +159,16 @@ ExitStatus newton(
   }};
 
   while (E_0 > Scalar(options.tolerance)) {
+    // Check for max iterations
+    if (iterations >= options.max_iterations) {
+      return ExitStatus::MAX_ITERATIONS_EXCEEDED;
+    }
+
+    // Check for max wall clock time
+    if (std::chrono::steady_clock::now() - solve_start_time > options.timeout) {
+      return ExitStatus::TIMEOUT;
+    }
+
     ScopedProfiler inner_iter_profiler{inner_iter_prof};
     ScopedProfiler feasibility_check_profiler{feasibility_check_prof};
 
@@ -278,16 +288,6 @@ ExitStatus newton(
     }
 
     ++iterations;
-
-    // Check for max iterations
-    if (iterations >= options.max_iterations) {
-      return ExitStatus::MAX_ITERATIONS_EXCEEDED;
-    }
-
-    // Check for max wall clock time
-    if (std::chrono::steady_clock::now() - solve_start_time > options.timeout) {
-      return ExitStatus::TIMEOUT;
-    }
   }
 
   return ExitStatus::SUCCESS;
diff --git a/include/sleipnir/optimization/solver/sqp.hpp b/include/sleipnir/optimization/solver/sqp.hpp
index be9f379..6f84cea 100644
--- a/include/sleipnir/optimization/solver/sqp.hpp
+++ b/include/sleipnir/optimization/solver/sqp.hpp
@@ -257,6 +257,16 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
   }};
 
   while (E_0 > Scalar(options.tolerance)) {
+    // Check for max iterations
+    if (iterations >= options.max_iterations) {
+      return ExitStatus::MAX_ITERATIONS_EXCEEDED;
+    }
+
+    // Check for max wall clock time
+    if (std::chrono::steady_clock::now() - solve_start_time > options.timeout) {
+      return ExitStatus::TIMEOUT;
+    }
+
     ScopedProfiler inner_iter_profiler{inner_iter_prof};
     ScopedProfiler feasibility_check_profiler{feasibility_check_prof};
 
@@ -563,8 +573,14 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
                    Scalar(0.9) * initial_entry.constraint_violation &&
                filter.try_add(initial_entry, trial_entry, D_ϕ_restoration, α);
       });
-      auto status = feasibility_restoration<Scalar>(matrices, callbacks,
-                                                    options, x, y, iterations);
+
+      // Feasibility restoration has the remaining time available
+      auto restoration_options = options;
+      restoration_options.timeout -=
+          std::chrono::steady_clock::now() - solve_start_time;
+
+      auto status = feasibility_restoration<Scalar>(
+          matrices, callbacks, restoration_options, x, y, iterations);
 
       if (stop_requested) {
         return ExitStatus::CALLBACK_REQUESTED_STOP;
@@ -614,16 +630,6 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
     }
 
     ++iterations;
-
-    // Check for max iterations
-    if (iterations >= options.max_iterations) {
-      return ExitStatus::MAX_ITERATIONS_EXCEEDED;
-    }
-
-    // Check for max wall clock time
-    if (std::chrono::steady_clock::now() - solve_start_time > options.timeout) {
-      return ExitStatus::TIMEOUT;
-    }
   }
 
   return ExitStatus::SUCCESS;
diff --git a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
index 70bc43e..e305245 100644
--- a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
+++ b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
@@ -323,6 +323,9 @@ ExitStatus feasibility_restoration(
     return ExitStatus::SUCCESS;
   } else if (status == ExitStatus::SUCCESS) {
     return ExitStatus::LOCALLY_INFEASIBLE;
+  } else if (status == ExitStatus::MAX_ITERATIONS_EXCEEDED ||
+             status == ExitStatus::TIMEOUT) {
+    return status;
   } else {
     return ExitStatus::FEASIBILITY_RESTORATION_FAILED;
   }
@@ -633,6 +636,9 @@ ExitStatus feasibility_restoration(
     return ExitStatus::SUCCESS;
   } else if (status == ExitStatus::SUCCESS) {
     return ExitStatus::LOCALLY_INFEASIBLE;
+  } else if (status == ExitStatus::MAX_ITERATIONS_EXCEEDED ||
+             status == ExitStatus::TIMEOUT) {
+    return status;
   } else {
     return ExitStatus::FEASIBILITY_RESTORATION_FAILED;
   }
-- 
2.43.0


From 21f271a3d824f16cd6d0a0c9ab94f9be590dce1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:33 +0000
Subject: [PATCH 16/32] fix: keep feasible iterates feasible on every path when
 feasible_ipm is set

---
 .../optimization/solver/interior_point.hpp    | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index 9f27447..f9b7571 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -519,14 +519,16 @@ ExitStatus interior_point(
     const Scalar D_ϕ =
         g.transpose() * step.p_x - μ * s.cwiseInverse().dot(step.p_s);
 
+    // If the inequality constraints are all feasible, prevent them from becoming
+    // infeasible again
+    const bool stay_feasible =
+        options.feasible_ipm && c_i.cwiseGreater(Scalar(0)).all();
+
     // Loop until a step is accepted
     while (1) {
       trial_x = x + α * step.p_x;
       trial_c_i = matrices.c_i(trial_x);
-      if (options.feasible_ipm && c_i.cwiseGreater(Scalar(0)).all()) {
-        // If the inequality constraints are all feasible, prevent them from
-        // becoming infeasible again.
-        //
+      if (stay_feasible) {
         // See equation (19.30) in [1].
         trial_s = trial_c_i;
       } else {
@@ -635,13 +637,17 @@ ExitStatus interior_point(
           α_z_soc = fraction_to_the_boundary_rule<Scalar>(z, soc_step.p_z, τ);
 
           trial_x = x + α_soc * soc_step.p_x;
-          trial_s = s + α_soc * soc_step.p_s;
+          trial_c_i = matrices.c_i(trial_x);
+          if (stay_feasible) {
+            trial_s = trial_c_i;
+          } else {
+            trial_s = s + α_soc * soc_step.p_s;
+          }
           trial_y = y + α_z_soc * soc_step.p_y;
           trial_z = z + α_z_soc * soc_step.p_z;
 
           trial_f = matrices.f(trial_x);
           trial_c_e = matrices.c_e(trial_x);
-          trial_c_i = matrices.c_i(trial_x);
 
           // Check whether filter accepts trial iterate
           FilterEntry trial_entry{trial_f, trial_s, trial_c_e, trial_c_i, μ};
@@ -718,6 +724,7 @@ ExitStatus interior_point(
 
         // If the step using αᵐᵃˣ reduced the KKT error, accept it anyway
         if (isfinite(trial_f) &&
+            (!stay_feasible || trial_c_i.cwiseGreater(Scalar(0)).all()) &&
             next_kkt_error <= Scalar(0.999) * current_kkt_error) {
           // Accept step
           break;
@@ -795,7 +802,8 @@ ExitStatus interior_point(
                                 trial_c_i, μ};
         const Scalar D_ϕ_restoration = g.transpose() * (trial_x - x) -
                                        μ * s.cwiseInverse().dot(trial_s - s);
-        return trial_entry.constraint_violation <
+        return (!stay_feasible || trial_c_i.cwiseGreater(Scalar(0)).all()) &&
+               trial_entry.constraint_violation <
                    Scalar(0.9) * initial_entry.constraint_violation &&
                filter.try_add(initial_entry, trial_entry, D_ϕ_restoration, α);
       });
-- 
2.43.0


From e2bcefc79cb7ecb44f3ef3f54ab5c8cfe18de871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:33 +0000
Subject: [PATCH 17/32] fix: keep the constraint Hessian in feasibility
 restoration

---
 .../optimization/solver/util/feasibility_restoration.hpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
index e305245..7100004 100644
--- a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
+++ b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
@@ -232,7 +232,7 @@ ExitStatus feasibility_restoration(
         //
         //   −∇ₓₓ²yᵀcₑ(x)
         auto H_c = matrices.H_c(x, y);
-        H_c.resize(x_p.rows(), x_p.rows());
+        H_c.conservativeResize(x_p.rows(), x_p.rows());
 
         // Lagrangian Hessian
         //
@@ -497,7 +497,7 @@ ExitStatus feasibility_restoration(
         //
         //   −∇ₓₓ²yᵀcₑ(x) − ∇ₓₓ²zᵀcᵢ(x)
         auto H_c = matrices.H_c(x, y, z);
-        H_c.resize(x_p.rows(), x_p.rows());
+        H_c.conservativeResize(x_p.rows(), x_p.rows());
 
         // Lagrangian Hessian
         //
-- 
2.43.0


From 0814560a7e6299eddc78bea8817e6d009bb75e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:33 +0000
Subject: [PATCH 18/32] fix: reject nonfinite multiplier estimates after
 feasibility restoration

---
 .../solver/util/feasibility_restoration.hpp       | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
index 7100004..4f34ce6 100644
--- a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
+++ b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
@@ -318,7 +318,14 @@ ExitStatus feasibility_restoration(
     auto g = matrices.g(x);
     auto A_e = matrices.A_e(x);
 
-    y = lagrange_multiplier_estimate(g, A_e);
+    const DenseVector y_estimate = lagrange_multiplier_estimate(g, A_e);
+
+    // The derivatives may not be finite at the new iterate
+    if (!y_estimate.allFinite()) {
+      return ExitStatus::FEASIBILITY_RESTORATION_FAILED;
+    }
+
+    y = y_estimate;
 
     return ExitStatus::SUCCESS;
   } else if (status == ExitStatus::SUCCESS) {
@@ -630,6 +637,12 @@ ExitStatus feasibility_restoration(
 
     auto [y_estimate, z_estimate] =
         lagrange_multiplier_estimate(g, A_e, A_i, s, μ);
+
+    // The derivatives may not be finite at the new iterate
+    if (!y_estimate.allFinite() || !z_estimate.allFinite()) {
+      return ExitStatus::FEASIBILITY_RESTORATION_FAILED;
+    }
+
     y = y_estimate;
     z = z_estimate;
 
-- 
2.43.0


From a80137a9dfd4915477f67d19a850e31b6f0c14f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:33 +0000
Subject: [PATCH 19/32] fix: don't report feasible points as locally infeasible

---
 .../solver/util/feasibility_restoration.hpp      | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
index 4f34ce6..2274abf 100644
--- a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
+++ b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
@@ -329,6 +329,13 @@ ExitStatus feasibility_restoration(
 
     return ExitStatus::SUCCESS;
   } else if (status == ExitStatus::SUCCESS) {
+    // If the constraints are already satisfied, the line search failed for some
+    // other reason
+    if (matrices.c_e(x).template lpNorm<Eigen::Infinity>() <=
+        Scalar(options.tolerance)) {
+      return ExitStatus::LINE_SEARCH_FAILED;
+    }
+
     return ExitStatus::LOCALLY_INFEASIBLE;
   } else if (status == ExitStatus::MAX_ITERATIONS_EXCEEDED ||
              status == ExitStatus::TIMEOUT) {
@@ -648,6 +655,15 @@ ExitStatus feasibility_restoration(
 
     return ExitStatus::SUCCESS;
   } else if (status == ExitStatus::SUCCESS) {
+    // If the constraints are already satisfied, the line search failed for some
+    // other reason
+    if (matrices.c_e(x).template lpNorm<Eigen::Infinity>() <=
+            Scalar(options.tolerance) &&
+        matrices.c_i(x).cwiseMin(Scalar(0)).template lpNorm<Eigen::Infinity>() <=
+            Scalar(options.tolerance)) {
+      return ExitStatus::LINE_SEARCH_FAILED;
+    }
+
     return ExitStatus::LOCALLY_INFEASIBLE;
   } else if (status == ExitStatus::MAX_ITERATIONS_EXCEEDED ||
              status == ExitStatus::TIMEOUT) {
-- 
2.43.0


From 709be05aacb7e932bdffffc05255300117a8935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 20/32] fix: don't use multiplier estimates when the constraint
 gradients are linearly dependent

---
 .../util/lagrange_multiplier_estimate.hpp     | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp b/include/sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp
index b15962c..92a77a1 100644
--- a/include/sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp
+++ b/include/sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp
@@ -39,9 +39,16 @@ Eigen::Vector<Scalar, Eigen::Dynamic> lagrange_multiplier_estimate(
   //   ∇f − Aₑᵀy = 0
   //   Aₑᵀy = ∇f
   //   y = (AₑAₑᵀ)⁻¹Aₑ∇f
-  return Eigen::SimplicialLDLT<Eigen::SparseMatrix<Scalar>>{A_e *
-                                                            A_e.transpose()}
-      .solve(A_e * g);
+  Eigen::SimplicialLDLT<Eigen::SparseMatrix<Scalar>> y_estimator{
+      A_e * A_e.transpose()};
+
+  // If the constraint gradients are linearly dependent, there's no unique
+  // estimate
+  if (y_estimator.info() != Eigen::Success) {
+    return Eigen::Vector<Scalar, Eigen::Dynamic>::Zero(A_e.rows());
+  }
+
+  return y_estimator.solve(A_e * g);
 }
 
 /// Estimates Lagrange multipliers for interior-point method.
@@ -105,6 +112,13 @@ LagrangeMultiplierEstimate<Scalar> lagrange_multiplier_estimate(
   DenseVector rhs = A_hat * rhs_temp;
 
   Eigen::SimplicialLDLT<SparseMatrix> yz_estimator{lhs};
+
+  // If the constraint gradients are linearly dependent, there's no unique
+  // estimate
+  if (yz_estimator.info() != Eigen::Success) {
+    return {DenseVector::Zero(A_e.rows()), (μ * s.cwiseInverse()).eval()};
+  }
+
   DenseVector sol = yz_estimator.solve(rhs);
   DenseVector y = sol.segment(0, A_e.rows());
   DenseVector z = sol.segment(A_e.rows(), s.rows());
-- 
2.43.0


From 7ea90b3460d42b780ae6981a07d71dd8d7dd6fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 21/32] fix: accept mutable callbacks that return nothing

---
 include/sleipnir/optimization/problem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/optimization/problem.hpp b/include/sleipnir/optimization/problem.hpp
index ccff8b9..15d3c13 100644
--- a/include/sleipnir/optimization/problem.hpp
+++ b/include/sleipnir/optimization/problem.hpp
@@ -689,8 +689,8 @@ class Problem {
     }
   void add_callback(F&& callback) {
     m_iteration_callbacks.emplace_back(
-        [=, callback =
-                std::forward<F>(callback)](const IterationInfo<Scalar>& info) {
+        [=, callback = std::forward<F>(callback)](
+            const IterationInfo<Scalar>& info) mutable {
           callback(info);
           return false;
         });
-- 
2.43.0


From 354c44b008c8fb25968d26ba0ac0cd1a993094bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 22/32] fix: don't report convex problems locally infeasible
 over tiny inequality violations

---
 .../sleipnir/optimization/solver/util/is_locally_infeasible.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sleipnir/optimization/solver/util/is_locally_infeasible.hpp b/include/sleipnir/optimization/solver/util/is_locally_infeasible.hpp
index 4b5b2cc..8ca75de 100644
--- a/include/sleipnir/optimization/solver/util/is_locally_infeasible.hpp
+++ b/include/sleipnir/optimization/solver/util/is_locally_infeasible.hpp
@@ -51,7 +51,7 @@ bool is_inequality_locally_infeasible(
   if (A_i.rows() > 0) {
     Eigen::Vector<Scalar, Eigen::Dynamic> c_i_plus = c_i.cwiseMin(Scalar(0));
     if ((A_i.transpose() * c_i_plus).norm() < Scalar(1e-6) &&
-        c_i_plus.norm() > Scalar(1e-6)) {
+        c_i_plus.norm() > Scalar(1e-2)) {
       return true;
     }
   }
-- 
2.43.0


From 1def62b0093dc39fc12e7f6639bfb6f711d0cf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 23/32] fix: list violated equality constraints with positive
 residuals

---
 include/sleipnir/util/print_diagnostics.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/util/print_diagnostics.hpp b/include/sleipnir/util/print_diagnostics.hpp
index 86276da..ece6023 100644
--- a/include/sleipnir/util/print_diagnostics.hpp
+++ b/include/sleipnir/util/print_diagnostics.hpp
@@ -95,7 +95,7 @@ void print_too_few_dofs_error(
   slp::println("The problem has too few degrees of freedom.");
   slp::println("Violated constraints (cₑ(x) = 0) in order of declaration:");
   for (int row = 0; row < c_e.rows(); ++row) {
-    if (c_e[row] < Scalar(0)) {
+    if (c_e[row] != Scalar(0)) {
       slp::println("  {}/{}: {} = 0", row + 1, c_e.rows(), c_e[row]);
     }
   }
@@ -118,7 +118,7 @@ void print_c_e_local_infeasibility_error(
       "constraints.");
   slp::println("Violated constraints (cₑ(x) = 0) in order of declaration:");
   for (int row = 0; row < c_e.rows(); ++row) {
-    if (c_e[row] < Scalar(0)) {
+    if (c_e[row] != Scalar(0)) {
       slp::println("  {}/{}: {} = 0", row + 1, c_e.rows(), c_e[row]);
     }
   }
-- 
2.43.0


From c793f90f8ddb3e040aae36795abade69229a77fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:28 +0000
Subject: [PATCH 24/32] fix: make the initial state a decision variable in
 single shooting

constrain_initial_state() otherwise equates constants, so any nonzero initial
state makes the problem infeasible.
---
 include/sleipnir/optimization/ocp.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/optimization/ocp.hpp b/include/sleipnir/optimization/ocp.hpp
index 5e20b9b..c1ac2eb 100644
--- a/include/sleipnir/optimization/ocp.hpp
+++ b/include/sleipnir/optimization/ocp.hpp
@@ -149,9 +149,10 @@ class OCP : public Problem<Scalar> {
       m_X = this->decision_variable(num_states, m_num_steps + 1);
       constrain_direct_collocation();
     } else if (transcription_method == TranscriptionMethod::SINGLE_SHOOTING) {
-      // In single-shooting the states aren't decision variables, but instead
-      // depend on the input and previous states
+      // In single-shooting the states after the initial one aren't decision
+      // variables, but instead depend on the input and previous states
       m_X = VariableMatrix<Scalar>{num_states, m_num_steps + 1};
+      m_X.col(0) = this->decision_variable(num_states);
       constrain_single_shooting();
     }
   }
-- 
2.43.0


From 96e1e371016c1638e5e9bf338c5865430d96048e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:53 +0000
Subject: [PATCH 25/32] fix: fraction-to-the-boundary rule returned an infinite
 fraction for subnormal steps
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

-τ/p overflows when p is subnormal, so the rule returned infinity (or NaN)
instead of a fraction within (0, 1], and the interior-point line search never
terminated. Multiplying before dividing keeps the quotient at most the current
fraction.
---
 .../solver/util/fraction_to_the_boundary_rule.hpp             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/optimization/solver/util/fraction_to_the_boundary_rule.hpp b/include/sleipnir/optimization/solver/util/fraction_to_the_boundary_rule.hpp
index f48b158..ea594f9 100644
--- a/include/sleipnir/optimization/solver/util/fraction_to_the_boundary_rule.hpp
+++ b/include/sleipnir/optimization/solver/util/fraction_to_the_boundary_rule.hpp
@@ -31,11 +31,11 @@ Scalar fraction_to_the_boundary_rule(
   // If the inequality is false, p < 0 and α is too big. Find the largest value
   // of α that makes the inequality true.
   //
-  // α = −τ/p x
+  // α = −τx/p
   Scalar α(1);
   for (int i = 0; i < x.rows(); ++i) {
     if (α * p(i) < -τ * x(i)) {
-      α = -τ / p(i) * x(i);
+      α = -τ * x(i) / p(i);
     }
   }
 
-- 
2.43.0


From e0f75e5c5805b1dd5e78e16b5ea97332ac634077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 26/32] fix: linear solves built at one point were wrong at
 others

Eigen's Householder QR branches on the current values of the matrix elements
(a column that is already zero below the diagonal gets no reflection), so for
systems of five or more rows the expressions built were only valid near the
variable values at construction time: solutions were wrong after variables
changed, and derivatives with respect to elements below the diagonal were zero
when they happened to be zero. Build the decomposition from branch-free
expressions instead.
---
 include/sleipnir/autodiff/variable_matrix.hpp | 39 ++++++++++++++++++-
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/autodiff/variable_matrix.hpp b/include/sleipnir/autodiff/variable_matrix.hpp
index 970113c..6c9eb90 100644
--- a/include/sleipnir/autodiff/variable_matrix.hpp
+++ b/include/sleipnir/autodiff/variable_matrix.hpp
@@ -1721,8 +1721,43 @@ VariableMatrix<Scalar> solve(const VariableMatrix<Scalar>& A,
     auto det_A = a * adj_A00 + b * adj_A10 + c * adj_A20 + d * adj_A30;
     return adj_A / det_A * B;
   } else {
-    return VariableMatrix<Scalar>{
-        A.to_eigen().householderQr().solve(B.to_eigen())};
+    // Householder QR decomposition
+    //
+    // Eigen's decompositions branch on the values of the matrix elements (e.g.,
+    // they skip the reflection of a column that's already zero below the
+    // diagonal), so the expressions they build are only valid for the variable
+    // values at construction time. This one contains no such branches.
+    const int rank = std::min(A.rows(), A.cols());
+
+    VariableMatrix<Scalar> R{A};
+    VariableMatrix<Scalar> Y{B};
+    for (int k = 0; k < std::min(rank, A.rows() - 1); ++k) {
+      const int rows = A.rows() - k;
+
+      // v = x ± ‖x‖₂e₁ with the sign of x₁, and +1 if x₁ is zero
+      VariableMatrix<Scalar> v{R.block(k, k, rows, 1)};
+      v[0, 0] += sign(sign(v[0, 0]) + Scalar(0.5)) * sqrt((v.T() * v)[0, 0]);
+
+      // Apply reflection I − 2vvᵀ/vᵀv
+      const Variable<Scalar> τ = Scalar(2) / (v.T() * v)[0, 0];
+      VariableMatrix<Scalar> R_k{R.block(k, k, rows, A.cols() - k)};
+      R.block(k, k, rows, A.cols() - k) = R_k - v * (τ * (v.T() * R_k));
+      VariableMatrix<Scalar> Y_k{Y.block(k, 0, rows, Y.cols())};
+      Y.block(k, 0, rows, Y.cols()) = Y_k - v * (τ * (v.T() * Y_k));
+    }
+
+    // Back substitution
+    auto X = VariableMatrix<Scalar>::zero(A.cols(), B.cols());
+    for (int row = rank - 1; row >= 0; --row) {
+      for (int col = 0; col < B.cols(); ++col) {
+        Variable<Scalar> x = Y[row, col];
+        for (int k = row + 1; k < rank; ++k) {
+          x -= R[row, k] * X[k, col];
+        }
+        X[row, col] = x / R[row, row];
+      }
+    }
+    return X;
   }
 }
 
-- 
2.43.0


From a029a9a1fc29d49697011def8f31077567fb02ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 27/32] fix: 1x1 linear solves dropped all but the first
 right-hand side

---
 include/sleipnir/autodiff/variable_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sleipnir/autodiff/variable_matrix.hpp b/include/sleipnir/autodiff/variable_matrix.hpp
index 6c9eb90..4493144 100644
--- a/include/sleipnir/autodiff/variable_matrix.hpp
+++ b/include/sleipnir/autodiff/variable_matrix.hpp
@@ -1506,7 +1506,7 @@ VariableMatrix<Scalar> solve(const VariableMatrix<Scalar>& A,
 
   if (A.rows() == 1 && A.cols() == 1) {
     // Compute optimal inverse instead of using Eigen's general solver
-    return B[0, 0] / A[0, 0];
+    return B / A[0, 0];
   } else if (A.rows() == 2 && A.cols() == 2) {
     // Compute optimal inverse instead of using Eigen's general solver
     //
-- 
2.43.0


From 9c07e9d2a1988bfc7b436d382d9511cd1f0dc0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:09 +0000
Subject: [PATCH 28/32] fix: report the full step when it's accepted after an
 exhausted line search

---
 include/sleipnir/optimization/solver/interior_point.hpp | 2 ++
 include/sleipnir/optimization/solver/newton.hpp         | 2 ++
 include/sleipnir/optimization/solver/sqp.hpp            | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index f9b7571..7757df2 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -726,6 +726,8 @@ ExitStatus interior_point(
         if (isfinite(trial_f) &&
             (!stay_feasible || trial_c_i.cwiseGreater(Scalar(0)).all()) &&
             next_kkt_error <= Scalar(0.999) * current_kkt_error) {
+          α = α_max;
+
           // Accept step
           break;
         }
diff --git a/include/sleipnir/optimization/solver/newton.hpp b/include/sleipnir/optimization/solver/newton.hpp
index 7506cd5..dda4b61 100644
--- a/include/sleipnir/optimization/solver/newton.hpp
+++ b/include/sleipnir/optimization/solver/newton.hpp
@@ -252,6 +252,8 @@ ExitStatus newton(
         // If the step using αᵐᵃˣ reduced the KKT error, accept it anyway
         if (isfinite(trial_f) &&
             next_kkt_error <= Scalar(0.999) * current_kkt_error) {
+          α = α_max;
+
           // Accept step
           break;
         }
diff --git a/include/sleipnir/optimization/solver/sqp.hpp b/include/sleipnir/optimization/solver/sqp.hpp
index 6f84cea..208761e 100644
--- a/include/sleipnir/optimization/solver/sqp.hpp
+++ b/include/sleipnir/optimization/solver/sqp.hpp
@@ -507,6 +507,8 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
         // If the step using αᵐᵃˣ reduced the KKT error, accept it anyway
         if (isfinite(trial_f) &&
             next_kkt_error <= Scalar(0.999) * current_kkt_error) {
+          α = α_max;
+
           // Accept step
           break;
         }
-- 
2.43.0


From 922a2da581e60ce2be682d10b3e611e1eed68fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:09 +0000
Subject: [PATCH 29/32] fix: negative backtrack counts reported after
 second-order corrections

---
 include/sleipnir/optimization/solver/interior_point.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index 7757df2..2284595 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -607,7 +607,7 @@ ExitStatus interior_point(
                            soc_step.p_s.template lpNorm<Eigen::Infinity>()),
                   std::max(soc_step.p_y.template lpNorm<Eigen::Infinity>(),
                            soc_step.p_z.template lpNorm<Eigen::Infinity>()),
-                  α_soc, Scalar(1), α_reduction_factor, α_z_soc);
+                  α_soc, α_soc, α_reduction_factor, α_z_soc);
             }
           }};
 
@@ -654,6 +654,7 @@ ExitStatus interior_point(
           if (filter.try_add(current_entry, trial_entry, D_ϕ, α)) {
             step = soc_step;
             α = α_soc;
+            α_max = α_soc;
             α_z = α_z_soc;
             step_acceptable = true;
             break;
-- 
2.43.0


From 79312715ff635ada61df7ade447c86452a588352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 30/32] fix: a negative row with a slice of columns selects
 that row in VariableMatrix.__getitem__ (Python)

---
 python/cpp/autodiff/bind_variable_matrix.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/cpp/autodiff/bind_variable_matrix.cpp b/python/cpp/autodiff/bind_variable_matrix.cpp
index a272c36..31cf860 100644
--- a/python/cpp/autodiff/bind_variable_matrix.cpp
+++ b/python/cpp/autodiff/bind_variable_matrix.cpp
@@ -208,6 +208,9 @@ void bind_variable_matrix(nb::module_& autodiff,
           row_slice_length = t.get<3>();
         } else {
           int start = nb::cast<int>(row_elem);
+          if (start < 0) {
+            start += self.rows();
+          }
           row_slice = Slice{start, start + 1};
           row_slice_length = 1;
         }
-- 
2.43.0


From aefd7f9a30c6e3560405791f060a0580e6981e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 31/32] fix: VariableBlock times VariableBlock or
 VariableMatrix in Python

---
 python/cpp/autodiff/bind_variable_block.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/python/cpp/autodiff/bind_variable_block.cpp b/python/cpp/autodiff/bind_variable_block.cpp
index 0cdebc0..f7bfbd2 100644
--- a/python/cpp/autodiff/bind_variable_block.cpp
+++ b/python/cpp/autodiff/bind_variable_block.cpp
@@ -223,6 +223,24 @@ void bind_variable_block(
           nb::overload_cast<int>(&VariableBlock<VariableMatrix<double>>::col),
           "col"_a, DOC(slp, VariableBlock, col));
 
+  // Matrix-matrix multiplication
+  for_each_type<const VariableMatrix<double>&,
+                const VariableBlock<VariableMatrix<double>>&>(
+      [&]<typename R> {
+        cls.def(
+            "__mul__",
+            [](const VariableBlock<VariableMatrix<double>>& lhs, R&& rhs) {
+              return lhs * rhs;
+            },
+            nb::is_operator(), "rhs"_a);
+        cls.def(
+            "__matmul__",
+            [](const VariableBlock<VariableMatrix<double>>& lhs, R&& rhs) {
+              return lhs * rhs;
+            },
+            nb::is_operator(), "rhs"_a);
+      });
+
   // https://numpy.org/doc/stable/user/basics.dispatch.html
   cls.def(
       "__array_ufunc__",
-- 
2.43.0


From b11f00cff5fda7f546e1be6a42551e133fdaf8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:00 +0000
Subject: [PATCH 32/32] fix: keep the matrix alive while Python holds one of
 its row() or col() views

---
 python/cpp/autodiff/bind_variable_block.cpp  | 4 ++--
 python/cpp/autodiff/bind_variable_matrix.cpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/cpp/autodiff/bind_variable_block.cpp b/python/cpp/autodiff/bind_variable_block.cpp
index f7bfbd2..8e21c74 100644
--- a/python/cpp/autodiff/bind_variable_block.cpp
+++ b/python/cpp/autodiff/bind_variable_block.cpp
@@ -218,10 +218,10 @@ void bind_variable_block(
       "slices"_a);
   cls.def("row",
           nb::overload_cast<int>(&VariableBlock<VariableMatrix<double>>::row),
-          "row"_a, DOC(slp, VariableBlock, row));
+          nb::keep_alive<0, 1>(), "row"_a, DOC(slp, VariableBlock, row));
   cls.def("col",
           nb::overload_cast<int>(&VariableBlock<VariableMatrix<double>>::col),
-          "col"_a, DOC(slp, VariableBlock, col));
+          nb::keep_alive<0, 1>(), "col"_a, DOC(slp, VariableBlock, col));
 
   // Matrix-matrix multiplication
   for_each_type<const VariableMatrix<double>&,
diff --git a/python/cpp/autodiff/bind_variable_matrix.cpp b/python/cpp/autodiff/bind_variable_matrix.cpp
index 31cf860..565be97 100644
--- a/python/cpp/autodiff/bind_variable_matrix.cpp
+++ b/python/cpp/autodiff/bind_variable_matrix.cpp
@@ -235,10 +235,10 @@ void bind_variable_matrix(nb::module_& autodiff,
       },
       nb::keep_alive<0, 1>(), "slices"_a,
       DOC(slp, VariableMatrix, operator, array));
-  cls.def("row", nb::overload_cast<int>(&VariableMatrix<double>::row), "row"_a,
-          DOC(slp, VariableMatrix, row));
-  cls.def("col", nb::overload_cast<int>(&VariableMatrix<double>::col), "col"_a,
-          DOC(slp, VariableMatrix, col));
+  cls.def("row", nb::overload_cast<int>(&VariableMatrix<double>::row),
+          nb::keep_alive<0, 1>(), "row"_a, DOC(slp, VariableMatrix, row));
+  cls.def("col", nb::overload_cast<int>(&VariableMatrix<double>::col),
+          nb::keep_alive<0, 1>(), "col"_a, DOC(slp, VariableMatrix, col));
 
   // Matrix-matrix multiplication
   cls.def(
-- 
2.43.0

