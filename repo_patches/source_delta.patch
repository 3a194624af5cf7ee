From 9798e9f9e8e5b39fda243d4d909b3c8d8110505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 01/26] fix: transpose product of coordinate and list matrices
 checks the transposed sizes

---
 include/coomatrix.hpp | 4 ++--
 include/lilmatrix.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index b6264c4..b7a9609 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -654,8 +654,8 @@ void CooMatrix<T>::Mult(const VectorView<double>& input, VectorView<double> outp
 template <typename T>
 void CooMatrix<T>::MultAT(const VectorView<double>& input, VectorView<double> output) const
 {
-    assert(Rows() == output.size());
-    assert(Cols() == input.size());
+    assert(Cols() == output.size());
+    assert(Rows() == input.size());
 
     output = 0;
 
diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index dd181e6..cbef1bb 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -434,8 +434,8 @@ void LilMatrix<T>::Mult(const VectorView<double>& input, VectorView<double> outp
 template <typename T>
 void LilMatrix<T>::MultAT(const VectorView<double>& input, VectorView<double> output) const
 {
-    assert(Rows() == output.size());
-    assert(Cols() == input.size());
+    assert(Cols() == output.size());
+    assert(Rows() == input.size());
 
     output = 0;
 
-- 
2.43.0


From 006893aa9cb870ce3d7369010722a142706fcda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 02/26] fix: declare the specialisation of
 VectorView<double>::Normalize so that every caller uses it

---
 include/vectorview.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/vectorview.hpp b/include/vectorview.hpp
index 0a7e721..3c2ff8e 100644
--- a/include/vectorview.hpp
+++ b/include/vectorview.hpp
@@ -802,6 +802,9 @@ void VectorView<T>::Normalize()
     throw std::runtime_error("Cannot normalize unless double!");
 }
 
+template <>
+void VectorView<double>::Normalize();
+
 /*! @brief Subtract a constant vector set to the average
     from this vector: x_i = x_i - mean(x)
     @param vect vector to subtract average from
-- 
2.43.0


From 51f152bc3dee773c747d5e3308f94113802580b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:01 +0000
Subject: [PATCH 03/26] fix: dense products with an empty operand pass valid
 leading dimensions to dgemm

---
 src/densematrix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index 947f6c8..5d21911 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -245,14 +245,14 @@ void DenseMatrix::dgemm(const DenseMatrix& input, DenseMatrix& output, bool AT,
 
     double alpha = 1.0;
     const double* A = data_.data();
-    int lda = rows_;
+    int lda = std::max(1, rows_);
     const double* B = input.data_.data();
-    int ldb = input.Rows();
+    int ldb = std::max(1, input.Rows());
     double beta = 0.0;
 
     output.SetSize(m, n);
     double* c = output.data_.data();
-    int ldc = output.Rows();
+    int ldc = std::max(1, output.Rows());
 
 
     dgemm_(&transA, &transB, &m, &n, &k,
-- 
2.43.0


From af9d1f1bb5ab9c92a2d329d0b6ab74b073045afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:25 +0000
Subject: [PATCH 04/26] fix: QR of a wide matrix gives LAPACK a full pivot
 array and forms a square Q

---
 src/densematrix.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index 5d21911..5b70b90 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -655,7 +655,7 @@ void DenseMatrix::QR()
 
     lwork = static_cast<int>(qwork);
 
-    std::vector<int> jpvt(mn_min, 0);
+    std::vector<int> jpvt(cols, 0);
     std::vector<double> tau(mn_min);
     std::vector<double> work(lwork);
 
@@ -663,13 +663,17 @@ void DenseMatrix::QR()
 
     const int* k = &mn_min;
 
+    // Q has at most as many columns as rows
+    SetSize(rows, mn_min);
+    A = data_.data();
+
     lwork = -1;
-    dorgqr_(m, n, k, A, lda, tau.data(), &qwork, &lwork, &info);
+    dorgqr_(m, k, k, A, lda, tau.data(), &qwork, &lwork, &info);
     lwork = static_cast<int>(qwork);
 
     work.resize(lwork);
 
-    dorgqr_(m, n, k, A, lda, tau.data(), work.data(), &lwork, &info);
+    dorgqr_(m, k, k, A, lda, tau.data(), work.data(), &lwork, &info);
 
     assert(info == 0);
 }
-- 
2.43.0


From 5a35b245a94812e731ff7938fd978cc85f51a9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:08 +0000
Subject: [PATCH 05/26] fix: EigenSolver never asks for more eigenvectors than
 the matrix has

---
 src/eigensolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eigensolver.cpp b/src/eigensolver.cpp
index f35eecf..4bad87c 100644
--- a/src/eigensolver.cpp
+++ b/src/eigensolver.cpp
@@ -96,7 +96,7 @@ void EigenSolver::Solve(const DenseMatrix& mat, double rel_tol, int max_evect,
     // Determine how many eigenvectors to be computed
     const double tol = evals.back() * rel_tol;
 
-    if (max_evect < 0)
+    if (max_evect < 0 || max_evect > n)
     {
         max_evect = n;
     }
-- 
2.43.0


From 4211d60d2e8ef404f2c7a697c8fd56d1d493595c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:07 +0000
Subject: [PATCH 06/26] fix: size of an unsized list matrix is the number of
 its rows

---
 include/lilmatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index cbef1bb..43d8fbc 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -511,7 +511,7 @@ std::tuple<int, int> LilMatrix<T>::FindSize() const
         }
     }
 
-    return std::tuple<int, int> {rows + 1, cols + 1};
+    return std::tuple<int, int> {rows, cols + 1};
 }
 
 } // namespace linalgcpp
-- 
2.43.0


From 0646c7acf2dc75d48a08acac91cb3c95a4c5d3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:07 +0000
Subject: [PATCH 07/26] fix: LilMatrix::SetSize allocates the rows it announces

---
 include/lilmatrix.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index 43d8fbc..61ec76f 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -253,6 +253,8 @@ void LilMatrix<T>::SetSize(int rows, int cols)
 
     rows_ = rows;
     cols_ = cols;
+
+    entries_.resize(rows_);
 }
 
 template <typename T>
-- 
2.43.0


From 48976d239e441774ce0f8886fc5cf7b9143b09ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:07 +0000
Subject: [PATCH 08/26] fix: EliminateZeros of coordinate and list matrices
 removes zeros with the default tolerance

---
 include/coomatrix.hpp | 2 +-
 include/lilmatrix.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index b7a9609..cd3435c 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -692,7 +692,7 @@ void CooMatrix<T>::EliminateZeros(double tolerance)
     auto compare = [&] (const std::tuple<int, int, T>& entry)
     {
         const double val = std::get<2>(entry);
-        return std::abs(val) < tolerance;
+        return std::abs(val) <= tolerance;
     };
 
     entries_.erase(std::remove_if(std::begin(entries_), std::end(entries_),
diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index 61ec76f..a8f76b9 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -488,7 +488,7 @@ void LilMatrix<T>::EliminateZeros(double tolerance)
         row.erase(std::remove_if(std::begin(row), std::end(row),
                                  [&](const std::pair<int, double>& entry)
         {
-            return std::abs(entry.second) < tolerance;
+            return std::abs(entry.second) <= tolerance;
         }),
         std::end(row));
     }
-- 
2.43.0


From e1e5ce797ca8fb2cc605dec41843c92d3bb535c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:42 +0000
Subject: [PATCH 09/26] fix: moved-from coordinate and list matrices have a
 defined size flag

---
 include/coomatrix.hpp | 1 +
 include/lilmatrix.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index cd3435c..c252870 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -281,6 +281,7 @@ CooMatrix<T>::CooMatrix(const CooMatrix& other) noexcept
 
 template <typename T>
 CooMatrix<T>::CooMatrix(CooMatrix&& other) noexcept
+    : size_set_(false)
 {
     swap(*this, other);
 }
diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index a8f76b9..224c2f6 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -207,6 +207,7 @@ LilMatrix<T>::LilMatrix(const LilMatrix& other) noexcept
 
 template <typename T>
 LilMatrix<T>::LilMatrix(LilMatrix&& other) noexcept
+    : size_set_(false)
 {
     swap(*this, other);
 }
-- 
2.43.0


From 9d8e882f356c186db9a187f68dcd0a1f84aa67ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:42 +0000
Subject: [PATCH 10/26] fix: unsized coordinate matrix reports the size of its
 entries, so it can be applied

---
 include/coomatrix.hpp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index c252870..da1b08f 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -66,6 +66,24 @@ class CooMatrix : public Operator
         template <typename U>
         friend void swap(CooMatrix<U>& lhs, CooMatrix<U>& rhs) noexcept;
 
+        /*! @brief Get the number of rows
+            @retval the number of rows
+
+            @note If the matrix size was not specified during
+            creation, then the number of rows is determined
+            by the maximum element.
+        */
+        int Rows() const override;
+
+        /*! @brief Get the number of columns
+            @retval the number of columns
+
+            @note If the matrix size was not specified during
+            creation, then the number of columns is determined
+            by the maximum element.
+        */
+        int Cols() const override;
+
         /*! @brief Set the size of the matrix
             @param rows the number of rows
             @param cols the number of columns
@@ -303,6 +321,24 @@ void swap(CooMatrix<T>& lhs, CooMatrix<T>& rhs) noexcept
     std::swap(lhs.entries_, rhs.entries_);
 }
 
+template <typename T>
+int CooMatrix<T>::Rows() const
+{
+    int rows;
+    std::tie(rows, std::ignore) = FindSize();
+
+    return rows;
+}
+
+template <typename T>
+int CooMatrix<T>::Cols() const
+{
+    int cols;
+    std::tie(std::ignore, cols) = FindSize();
+
+    return cols;
+}
+
 template <typename T>
 void CooMatrix<T>::SetSize(int rows, int cols)
 {
-- 
2.43.0


From 88f7136cc97d6b21b97c6600893e41916c8fde1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 11/26] fix: BlockMatrix::Transpose transposes its blocks and
 skips unset ones

---
 include/blockmatrix.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/blockmatrix.hpp b/include/blockmatrix.hpp
index 35d8b28..0234496 100644
--- a/include/blockmatrix.hpp
+++ b/include/blockmatrix.hpp
@@ -214,7 +214,12 @@ BlockMatrix<T> BlockMatrix<T>::Transpose() const
     {
         for (int j = 0; j < col_blocks; ++j)
         {
-            transpose.SetBlock(j, i, GetBlock(i, j));
+            const auto& block = GetBlock(i, j);
+
+            if (block.Rows() > 0 && block.Cols() > 0)
+            {
+                transpose.SetBlock(j, i, block.Transpose());
+            }
         }
     }
 
-- 
2.43.0


From 68ce11cde7dcd133c0597b76b1e27f56cd12ec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:00 +0000
Subject: [PATCH 12/26] fix: assigning a non-const view to a Vector resizes it
 like a const view does

---
 include/vector.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/vector.hpp b/include/vector.hpp
index e57d787..7fcaee0 100644
--- a/include/vector.hpp
+++ b/include/vector.hpp
@@ -90,6 +90,18 @@ class Vector : public VectorView<T>
         */
         Vector& operator=(const VectorView<T>& vect) noexcept;
 
+        /*! @brief Sets this vector equal to another
+            @param vect the vector to copy
+            @note hides the view assignment that requires matching sizes
+        */
+        Vector& operator=(VectorView<T>& vect) noexcept;
+
+        /*! @brief Sets this vector equal to another
+            @param vect the vector to copy
+            @note hides the view assignment that requires matching sizes
+        */
+        Vector& operator=(VectorView<T>&& vect) noexcept;
+
         /*! @brief Sets this vector equal to another
             @param vect the vector to copy
         */
@@ -221,6 +233,18 @@ Vector<T>& Vector<T>::operator=(const VectorView<T>& vect) noexcept
     return *this;
 }
 
+template <typename T>
+Vector<T>& Vector<T>::operator=(VectorView<T>& vect) noexcept
+{
+    return *this = static_cast<const VectorView<T>&>(vect);
+}
+
+template <typename T>
+Vector<T>& Vector<T>::operator=(VectorView<T>&& vect) noexcept
+{
+    return *this = static_cast<const VectorView<T>&>(vect);
+}
+
 template <typename T>
 Vector<T>& Vector<T>::operator=(Vector<T>&& vect) noexcept
 {
-- 
2.43.0


From c981a00dc9a9e073771ef513cc332a66b1cde625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:00 +0000
Subject: [PATCH 13/26] fix: reject negative element and block indices like too
 large ones

---
 include/blockmatrix.hpp | 4 ++++
 include/blockvector.hpp | 2 ++
 include/vectorview.hpp  | 2 ++
 src/blockoperator.cpp   | 4 ++++
 4 files changed, 12 insertions(+)

diff --git a/include/blockmatrix.hpp b/include/blockmatrix.hpp
index 0234496..aee0589 100644
--- a/include/blockmatrix.hpp
+++ b/include/blockmatrix.hpp
@@ -184,6 +184,8 @@ const std::vector<int>& BlockMatrix<T>::GetColOffsets() const
 template <typename T>
 const SparseMatrix<T>& BlockMatrix<T>::GetBlock(int i, int j) const
 {
+    assert(i >= 0);
+    assert(j >= 0);
     assert(i < static_cast<int>(row_offsets_.size()) - 1);
     assert(j < static_cast<int>(col_offsets_.size()) - 1);
 
@@ -193,6 +195,8 @@ const SparseMatrix<T>& BlockMatrix<T>::GetBlock(int i, int j) const
 template <typename T>
 void BlockMatrix<T>::SetBlock(int i, int j, SparseMatrix<T> mat)
 {
+    assert(i >= 0);
+    assert(j >= 0);
     assert(i < static_cast<int>(row_offsets_.size()) - 1);
     assert(j < static_cast<int>(col_offsets_.size()) - 1);
 
diff --git a/include/blockvector.hpp b/include/blockvector.hpp
index 9751a64..b455578 100644
--- a/include/blockvector.hpp
+++ b/include/blockvector.hpp
@@ -130,6 +130,7 @@ const std::vector<int>& BlockVector<T>::GetOffsets() const
 template <typename T>
 VectorView<T> BlockVector<T>::GetBlock(int block)
 {
+    assert(block >= 0);
     assert(block < static_cast<int>(offsets_.size()) - 1);
 
     T* data = Vector<T>::begin() + offsets_[block];
@@ -141,6 +142,7 @@ VectorView<T> BlockVector<T>::GetBlock(int block)
 template <typename T>
 const VectorView<T> BlockVector<T>::GetBlock(int block) const
 {
+    assert(block >= 0);
     assert(block < static_cast<int>(offsets_.size()) - 1);
 
     T* data = const_cast<T*>(Vector<T>::begin() + offsets_[block]);
diff --git a/include/vectorview.hpp b/include/vectorview.hpp
index 3c2ff8e..3a54272 100644
--- a/include/vectorview.hpp
+++ b/include/vectorview.hpp
@@ -319,6 +319,7 @@ const T* VectorView<T>::end() const
 template <typename T>
 T& VectorView<T>::operator[](int i)
 {
+    assert(i >= 0);
     assert(i < size_);
 
     return data_[i];
@@ -327,6 +328,7 @@ T& VectorView<T>::operator[](int i)
 template <typename T>
 const T& VectorView<T>::operator[](int i) const
 {
+    assert(i >= 0);
     assert(i < size_);
 
     return data_[i];
diff --git a/src/blockoperator.cpp b/src/blockoperator.cpp
index a7cc0a4..0aa0428 100644
--- a/src/blockoperator.cpp
+++ b/src/blockoperator.cpp
@@ -66,6 +66,8 @@ const std::vector<int>& BlockOperator::GetColOffsets() const
 
 const Operator* BlockOperator::GetBlock(int i, int j) const
 {
+    assert(i >= 0);
+    assert(j >= 0);
     assert(i < static_cast<int>(row_offsets_.size()) - 1);
     assert(j < static_cast<int>(col_offsets_.size()) - 1);
 
@@ -74,6 +76,8 @@ const Operator* BlockOperator::GetBlock(int i, int j) const
 
 void BlockOperator::SetBlock(int i, int j, const Operator& op)
 {
+    assert(i >= 0);
+    assert(j >= 0);
     assert(i < static_cast<int>(row_offsets_.size()) - 1);
     assert(j < static_cast<int>(col_offsets_.size()) - 1);
 
-- 
2.43.0


From b8b2598020b4b4db16d090bdc518228d9df0abd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:00 +0000
Subject: [PATCH 14/26] fix: SparseMatrix AddDiag and EliminateCol check the
 sizes of their vectors

---
 include/sparsematrix.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sparsematrix.hpp b/include/sparsematrix.hpp
index 8a79419..0307c82 100644
--- a/include/sparsematrix.hpp
+++ b/include/sparsematrix.hpp
@@ -804,6 +804,7 @@ template <typename T>
 void SparseMatrix<T>::AddDiag(const std::vector<T>& diag)
 {
     assert(rows_ == cols_);
+    assert(static_cast<int>(diag.size()) >= rows_);
 
     for (int i = 0; i < rows_; ++i)
     {
@@ -1455,6 +1456,8 @@ template <typename U>
 void SparseMatrix<T>::EliminateCol(const U& marker, const VectorView<double>& x, VectorView<double> b)
 {
     assert(marker.size() >= cols_);
+    assert(x.size() == cols_);
+    assert(b.size() == rows_);
 
     for (int row = 0; row < rows_; ++row)
     {
-- 
2.43.0


From 8a8b777a46a48b66ca860cd981c68d9e02983399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:07 +0000
Subject: [PATCH 15/26] fix: default constructed and moved-from preconditioned
 solvers have no preconditioner

---
 include/solvers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/solvers.hpp b/include/solvers.hpp
index 63ee2d1..03fbf69 100644
--- a/include/solvers.hpp
+++ b/include/solvers.hpp
@@ -145,7 +145,7 @@ class PCGSolver : public Solver
         void Mult(const VectorView<double>& input, VectorView<double> output) const override;
 
     private:
-        const Operator* M_;
+        const Operator* M_ = nullptr;
 
         mutable Vector<double> Ap_;
         mutable Vector<double> r_;
@@ -242,7 +242,7 @@ class PMINRESSolver : public Solver
         void Mult(const VectorView<double>& input, VectorView<double> output) const override;
 
     private:
-        const Operator* M_;
+        const Operator* M_ = nullptr;
 
         mutable Vector<double> w0_;
         mutable Vector<double> w1_;
-- 
2.43.0


From c1cacc150c81ad36542c1108a134b4485cf62a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:26 +0000
Subject: [PATCH 16/26] fix: solvers perform and report at most max_iter
 iterations and accept an exact initial guess

---
 src/solvers.cpp | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/solvers.cpp b/src/solvers.cpp
index ba2fe0b..2ac1f16 100644
--- a/src/solvers.cpp
+++ b/src/solvers.cpp
@@ -169,16 +169,18 @@ void PCGSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
 
     const double tol_tol = std::max(r0 * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);
 
-    num_iter_ = 1;
+    num_iter_ = 0;
 
-    if ((*Dot_)(z_, r_) < tol_tol)
+    if (r0 <= tol_tol)
     //if ((*Dot_)(r_, r_) < tol_tol)
     {
         return;
     }
 
-    do
+    while (num_iter_ < max_iter_)
     {
+        ++num_iter_;
+
         A_->Mult(p_, Ap_);
 
         double pAp = (*Dot_)(p_, Ap_);
@@ -209,7 +211,7 @@ void PCGSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
             printf("PCG %d: %.2e\n", num_iter_, numer / r0);
         }
 
-        if (numer < tol_tol)
+        if (numer <= tol_tol)
         {
             break;
         }
@@ -219,7 +221,6 @@ void PCGSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
         p_ *= beta;
         p_ += z_;
     }
-    while (++num_iter_ < max_iter_);
 }
 
 Vector<double> PCG(const Operator& A, const Operator& M, const VectorView<double>& b,
@@ -307,8 +308,17 @@ void MINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
 
     double tol = std::max(beta * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);
 
-    for (num_iter_ = 1; num_iter_ <= max_iter_; ++num_iter_)
+    num_iter_ = 0;
+
+    if (beta <= tol)
     {
+        return;
+    }
+
+    while (num_iter_ < max_iter_)
+    {
+        ++num_iter_;
+
         v1_ /= beta;
         A_->Mult(v1_, q_);
 
@@ -350,7 +360,7 @@ void MINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
             printf("MINRES %d: %.2e\n", num_iter_, eta);
         }
 
-        if (std::fabs(eta) < tol)
+        if (std::fabs(eta) <= tol)
         {
             break;
         }
@@ -457,8 +467,17 @@ void PMINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) cons
 
     double tol = std::max(beta * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);
 
-    for (num_iter_ = 1; num_iter_ <= max_iter_; ++num_iter_)
+    num_iter_ = 0;
+
+    if (beta <= tol)
+    {
+        return;
+    }
+
+    while (num_iter_ < max_iter_)
     {
+        ++num_iter_;
+
         v1_ /= beta;
         u1_ /= beta;
 
@@ -503,7 +522,7 @@ void PMINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) cons
             printf("PMINRES %d: %.2e\n", num_iter_, eta);
         }
 
-        if (std::fabs(eta) < tol)
+        if (std::fabs(eta) <= tol)
         {
             break;
         }
-- 
2.43.0


From eb9556ab174d2d8e384dd7f4dd97da1f20dc4315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:07 +0000
Subject: [PATCH 17/26] fix: a moved-from or empty copied SparseSolver has no
 factorisation to free

---
 modules/sparsesolver/include/sparsesolve.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/sparsesolver/include/sparsesolve.hpp b/modules/sparsesolver/include/sparsesolve.hpp
index 6ee7c64..e3fcbd7 100644
--- a/modules/sparsesolver/include/sparsesolve.hpp
+++ b/modules/sparsesolver/include/sparsesolve.hpp
@@ -33,7 +33,7 @@ class SparseSolver : public linalgcpp::Operator
         void Init();
 
         linalgcpp::SparseMatrix<double> A_;
-        void* numeric_;
+        void* numeric_ = nullptr;
 
         std::vector<double> control_;
         mutable std::vector<double> info_;
-- 
2.43.0


From b6b928281438d3b0b1cdfb6f16ccddebd35ea8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:18 +0000
Subject: [PATCH 18/26] fix: utilities.hpp compiles on its own and
 linalgcpp_assert throws in debug mode only

---
 include/utilities.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/utilities.hpp b/include/utilities.hpp
index cde6cb1..b2be51d 100644
--- a/include/utilities.hpp
+++ b/include/utilities.hpp
@@ -3,6 +3,9 @@
 #ifndef UTILITIES_HPP__
 #define UTILITIES_HPP__
 
+#include <stdexcept>
+#include <string>
+
 namespace linalgcpp
 {
 
@@ -10,7 +13,7 @@ namespace linalgcpp
 inline
 void linalgcpp_assert(bool expression, const std::string& message = "linalgcpp assertion failed")
 {
-#ifdef NDEBUG
+#ifndef NDEBUG
     if (!expression)
     {
         throw std::runtime_error(message);
-- 
2.43.0


From d6e06d40592adaae0ee381d9480b8a96a91f85a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:25 +0000
Subject: [PATCH 19/26] fix: define the declared division of a scalar by a
 DenseMatrix

---
 src/densematrix.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index 5b70b90..c861c5f 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -337,6 +337,16 @@ DenseMatrix operator/(DenseMatrix lhs, double val)
     return lhs /= val;
 }
 
+DenseMatrix operator/(double val, DenseMatrix rhs)
+{
+    for (auto& entry : rhs.data_)
+    {
+        entry = val / entry;
+    }
+
+    return rhs;
+}
+
 DenseMatrix& DenseMatrix::operator=(double val)
 {
     std::fill(begin(data_), end(data_), val);
-- 
2.43.0


From cd5819ebd8da4e6348e38a02e2c882fb0e134d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:56 +0000
Subject: [PATCH 20/26] fix: WriteCooList keeps 16 digits and accepts matrices
 of any scalar type

---
 include/parser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index 2f6dd18..d6ce44a 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -370,10 +370,12 @@ void WriteCooList(const SparseMatrix<T>& mat, const std::string& file_name, bool
 
     const std::vector<int>& indptr = mat.GetIndptr();
     const std::vector<int>& indices = mat.GetIndices();
-    const std::vector<double>& data = mat.GetData();
+    const std::vector<T>& data = mat.GetData();
 
     const int rows = mat.Rows();
 
+    file.precision(16);
+
     for (int i = 0; i < rows; ++i)
     {
         for (int j = indptr[i]; j < indptr[i + 1]; ++j)
-- 
2.43.0


From fe0092592c09d5c52f482d67986f79058d4ed421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:05 +0000
Subject: [PATCH 21/26] fix: BlockMatrix::Combine works for every scalar type

---
 include/blockmatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/blockmatrix.hpp b/include/blockmatrix.hpp
index aee0589..afb9b7f 100644
--- a/include/blockmatrix.hpp
+++ b/include/blockmatrix.hpp
@@ -245,7 +245,7 @@ SparseMatrix<T> BlockMatrix<T>::Combine() const
 
     std::vector<int> indptr(rows_ + 1);
     std::vector<int> indices(nnz);
-    std::vector<double> data(nnz);
+    std::vector<T> data(nnz);
 
     indptr[0] = 0;
 
-- 
2.43.0


From 88bcaf99aabbd4a88af1187258d3c80208b9fb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:15 +0000
Subject: [PATCH 22/26] fix: writing and reading binary files does not index
 into empty storage

---
 include/parser.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index d6ce44a..e4ec2a0 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -81,7 +81,7 @@ void WriteBinary(const std::vector<T>& vect, const std::string& file_name)
     size_t size = vect.size();
 
     file.write(reinterpret_cast<const char*>(&size), sizeof(size));
-    file.write(reinterpret_cast<const char*>(&vect[0]), size * sizeof(T));
+    file.write(reinterpret_cast<const char*>(vect.data()), size * sizeof(T));
 
     file.close();
 }
@@ -107,7 +107,7 @@ std::vector<T> ReadBinaryVect(const std::string& file_name)
 
     std::vector<T> vect(size);
 
-    file.read(reinterpret_cast<char*>(&vect[0]), size * sizeof(T));
+    file.read(reinterpret_cast<char*>(vect.data()), size * sizeof(T));
     file.close();
 
     return vect;
@@ -143,9 +143,9 @@ void WriteBinary(const SparseMatrix<T>& mat, const std::string& file_name)
     file.write(reinterpret_cast<const char*>(&cols), sizeof(cols));
     file.write(reinterpret_cast<const char*>(&nnz), sizeof(nnz));
 
-    file.write(reinterpret_cast<const char*>(&indptr[0]), (rows + 1) * sizeof(int));
-    file.write(reinterpret_cast<const char*>(&indices[0]), nnz * sizeof(int));
-    file.write(reinterpret_cast<const char*>(&data[0]), nnz * sizeof(T));
+    file.write(reinterpret_cast<const char*>(indptr.data()), (rows + 1) * sizeof(int));
+    file.write(reinterpret_cast<const char*>(indices.data()), nnz * sizeof(int));
+    file.write(reinterpret_cast<const char*>(data.data()), nnz * sizeof(T));
 
     file.close();
 }
@@ -179,9 +179,9 @@ SparseMatrix<T> ReadBinaryMat(const std::string& file_name)
     std::vector<int> indices(nnz);
     std::vector<T> data(nnz);
 
-    file.read(reinterpret_cast<char*>(&indptr[0]), (rows + 1) * sizeof(int));
-    file.read(reinterpret_cast<char*>(&indices[0]), nnz * sizeof(int));
-    file.read(reinterpret_cast<char*>(&data[0]), nnz * sizeof(T));
+    file.read(reinterpret_cast<char*>(indptr.data()), (rows + 1) * sizeof(int));
+    file.read(reinterpret_cast<char*>(indices.data()), nnz * sizeof(int));
+    file.read(reinterpret_cast<char*>(data.data()), nnz * sizeof(T));
 
     file.close();
 
-- 
2.43.0


From f36cc01f437f8bad88a67368daef352ab59d041c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:26 +0000
Subject: [PATCH 23/26] fix: ReadBinaryMat opens its file for reading only

---
 include/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index e4ec2a0..3dc8758 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -160,7 +160,7 @@ void WriteBinary(const SparseMatrix<T>& mat, const std::string& file_name)
 template <typename T = double>
 SparseMatrix<T> ReadBinaryMat(const std::string& file_name)
 {
-    std::ifstream file(file_name.c_str(), std::ios::out | std::ios::binary);
+    std::ifstream file(file_name.c_str(), std::ios::in | std::ios::binary);
 
     if (!file.is_open())
     {
-- 
2.43.0


From 9876df5c060cf18bd23109473273ccaba64e6ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:38 +0000
Subject: [PATCH 24/26] fix: ReadTable accepts a table without entries

---
 include/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index 3dc8758..2d40e20 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -429,7 +429,7 @@ SparseMatrix<T> ReadTable(const std::string& file_name)
     file.close();
 
     const int rows = indptr.size() - 1;
-    const int cols = *std::max_element(begin(indices), end(indices)) + 1;
+    const int cols = indices.empty() ? 0 : *std::max_element(begin(indices), end(indices)) + 1;
 
     std::vector<T> data(indices.size(), 1);
 
-- 
2.43.0


From d4531e5115ccdf9829ad7ed782f74ae9a3abdc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:56 +0000
Subject: [PATCH 25/26] fix: WriteMTX writes the banner the matrix market
 format requires

---
 include/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index 2d40e20..a431f66 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -710,7 +710,7 @@ void WriteMTX(const SparseMatrix<T>& mat, const std::string& file_name)
     int nnz = mat.nnz();
 
     file.precision(16);
-    file << "%MatrixMarket matrix coordinate real general\n";
+    file << "%%MatrixMarket matrix coordinate real general\n";
     file << rows << " " << cols << " " << nnz <<  "\n";
 
     const std::vector<int>& indptr = mat.GetIndptr();
-- 
2.43.0


From 856b9495c6d27cf2dd230b0c47e23dfafcb648d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:48 +0000
Subject: [PATCH 26/26] fix: partitioning a matrix with few stored entries
 requested a negative capacity

---
 modules/partition/include/partition.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/partition/include/partition.hpp b/modules/partition/include/partition.hpp
index 04c895e..e7fc5ac 100644
--- a/modules/partition/include/partition.hpp
+++ b/modules/partition/include/partition.hpp
@@ -17,7 +17,7 @@ MakeAdjacencyInfo(const linalgcpp::SparseMatrix<T>& mat, bool weighted = false)
 {
     assert(mat.Cols() == mat.Rows());
 
-    int num_edges = (mat.nnz() - mat.Rows()) / 2;
+    const int num_edges = mat.nnz();
 
     std::vector<U> indptr(mat.Rows() + 1);
     std::vector<U> indices;
-- 
2.43.0

