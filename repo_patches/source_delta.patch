From 8bff83ba59c8390777d264a0002537ce40d208ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:21 +0000
Subject: [PATCH 001/125] fix: build correct row pointers when a sparse matrix
 is made from triplets

---
 src/CrsMatrix.h       | 19 ++++++-------------
 src/SampleCRSMatrix.h | 19 +++++++------------
 2 files changed, 13 insertions(+), 25 deletions(-)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index 3a3add5..3cb923f 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -209,22 +209,15 @@ public:
 		Vector<SizeType>::Type rows = rows2;
 		s.sort(rows, iperm);
 		SizeType counter = 0;
-		SizeType prevRow = rows[0] + 1;
-		for (SizeType i = 0; i < rows.size(); i++) {
-			SizeType row = rows[i];
-			if (prevRow != row) {
-				// add new row
-				rowptr_[row] = counter++;
-				prevRow = row;
+		for (SizeType row = 0; row < rank; ++row) {
+			rowptr_[row] = counter;
+			for (; counter < rows.size() && rows[counter] == row; ++counter) {
+				colind_.push_back(cols[iperm[counter]]);
+				values_.push_back(vals[iperm[counter]]);
 			}
-
-			colind_.push_back(cols[iperm[i]]);
-			values_.push_back(vals[iperm[i]]);
 		}
 
-		SizeType lastNonZeroRow = rows[rows.size() - 1];
-		for (SizeType i = lastNonZeroRow + 1; i <= rank; ++i)
-			rowptr_[i] = counter;
+		rowptr_[rank] = counter;
 	}
 
 	// start closure ctors
diff --git a/src/SampleCRSMatrix.h b/src/SampleCRSMatrix.h
index 703c858..28f2d4e 100644
--- a/src/SampleCRSMatrix.h
+++ b/src/SampleCRSMatrix.h
@@ -204,20 +204,15 @@ private:
 		typename Vector<SizeType>::Type iperm(rows.size());
 		s.sort(rows, iperm);
 		SizeType counter = 0;
-		SizeType prevRow = rows[0] + 1;
-		for (SizeType i = 0; i < rows.size(); i++) {
-			SizeType row = rows[i];
-			if (prevRow != row) {
-				// add new row
-				rowptr_[row] = counter++;
-				prevRow = row;
+		for (SizeType row = 0; row < rank_; ++row) {
+			rowptr_[row] = counter;
+			for (; counter < rows.size() && rows[counter] == row; ++counter) {
+				colind_.push_back(cols[iperm[counter]]);
+				values_.push_back(vals[iperm[counter]]);
 			}
-			colind_.push_back(cols[iperm[i]]);
-			values_.push_back(vals[iperm[i]]);
 		}
-		SizeType lastNonZeroRow = rows[rows.size() - 1];
-		for (SizeType i = lastNonZeroRow + 1; i <= rank_; i++)
-			rowptr_[i] = counter;
+
+		rowptr_[rank_] = counter;
 	}
 
 	SizeType rank_;
-- 
2.43.0


From 05f7a031c3454bb066d9e3534b9ef6578d850aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:21 +0000
Subject: [PATCH 002/125] fix: crsMatrixToFullMatrix must not keep old elements
 of its target

---
 src/CrsMatrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index 3cb923f..6ba1149 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -768,6 +768,7 @@ template <typename T>
 void crsMatrixToFullMatrix(Matrix<T>& m, const CrsMatrix<T>& crsMatrix)
 {
 	m.resize(crsMatrix.rows(), crsMatrix.cols(), 0);
+	m.setTo(0);
 	for (SizeType i = 0; i < crsMatrix.rows(); i++) {
 		//  for (SizeType k=0;k<crsMatrix.cols();k++) m(i,k)=0;
 		for (int k = crsMatrix.getRowPtr(i);
-- 
2.43.0


From 60066fdba2beddbab34bc928335843e7d29762ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:32 +0000
Subject: [PATCH 003/125] fix: a sparse matrix without stored diagonal elements
 is not the identity

---
 src/CrsMatrix.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index 6ba1149..8957e16 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -1535,16 +1535,19 @@ bool isDiagonal(const CrsMatrix<T>& A, double eps = 1e-6, bool checkForIdentity
 	SizeType n = A.rows();
 	const T f1 = (-1.0);
 	for (SizeType i = 0; i < n; i++) {
+		T diagonal = 0.0; // stays zero if the row stores no diagonal element
 		for (int k = A.getRowPtr(i); k < A.getRowPtr(i + 1); k++) {
 			SizeType col = A.getCol(k);
 			const T& val = A.getValue(k);
-			if (checkForIdentity && col == i && PsimagLite::norm(val + f1) > eps) {
-				return false;
-			}
+			if (col == i)
+				diagonal = val;
 			if (col != i && PsimagLite::norm(val) > eps) {
 				return false;
 			}
 		}
+
+		if (checkForIdentity && PsimagLite::norm(diagonal + f1) > eps)
+			return false;
 	}
 	return true;
 }
-- 
2.43.0


From f80fd4d093e95372c0052bce43f50ca3f50db478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 004/125] fix: matrix-like vector product must loop over its
 inner index

---
 src/Vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Vector.h b/src/Vector.h
index 86aa20d..ff6291f 100644
--- a/src/Vector.h
+++ b/src/Vector.h
@@ -100,7 +100,7 @@ vector<T2, A> operator*(const vector<vector<T1, A>, AA>& v1,
 	vector<T2, A> v3(v2.size());
 	for (SizeType i = 0; i < v3.size(); i++) {
 		v3[i] = 0;
-		for (SizeType j = 0; i < v2.size(); j++)
+		for (SizeType j = 0; j < v2.size(); j++)
 			v3[i] += v1[i][j] * v2[j];
 	}
 	return v3;
-- 
2.43.0


From 3c9d0a9ec391c81d32650590534d1d1ccfbeff09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:02 +0000
Subject: [PATCH 005/125] fix: vector times matrix must not be evaluated as
 matrix times vector

---
 src/Matrix.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Matrix.h b/src/Matrix.h
index 06c619f..798f816 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -944,6 +944,14 @@ void operator<=(std::vector<T, A>& v,
 	}
 }
 
+// without this, Vector.h takes the matrix for a scalar that commutes with the vector
+template <typename T, typename A>
+std::ClosureOperator<std::vector<T, A>, Matrix<T>, std::ClosureOperations::OP_MULT>
+operator*(const std::vector<T, A>& v, const Matrix<T>& m)
+{
+	return std::ClosureOperator<std::vector<T, A>, Matrix<T>, std::ClosureOperations::OP_MULT>(v, m);
+}
+
 template <typename T, typename A>
 void operator<=(std::vector<T, A>& v,
                 const std::ClosureOperator<std::vector<T, A>, Matrix<T>, std::ClosureOperations::OP_MULT>& c)
-- 
2.43.0


From de503e4eaa99df2b3790b43ae58241e76c912e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:22 +0000
Subject: [PATCH 006/125] fix: GemmR must not divide by zero when the result is
 empty

---
 src/GemmR.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/GemmR.h b/src/GemmR.h
index 222ef7b..c6e62d7 100644
--- a/src/GemmR.h
+++ b/src/GemmR.h
@@ -23,6 +23,9 @@ public:
 
 	void operator()(char const transA, char const transB, int const m, int const n, int const k, T const& alpha, T const* const A, int const ldA, T const* const B, int const ldB, T const& beta, T* const C, int const ldC)
 	{
+		if (m == 0 || n == 0) // nothing to compute
+			return;
+
 		if (isSmall(m, n)) {
 			psimag::BLAS::GEMM(transA, transB, m, n, k, alpha, A, ldA, B, ldB, beta, C, ldC);
 			return;
-- 
2.43.0


From 67498d6688efbbeb2af3bc6f15656108fde20926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:39 +0000
Subject: [PATCH 007/125] fix: HEMM must use the leading dimension of its
 second matrix

---
 src/BLAS.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/BLAS.h b/src/BLAS.h
index 1dd9b32..78630a0 100644
--- a/src/BLAS.h
+++ b/src/BLAS.h
@@ -413,13 +413,13 @@ namespace BLAS {
 		zsymm_(&c1, &c2, &sX, &sY, &a, x, &sx, y, &sy, &b, z, &sz);
 	}
 	// ---------------------------------------------------------------------------
-	inline void HEMM(char c1, char c2, IntegerForBlasType sX, IntegerForBlasType sY, const std::complex<float>& a, const std::complex<float>* x, IntegerForBlasType sx, const std::complex<float>* y, IntegerForBlasType, const std::complex<float>& b, std::complex<float>* z, IntegerForBlasType sz)
+	inline void HEMM(char c1, char c2, IntegerForBlasType sX, IntegerForBlasType sY, const std::complex<float>& a, const std::complex<float>* x, IntegerForBlasType sx, const std::complex<float>* y, IntegerForBlasType sy, const std::complex<float>& b, std::complex<float>* z, IntegerForBlasType sz)
 	{
-		chemm_(&c1, &c2, &sX, &sY, &a, x, &sx, y, &sx, &b, z, &sz);
+		chemm_(&c1, &c2, &sX, &sY, &a, x, &sx, y, &sy, &b, z, &sz);
 	}
-	inline void HEMM(char c1, char c2, IntegerForBlasType sX, IntegerForBlasType sY, const std::complex<double>& a, const std::complex<double>* x, IntegerForBlasType sx, const std::complex<double>* y, IntegerForBlasType, const std::complex<double>& b, std::complex<double>* z, IntegerForBlasType sz)
+	inline void HEMM(char c1, char c2, IntegerForBlasType sX, IntegerForBlasType sY, const std::complex<double>& a, const std::complex<double>* x, IntegerForBlasType sx, const std::complex<double>* y, IntegerForBlasType sy, const std::complex<double>& b, std::complex<double>* z, IntegerForBlasType sz)
 	{
-		zhemm_(&c1, &c2, &sX, &sY, &a, x, &sx, y, &sx, &b, z, &sz);
+		zhemm_(&c1, &c2, &sX, &sY, &a, x, &sx, y, &sy, &b, z, &sz);
 	}
 	// **************************************************************************
 	inline void SYRK(char UPLO, char TRANS, IntegerForBlasType N, IntegerForBlasType K, const float& ALPHA, const float* A, IntegerForBlasType LDA, const float& BETA, float* C, IntegerForBlasType LDC)
-- 
2.43.0


From 33487d592da87970aa58cc97ea8fb49e624cd20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:24 +0000
Subject: [PATCH 008/125] fix: exponentials of complex Hermitian matrices came
 out transposed

---
 src/Matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Matrix.h b/src/Matrix.h
index 798f816..96883ed 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -1030,7 +1030,7 @@ void exp(Matrix<T>& m)
 				typename Real<T>::Type alpha = eigs[k];
 				T tmp = 0.0;
 				expComplexOrReal(tmp, alpha);
-				sum += PsimagLite::conj(m(i, k)) * m(j, k) * tmp;
+				sum += m(i, k) * PsimagLite::conj(m(j, k)) * tmp;
 			}
 			expm(i, j) = sum;
 		}
@@ -1098,7 +1098,7 @@ typename EnableIf<IsComplexNumber<T>::True, void>::Type expIpi(Matrix<T>& A)
 			std::complex<RT> sum = 0;
 			for (SizeType k = 0; k < n; ++k) {
 				const RT arg = eigs[k] * M_PI;
-				sum += PsimagLite::conj(A(i, k)) * std::complex<RT>(cos(arg), sin(arg)) * A(j, k);
+				sum += A(i, k) * std::complex<RT>(cos(arg), sin(arg)) * PsimagLite::conj(A(j, k));
 			}
 
 			result(i, j) = sum;
-- 
2.43.0


From 3d799ca23295d7e3e2fd6de8e91a4e00a6049f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:27 +0000
Subject: [PATCH 009/125] fix: the tridiagonal matrix of a 1x1 problem has no
 off-diagonal element

---
 src/LanczosCore.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LanczosCore.h b/src/LanczosCore.h
index e2c703d..04aaa7e 100644
--- a/src/LanczosCore.h
+++ b/src/LanczosCore.h
@@ -199,7 +199,8 @@ public:
 		}
 
 		btmp = sqrt(btmp);
-		ab.b(1) = btmp; // beta = sqrt(V1*V1)
+		if (max_nstep > 1)
+			ab.b(1) = btmp; // beta = sqrt(V1*V1)
 
 		if (btmp > 0) {
 			btmp = 1.0 / btmp;
-- 
2.43.0


From f689ff745453e7c9602341ee977f5bc0dfa921ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:20 +0000
Subject: [PATCH 010/125] fix: the convergence test must include the state that
 was asked for

---
 src/LanczosSolver.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LanczosSolver.h b/src/LanczosSolver.h
index 4722237..b14e648 100644
--- a/src/LanczosSolver.h
+++ b/src/LanczosSolver.h
@@ -38,7 +38,7 @@ public:
 		Profiling profiling("LanczosSolver", std::cout);
 
 		TridiagonalMatrixType ab;
-		ls_.decomposition(initialVector, ab, excited);
+		ls_.decomposition(initialVector, ab, excited + 1);
 
 		VectorRealType eigs(ab.size());
 		typename LanczosCoreType::DenseMatrixType ritz;
@@ -72,7 +72,7 @@ public:
 	void computeAllStatesBelow(VectorRealType& eigs, VectorVectorType& z, const VectorType& initialVector, SizeType excited)
 	{
 		TridiagonalMatrixType ab;
-		ls_.decomposition(initialVector, ab, excited);
+		ls_.decomposition(initialVector, ab, excited + 1);
 
 		if (excited > ab.size())
 			throw RuntimeError("Excited too big\n");
-- 
2.43.0


From 60b9dfc00ed1f4f11517ce89d565cd7bf784f799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:20 +0000
Subject: [PATCH 011/125] fix: a minimum number of steps above the maximum must
 not write past the Lanczos vectors

---
 src/LanczosCore.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LanczosCore.h b/src/LanczosCore.h
index 04aaa7e..3e3ccd2 100644
--- a/src/LanczosCore.h
+++ b/src/LanczosCore.h
@@ -237,7 +237,7 @@ public:
 				exitFlag = true;
 			if (exitFlag && mat_.rows() <= 4)
 				break;
-			if (exitFlag && j >= params_.minSteps)
+			if (exitFlag && (j >= params_.minSteps || j == max_nstep - 1))
 				break;
 
 			if (lanczosVectors_.lotaMemory())
-- 
2.43.0


From 0236fd237aa8dbcaf57fc0ec1e19e5a5b84ab26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:39 +0000
Subject: [PATCH 012/125] fix: stop the reorthogonalized Lanczos iteration when
 the Krylov space is exhausted

---
 src/LanczosCore.h    | 10 ++++++++++
 src/LanczosSolver.h  |  4 +++-
 src/LanczosVectors.h | 16 ++++++++++++++--
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/LanczosCore.h b/src/LanczosCore.h
index 3e3ccd2..6fa7b4f 100644
--- a/src/LanczosCore.h
+++ b/src/LanczosCore.h
@@ -208,6 +208,13 @@ public:
 				V1[i] *= btmp; // normalize V1
 		}
 
+		lanczosVectors_.reorthoIfNecessary(V1, 0);
+
+		if (PsimagLite::norm(V1) == 0) {
+			max_nstep = 1; // the Krylov space is exhausted
+			ab.resize(max_nstep);
+		}
+
 		if (lanczosVectors_.lotaMemory() && 1 < max_nstep)
 			lanczosVectors_.saveVector(V1, 1);
 
@@ -240,6 +247,9 @@ public:
 			if (exitFlag && (j >= params_.minSteps || j == max_nstep - 1))
 				break;
 
+			if (ab.b(j + 1) == 0)
+				break; // the Krylov space is exhausted
+
 			if (lanczosVectors_.lotaMemory())
 				lanczosVectors_.saveVector(V2, j + 1);
 
diff --git a/src/LanczosSolver.h b/src/LanczosSolver.h
index b14e648..ba9b36c 100644
--- a/src/LanczosSolver.h
+++ b/src/LanczosSolver.h
@@ -39,6 +39,8 @@ public:
 
 		TridiagonalMatrixType ab;
 		ls_.decomposition(initialVector, ab, excited + 1);
+		if (excited >= ab.size())
+			throw RuntimeError("Excited too big\n");
 
 		VectorRealType eigs(ab.size());
 		typename LanczosCoreType::DenseMatrixType ritz;
@@ -74,7 +76,7 @@ public:
 		TridiagonalMatrixType ab;
 		ls_.decomposition(initialVector, ab, excited + 1);
 
-		if (excited > ab.size())
+		if (excited >= ab.size())
 			throw RuntimeError("Excited too big\n");
 
 		typename LanczosCoreType::DenseMatrixType ritz;
diff --git a/src/LanczosVectors.h b/src/LanczosVectors.h
index c544eb9..0213836 100644
--- a/src/LanczosVectors.h
+++ b/src/LanczosVectors.h
@@ -86,6 +86,7 @@ DISCLOSED WOULD NOT INFRINGE PRIVATELY OWNED RIGHTS.
 #include "Random48.h"
 #include "Vector.h"
 #include <cassert>
+#include <limits>
 
 namespace PsimagLite {
 
@@ -229,12 +230,14 @@ public:
 		}
 
 		reorthoIfNecessary(V2, iter);
+
+		// the Krylov space is exhausted: the next vector is exactly zero
+		if (iter + 1 < ab.size() && PsimagLite::norm(V2) == 0)
+			ab.b(iter + 1) = 0;
 	}
 
 	void needsDelete(bool b) { needsDelete_ = b; }
 
-private:
-
 	void reorthoIfNecessary(VectorType& V2, SizeType iter) const
 	{
 		if (!isReorthoEnabled_)
@@ -260,11 +263,20 @@ private:
 		for (SizeType h = 0; h < nn; h++)
 			ntmp += PsimagLite::real(V2[h] * PsimagLite::conj(V2[h]));
 
+		// nothing but rounding is left: V2 was in the span of the previous ones
+		if (ntmp < std::numeric_limits<RealType>::epsilon()) {
+			for (SizeType h = 0; h < nn; h++)
+				V2[h] = 0.0;
+			return;
+		}
+
 		ntmp = 1.0 / sqrt(ntmp);
 		for (SizeType h = 0; h < nn; h++)
 			V2[h] = V2[h] * ntmp;
 	}
 
+private:
+
 	void dealWithStorageOfV(SizeType rows, SizeType cols)
 	{
 		if (!lotaMemory_)
-- 
2.43.0


From c8c79279fc431426cf5a035cc89754b77acf5255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 013/125] fix: buildDenseMatrix must not keep old elements of
 its target

---
 src/TridiagonalMatrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/TridiagonalMatrix.h b/src/TridiagonalMatrix.h
index a9dd54b..39c53ea 100644
--- a/src/TridiagonalMatrix.h
+++ b/src/TridiagonalMatrix.h
@@ -153,6 +153,7 @@ public:
 	{
 		if (n == 0)
 			n = a_.size();
+		m.clear(); // no old elements may remain
 		m.resize(n, n, 0);
 		for (SizeType i = 0; i < n - 1; ++i) {
 			m(i, i) = a_[i];
-- 
2.43.0


From 26ac85fd5981a7724768d649ab7eb9477f0cd51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 014/125] fix: a continued fraction plot without points must
 not write past its end

---
 src/ContinuedFraction.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ContinuedFraction.h b/src/ContinuedFraction.h
index 0ed099a..2f4a3df 100644
--- a/src/ContinuedFraction.h
+++ b/src/ContinuedFraction.h
@@ -159,6 +159,8 @@ public:
 		SizeType n = SizeType((params.omega2 - params.omega1) / params.deltaOmega);
 		if (result.size() == 0)
 			result.resize(n);
+		if (result.size() == 0)
+			return;
 		for (RealType omega = params.omega1; omega < params.omega2;
 		     omega += params.deltaOmega) {
 			ComplexType z(omega, params.delta);
-- 
2.43.0


From c30f753af32e31b7fab1eb4c40cc0e49a0d6c7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:13 +0000
Subject: [PATCH 015/125] fix: ChebyshevSolver could neither be constructed nor
 decompose

---
 src/ChebyshevSolver.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ChebyshevSolver.h b/src/ChebyshevSolver.h
index da3bbca..d3bfa7a 100644
--- a/src/ChebyshevSolver.h
+++ b/src/ChebyshevSolver.h
@@ -182,7 +182,7 @@ public:
 		VectorType x(initVector.size(), 0.0);
 		VectorType y = initVector;
 
-		lanczosVectors_.prepareMemory(y.size(), lanczosVectors_.cols());
+		lanczosVectors_.prepareMemory(y.size(), params_.steps);
 		ab.resize(2 * params_.steps, 0);
 		SizeType cols = lanczosVectors_.cols();
 		for (SizeType j = 0; j < cols; ++j) {
@@ -322,6 +322,7 @@ private:
 		progress_.printline(msgg, std::cout);
 
 		SolverParametersType params;
+		params.lotaMemory = true;
 		InternalMatrix mat2(mat_);
 		RealType eMax = 0;
 		LanczosSolver<SolverParametersType, InternalMatrix, VectorType>
-- 
2.43.0


From 58dceaafbe4d035f17bacb9217985de75ce7fada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:13 +0000
Subject: [PATCH 016/125] fix: the zeroth and first Chebyshev moments were
 doubled, and with them all others wrong

---
 src/ChebyshevSolver.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ChebyshevSolver.h b/src/ChebyshevSolver.h
index d3bfa7a..d1b4482 100644
--- a/src/ChebyshevSolver.h
+++ b/src/ChebyshevSolver.h
@@ -192,8 +192,8 @@ public:
 			RealType atmp = 0;
 			RealType btmp = 0;
 			oneStepDec(x, y, atmp, btmp, j);
-			ab.a(j) = 2 * atmp - ab.a(0);
-			ab.b(j) = 2 * btmp - ab.b(0);
+			ab.a(j) = (j == 0) ? atmp : 2 * atmp - ab.a(0);
+			ab.b(j) = (j == 0) ? btmp : 2 * btmp - ab.b(0);
 		}
 
 		// lanczosVectors_.resize(cols); <--- not needed because all
-- 
2.43.0


From de1ab22e07ab694a286ba1949de7f62c0b165244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:51 +0000
Subject: [PATCH 017/125] fix: set the thread stack size after initializing the
 attributes, not before

---
 src/Parallelizer2Pthread.h | 6 +++---
 src/PthreadsNg.h           | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Parallelizer2Pthread.h b/src/Parallelizer2Pthread.h
index 91f4f51..4546349 100644
--- a/src/Parallelizer2Pthread.h
+++ b/src/Parallelizer2Pthread.h
@@ -134,7 +134,9 @@ public:
 			pfs[j].nthreads = nthreads_;
 
 			attr[j] = new pthread_attr_t;
-			int ret = (stackSize_ > 0)
+			int ret = pthread_attr_init(attr[j]);
+			checkForError(ret);
+			ret = (stackSize_ > 0)
 			    ? pthread_attr_setstacksize(attr[j], stackSize_)
 			    : 0;
 			if (ret != 0) {
@@ -154,8 +156,6 @@ public:
 				             "let you continue\n";
 			}
 
-			ret = pthread_attr_init(attr[j]);
-			checkForError(ret);
 
 			ret = pthread_create(
 			    &thread_id[j], attr[j], thread_function_wrapper2<SomeLambdaType, LoadBalancerType>, &pfs[j]);
diff --git a/src/PthreadsNg.h b/src/PthreadsNg.h
index 19bee89..35c6344 100644
--- a/src/PthreadsNg.h
+++ b/src/PthreadsNg.h
@@ -237,7 +237,9 @@ public:
 			pfs[j].nthreads = actualThreads;
 
 			attr[j] = new pthread_attr_t;
-			int ret = (stackSize_ > 0)
+			int ret = pthread_attr_init(attr[j]);
+			checkForError(ret);
+			ret = (stackSize_ > 0)
 			    ? pthread_attr_setstacksize(attr[j], stackSize_)
 			    : 0;
 			if (ret != 0) {
@@ -257,8 +259,6 @@ public:
 				             "let you continue\n";
 			}
 
-			ret = pthread_attr_init(attr[j]);
-			checkForError(ret);
 
 #ifndef __APPLE__
 			if (setAffinities_)
-- 
2.43.0


From 18286eab27397ad92b4796e9433bcdbd5fe656ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:51 +0000
Subject: [PATCH 018/125] fix: the OpenMP loop driver must report the threads
 it was given

---
 src/Parallelizer2OpenMP.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Parallelizer2OpenMP.h b/src/Parallelizer2OpenMP.h
index 08d0505..514c1f1 100644
--- a/src/Parallelizer2OpenMP.h
+++ b/src/Parallelizer2OpenMP.h
@@ -25,7 +25,7 @@ public:
 			lambda(i, omp_get_thread_num());
 	}
 
-	SizeType numberOfThreads() const { return omp_get_num_threads(); }
+	SizeType numberOfThreads() const { return threads_; }
 
 	String name() const { return "openmp"; }
 
-- 
2.43.0


From aff2715f43503e20eca64f6c8120c0f0fc1c7a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:39 +0000
Subject: [PATCH 019/125] fix: empty and complex vectors and strings must
 survive writing, overwriting and reading in binary files

---
 src/Io/IoNgSerializer.h | 46 ++++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index eb9f781..fafdb8b 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -226,40 +226,30 @@ public:
 	void
 	write(String name2, const std::vector<T>& what, WriteMode allowOverwrite = NO_OVERWRITE, typename EnableIf<Loki::TypeTraits<T>::isArith, int*>::Type = 0)
 	{
-		if (what.size() == 0)
-			return;
 		String name = "Def/" + name2;
 		hsize_t dims[1];
 		dims[0] = what.size();
-		assert(0 < what.size());
-		const void* ptr = static_cast<const void*>(&what[0]);
+		const void* ptr = static_cast<const void*>(what.data());
 
-		if (Loki::TypeTraits<T>::isFloat)
-			writeComplexOrReal(name2, 'R');
-		if (allowOverwrite == ALLOW_OVERWRITE)
-			overwrite<T>(name, ptr, dims, 1);
-		else
-			internalWrite<T>(name, ptr, dims, 1);
+		const bool flag = (allowOverwrite == ALLOW_OVERWRITE) ? overwrite<T>(name, ptr, dims, 1)
+		                                                      : internalWrite<T>(name, ptr, dims, 1);
+		if (flag && Loki::TypeTraits<T>::isFloat)
+			writeComplexOrReal(name2, 'R', allowOverwrite);
 	}
 
 	template <typename T>
 	void
 	write(String name2, const std::vector<std::complex<T>>& what, WriteMode allowOverwrite = NO_OVERWRITE, typename EnableIf<Loki::TypeTraits<T>::isArith, int*>::Type = 0)
 	{
-		if (what.size() == 0)
-			return;
-
-		assert(0 < what.size());
-		const void* ptr = static_cast<const void*>(&what[0]);
+		const void* ptr = static_cast<const void*>(what.data());
 		String name = "Def/" + name2;
 		hsize_t dims[1];
 		dims[0] = 2 * what.size();
 
-		writeComplexOrReal(name2, 'C');
-		if (allowOverwrite == ALLOW_OVERWRITE)
-			overwrite<T>(name2, ptr, dims, 1);
-		else
-			internalWrite<T>(name, ptr, dims, 1);
+		const bool flag = (allowOverwrite == ALLOW_OVERWRITE) ? overwrite<T>(name, ptr, dims, 1)
+		                                                      : internalWrite<T>(name, ptr, dims, 1);
+		if (flag)
+			writeComplexOrReal(name2, 'C', allowOverwrite);
 	}
 
 	template <typename T>
@@ -561,9 +551,12 @@ private:
 		dspace.getSimpleExtentDims(dims);
 
 		const hsize_t n = dims[0];
-		if (n == 0)
-			throw RuntimeError("IoNgSerializer: problem reading "
-			                   "vector dims[0] == 0\n");
+		if (n == 0) {
+			what.clear();
+			delete[] dims;
+			delete dataset;
+			return;
+		}
 
 		const ReadEnum readEnumOnDisk = getReadEnumOnDisk(name);
 		static const ReadEnum readEnumDest = getReadEnumDestination<
@@ -638,7 +631,8 @@ private:
 			return false;
 		}
 
-		dataset->write(ptr, typeToH5<SomeType>());
+		if (dims[0] > 0)
+			dataset->write(ptr, typeToH5<SomeType>());
 		delete dataset;
 		delete dataspace;
 		return true;
@@ -803,10 +797,10 @@ private:
 		return x / 2;
 	}
 
-	void writeComplexOrReal(String name2, char content)
+	void writeComplexOrReal(String name2, char content, WriteMode allowOverwrite)
 	{
 		String nameComplexOrReal = name2 + "ComplexOrReal";
-		write(nameComplexOrReal, content);
+		write(nameComplexOrReal, content, allowOverwrite);
 	}
 
 	ReadEnum getReadEnumOnDisk(String name2)
-- 
2.43.0


From 145227b0be91c9ee6c9fd66b9f20ab1d129e062d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:36 +0000
Subject: [PATCH 020/125] fix: reopening a binary file must prepare or check it
 like opening it, and refused files must not stay open

---
 src/Io/IoNgSerializer.h | 81 ++++++++++++++---------------------------
 1 file changed, 27 insertions(+), 54 deletions(-)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index fafdb8b..8319d3d 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -33,45 +33,13 @@ public:
 
 	IoNgSerializer(String filename, unsigned int mode)
 	    : hdf5file_(0)
-	    , filename_(filename)
 	    , mode_(mode)
 	{
 #ifdef NDEBUG
 		dontPrintDebug();
 #endif
 
-		try {
-			hdf5file_ = new H5::H5File(filename, mode);
-		}
-		catch (H5::Exception& e) {
-			delete hdf5file_;
-			hdf5file_ = 0;
-			throw e;
-		}
-
-		if (mode == H5F_ACC_TRUNC) {
-			try {
-				createGroup("");
-			}
-			catch (H5::Exception& e) {
-				filename_ = "";
-				delete hdf5file_;
-				hdf5file_ = 0;
-				throw e;
-			}
-		}
-
-		if (mode == H5F_ACC_RDONLY) {
-			try {
-				readCanary();
-			}
-			catch (H5::Exception& e) {
-				filename_ = "";
-				delete hdf5file_;
-				hdf5file_ = 0;
-				throw e;
-			}
-		}
+		open(filename, mode);
 	}
 
 	~IoNgSerializer()
@@ -92,10 +60,23 @@ public:
 			throw RuntimeError(
 			    "IoNgSerializer::open(): object already open\n");
 
-		filename_ = filename;
 		hdf5file_ = new H5::H5File(filename, mode);
-		if (hdf5file_ && mode_ != H5F_ACC_RDONLY)
-			writeCanary();
+		filename_ = filename;
+		mode_ = mode;
+
+		try {
+			if (mode == H5F_ACC_TRUNC || mode == H5F_ACC_EXCL)
+				createGroup("");
+
+			if (mode == H5F_ACC_RDONLY)
+				readCanary();
+		}
+		catch (...) {
+			filename_ = "";
+			delete hdf5file_;
+			hdf5file_ = 0;
+			throw;
+		}
 	}
 
 	void close()
@@ -540,21 +521,19 @@ private:
 		typedef typename Real<typename SomeVectorType::value_type>::Type
 		    UnderlyingType;
 
-		H5::DataSet* dataset = new H5::DataSet(hdf5file_->openDataSet("Def/" + name));
-		const H5::DataSpace& dspace = dataset->getSpace();
+		H5::DataSet dataset(hdf5file_->openDataSet("Def/" + name));
+		const H5::DataSpace& dspace = dataset.getSpace();
 		const int ndims = dspace.getSimpleExtentNdims();
 		if (ndims != 1)
 			throw RuntimeError("IoNgSerializer: problem reading "
 			                   "vector ndims != 1\n");
 
-		hsize_t* dims = new hsize_t[ndims];
+		hsize_t dims[1];
 		dspace.getSimpleExtentDims(dims);
 
 		const hsize_t n = dims[0];
 		if (n == 0) {
 			what.clear();
-			delete[] dims;
-			delete dataset;
 			return;
 		}
 
@@ -567,9 +546,7 @@ private:
 			                                                           : n;
 			what.resize(complexSize, 0);
 			void* ptr = static_cast<void*>(&(what[0]));
-			dataset->read(ptr, typeToH5<UnderlyingType>());
-			delete[] dims;
-			delete dataset;
+			dataset.read(ptr, typeToH5<UnderlyingType>());
 			return;
 		}
 
@@ -579,12 +556,10 @@ private:
 			typename Vector<UnderlyingType>::Type temporary(
 			    dims[0]);
 			void* ptr2 = static_cast<void*>(&(temporary[0]));
-			dataset->read(ptr2, typeToH5<UnderlyingType>());
+			dataset.read(ptr2, typeToH5<UnderlyingType>());
 			what.resize(dims[0]);
 			for (SizeType i = 0; i < dims[0]; ++i)
 				what[i] = temporary[i]; // real to complex
-			delete[] dims;
-			delete dataset;
 			return;
 		}
 
@@ -666,25 +641,23 @@ private:
 	{
 		static const String name = "/Def/Canary";
 
-		H5::DataSet* dataset = new H5::DataSet(hdf5file_->openDataSet(name));
-		const H5::DataSpace& dspace = dataset->getSpace();
+		H5::DataSet dataset(hdf5file_->openDataSet(name));
+		const H5::DataSpace& dspace = dataset.getSpace();
 		const int ndims = dspace.getSimpleExtentNdims();
 		if (ndims != 1)
 			throw RuntimeError("IoNgSerializer: problem reading "
 			                   "vector<arith> (ndims)\n");
 
-		hsize_t* dims = new hsize_t[ndims];
+		hsize_t dims[1];
 		dspace.getSimpleExtentDims(dims);
 
-		if (dims[0] == 0)
+		if (dims[0] != 1)
 			throw RuntimeError("IoNgSerializer: problem reading "
 			                   "vector<arith> (dims)\n");
 
 		unsigned char c = 0;
 		void* ptr = static_cast<void*>(&c);
-		dataset->read(ptr, typeToH5<unsigned char>());
-		delete[] dims;
-		delete dataset;
+		dataset.read(ptr, typeToH5<unsigned char>());
 
 		if (c != CANARY_VALUE)
 			throw RuntimeError("File " + filename_ + " is not valid (dead canary)\n");
-- 
2.43.0


From 3b5cdd038a990e16e7c87d64804e221c2694cfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:22 +0000
Subject: [PATCH 021/125] fix: enumerators above 255 must not be truncated in
 binary files

---
 src/Io/IoNgSerializer.h | 2 +-
 src/Io/TypeToH5.h       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index 8319d3d..e580138 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -391,7 +391,7 @@ public:
 	template <typename SomeType>
 	void read(SomeType& value, String name, typename EnableIf<std::is_enum<SomeType>::value || IsEnumClass<SomeType>::value, int*>::Type = 0)
 	{
-		SizeType x = 0;
+		typename std::underlying_type<SomeType>::type x = 0;
 		read(x, name);
 		value = static_cast<SomeType>(x);
 	}
diff --git a/src/Io/TypeToH5.h b/src/Io/TypeToH5.h
index 72da053..5ee785e 100644
--- a/src/Io/TypeToH5.h
+++ b/src/Io/TypeToH5.h
@@ -11,7 +11,7 @@ typename EnableIf<!std::is_enum<T>::value, H5::PredType>::Type typeToH5();
 template <typename T>
 typename EnableIf<std::is_enum<T>::value, H5::PredType>::Type typeToH5()
 {
-	return H5::PredType::NATIVE_UINT8;
+	return typeToH5<typename std::underlying_type<T>::type>();
 }
 } // namespace PsimagLite
 #endif // PSI_TYPETOH5_H
-- 
2.43.0


From 5568c8f883a32984adbdf3577bd27d5154a7390c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:22 +0000
Subject: [PATCH 022/125] fix: overwriting a composite that is not in the
 binary file yet must not lose it

---
 src/CrsMatrix.h         | 2 +-
 src/Io/IoNgSerializer.h | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index 8957e16..4fcc79b 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -595,7 +595,7 @@ public:
 	{
 		if (nrow_ > 0)
 			checkValidity();
-		if (mode != IoSerializer::ALLOW_OVERWRITE)
+		if (mode != IoSerializer::ALLOW_OVERWRITE || !ioSerializer.doesGroupExist(label))
 			ioSerializer.createGroup(label);
 		ioSerializer.write(label + "/nrow_", nrow_, mode);
 		ioSerializer.write(label + "/ncol_", ncol_, mode);
diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index e580138..fe8015d 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -167,7 +167,7 @@ public:
 	template <typename T1, typename T2>
 	void write(String name2, const std::pair<T1, T2>& what, WriteMode allowOverwrite = NO_OVERWRITE, typename EnableIf<Loki::TypeTraits<T1>::isArith && Loki::TypeTraits<T2>::isArith, int*>::Type = 0)
 	{
-		if (allowOverwrite != ALLOW_OVERWRITE)
+		if (allowOverwrite != ALLOW_OVERWRITE || !doesGroupExist(name2))
 			createGroup(name2);
 		write(name2 + "/0", what.first, allowOverwrite);
 		write(name2 + "/1", what.second, allowOverwrite);
@@ -243,7 +243,7 @@ public:
 	    = 0)
 	{
 		SizeType n = what.size();
-		if (allowOverwrite != ALLOW_OVERWRITE)
+		if (allowOverwrite != ALLOW_OVERWRITE || !doesGroupExist(name2))
 			createGroup(name2);
 		write(name2 + "/Size", n, allowOverwrite);
 		for (SizeType i = 0; i < n; ++i)
@@ -275,7 +275,7 @@ public:
 	void write(String name2, const std::vector<T>& what, WriteMode allowOverwrite, typename EnableIf<!Loki::TypeTraits<typename Real<T>::Type>::isArith && !IsPairLike<T>::True && !IsEnumClass<T>::value, int*>::Type = 0)
 	{
 		SizeType n = what.size();
-		if (allowOverwrite != ALLOW_OVERWRITE)
+		if (allowOverwrite != ALLOW_OVERWRITE || !doesGroupExist(name2))
 			createGroup(name2);
 		write(name2 + "/Size", n, allowOverwrite);
 		for (SizeType i = 0; i < n; ++i)
-- 
2.43.0


From 5bd9710c916689bef8ba9061c1ff5ef3ba629212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:22 +0000
Subject: [PATCH 023/125] fix: matrices and stacks read from binary files must
 replace the old contents

---
 src/CrsMatrix.h         | 3 +++
 src/Io/IoNgSerializer.h | 3 +++
 src/Matrix.h            | 1 +
 3 files changed, 7 insertions(+)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index 4fcc79b..d6c9891 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -617,6 +617,9 @@ public:
 	{
 		ioSerializer.read(nrow_, label + "/nrow_");
 		ioSerializer.read(ncol_, label + "/ncol_");
+		rowptr_.clear();
+		colind_.clear();
+		values_.clear();
 		if (nrow_ == 0 || ncol_ == 0)
 			return;
 		ioSerializer.read(rowptr_, label + "/rowptr_");
diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index fe8015d..54b682b 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -465,6 +465,9 @@ public:
 	{
 		SizeType x = 0;
 		read(x, name + "/Size");
+		while (what.size() > 0)
+			what.pop();
+
 		for (SizeType i = 0; i < x; ++i) {
 			T t;
 			t.read(name + "/" + ttos(x - i - 1), *this);
diff --git a/src/Matrix.h b/src/Matrix.h
index 96883ed..94914b1 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -153,6 +153,7 @@ public:
 	{
 		ioSerializer.read(nrow_, label + "/nrow_");
 		ioSerializer.read(ncol_, label + "/ncol_");
+		data_.clear();
 		if (nrow_ == 0 || ncol_ == 0)
 			return;
 		ioSerializer.read(data_, label + "/data_");
-- 
2.43.0


From bc8d5a1f3dba94936ef92e3798fd15e22ced2416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:19 +0000
Subject: [PATCH 024/125] fix: a vector of integers that overwrites a vector of
 reals must be readable

---
 src/Io/IoNgSerializer.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index 54b682b..3f06bc1 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -214,8 +214,13 @@ public:
 
 		const bool flag = (allowOverwrite == ALLOW_OVERWRITE) ? overwrite<T>(name, ptr, dims, 1)
 		                                                      : internalWrite<T>(name, ptr, dims, 1);
-		if (flag && Loki::TypeTraits<T>::isFloat)
+		if (!flag)
+			return;
+
+		if (Loki::TypeTraits<T>::isFloat)
 			writeComplexOrReal(name2, 'R', allowOverwrite);
+		else if (allowOverwrite == ALLOW_OVERWRITE)
+			removeComplexOrReal(name2);
 	}
 
 	template <typename T>
@@ -779,6 +784,16 @@ private:
 		write(nameComplexOrReal, content, allowOverwrite);
 	}
 
+	void removeComplexOrReal(String name2)
+	{
+		try {
+			hdf5file_->unlink("Def/" + name2 + "ComplexOrReal");
+		}
+		catch (H5::Exception&) {
+			// what was overwritten had no mark
+		}
+	}
+
 	ReadEnum getReadEnumOnDisk(String name2)
 	{
 		const String nameComplexOrReal = name2 + "ComplexOrReal";
-- 
2.43.0


From b5f803b7afaba0ee26d7685f7b1130baaef3e167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:01 +0000
Subject: [PATCH 025/125] fix: a refused write of a number to a binary file
 must not be reported as done

---
 src/Io/IoNgSerializer.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index 3f06bc1..7c97387 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -130,11 +130,8 @@ public:
 		hsize_t dims[1];
 		dims[0] = 1;
 
-		if (allowOverwrite)
-			return overwrite<T>(name, ptr, dims, 1);
-		else
-			internalWrite<T>(name, ptr, dims, 1);
-		return true;
+		return (allowOverwrite) ? overwrite<T>(name, ptr, dims, 1)
+		                        : internalWrite<T>(name, ptr, dims, 1);
 	}
 
 	void write(String name2, String what, WriteMode allowOverwrite = NO_OVERWRITE)
-- 
2.43.0


From 6b3a30b8f2e6d88cb8f2fc1d72901b017f45e87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:47 +0000
Subject: [PATCH 026/125] fix: matrices and stacks read from text must replace
 the old contents

---
 src/CrsMatrix.h | 8 +++++---
 src/Matrix.h    | 1 +
 src/Stack.h     | 3 +++
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index d6c9891..629d4a2 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -716,18 +716,19 @@ std::ostream& operator<<(std::ostream& os, const CrsMatrix<T>& m)
 template <typename T>
 std::istream& operator>>(std::istream& is, CrsMatrix<T>& m)
 {
-	int n;
+	int n = 0;
 	is >> n;
 	if (n < 0)
 		throw RuntimeError(
 		    "is>>CrsMatrix(...): Rows must be positive\n");
 
 	int ncol = 0;
+	is >> ncol;
 	if (ncol < 0)
 		throw RuntimeError(
 		    "is>>CrsMatrix(...): Cols must be positive\n");
-	is >> ncol;
 
+	m.clear();
 	if (n == 0 || ncol == 0)
 		return is;
 
@@ -735,12 +736,13 @@ std::istream& operator>>(std::istream& is, CrsMatrix<T>& m)
 	for (SizeType i = 0; i < m.rowptr_.size(); i++)
 		is >> m.rowptr_[i];
 
-	SizeType nonzero;
+	SizeType nonzero = 0;
 	is >> nonzero;
 	m.colind_.resize(nonzero);
 	for (SizeType i = 0; i < m.colind_.size(); i++)
 		is >> m.colind_[i];
 
+	nonzero = 0;
 	is >> nonzero;
 	m.values_.resize(nonzero);
 	for (SizeType i = 0; i < m.values_.size(); i++)
diff --git a/src/Matrix.h b/src/Matrix.h
index 94914b1..6550218 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -784,6 +784,7 @@ std::istream& operator>>(std::istream& is, Matrix<T>& A)
 	is >> ncol;
 
 	if (is) {
+		A.clear();
 		A.resize(nrow, ncol);
 		for (SizeType j = 0; j < A.rows(); j++)
 			for (SizeType i = 0; i < A.cols(); i++)
diff --git a/src/Stack.h b/src/Stack.h
index c224213..db4332f 100644
--- a/src/Stack.h
+++ b/src/Stack.h
@@ -130,6 +130,9 @@ operator>>(std::istream& is, StackType& x)
 	typedef typename StackType::value_type ValueType;
 	typename Vector<ValueType>::Type tmpVec;
 	is >> tmpVec;
+	while (!x.empty())
+		x.pop();
+
 	for (int i = tmpVec.size() - 1; i >= 0; i--) {
 		x.push(tmpVec[i]);
 	}
-- 
2.43.0


From aaeb44b11938d72d0b07e9023b774954c91aa6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:47 +0000
Subject: [PATCH 027/125] fix: an empty vector read from a labelled text file
 must replace the old contents

---
 src/Io/IoSimple.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Io/IoSimple.h b/src/Io/IoSimple.h
index 3dbf01c..cf5ddec 100644
--- a/src/Io/IoSimple.h
+++ b/src/Io/IoSimple.h
@@ -331,10 +331,10 @@ public:
 		read(X& x, String const& s, LongIntegerType level = 0, bool beQuiet = false)
 		{
 			std::pair<String, SizeType> sc = advance(s, level, beQuiet);
-			int xsize;
+			int xsize = 0;
 			fin_ >> xsize;
-			if (xsize == 0)
-				return sc;
+			if (xsize < 0)
+				throw RuntimeError("IoSimple::In::read(): negative size\n");
 			x.resize(xsize);
 			for (int i = 0; i < xsize; i++) {
 				typename X::value_type tmp;
-- 
2.43.0


From 76e32db13c3e05726327be5aeda93278ea3c0a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:07 +0000
Subject: [PATCH 028/125] fix: reading the last instance of a label must not
 return the one before it

---
 src/Io/IoSimple.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/Io/IoSimple.h b/src/Io/IoSimple.h
index cf5ddec..d65947b 100644
--- a/src/Io/IoSimple.h
+++ b/src/Io/IoSimple.h
@@ -330,7 +330,7 @@ public:
 		                  std::pair<String, SizeType>>::Type
 		read(X& x, String const& s, LongIntegerType level = 0, bool beQuiet = false)
 		{
-			std::pair<String, SizeType> sc = advance(s, level, beQuiet);
+			std::pair<String, SizeType> sc = advanceTo(s, level, beQuiet);
 			int xsize = 0;
 			fin_ >> xsize;
 			if (xsize < 0)
@@ -348,7 +348,7 @@ public:
 		void
 		read(X& mat, String const& s, LongIntegerType level = 0, typename EnableIf<IsMatrixLike<X>::True, int>::Type = 0)
 		{
-			advance(s, level);
+			advanceTo(s, level, false);
 			fin_ >> mat;
 		}
 
@@ -357,7 +357,7 @@ public:
 		                  std::pair<String, SizeType>>::Type
 		read(X& x, String const& s, LongIntegerType level = 0, bool beQuiet = false)
 		{
-			std::pair<String, SizeType> sc = advance(s, level, beQuiet);
+			std::pair<String, SizeType> sc = advanceTo(s, level, beQuiet);
 			fin_ >> x;
 			return sc;
 		}
@@ -445,6 +445,17 @@ public:
 
 	private:
 
+		// advance leaves the last instance ahead, so that it's found next
+		std::pair<String, SizeType> advanceTo(String const& s,
+		                                      LongIntegerType level,
+		                                      bool beQuiet)
+		{
+			std::pair<String, SizeType> sc = advance(s, level, beQuiet);
+			if (level == LAST_INSTANCE)
+				advance(s, 0, beQuiet);
+			return sc;
+		}
+
 		String filename_;
 		std::ifstream fin_;
 	};
-- 
2.43.0


From 910ded781f3cf7bd6dd52b493a65fc7647191b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:07 +0000
Subject: [PATCH 029/125] fix: an occurrence of a label that does not exist
 must be an error also when earlier ones exist

---
 src/Io/IoSimple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Io/IoSimple.h b/src/Io/IoSimple.h
index d65947b..da8ae5a 100644
--- a/src/Io/IoSimple.h
+++ b/src/Io/IoSimple.h
@@ -396,7 +396,7 @@ public:
 				                                   counter);
 			}
 
-			if (!found && tempSaved == "NOTFOUND") {
+			if (!found) {
 				if (!beQuiet) {
 					std::cerr << "Not found " << s
 					          << " in file " << filename_;
-- 
2.43.0


From 218ca821beacd314ad21dca56e420ac6b34d4fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:07 +0000
Subject: [PATCH 030/125] fix: a label at the very end of a text file must be
 found

---
 src/Io/IoSimple.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/Io/IoSimple.h b/src/Io/IoSimple.h
index da8ae5a..f102730 100644
--- a/src/Io/IoSimple.h
+++ b/src/Io/IoSimple.h
@@ -295,8 +295,7 @@ public:
 			if (fin_.bad() || !fin_.good())
 				throw RuntimeError("Readline\n");
 			while (!fin_.eof()) {
-				fin_ >> temp;
-				if (fin_.eof())
+				if (!(fin_ >> temp))
 					break;
 				if (temp.substr(0, s.size()) == s) {
 					foundOnce = true;
@@ -373,8 +372,7 @@ public:
 			bool found = false;
 
 			while (!fin_.eof()) {
-				fin_ >> temp;
-				if (fin_.eof() || !fin_.good() || fin_.bad())
+				if (!(fin_ >> temp))
 					break;
 
 				if (temp.substr(0, s.size()) == s) {
-- 
2.43.0


From 99d8dd520cd24f0a709601d7fd1e83415ed3ffb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:11 +0000
Subject: [PATCH 031/125] fix: the last instance of a label must be found also
 in a text file that was partly read

---
 src/Io/IoSimple.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Io/IoSimple.h b/src/Io/IoSimple.h
index f102730..f9d1b41 100644
--- a/src/Io/IoSimple.h
+++ b/src/Io/IoSimple.h
@@ -292,6 +292,9 @@ public:
 			bool found = false;
 			bool foundOnce = false;
 			LongSizeType counter = 0;
+			if (level == LAST_INSTANCE)
+				rewind(); // instances are counted from the start
+
 			if (fin_.bad() || !fin_.good())
 				throw RuntimeError("Readline\n");
 			while (!fin_.eof()) {
@@ -371,6 +374,9 @@ public:
 			LongSizeType counter = 0;
 			bool found = false;
 
+			if (level == LAST_INSTANCE)
+				rewind(); // instances are counted from the start
+
 			while (!fin_.eof()) {
 				if (!(fin_ >> temp))
 					break;
-- 
2.43.0


From 7419e17549882528d4a000886c913105f0201ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:31 +0000
Subject: [PATCH 032/125] fix: Ainur: what follows the last statement is no
 longer looked for past the end of the text, nor dropped when it is one
 character

---
 src/Ainur/AinurSpirit1.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/Ainur/AinurSpirit1.cpp b/src/Ainur/AinurSpirit1.cpp
index afd55c9..fc0bb11 100644
--- a/src/Ainur/AinurSpirit1.cpp
+++ b/src/Ainur/AinurSpirit1.cpp
@@ -83,16 +83,13 @@ Ainur::Ainur(String str)
 	IteratorType last = str.end();
 	qi::phrase_parse(first, last, statement % ";", AINUR_COMMENTS);
 
-	++first;
-	if (first != last && !allEmpty(first, last)) {
+	// only terminators, blanks, and comments may follow the last statement
+	qi::parse(first, last, *(';' | (AINUR_COMMENTS)));
 
-		qi::parse(first, last, +('#' >> *(qi::char_ - qi::eol) >> qi::eol | qi::eol | qi::space));
-
-		if (first + 1 != last && !allEmpty(first, last)) {
-			IteratorType e = (first + 20 < last) ? first + 20 : last;
-			err(AinurState::errLabel(AinurState::ERR_PARSE_FAILED,
-			                         String(first, e)));
-		}
+	if (first != last) {
+		IteratorType e = (last - first > 20) ? first + 20 : last;
+		err(AinurState::errLabel(AinurState::ERR_PARSE_FAILED,
+		                         String(first, e)));
 	}
 
 	// Deal with macros
-- 
2.43.0


From 84d850b9f58cddfff819ce40ca2676560f822cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:31 +0000
Subject: [PATCH 033/125] fix: Ainur: a comment may end with the text

---
 src/Ainur/AinurSpirit1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ainur/AinurSpirit1.cpp b/src/Ainur/AinurSpirit1.cpp
index fc0bb11..e2f6287 100644
--- a/src/Ainur/AinurSpirit1.cpp
+++ b/src/Ainur/AinurSpirit1.cpp
@@ -46,7 +46,7 @@ Ainur::Ainur(String str)
 	if (verbose)
 		std::cerr << str << "\n\n";
 #define AINUR_COMMENTS \
-	('#' >> *(qi::char_ - qi::eol) >> qi::eol) | qi::eol | qi::space
+	('#' >> *(qi::char_ - qi::eol) >> (qi::eol | qi::eoi)) | qi::eol | qi::space
 	namespace qi = boost::spirit::qi;
 	namespace ascii = boost::spirit::ascii;
 	typedef boost::fusion::vector<std::string, std::string> AttribType;
-- 
2.43.0


From cef28e3dcca630430771b7b7981737e832c5dd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:31 +0000
Subject: [PATCH 034/125] fix: Ainur: an assignment to a label with an
 underscore is not a declaration

---
 src/Ainur/AinurSpirit1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ainur/AinurSpirit1.cpp b/src/Ainur/AinurSpirit1.cpp
index e2f6287..161f336 100644
--- a/src/Ainur/AinurSpirit1.cpp
+++ b/src/Ainur/AinurSpirit1.cpp
@@ -77,7 +77,7 @@ Ainur::Ainur(String str)
 	Action action1("statement1", state_);
 	Action action2("statement2", state_);
 	Action3 action3("statement3", state_);
-	statement %= statement3[action3] | statement2[action2] | statement1[action1];
+	statement %= statement1[action1] | statement3[action3] | statement2[action2];
 
 	IteratorType first = str.begin();
 	IteratorType last = str.end();
-- 
2.43.0


From f8c8743c53a6f2c27d9fc73ef74fac95d120ce80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:31 +0000
Subject: [PATCH 035/125] fix: Ainur: blanks between a value and its semicolon
 are not part of the value

---
 src/Ainur/AinurState.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Ainur/AinurState.h b/src/Ainur/AinurState.h
index 3136f73..8b42b1f 100644
--- a/src/Ainur/AinurState.h
+++ b/src/Ainur/AinurState.h
@@ -56,7 +56,7 @@ public:
 		// if (values_[x] != "")
 		//	std::cerr<<"Overwriting label "<<k<<" with "<<v<<"\n";
 
-		ainurVariables_[x].value = v;
+		ainurVariables_[x].value = trimRight(v);
 	}
 
 	void declare(String d, String key, String v)
@@ -73,7 +73,7 @@ public:
 			d = d.substr(0, last - 1);
 		}
 
-		AinurVariable ainurVar({ key, v, d, "NORMAL" });
+		AinurVariable ainurVar({ key, trimRight(v), d, "NORMAL" });
 		ainurVariables_.emplace_back(ainurVar);
 
 		used_.push_back(u);
@@ -209,6 +209,14 @@ private:
 		return (s.length() == 0 || s == ZERO_CHAR_STRING_);
 	}
 
+	// blanks and ends of line between the value and the semicolon
+	// aren't part of the value
+	static String trimRight(const String& s)
+	{
+		const String::size_type last = s.find_last_not_of(" \t\r\n");
+		return (last == String::npos) ? "" : s.substr(0, last + 1);
+	}
+
 	void installNativeMacros()
 	{
 		for (SizeType i = 0; i < ainurMacros_.total(); ++i) {
-- 
2.43.0


From 90bf3197b1f2f12c6b83fc62629b8b3be09f4293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:31 +0000
Subject: [PATCH 036/125] fix: Ainur: an integer that cannot be read throws an
 exception and not a dangling pointer

---
 src/Ainur/AinurConvert.hh | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Ainur/AinurConvert.hh b/src/Ainur/AinurConvert.hh
index 3d12c97..c140985 100644
--- a/src/Ainur/AinurConvert.hh
+++ b/src/Ainur/AinurConvert.hh
@@ -79,9 +79,8 @@ public:
 		try {
 			t = PsimagLite::atoi(label.c_str());
 		}
-		catch (std::exception& e) {
-			std::cerr << "FATAL: AinurState: Label " + label + " must be an integer\n";
-			throw e.what();
+		catch (...) {
+			err("FATAL: AinurState: Label " + label + " must be an integer\n");
 		}
 	}
 
-- 
2.43.0


From 501b64f5eb5b18551605c6ecda79a78519b1e60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:31 +0000
Subject: [PATCH 037/125] fix: Ainur: reading a matrix replaces what the target
 had

---
 src/Ainur/AinurConvert1.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Ainur/AinurConvert1.cpp b/src/Ainur/AinurConvert1.cpp
index 247c31b..f6dbebb 100644
--- a/src/Ainur/AinurConvert1.cpp
+++ b/src/Ainur/AinurConvert1.cpp
@@ -23,6 +23,7 @@ template <typename A, typename ContextType>
 void AinurConvert::ActionMatrix<T>::operator()(A& attr, ContextType&, bool&) const
 {
 	SizeType rows = attr.size();
+	t_.clear();
 	if (rows == 0)
 		return;
 	SizeType cols = attr[0].size();
-- 
2.43.0


From 3d5ea40fa4c9c2922c559345fc5b77a9bb94e47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:31 +0000
Subject: [PATCH 038/125] fix: Ainur: an ellipsis of size zero no longer writes
 past the end of the vector

---
 src/Ainur/AinurConvert1.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Ainur/AinurConvert1.cpp b/src/Ainur/AinurConvert1.cpp
index f6dbebb..92a52b4 100644
--- a/src/Ainur/AinurConvert1.cpp
+++ b/src/Ainur/AinurConvert1.cpp
@@ -58,7 +58,10 @@ void AinurConvert::Action<T>::operator()(A& attr, ContextType&, bool&) const
 	if (n == 2 && attr[1].length() > 4 && attr[1].substr(0, 4) == "...x") {
 		const SizeType m = t_.size();
 		const SizeType l = attr[1].length();
-		const SizeType mm = PsimagLite::atoi(attr[1].substr(4, l - 4));
+		const int total = PsimagLite::atoi(attr[1].substr(4, l - 4));
+		if (total <= 0)
+			err("Ellipsis needs a positive size, not " + ttos(total) + "\n");
+		const SizeType mm = total;
 		if (m != 0)
 			std::cout << "Resizing vector to " << mm << "\n";
 		t_.resize(mm);
-- 
2.43.0


From 2e5e35c64360a112e704512f163cab37b138266c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:04 +0000
Subject: [PATCH 039/125] fix: Ainur: a function argument that its table lacks
 is an error

---
 src/Ainur/AinurMacros.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Ainur/AinurMacros.hh b/src/Ainur/AinurMacros.hh
index e57b3a1..6b64f5d 100644
--- a/src/Ainur/AinurMacros.hh
+++ b/src/Ainur/AinurMacros.hh
@@ -66,6 +66,8 @@ public:
 			    data_.begin(), data_.end(), [&x](const std::pair<double, double>& pair) {
 				    return (pair.first == x);
 			    });
+			if (it == data_.end())
+				throw RuntimeError("No value for argument " + ttos(x) + " in " + filename_ + "\n");
 			return it->second;
 		}
 
-- 
2.43.0


From 671c49c7ac67562a8f9c710acede9be649728a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:04 +0000
Subject: [PATCH 040/125] fix: Ainur: AinurFromFile without arguments is an
 error and does not abort

---
 src/Ainur/AinurMacros.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Ainur/AinurMacros.hh b/src/Ainur/AinurMacros.hh
index 6b64f5d..8d2e98f 100644
--- a/src/Ainur/AinurMacros.hh
+++ b/src/Ainur/AinurMacros.hh
@@ -177,7 +177,8 @@ public:
 		if (line.substr(1, AINUR_FROM_FILE.size()) == AINUR_FROM_FILE) {
 			SizeType start = AINUR_FROM_FILE.size() + 1;
 			SizeType len = line.size();
-			assert(len > start);
+			if (len <= start)
+				throw RuntimeError(AINUR_FROM_FILE + " needs arguments\n");
 			SizeType rest = len - start;
 			std::string content = line.substr(start, rest);
 			return addAinurFromFile(content);
-- 
2.43.0


From e1ce974d73a02713fc65d4b03aa2acf67cda8909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:04 +0000
Subject: [PATCH 041/125] fix: Ainur: tables honor their separator, and a
 missing column is an error

---
 src/Ainur/AinurMacros.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Ainur/AinurMacros.hh b/src/Ainur/AinurMacros.hh
index 8d2e98f..9eda15f 100644
--- a/src/Ainur/AinurMacros.hh
+++ b/src/Ainur/AinurMacros.hh
@@ -137,8 +137,8 @@ public:
 				if (emptyLine(std::string(s)))
 					continue;
 				std::vector<std::string> tokens;
-				split(tokens, s);
-				if (columnX_ > tokens.size() || columnY_ > tokens.size()) {
+				split(tokens, s, separatorForSplit_);
+				if (columnX_ >= tokens.size() || columnY_ >= tokens.size()) {
 					throw RuntimeError("Line too small: " + std::string(s) + "\n");
 				}
 
-- 
2.43.0


From 7f16495c9d8cd100af1d40af57d6101154e6435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:04 +0000
Subject: [PATCH 042/125] fix: Ainur: blank lines in tables are skipped

---
 src/Ainur/AinurMacros.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ainur/AinurMacros.hh b/src/Ainur/AinurMacros.hh
index 9eda15f..56ceb4d 100644
--- a/src/Ainur/AinurMacros.hh
+++ b/src/Ainur/AinurMacros.hh
@@ -118,7 +118,7 @@ public:
 		static bool emptyLine(const std::string& s)
 		{
 			for (SizeType i = 0; i < s.size(); ++i) {
-				if (s[i] != ' ' || s[i] != '\t')
+				if (s[i] != ' ' && s[i] != '\t')
 					return false;
 			}
 
-- 
2.43.0


From 21605a6cac99f32de5752316844f9c8890817f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:04 +0000
Subject: [PATCH 043/125] fix: Ainur: a long line in a table no longer loops
 forever

---
 src/Ainur/AinurMacros.hh | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/Ainur/AinurMacros.hh b/src/Ainur/AinurMacros.hh
index 56ceb4d..af8492e 100644
--- a/src/Ainur/AinurMacros.hh
+++ b/src/Ainur/AinurMacros.hh
@@ -18,8 +18,6 @@ public:
 
 	class AinurFunction {
 
-		static constexpr SizeType MAX_LINE = 2048;
-
 	public:
 
 		AinurFunction(const std::string& args)
@@ -131,15 +129,14 @@ public:
 				throw RuntimeError("Could not open " + filename_ + "\n");
 			}
 
-			char s[MAX_LINE];
-			while (!fin.eof()) {
-				fin.getline(s, MAX_LINE);
-				if (emptyLine(std::string(s)))
+			std::string s;
+			while (std::getline(fin, s)) {
+				if (emptyLine(s))
 					continue;
 				std::vector<std::string> tokens;
 				split(tokens, s, separatorForSplit_);
 				if (columnX_ >= tokens.size() || columnY_ >= tokens.size()) {
-					throw RuntimeError("Line too small: " + std::string(s) + "\n");
+					throw RuntimeError("Line too small: " + s + "\n");
 				}
 
 				double vx = PsimagLite::atof(tokens[columnX_]);
-- 
2.43.0


From 26b193be3ec1b04164b3bbfb56a962e15acdedad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:04 +0000
Subject: [PATCH 044/125] fix: Ainur: values of functions keep their precision

---
 src/Ainur/AinurMacros.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Ainur/AinurMacros.hh b/src/Ainur/AinurMacros.hh
index af8492e..51eac41 100644
--- a/src/Ainur/AinurMacros.hh
+++ b/src/Ainur/AinurMacros.hh
@@ -1,7 +1,9 @@
 #ifndef AINURMACROS_HH
 #define AINURMACROS_HH
 #include "../PsimagLite.h"
+#include <limits>
 #include <map>
+#include <sstream>
 #include <string>
 
 namespace PsimagLite {
@@ -211,7 +213,10 @@ public:
 		std::string argument = AinurFunction::deleteEnclosing(nameValue.second, '(', ')');
 		double x = PsimagLite::atof(argument);
 		double y = ainurFunctions_[index](x);
-		return std::to_string(y);
+		std::ostringstream os;
+		os.precision(std::numeric_limits<double>::max_digits10);
+		os << y;
+		return os.str();
 	}
 
 private:
-- 
2.43.0


From 7334383a6e474e03cf3e73ac01ce5043e9dc95ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:04 +0000
Subject: [PATCH 045/125] fix: Ainur: a macro at the end of a value, or
 followed by another macro, is expanded

---
 src/Ainur/AinurState.h | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/Ainur/AinurState.h b/src/Ainur/AinurState.h
index 8b42b1f..d122760 100644
--- a/src/Ainur/AinurState.h
+++ b/src/Ainur/AinurState.h
@@ -269,34 +269,35 @@ private:
 		PsimagLite::String retString;
 		bool hasAtLeastOneMacro = false;
 		SizeType status = 0; // 0 = outsite a macro, 1 = inside a macro
-		for (SizeType i = 0; i < n; ++i) {
-			const char c = value[i];
-			if (c == '\\') {
-				status = 1;
-				continue;
-			}
+		for (SizeType i = 0; i <= n; ++i) {
+			const bool atEnd = (i == n);
+			const char c = (atEnd) ? ' ' : value[i];
 
-			if (status == 0) {
-				retString += c;
-				continue;
-			}
-
-			if (isValidCharForMacroName(c)) {
-				macroName += c;
-			}
-			else {
+			if (status == 1) {
+				if (!atEnd && isValidCharForMacroName(c)) {
+					macroName += c;
+					continue;
+				}
 
 				int x = storageIndexByName(macroName);
 				if (x < 0)
 					err("No macro named " + macroName + "\n");
 
 				assert(static_cast<SizeType>(x) < ainurVariables_.size());
-				retString += unquote(ainurVariables_[x].value) + c;
+				retString += unquote(ainurVariables_[x].value);
 
 				macroName = "";
 				hasAtLeastOneMacro = true;
 				status = 0;
 			}
+
+			if (atEnd)
+				break;
+
+			if (c == '\\')
+				status = 1;
+			else
+				retString += c;
 		}
 
 		return std::pair<bool, PsimagLite::String>(hasAtLeastOneMacro,
-- 
2.43.0


From b1b5cff7dd9734877f2f659ccc5a6d3b04f36a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:04 +0000
Subject: [PATCH 046/125] fix: Ainur: a macro that doubles itself is an error
 and does not exhaust the memory

---
 src/Ainur/AinurState.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Ainur/AinurState.h b/src/Ainur/AinurState.h
index d122760..552d596 100644
--- a/src/Ainur/AinurState.h
+++ b/src/Ainur/AinurState.h
@@ -13,6 +13,8 @@ namespace PsimagLite {
 
 class AinurState {
 
+	static constexpr SizeType MAX_VALUE_SIZE = 1000000;
+
 public:
 
 	typedef Vector<SizeType>::Type VectorSizeType;
@@ -285,6 +287,8 @@ private:
 
 				assert(static_cast<SizeType>(x) < ainurVariables_.size());
 				retString += unquote(ainurVariables_[x].value);
+				if (retString.size() > MAX_VALUE_SIZE)
+					err("The expansion of macro " + macroName + " is too long\n");
 
 				macroName = "";
 				hasAtLeastOneMacro = true;
-- 
2.43.0


From df3f990615f654f8ba76d9c60bb71c2623c5dc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:38 +0000
Subject: [PATCH 047/125] fix: atoi and atof refuse text that is not exactly
 one number in range

---
 src/PsimagLite.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/PsimagLite.cpp b/src/PsimagLite.cpp
index 1edd10b..3450e87 100644
--- a/src/PsimagLite.cpp
+++ b/src/PsimagLite.cpp
@@ -1,4 +1,8 @@
 #include "PsimagLite.h"
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
+#include <limits>
 
 namespace PsimagLite {
 
@@ -74,7 +78,13 @@ int atoi(String str)
 		throw RuntimeError("atoi received a non-digit: " + str + "\n");
 	}
 
-	return std::atoi(str.c_str());
+	errno = 0;
+	char* end = nullptr;
+	const long int x = std::strtol(str.c_str(), &end, 10);
+	if (n == 0 || *end != '\0' || errno == ERANGE || x < std::numeric_limits<int>::min() || x > std::numeric_limits<int>::max())
+		throw RuntimeError("atoi received what is not an integer: " + str + "\n");
+
+	return x;
 }
 
 bool isAnInteger(String str)
@@ -113,7 +123,12 @@ double atof(String str)
 	if (!isAfloat(str))
 		throw RuntimeError("atof received a non-digit " + str + "\n");
 
-	return std::atof(str.c_str());
+	char* end = nullptr;
+	const double x = std::strtod(str.c_str(), &end);
+	if (*end != '\0' || std::isinf(x))
+		throw RuntimeError("atof received what is not a number " + str + "\n");
+
+	return x;
 }
 
 void replaceAll(String& str, const String& from, const String& to)
-- 
2.43.0


From a510d051b3cd356f9c3ffca8eca76785cc7e627b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:45 +0000
Subject: [PATCH 048/125] fix: Ainur: blanks inside the elements of a vector or
 matrix are kept and do not join numbers

---
 src/Ainur/AinurComplex.hh   | 11 +++++++++++
 src/Ainur/AinurConvert.hh   |  7 +++++++
 src/Ainur/AinurConvert1.cpp |  7 +++++--
 src/Ainur/AinurState.h      | 12 ++----------
 4 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/Ainur/AinurComplex.hh b/src/Ainur/AinurComplex.hh
index 6e788e2..12206b1 100644
--- a/src/Ainur/AinurComplex.hh
+++ b/src/Ainur/AinurComplex.hh
@@ -67,10 +67,21 @@ private:
 
 		String buffer;
 		bool flag = false;
+		bool pendingBlank = false;
 		const SizeType n = str.length();
 		RealType real1 = 0;
 		for (SizeType i = 0; i < n; ++i) {
+			// blanks may only surround the numbers
+			if (isspace(str[i])) {
+				pendingBlank = true;
+				continue;
+			}
+
 			bool isSqrtMinus1 = (str[i] == 'i');
+			if (!isSqrtMinus1 && pendingBlank && buffer != "")
+				throw RuntimeError("Error parsing number " + str + "\n");
+
+			pendingBlank = false;
 			if (isSqrtMinus1 && flag)
 				throw RuntimeError("Error parsing number " + str + "\n");
 
diff --git a/src/Ainur/AinurConvert.hh b/src/Ainur/AinurConvert.hh
index c140985..c4792f2 100644
--- a/src/Ainur/AinurConvert.hh
+++ b/src/Ainur/AinurConvert.hh
@@ -110,6 +110,13 @@ public:
 		t = label;
 	}
 
+	// blanks and ends of line after a value aren't part of it
+	static String trimRight(const String& s)
+	{
+		const String::size_type last = s.find_last_not_of(" \t\r\n");
+		return (last == String::npos) ? "" : s.substr(0, last + 1);
+	}
+
 private:
 
 	static String stringContext(std::string::iterator it,
diff --git a/src/Ainur/AinurConvert1.cpp b/src/Ainur/AinurConvert1.cpp
index 92a52b4..52c9f9e 100644
--- a/src/Ainur/AinurConvert1.cpp
+++ b/src/Ainur/AinurConvert1.cpp
@@ -14,7 +14,7 @@ ruleRows()
 	boost::spirit::qi::rule<std::string::iterator,
 	                        std::vector<std::string>(),
 	                        boost::spirit::qi::space_type>
-	    myrule = "[" >> (+~boost::spirit::qi::char_(",[]")) % ',' >> "]";
+	    myrule = "[" >> boost::spirit::qi::lexeme[+~boost::spirit::qi::char_(",[]")] % ',' >> "]";
 	return myrule;
 }
 
@@ -32,7 +32,7 @@ void AinurConvert::ActionMatrix<T>::operator()(A& attr, ContextType&, bool&) con
 		if (attr[i].size() != cols)
 			err("Ainur: Problem reading matrix\n");
 		for (SizeType j = 0; j < cols; ++j) {
-			String attrAfter = ainurMacros_.valueFromFunction(attr[i][j]);
+			String attrAfter = ainurMacros_.valueFromFunction(trimRight(attr[i][j]));
 			AinurComplex::convert(t_(i, j), attrAfter);
 		}
 	}
@@ -45,6 +45,9 @@ template <typename A, typename ContextType>
 void AinurConvert::Action<T>::operator()(A& attr, ContextType&, bool&) const
 {
 	const SizeType n = attr.size();
+	for (SizeType i = 0; i < n; ++i)
+		attr[i] = trimRight(attr[i]);
+
 	if (n == 2 && attr[1] == "...") {
 		const SizeType m = t_.size();
 		if (m == 0)
diff --git a/src/Ainur/AinurState.h b/src/Ainur/AinurState.h
index 552d596..26ef71b 100644
--- a/src/Ainur/AinurState.h
+++ b/src/Ainur/AinurState.h
@@ -58,7 +58,7 @@ public:
 		// if (values_[x] != "")
 		//	std::cerr<<"Overwriting label "<<k<<" with "<<v<<"\n";
 
-		ainurVariables_[x].value = trimRight(v);
+		ainurVariables_[x].value = AinurConvert::trimRight(v);
 	}
 
 	void declare(String d, String key, String v)
@@ -75,7 +75,7 @@ public:
 			d = d.substr(0, last - 1);
 		}
 
-		AinurVariable ainurVar({ key, trimRight(v), d, "NORMAL" });
+		AinurVariable ainurVar({ key, AinurConvert::trimRight(v), d, "NORMAL" });
 		ainurVariables_.emplace_back(ainurVar);
 
 		used_.push_back(u);
@@ -211,14 +211,6 @@ private:
 		return (s.length() == 0 || s == ZERO_CHAR_STRING_);
 	}
 
-	// blanks and ends of line between the value and the semicolon
-	// aren't part of the value
-	static String trimRight(const String& s)
-	{
-		const String::size_type last = s.find_last_not_of(" \t\r\n");
-		return (last == String::npos) ? "" : s.substr(0, last + 1);
-	}
-
 	void installNativeMacros()
 	{
 		for (SizeType i = 0; i < ainurMacros_.total(); ++i) {
-- 
2.43.0


From d33785b5bd648c61b1c7fc5bc8e73ab1e8f874d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:31 +0000
Subject: [PATCH 049/125] fix: Ainur: macros are expanded before they are put
 in place, so that they do not merge with what follows

---
 src/Ainur/AinurState.h | 53 ++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/src/Ainur/AinurState.h b/src/Ainur/AinurState.h
index 26ef71b..6d4f94b 100644
--- a/src/Ainur/AinurState.h
+++ b/src/Ainur/AinurState.h
@@ -7,6 +7,7 @@
 #include "AinurDoubleOrFloat.h"
 #include "AinurMacros.hh"
 #include <cassert>
+#include <map>
 #include <numeric>
 
 namespace PsimagLite {
@@ -220,43 +221,45 @@ private:
 	}
 
 	void expandMacrosRecursively()
-	{
-		static const SizeType avoidInfMax = 100;
-		SizeType avoidInfCounter = 0;
-		while (expandMacros()) {
-			if (avoidInfCounter++ > avoidInfMax) {
-				err("Recursion limit of " + ttos(avoidInfMax) + " exceeded.\n");
-			}
-		}
-	}
-
-	bool expandMacros()
 	{
 		const SizeType n = ainurVariables_.size();
-		bool atLeastOneValueHasMacro = false;
+		std::map<SizeType, String> expanded;
 		for (SizeType i = 0; i < n; ++i) {
 			if (!used_[i])
 				continue;
-			std::pair<bool, PsimagLite::String> macro = expandOneValue(ainurVariables_[i].value);
-
-			if (!macro.first)
+			const String value = expandVariable(i, expanded, 0);
+			if (value == ainurVariables_[i].value)
 				continue;
-
-			if (macro.second.size() > 0 && macro.second[0] == '!') {
-				macro.second = ainurMacros_.procNativeMacro(macro.second);
-			}
-
-			ainurVariables_[i].value = macro.second;
+			ainurVariables_[i].value = value;
 			ainurVariables_[i].opaque = "MACRO";
-			atLeastOneValueHasMacro = true;
 		}
+	}
+
+	// The value of variable ind after expansion of the macros in it;
+	// the values of these are expanded before they are put in place
+	String expandVariable(SizeType ind, std::map<SizeType, String>& expanded, SizeType depth)
+	{
+		static const SizeType avoidInfMax = 100;
+		if (depth > avoidInfMax)
+			err("Recursion limit of " + ttos(avoidInfMax) + " exceeded.\n");
+
+		auto it = expanded.find(ind);
+		if (it != expanded.end())
+			return it->second;
+
+		const String& value = ainurVariables_[ind].value;
+		std::pair<bool, String> macro = expandOneValue(value, expanded, depth);
+		if (!macro.first)
+			macro.second = value;
+		else if (macro.second.size() > 0 && macro.second[0] == '!')
+			macro.second = ainurMacros_.procNativeMacro(macro.second);
 
-		return atLeastOneValueHasMacro;
+		return expanded[ind] = macro.second;
 	}
 
 	// \[a-zA-Z]+
 	std::pair<bool, PsimagLite::String>
-	expandOneValue(const String& value) const
+	expandOneValue(const String& value, std::map<SizeType, String>& expanded, SizeType depth)
 	{
 		const SizeType n = value.length();
 		PsimagLite::String macroName;
@@ -278,7 +281,7 @@ private:
 					err("No macro named " + macroName + "\n");
 
 				assert(static_cast<SizeType>(x) < ainurVariables_.size());
-				retString += unquote(ainurVariables_[x].value);
+				retString += unquote(expandVariable(x, expanded, depth + 1));
 				if (retString.size() > MAX_VALUE_SIZE)
 					err("The expansion of macro " + macroName + " is too long\n");
 
-- 
2.43.0


From 2899eb537d6d518c3682071584f1b6ed201e5b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:49 +0000
Subject: [PATCH 050/125] fix: a degenerate spectrum gives all its states
 again: what rounding leaves of an exhausted Krylov space is orthogonalized
 and used

---
 src/LanczosSolver.h  |  4 +++-
 src/LanczosVectors.h | 46 ++++++++++++++++++++++++--------------------
 2 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/LanczosSolver.h b/src/LanczosSolver.h
index ba9b36c..d88e0d6 100644
--- a/src/LanczosSolver.h
+++ b/src/LanczosSolver.h
@@ -76,7 +76,7 @@ public:
 		TridiagonalMatrixType ab;
 		ls_.decomposition(initialVector, ab, excited + 1);
 
-		if (excited >= ab.size())
+		if (excited > ab.size())
 			throw RuntimeError("Excited too big\n");
 
 		typename LanczosCoreType::DenseMatrixType ritz;
@@ -86,6 +86,8 @@ public:
 		SizeType n = z.size();
 		if (n > excited + 1)
 			n = excited + 1;
+		if (n > ab.size())
+			n = ab.size();
 		for (SizeType i = 0; i < n; ++i)
 			ls_.excitedVector(z[i], ritz, i);
 	}
diff --git a/src/LanczosVectors.h b/src/LanczosVectors.h
index 0213836..9cb4631 100644
--- a/src/LanczosVectors.h
+++ b/src/LanczosVectors.h
@@ -85,8 +85,8 @@ DISCLOSED WOULD NOT INFRINGE PRIVATELY OWNED RIGHTS.
 #include "ProgressIndicator.h"
 #include "Random48.h"
 #include "Vector.h"
+#include <algorithm>
 #include <cassert>
-#include <limits>
 
 namespace PsimagLite {
 
@@ -247,32 +247,36 @@ public:
 			throw RuntimeError("reorthoIfNecessary failed\n");
 
 		SizeType nn = V2.size();
-		// cout << "  Re-orthogonalization " << endl;
-		for (SizeType i = 0; i < iter + 1; i++) {
-
-			VectorElementType rij = 0.0;
+		RealType ntmp = 0.0;
+		// If V2 was in the span of the previous vectors, then what is left of
+		// it is rounding, which must be orthogonalized again
+		for (SizeType pass = 0; pass < 5 && ntmp < 0.5; ++pass) {
+			// cout << "  Re-orthogonalization " << endl;
+			for (SizeType i = 0; i < iter + 1; i++) {
+
+				VectorElementType rij = 0.0;
+				for (SizeType h = 0; h < nn; h++)
+					rij += PsimagLite::conj(data_->operator()(h, i)) * V2[h];
+
+				// V2 = V2 - <Vi|V2> Vi -- gram-schmid
+				for (SizeType h = 0; h < nn; h++)
+					V2[h] = V2[h] - data_->operator()(h, i) * rij;
+			}
+
+			ntmp = 0.0;
 			for (SizeType h = 0; h < nn; h++)
-				rij += PsimagLite::conj(data_->operator()(h, i)) * V2[h];
+				ntmp += PsimagLite::real(V2[h] * PsimagLite::conj(V2[h]));
 
-			// V2 = V2 - <Vi|V2> Vi -- gram-schmid
-			for (SizeType h = 0; h < nn; h++)
-				V2[h] = V2[h] - data_->operator()(h, i) * rij;
-		}
+			if (ntmp == 0)
+				return;
 
-		RealType ntmp = 0.0;
-		for (SizeType h = 0; h < nn; h++)
-			ntmp += PsimagLite::real(V2[h] * PsimagLite::conj(V2[h]));
-
-		// nothing but rounding is left: V2 was in the span of the previous ones
-		if (ntmp < std::numeric_limits<RealType>::epsilon()) {
+			const RealType factor = 1.0 / sqrt(ntmp);
 			for (SizeType h = 0; h < nn; h++)
-				V2[h] = 0.0;
-			return;
+				V2[h] = V2[h] * factor;
 		}
 
-		ntmp = 1.0 / sqrt(ntmp);
-		for (SizeType h = 0; h < nn; h++)
-			V2[h] = V2[h] * ntmp;
+		if (ntmp < 0.5) // there is no direction left
+			std::fill(V2.begin(), V2.end(), 0.0);
 	}
 
 private:
-- 
2.43.0


From cb7bfc7d0f79bae1a131b2fb01449a732899f282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:29 +0000
Subject: [PATCH 051/125] fix: InputNg: the last character of a file is read
 once

---
 src/InputNg.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index 380f2cc..64e2566 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -232,10 +232,8 @@ public:
 			}
 
 			char c = 0;
-			while (!fin.eof()) {
-				fin.get(c);
+			while (fin.get(c))
 				data += c;
-			}
 
 			fin.close();
 		}
-- 
2.43.0


From 52135fcc1d3ab8512614e918d0c2421f33846e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:29 +0000
Subject: [PATCH 052/125] fix: InputNg: a comment does not drop the value or
 the vector before it

---
 src/InputNg.h | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index 64e2566..4d87a75 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -169,8 +169,7 @@ public:
 			IN_LABEL,
 			IN_VALUE_OR_LABEL,
 			IN_VALUE_TEXT,
-			IN_VALUE_NUMERIC,
-			IN_COMMENT
+			IN_VALUE_NUMERIC
 		};
 
 	public:
@@ -366,30 +365,28 @@ public:
 		void parseInternal()
 		{
 			String buffer = "";
+			bool inComment = false;
 			for (SizeType i = 0; i < data_.length(); i++) {
 				SizeType type = findTypeOf(data_.at(i));
-				if (state_ == IN_COMMENT && type != ENDOFLINE)
+				if (inComment && type != ENDOFLINE)
 					continue;
 				switch (type) {
 				case ENDOFLINE:
 					line_++;
-					if (state_ == IN_COMMENT) {
-						state_ = IN_LABEL;
-						break;
-					}
+					inComment = false;
 					if (buffer == "")
 						break;
 					saveBuffer(buffer, ENDOFLINE);
 					buffer = "";
 					break;
 				case WHITESPACE:
-					if (buffer == "" || state_ == IN_COMMENT)
+					if (buffer == "")
 						break;
 					saveBuffer(buffer, WHITESPACE);
 					buffer = "";
 					break;
 				case EQUALSIGN:
-					if (buffer == "" || state_ == IN_COMMENT)
+					if (buffer == "")
 						break;
 
 					// support = sign in value text
@@ -402,7 +399,11 @@ public:
 					buffer = "";
 					break;
 				case COMMENT:
-					state_ = IN_COMMENT;
+					inComment = true;
+					if (buffer == "")
+						break;
+					saveBuffer(buffer, WHITESPACE);
+					buffer = "";
 					break;
 				default:
 					if (state_ == IN_VALUE_OR_LABEL) {
-- 
2.43.0


From cd5baf00f5911d33bd3f8037038596b80b4020e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:29 +0000
Subject: [PATCH 053/125] fix: InputNg: forced removal of a label that has no
 duplicates

---
 src/InputNg.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index 4d87a75..bc907db 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -951,7 +951,8 @@ public:
 
 			if (it2 != labelsForRemoval_.end() || forceRemoval) {
 				mymap.erase(it);
-				labelsForRemoval_.erase(it2);
+				if (it2 != labelsForRemoval_.end())
+					labelsForRemoval_.erase(it2);
 			}
 		}
 
-- 
2.43.0


From ede5173a495ba5120e0ae39da58739b4c14a8030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:29 +0000
Subject: [PATCH 054/125] fix: InputNg: a matrix is read into one that has
 another size

---
 src/InputNg.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/InputNg.h b/src/InputNg.h
index bc907db..2439ab0 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -838,6 +838,7 @@ public:
 
 			SizeType nrow = SizeType(atoi(it->second[0].c_str()));
 			SizeType ncol = SizeType(atoi(it->second[1].c_str()));
+			m.clear();
 			m.resize(nrow, ncol);
 			if (it->second.size() < 2 + nrow * ncol) {
 				String s(__FILE__);
@@ -874,6 +875,7 @@ public:
 
 			SizeType nrow = SizeType(atoi(it->second[0].c_str()));
 			SizeType ncol = SizeType(atoi(it->second[1].c_str()));
+			m.clear();
 			m.resize(nrow, ncol);
 			if (it->second.size() < 2 + nrow * ncol) {
 				String s(__FILE__);
-- 
2.43.0


From 28f03ce6accf922dbfd870f9ecb474901cbf3516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:29 +0000
Subject: [PATCH 055/125] fix: InputNg: elements of a complex matrix that are
 not numbers are refused

---
 src/InputNg.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index 2439ab0..4eefe22 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -885,8 +885,7 @@ public:
 			SizeType k = 2;
 			for (SizeType i = 0; i < m.rows(); i++) {
 				for (SizeType j = 0; j < m.cols(); j++) {
-					IstringStream is(it->second[k++]);
-					is >> m(i, j);
+					m(i, j) = stringToComplexOrReal<std::complex<FloatingType>>(it->second[k++]);
 				}
 			}
 			cleanLabelsIfNeeded(label2, mapStrVec_, it);
-- 
2.43.0


From 95cb0ee906fad719bd9a511b90ce7c0ea8ce27ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:29 +0000
Subject: [PATCH 056/125] fix: InputNg: a map takes only the entries of its own
 label

---
 src/InputNg.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index 4eefe22..4896928 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -906,8 +906,7 @@ public:
 			     it != mapStrStr_.end();
 			     ++it) {
 				String mystr = it->first;
-				long unsigned int it0 = mystr.find(label2);
-				if (it0 == String::npos)
+				if (mystr.compare(0, label2.length() + 1, label2 + "[") != 0)
 					continue;
 				String::iterator it1 = find(mystr.begin(), mystr.end(), '[');
 				if (it1 == mystr.end())
-- 
2.43.0


From 3584b29027207e791895148346a0fd4e1d056bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:19 +0000
Subject: [PATCH 057/125] fix: InputCheckBase.h includes what it uses

---
 src/InputCheckBase.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/InputCheckBase.h b/src/InputCheckBase.h
index 8071be4..ac017d3 100644
--- a/src/InputCheckBase.h
+++ b/src/InputCheckBase.h
@@ -77,6 +77,7 @@ DISCLOSED WOULD NOT INFRINGE PRIVATELY OWNED RIGHTS.
  */
 #ifndef PSI_INPUTCHECK_BASE_H
 #define PSI_INPUTCHECK_BASE_H
+#include "Vector.h"
 #include <stdexcept>
 #include <vector>
 
-- 
2.43.0


From edebb2b8820bc0bc32d7820ecf4f470e1e00aa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:20 +0000
Subject: [PATCH 058/125] fix: stringToComplex: the sign of the imaginary part,
 and text that is not a number

---
 src/Complex.h | 62 +++++++++++++++++++++++++++++----------------------
 1 file changed, 35 insertions(+), 27 deletions(-)

diff --git a/src/Complex.h b/src/Complex.h
index de57113..d09e222 100644
--- a/src/Complex.h
+++ b/src/Complex.h
@@ -22,6 +22,8 @@ Please see full open source license included in file LICENSE.
 #include "../loki/TypeTraits.h"
 #include "AllocatorCpu.h"
 #include <complex>
+#include <cstdlib>
+#include <string>
 
 namespace PsimagLite {
 
@@ -112,33 +114,39 @@ norm(const std::complex<T>& t)
 	return std::norm(t);
 }
 
-inline std::complex<double> stringToComplex(const std::string& str) {
-	double real = 0;
-	double imag = 0;
-	char dummy = 0;
-	std::stringstream ss(str);
-
-	if (str.find('+') != std::string::npos || str.find('-') != std::string::npos) {
-		ss >> real >> dummy >> imag >> dummy;
-		if (str.back() != 'i') {
-			imag = 0;
-		}
-		if (str[str.find('+') + 1] == '-') {
-			imag = -imag;
-		}
-	} else if (str.find('i') != std::string::npos) {
-		ss >> imag >> dummy;
-		real = 0;
-		if (str.back() != 'i') {
-			imag = 0;
-		}
-	}
-	else {
-		ss >> real;
-		imag = 0;
-	}
-
-	return std::complex<double>(real, imag);
+// str is a real number, or b"i", or a real number followed by a signed b"i",
+// where b is a real number or nothing
+inline std::complex<double> stringToComplex(const std::string& str)
+{
+	auto toReal = [&str](const std::string& s) {
+		char* end = nullptr;
+		const double x = std::strtod(s.c_str(), &end);
+		if (s.empty() || s.find_first_not_of("0123456789.eE+-") != std::string::npos || *end != '\0')
+			throw RuntimeError("stringToComplex: " + str + " is not a number\n");
+		return x;
+	};
+
+	if (str.empty() || str.back() != 'i')
+		return toReal(str);
+
+	// the imaginary part starts at the last sign that isn't part of an exponent
+	const std::string s = str.substr(0, str.length() - 1);
+	SizeType start = s.find_last_of("+-");
+	while (start != std::string::npos && start > 0 && (s[start - 1] == 'e' || s[start - 1] == 'E'))
+		start = s.find_last_of("+-", start - 1);
+	if (start == std::string::npos)
+		start = 0;
+
+	std::string im = s.substr(start);
+	if (im == "" || im == "+" || im == "-")
+		im += "1";
+
+	// a+-bi is a-bi
+	if (start > 1 && s[start] == '-' && s[start - 1] == '+')
+		--start;
+
+	const double re = (start == 0) ? 0 : toReal(s.substr(0, start));
+	return std::complex<double>(re, toReal(im));
 }
 } // namespace PsimagLite
 
-- 
2.43.0


From a2200c18348a3a9db24c0a2b99688a80c3cf7950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:20 +0000
Subject: [PATCH 059/125] fix: the modulus of complex numbers takes their
 magnitudes and not the squares of them

---
 src/AST/AdditionalFunctions.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/AST/AdditionalFunctions.h b/src/AST/AdditionalFunctions.h
index 6ffa9ee..0f73be8 100644
--- a/src/AST/AdditionalFunctions.h
+++ b/src/AST/AdditionalFunctions.h
@@ -42,6 +42,10 @@ public:
 
 		RealType v0 = PsimagLite::norm(v[0]);
 		RealType v1 = PsimagLite::norm(v[1]);
+		if (IsComplexNumber<ValueType>::True) { // norm is then the square
+			v0 = sqrt(v0);
+			v1 = sqrt(v1);
+		}
 
 		SizeType x = static_cast<int>(v0);
 		SizeType y = static_cast<int>(v1);
-- 
2.43.0


From 609cae159a015832440969707340686d1cc9108d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:20 +0000
Subject: [PATCH 060/125] fix: an expression without all its operands is an
 error

---
 src/AST/ExpressionForAST.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/AST/ExpressionForAST.h b/src/AST/ExpressionForAST.h
index 79772ef..332d74b 100644
--- a/src/AST/ExpressionForAST.h
+++ b/src/AST/ExpressionForAST.h
@@ -55,6 +55,12 @@ public:
 				break;
 		}
 
+		if (sumOfA != 0) {
+			for (SizeType i = 0; i < vecTree_.size(); i++)
+				delete vecTree_[i];
+			throw RuntimeError("ExpressionForAST: operands missing\n");
+		}
+
 		SizeType k = 0;
 		for (SizeType i = 0; i < vecTree_.size(); i++) {
 			SizeType a = va[i];
-- 
2.43.0


From d78f24e3199ab1fd5d09729a5dcbad9dd96db848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:31 +0000
Subject: [PATCH 061/125] fix: QuasiCanonical: only what ends in i is a pure
 imaginary number

---
 src/QuasiCanonical.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/QuasiCanonical.h b/src/QuasiCanonical.h
index a3cecc8..a0f626f 100644
--- a/src/QuasiCanonical.h
+++ b/src/QuasiCanonical.h
@@ -116,7 +116,7 @@ public:
 			return true;
 
 		const SizeType n = t.length();
-		if (n < 2)
+		if (n < 2 || t[n - 1] != 'i')
 			return false;
 		String tmp = t.substr(0, n - 1);
 		return isRealScalar(tmp);
-- 
2.43.0


From c2fa513ac84639d27b4b9b911b7d2f96338660ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:31 +0000
Subject: [PATCH 062/125] fix: the pure imaginary number -i

---
 src/CmplxOrReal.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CmplxOrReal.h b/src/CmplxOrReal.h
index d6a9af5..39667b5 100644
--- a/src/CmplxOrReal.h
+++ b/src/CmplxOrReal.h
@@ -34,8 +34,10 @@ public:
 			buffer += t[i];
 		}
 
-		if (isImag_ && buffer == "")
+		if (isImag_ && (buffer == "" || buffer == "+"))
 			value_ = 1;
+		else if (isImag_ && buffer == "-")
+			value_ = -1;
 		else
 			value_ = PsimagLite::atof(buffer);
 	}
-- 
2.43.0


From 729229c8750a6869398dadab367512c45f4ebc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:31 +0000
Subject: [PATCH 063/125] fix: pi has all its digits in scalar expressions

---
 src/QuasiCanonical.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/QuasiCanonical.h b/src/QuasiCanonical.h
index a0f626f..271593f 100644
--- a/src/QuasiCanonical.h
+++ b/src/QuasiCanonical.h
@@ -153,7 +153,9 @@ private:
 
 	ComplexOrRealType simpleArithmetics(String str)
 	{
-		replaceAll(str, "pi", ttos(M_PI));
+		OstringStream pi(17);
+		pi() << M_PI;
+		replaceAll(str, "pi", pi().str());
 
 		VectorStringType ve;
 		split(ve, str, ":");
-- 
2.43.0


From ab93e1e6d9aecfe209ae793867698bf35ced6462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:31 +0000
Subject: [PATCH 064/125] fix: CanonicalExpression: what the result held before
 isn't added to it when the first term is empty

---
 src/CanonicalExpression.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CanonicalExpression.h b/src/CanonicalExpression.h
index afafb5b..82e0b35 100644
--- a/src/CanonicalExpression.h
+++ b/src/CanonicalExpression.h
@@ -73,6 +73,7 @@ public:
 		// VectorStringType vecStr;
 		const SizeType numberOfTerms = quasiCanonical.numberOfTerms();
 
+		bool isFirst = true;
 		for (SizeType i = 0; i < numberOfTerms; ++i) {
 			AssignAndDestroyType assignAndDestroy(
 			    resultEmpty); // t_ = resultEmpty
@@ -83,12 +84,13 @@ public:
 			if (!assignAndDestroy.metaEqual(result))
 				err("CanonicalExpression: metas not equal\n");
 
-			if (i == 0)
+			if (isFirst)
 				assignAndDestroy.assignBackward(
 				    result); // result = t_;
 			else
 				assignAndDestroy.plusBackward(
 				    result); // result += t_;
+			isFirst = false;
 		}
 
 		return (ItemSpecType::isEmpty(result)) ? false : true;
-- 
2.43.0


From 7a7b6956ca3f80fe2e53d0659f4798fdaebbb8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:31 +0000
Subject: [PATCH 065/125] fix: CanonicalExpression: replacing a label by a
 value that contains it ends

---
 src/CanonicalExpression.h | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/CanonicalExpression.h b/src/CanonicalExpression.h
index 82e0b35..aec4ebc 100644
--- a/src/CanonicalExpression.h
+++ b/src/CanonicalExpression.h
@@ -99,15 +99,9 @@ public:
 	template <typename T>
 	static std::pair<bool, String> replaceAll(String str, String label, T value)
 	{
-		std::pair<bool, String> boolString(true, str);
-
-		bool retFlag = false;
-		while (boolString.first) {
-			boolString = replaceOne(boolString.second, label, value);
-			retFlag |= boolString.first;
-		};
-
-		return std::pair<bool, String>(retFlag, boolString.second);
+		const bool retFlag = (label != "" && str.find(label) != String::npos);
+		PsimagLite::replaceAll(str, label, ttos(value));
+		return std::pair<bool, String>(retFlag, str);
 	}
 
 	template <typename T>
-- 
2.43.0


From 403c2f05c8d6a38e55f6d5eec81e8a185134cfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:22 +0000
Subject: [PATCH 066/125] fix: PredicateSimple: %% by zero is an error, and is
 right for negative and for real numbers

---
 src/PredicateSimple.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/PredicateSimple.h b/src/PredicateSimple.h
index de4e62a..5fdc79b 100644
--- a/src/PredicateSimple.h
+++ b/src/PredicateSimple.h
@@ -4,6 +4,8 @@
 #include "AST/PlusMinusMultiplyDivide.h"
 #include "PsimagLite.h"
 #include "Vector.h"
+#include <cmath>
+#include <type_traits>
 
 /* PSIDOC PredicateSimple
  PredicateSimple is of the form
@@ -95,13 +97,26 @@ private:
 
 	template <typename T>
 	static bool divisibleBy(
-	    SizeType lv,
-	    SizeType rv,
-	    typename std::enable_if<Loki::TypeTraits<T>::isArith, int*>::type = 0)
+	    T lv,
+	    T rv,
+	    typename std::enable_if<std::is_integral<T>::value, int*>::type = 0)
 	{
+		if (rv == 0)
+			throw RuntimeError("PredicateSimple: %% by zero\n");
 		return ((lv % rv) == 0);
 	}
 
+	template <typename T>
+	static bool divisibleBy(
+	    T lv,
+	    T rv,
+	    typename std::enable_if<std::is_floating_point<T>::value, int*>::type = 0)
+	{
+		if (rv == 0)
+			throw RuntimeError("PredicateSimple: %% by zero\n");
+		return (std::fmod(lv, rv) == 0);
+	}
+
 	static SizeType operatorLength(String op)
 	{
 		const SizeType n = ops_.size();
-- 
2.43.0


From b4ea4ee870d5634c4f5f9dcd69349f856dbec775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:22 +0000
Subject: [PATCH 067/125] fix: PredicateSimple: a variable is replaced where it
 is a whole word, with all the digits of its value

---
 src/PredicateSimple.h | 52 +++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/src/PredicateSimple.h b/src/PredicateSimple.h
index 5fdc79b..8fa86ef 100644
--- a/src/PredicateSimple.h
+++ b/src/PredicateSimple.h
@@ -4,6 +4,7 @@
 #include "AST/PlusMinusMultiplyDivide.h"
 #include "PsimagLite.h"
 #include "Vector.h"
+#include <cctype>
 #include <cmath>
 #include <type_traits>
 
@@ -148,33 +149,46 @@ private:
 	{
 		const SizeType n = names.size();
 		assert(n == vals.size());
-		String buffer = hs;
-		for (SizeType i = 0; i < n; ++i) {
-			buffer = replaceVariable(buffer, names[i], vals[i]);
+		String buffer;
+		SizeType i = 0;
+		while (i < hs.length()) {
+			// the longest name at this place, if it is a whole word
+			SizeType found = n;
+			for (SizeType j = 0; j < n; ++j) {
+				if (!isWordAt(hs, i, names[j]))
+					continue;
+				if (found == n || names[j].length() > names[found].length())
+					found = j;
+			}
+
+			if (found == n) {
+				buffer += hs[i++];
+				continue;
+			}
+
+			OstringStream msg(17);
+			msg() << vals[found];
+			buffer += msg().str();
+			i += names[found].length();
 		}
 
 		return buffer;
 	}
 
-	template <typename T>
-	static String replaceVariable(String hs, String name, T val)
+	static bool isWordAt(const String& hs, SizeType i, const String& name)
 	{
-		const String valString = ttos(val);
-		const SizeType nameLength = name.length();
-
-		while (true) {
-			size_t index = hs.find(name);
-			if (index == String::npos)
-				return hs;
-			String part1 = (index == 0) ? "" : hs.substr(0, index);
-			String part2 = hs.substr(index + nameLength,
-			                         hs.length() - nameLength - index);
-			hs = part1 + valString + part2;
-		}
-
-		return hs;
+		const SizeType n = name.length();
+		if (n == 0 || hs.compare(i, n, name) != 0)
+			return false;
+		if (i > 0 && isWordChar(hs[i - 1]) && isWordChar(name[0]))
+			return false;
+		if (i + n < hs.length() && isWordChar(hs[i + n]) && isWordChar(name[n - 1]))
+			return false;
+		return true;
 	}
 
+	static bool isWordChar(unsigned char c) { return (std::isalnum(c) || c == '_'); }
+
 	static VectorStringType ops_;
 	String pred_;
 	String separator_;
-- 
2.43.0


From a4735995ec86b6c87bab05434d4262e08ee22e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:22 +0000
Subject: [PATCH 068/125] fix: PredicateAnd: no predicate at all is an error

---
 src/PredicateAnd.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PredicateAnd.h b/src/PredicateAnd.h
index 362578d..e77124d 100644
--- a/src/PredicateAnd.h
+++ b/src/PredicateAnd.h
@@ -26,6 +26,8 @@ public:
 		VectorStringType tokens;
 		split(tokens, pred, sep);
 		const SizeType n = tokens.size();
+		if (n == 0)
+			err("PredicateAnd: no predicate in " + pred + "\n");
 		for (SizeType i = 0; i < n; ++i)
 			vPredicateSimple_.push_back(PredicateSimple(tokens[i]));
 	}
-- 
2.43.0


From ff786054ffcf3f7ecb32f2c9cd5251aaa181014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:22 +0000
Subject: [PATCH 069/125] fix: AST: a number that an integer type cannot hold
 is an error

---
 src/AST/PlusMinusMultiplyDivide.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/AST/PlusMinusMultiplyDivide.h b/src/AST/PlusMinusMultiplyDivide.h
index adc9505..1c0eafd 100644
--- a/src/AST/PlusMinusMultiplyDivide.h
+++ b/src/AST/PlusMinusMultiplyDivide.h
@@ -21,6 +21,9 @@ Please see full open source license included in file LICENSE.
 #include "AdditionalFunctions.h"
 #include "Node.h"
 #include <cassert>
+#include <cmath>
+#include <limits>
+#include <type_traits>
 
 namespace PsimagLite {
 
@@ -123,7 +126,12 @@ private:
 			err("Not compiled for complex in code " + code + "\n");
 		}
 
-		input->set(PsimagLite::atof(code));
+		const double x = PsimagLite::atof(code);
+		const bool isInteger = std::is_integral<ValueType>::value;
+		if (isInteger && (x < std::numeric_limits<ValueType>::min() || x >= std::numeric_limits<ValueType>::max() + 1.0 || x != std::floor(x)))
+			err("Not a number of this type: " + code + "\n");
+
+		input->set(x);
 	}
 
 
-- 
2.43.0


From 30a619ac226ad5cea9034aa63a3e40296de173f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:46 +0000
Subject: [PATCH 070/125] fix: GetBraOrKet: no reading past the end of what is
 inside a ket

---
 src/GetBraOrKet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GetBraOrKet.h b/src/GetBraOrKet.h
index 9ab2b89..d9ac2aa 100644
--- a/src/GetBraOrKet.h
+++ b/src/GetBraOrKet.h
@@ -27,7 +27,7 @@ public:
 		const SizeType last = l - 1;
 		if (braOrKet_[0] == '|' && braOrKet_[last] == '>' && l > 2)
 			braOrKet_ = braOrKet.substr(1, l - 2);
-		if (braOrKet_[0] == '<' && braOrKet_[last] == '|' && l > 2) {
+		else if (braOrKet_[0] == '<' && braOrKet_[last] == '|' && l > 2) {
 			braOrKet_ = braOrKet.substr(1, l - 2);
 			isKet_ = false;
 		}
-- 
2.43.0


From 1811ecceb38b00456091afbbaf69d1a40cf2ebff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:46 +0000
Subject: [PATCH 071/125] fix: GetBraOrKet: what follows a complete
 specification, or a letter without its number, is an error

---
 src/GetBraOrKet.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/GetBraOrKet.h b/src/GetBraOrKet.h
index d9ac2aa..04fa1b0 100644
--- a/src/GetBraOrKet.h
+++ b/src/GetBraOrKet.h
@@ -96,14 +96,18 @@ private:
 		else if (str[0] == 'R') {
 			kind_ = Kind::R;
 			pair_.first = getNumberFrom(str, 1); // modifies str
+			if (str != "")
+				err("GetBraOrKet: unexpected " + str + "\n");
 			return;
 		}
 
-		if (str.size() < 2)
+		if (str == "")
 			return;
 
 		if (str[0] == 'X') {
 			pair_.second = getNumberFrom(str, 1); // modifies str
+			if (str != "")
+				err("GetBraOrKet: unexpected " + str + "\n");
 		}
 		else {
 			err("A vector spec can only start with P, gs, X or Q " + str + "\n");
@@ -122,7 +126,7 @@ private:
 		}
 
 		if (number == "")
-			RuntimeError("getNumberFrom: no number after character "
+			throw RuntimeError("getNumberFrom: no number after character "
 			             "location "
 			             + ttos(start) + " for string " + str + "\n");
 
-- 
2.43.0


From 5ef2e5a333315a9230c83ebdc46cb05d4f5be2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:46 +0000
Subject: [PATCH 072/125] fix: OneOperatorSpec: brackets in the wrong order or
 one inside another are unmatched

---
 src/OneOperatorSpec.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/OneOperatorSpec.h b/src/OneOperatorSpec.h
index 2c9841b..0058866 100644
--- a/src/OneOperatorSpec.h
+++ b/src/OneOperatorSpec.h
@@ -63,24 +63,25 @@ struct OneOperatorSpec {
 	{
 		int firstIndex = -1;
 		int lastIndex = -1;
+		bool isOpen = false;
 		for (SizeType i = 0; i < name.length(); ++i) {
-			if (name[i] == cBegin) {
-				firstIndex = i;
+			if (name[i] != cBegin && name[i] != cEnd)
 				continue;
-			}
 
-			if (name[i] == cEnd) {
+			if (isOpen == (name[i] == cBegin))
+				err(name + " has unmatched " + cBegin + " or " + cEnd + "\n");
+
+			isOpen = !isOpen;
+			if (isOpen)
+				firstIndex = i;
+			else
 				lastIndex = i;
-				continue;
-			}
 		}
 
 		if (firstIndex < 0 && lastIndex < 0)
 			return SiteSplit(false, name, "");
 
-		bool b1 = (firstIndex < 0 && lastIndex >= 0);
-		bool b2 = (firstIndex >= 0 && lastIndex < 0);
-		if (b1 || b2)
+		if (isOpen)
 			err(name + " has unmatched " + cBegin + " or " + cEnd + "\n");
 
 		String str = name.substr(0, firstIndex);
-- 
2.43.0


From 5f1839e8e7b0f562aa81c4e1e9183961831a3dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:29 +0000
Subject: [PATCH 073/125] fix: basenameOf removes the extension whatever its
 length

---
 src/Vector.h | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/Vector.h b/src/Vector.h
index ff6291f..3510972 100644
--- a/src/Vector.h
+++ b/src/Vector.h
@@ -554,16 +554,14 @@ public:
 
 inline String basenameOf(String s)
 {
-	int j = 0;
-	SizeType l = s.length();
-	for (SizeType i = 0; i < l; ++i) {
-		j = l - i - 1;
-		const char letter = s[j];
-		if (letter == '.')
-			break;
-	}
-
-	return s.substr(0, l - j);
+	// the extension starts at the last dot of the last component
+	const size_t dot = s.rfind('.');
+	const size_t slash = s.rfind('/');
+	const size_t start = (slash == String::npos) ? 0 : slash + 1;
+	if (dot == String::npos || dot <= start)
+		return s;
+
+	return s.substr(0, dot);
 }
 
 } // namespace PsimagLite
-- 
2.43.0


From 6c706afcf61f791e8084a10434cb1f36afff7ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:29 +0000
Subject: [PATCH 074/125] fix: integerDivision by zero is an error

---
 src/PsimagLite.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PsimagLite.cpp b/src/PsimagLite.cpp
index 3450e87..30880c2 100644
--- a/src/PsimagLite.cpp
+++ b/src/PsimagLite.cpp
@@ -8,7 +8,7 @@ namespace PsimagLite {
 
 SizeType integerDivision(SizeType a, SizeType b)
 {
-	if ((a % b) != 0) {
+	if (b == 0 || (a % b) != 0) {
 		throw RuntimeError("integerDivision: failed\n");
 	}
 
-- 
2.43.0


From 1118f88b98ed824d6ff2c1df5caeac8f32bd6790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:29 +0000
Subject: [PATCH 075/125] fix: isAfloat is false for what is not exactly one
 number

---
 src/PsimagLite.cpp | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/src/PsimagLite.cpp b/src/PsimagLite.cpp
index 30880c2..52cbbfb 100644
--- a/src/PsimagLite.cpp
+++ b/src/PsimagLite.cpp
@@ -99,33 +99,26 @@ bool isAnInteger(String str)
 	return (n > 0);
 }
 
-bool isAfloat(String str)
+static bool readFloat(double& x, const String& str)
 {
-	const SizeType n = str.length();
-	bool hasDigit = false;
-	for (SizeType i = 0; i < n; ++i) {
-		if (isdigit(str[i])) {
-			hasDigit = true;
-			continue;
-		}
-
-		if (str[i] == '-' || str[i] == '+' || str[i] == 'e' || str[i] == 'E' || str[i] == '.')
-			continue;
+	if (str.empty() || str.find_first_not_of("0123456789-+eE.") != String::npos)
 		return false;
-	}
 
-	return hasDigit;
+	char* end = nullptr;
+	x = std::strtod(str.c_str(), &end);
+	return (*end == '\0' && !std::isinf(x));
 }
 
-double atof(String str)
+bool isAfloat(String str)
 {
+	double x = 0;
+	return readFloat(x, str);
+}
 
-	if (!isAfloat(str))
-		throw RuntimeError("atof received a non-digit " + str + "\n");
-
-	char* end = nullptr;
-	const double x = std::strtod(str.c_str(), &end);
-	if (*end != '\0' || std::isinf(x))
+double atof(String str)
+{
+	double x = 0;
+	if (!readFloat(x, str))
 		throw RuntimeError("atof received what is not a number " + str + "\n");
 
 	return x;
-- 
2.43.0


From 60028ced93c014f8ba020c9911aee657b7b68eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:29 +0000
Subject: [PATCH 076/125] fix: SparseVector: comparison takes all the entries
 of both

---
 src/SparseVector.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index e2213e6..a08585a 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -239,13 +239,25 @@ public:
 	{
 		assert(isSorted_);
 		assert(v.isSorted_);
-		for (SizeType i = 0; i < v.values_.size(); i++) {
-			if (indices_[i] != v.indices_[i])
-				return false;
-			FieldType val = values_[i] - v.values_[i];
+		if (size_ != v.size_)
+			return false;
+
+		// what isn't stored is zero
+		SizeType i = 0;
+		SizeType j = 0;
+		while (i < indices_.size() || j < v.indices_.size()) {
+			FieldType val = 0;
+			if (j == v.indices_.size() || (i < indices_.size() && indices_[i] < v.indices_[j]))
+				val = values_[i++];
+			else if (i == indices_.size() || v.indices_[j] < indices_[i])
+				val = v.values_[j++];
+			else
+				val = values_[i++] - v.values_[j++];
+
 			if (!isAlmostZero(val, 1e-8))
 				return false;
 		}
+
 		return true;
 	}
 
-- 
2.43.0


From 25990137e58a5c0710c0a0693c68c19d30acccbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:29 +0000
Subject: [PATCH 077/125] fix: SparseVector: less than two entries are sorted
 too

---
 src/SparseVector.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index a08585a..4848183 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -301,9 +301,14 @@ public:
 
 	void sort()
 	{
-		if (indices_.size() < 2 || isSorted_)
+		if (isSorted_)
 			return;
 
+		if (indices_.size() == 0) {
+			isSorted_ = true;
+			return;
+		}
+
 		Sort<typename Vector<SizeType>::Type> sort;
 		typename Vector<SizeType>::Type iperm(indices_.size());
 		sort.sort(indices_, iperm);
-- 
2.43.0


From c638da0dc60a237155fa95d607d3fd41850482ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:29 +0000
Subject: [PATCH 078/125] fix: SparseVector: chunks start from zero, add what
 has the same index, and are checked up to their last element

---
 src/SparseVector.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index 4848183..68ccccb 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -164,13 +164,15 @@ public:
 	{
 		if (test) {
 			PairType firstLast = findFirstLast();
-			if (i0 > firstLast.first || i0 + total < firstLast.second)
+			if (i0 > firstLast.first || i0 + total <= firstLast.second)
 				throw RuntimeError("SparseVector::toChunk(...)"
 				                   " check failed\n");
 		}
 		dest.resize(total);
+		for (SizeType i = 0; i < total; i++)
+			dest[i] = 0;
 		for (SizeType i = 0; i < indices_.size(); i++)
-			dest[indices_[i] - i0] = values_[i];
+			dest[indices_[i] - i0] += values_[i];
 	}
 
 	template <typename SomeBasisType>
@@ -184,7 +186,7 @@ public:
 		for (SizeType i = 0; i < total; i++)
 			dest[i] = 0;
 		for (SizeType i = 0; i < indices_.size(); i++)
-			dest[indices_[i] - offset] = values_[i];
+			dest[indices_[i] - offset] += values_[i];
 		return part;
 	}
 
-- 
2.43.0


From 5feb1ff418bb4f205bacf29bf69c9ebd86ebcc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:29 +0000
Subject: [PATCH 079/125] fix: SparseVector: the partition of an entry that is
 the first of its partition

---
 src/SparseVector.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index 68ccccb..3a57438 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -203,9 +203,9 @@ public:
 				break;
 			}
 		}
-		SizeType ret2 = 1;
+		SizeType ret2 = 0;
 		for (SizeType i = 0; i < parts.partition(); i++) {
-			if (firstLast.second > parts.partition(i)) {
+			if (firstLast.second >= parts.partition(i)) {
 				ret2 = i;
 			}
 			else {
@@ -359,6 +359,9 @@ private:
 
 	PairType findFirstLast() const
 	{
+		if (indices_.size() == 0)
+			throw RuntimeError("SparseVector: has no entries\n");
+
 		return PairType(
 		    *(std::min_element(indices_.begin(), indices_.end())),
 		    *(std::max_element(indices_.begin(), indices_.end())));
-- 
2.43.0


From 69051bb67ba0c01cfccd76b5405da357d81839e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:29 +0000
Subject: [PATCH 080/125] fix: SparseRow: finalizing does not separate the
 columns from their values

---
 src/SparseRow.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/SparseRow.h b/src/SparseRow.h
index a00a1e3..7a0b9e7 100644
--- a/src/SparseRow.h
+++ b/src/SparseRow.h
@@ -119,13 +119,14 @@ public:
 
 		Sort<ColumnsType> s;
 		ColumnsType iperm(cols_.size());
-		s.sort(cols_, iperm);
-		SizeType prevCol = cols_[0];
+		ColumnsType cols = cols_; // values_ keeps its order
+		s.sort(cols, iperm);
+		SizeType prevCol = cols[0];
 		SizeType counter = 0;
 		ValueType value = 0;
 		for (SizeType i = 0; i < cols_.size(); i++) {
-			assert(cols_[i] < matrix.cols());
-			if (cols_[i] == prevCol) {
+			assert(cols[i] < matrix.cols());
+			if (cols[i] == prevCol) {
 				value += values_[iperm[i]];
 				continue;
 			}
@@ -133,7 +134,7 @@ public:
 			matrix.pushValue(value);
 			counter++;
 			value = values_[iperm[i]];
-			prevCol = cols_[i];
+			prevCol = cols[i];
 		}
 		matrix.pushCol(prevCol);
 		matrix.pushValue(value);
-- 
2.43.0


From b00667ae71c82e5904d18cbe935e6e372149f248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:29 +0000
Subject: [PATCH 081/125] fix: SparseRowCached: the cache may start empty

---
 src/SparseRowCached.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SparseRowCached.h b/src/SparseRowCached.h
index 70cd27d..a0a5242 100644
--- a/src/SparseRowCached.h
+++ b/src/SparseRowCached.h
@@ -109,7 +109,7 @@ public:
 		                        values_.push_back(value);*/
 		SizeType cacheSize = cols_.size();
 		if (counter_ >= cacheSize) {
-			cacheSize *= 2;
+			cacheSize = 2 * cacheSize + 1;
 			cols_.resize(cacheSize);
 			values_.resize(cacheSize);
 		}
-- 
2.43.0


From e4bd50b8be705e23bbd55d5308f690b6c052be79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:29 +0000
Subject: [PATCH 082/125] fix: MersenneTwister: ranks zero and one do not share
 their stream

---
 src/MersenneTwister.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MersenneTwister.cpp b/src/MersenneTwister.cpp
index 546d266..0a91223 100644
--- a/src/MersenneTwister.cpp
+++ b/src/MersenneTwister.cpp
@@ -13,7 +13,7 @@ MersenneTwister::MersenneTwister(unsigned s, int rank, int)
 {
 	seed(s);
 	int news = random();
-	for (int i = 1; i < rank; ++i) {
+	for (int i = 0; i < rank; ++i) {
 		news = random();
 	}
 
-- 
2.43.0


From 0fee7e01ef2502858a8a0c80bbd30fb0a0c6bf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:29 +0000
Subject: [PATCH 083/125] fix: Random48: reseeding restarts the generator

---
 src/Random48.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Random48.h b/src/Random48.h
index b2a5d1d..fee4fa5 100644
--- a/src/Random48.h
+++ b/src/Random48.h
@@ -50,7 +50,11 @@ public:
 
 	LongType seed() const { return seed_; }
 
-	void seed(const LongType& seed) { seed_ = seed; }
+	void seed(const LongType& seed)
+	{
+		seed_ = seed;
+		srand48(seed_);
+	}
 
 private:
 
-- 
2.43.0


From 285f9d075a4de725685981130dda0ed1544af5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:29 +0000
Subject: [PATCH 084/125] fix: SumDecomposition.h can be included in more than
 one file

---
 src/SumDecomposition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SumDecomposition.h b/src/SumDecomposition.h
index cbf19a1..cb3b63f 100644
--- a/src/SumDecomposition.h
+++ b/src/SumDecomposition.h
@@ -70,7 +70,7 @@ private:
 	Vector<VectorSizeType>::Type data_;
 };
 
-std::ostream& operator<<(std::ostream& os, const SumDecomposition& sd)
+inline std::ostream& operator<<(std::ostream& os, const SumDecomposition& sd)
 {
 	os << sd.storedSize() << "\n";
 	for (SizeType i = 0; i < sd.storedSize(); ++i)
-- 
2.43.0


From 82ccce8573a89f903f39e1ff43ac2deaf3fb348c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:29 +0000
Subject: [PATCH 085/125] fix: PackIndices.h includes what it uses

---
 src/PackIndices.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PackIndices.h b/src/PackIndices.h
index 3b31d20..51fdc7d 100644
--- a/src/PackIndices.h
+++ b/src/PackIndices.h
@@ -79,6 +79,8 @@ DISCLOSED WOULD NOT INFRINGE PRIVATELY OWNED RIGHTS.
 
 #ifndef PACK_INDICES_H
 #define PACK_INDICES_H
+#include "Vector.h"
+#include <cassert>
 #include <cstdlib>
 
 namespace PsimagLite {
-- 
2.43.0


From 6c667f59f9a1bd69f3f4f997c2a43d7d50698b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:04 +0000
Subject: [PATCH 086/125] fix: SparseVector: comparison and norm compile

---
 src/SparseVector.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index 3a57438..b6b0d0e 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -84,6 +84,8 @@ DISCLOSED WOULD NOT INFRINGE PRIVATELY OWNED RIGHTS.
 #include "Vector.h" // in PsimagLite
 #include <algorithm>
 #include <cassert>
+#include <cmath>
+#include <complex>
 #include <iostream>
 #include <utility>
 
@@ -357,6 +359,11 @@ public:
 
 private:
 
+	static bool isAlmostZero(const FieldType& x, double eps)
+	{
+		return (std::abs(x) <= eps);
+	}
+
 	PairType findFirstLast() const
 	{
 		if (indices_.size() == 0)
@@ -412,7 +419,7 @@ inline FieldType norm(const SparseVector<std::complex<FieldType>>& v)
 	std::complex<FieldType> sum = 0;
 	for (SizeType i = 0; i < v.indices(); i++)
 		sum += PsimagLite::conj(v.value(i)) * v.value(i);
-	return real(sqrt(sum));
+	return PsimagLite::real(sqrt(sum));
 }
 
 } // namespace PsimagLite
-- 
2.43.0


From d82976125a47fe3f2c1730cb8e3139e4de187f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:59 +0000
Subject: [PATCH 087/125] fix: LinearPrediction: the order is positive and at
 most half the number of points

---
 src/LinearPrediction.h | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/LinearPrediction.h b/src/LinearPrediction.h
index 097d765..4164275 100644
--- a/src/LinearPrediction.h
+++ b/src/LinearPrediction.h
@@ -105,12 +105,7 @@ public:
 	    : y_(y)
 	    , p_(p)
 	{
-		SizeType ysize = y.size();
-		if (ysize & 1)
-			throw RuntimeError(
-			    "LinearPrediction::ctor(...): data set must "
-			    "contain an even number of points\n");
-		SizeType n = ysize / 2;
+		const SizeType n = checkedHalf(y.size(), p);
 		MatrixType A(p, p);
 		typename Vector<FieldType>::Type B(p);
 		computeA(A, n);
@@ -123,12 +118,7 @@ public:
 	void linearPredictionfunction(const typename Vector<FieldType>::Type& y,
 	                              SizeType p)
 	{
-		SizeType ysize = y.size();
-		if (ysize & 1)
-			throw RuntimeError(
-			    "LinearPrediction::ctor(...): data set must "
-			    "contain an even number of points\n");
-		SizeType n = ysize / 2;
+		const SizeType n = checkedHalf(y.size(), p);
 		MatrixType A(p, p);
 		typename Vector<FieldType>::Type B(p);
 		computeA(A, n);
@@ -209,6 +199,20 @@ public:
 
 private:
 
+	SizeType checkedHalf(SizeType ysize, SizeType p) const
+	{
+		if (ysize & 1)
+			throw RuntimeError(
+			    "LinearPrediction::ctor(...): data set must "
+			    "contain an even number of points\n");
+		const SizeType n = ysize / 2;
+		if (p == 0 || p > n || ysize > y_.size())
+			throw RuntimeError(
+			    "LinearPrediction::ctor(...): the order must be "
+			    "positive and at most half the number of points\n");
+		return n;
+	}
+
 	//! Note: A and B cannot be const. here due to the ultimate
 	//! call to BLAS::GEMV
 	void computeD(MatrixType& A, typename Vector<FieldType>::Type& B)
-- 
2.43.0


From 5509c93dc7a67b227e5f790e3ba4f41ffa6e5445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:12 +0000
Subject: [PATCH 088/125] fix: LinearPrediction: the number of points to
 predict isn't the order

---
 src/LinearPrediction.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/LinearPrediction.h b/src/LinearPrediction.h
index 4164275..4a56f79 100644
--- a/src/LinearPrediction.h
+++ b/src/LinearPrediction.h
@@ -138,8 +138,9 @@ public:
 		}
 	}
 
-	void predict2(SizeType p)
+	void predict2(SizeType npoints)
 	{
+		const SizeType p = d_.size(); // the order
 		// Fix roots
 		typedef std::complex<double> Complex;
 		SizeType twicep = 2 * p;
@@ -187,8 +188,8 @@ public:
 		}
 
 		SizeType n = y_.size();
-		y_.resize(n + p);
-		for (SizeType i = n; i < n + p; i++) {
+		y_.resize(n + npoints);
+		for (SizeType i = n; i < n + npoints; i++) {
 			FieldType sum = 0;
 			for (SizeType j = 0; j < d_.size(); j++) {
 				sum += nd[j] * y_[i - j - 1];
-- 
2.43.0


From 94593b975d176af4ff4050369e95cbfe577132a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:13 +0000
Subject: [PATCH 089/125] fix: AkimaSpline.h compiles by itself

---
 src/AkimaSpline.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/AkimaSpline.h b/src/AkimaSpline.h
index 3b5f18b..3e7a0c2 100644
--- a/src/AkimaSpline.h
+++ b/src/AkimaSpline.h
@@ -1,6 +1,7 @@
 #ifndef AKIMA_H_
 #define AKIMA_H_
 
+#include "Vector.h"
 #include <cmath>
 #include <stdexcept>
 #include <utility>
@@ -22,10 +23,10 @@ public:
 	AkimaSpline(const VectorType& x, const VectorType& s)
 	{
 		if (x.size() != s.size())
-			throw RuntimeError(
+			throw PsimagLite::RuntimeError(
 			    "Number of X and Y points must be the same\n");
 		if (x.size() < 3)
-			throw RuntimeError("Number of X too small\n");
+			throw PsimagLite::RuntimeError("Number of X too small\n");
 		VectorType sprime;
 		calculateSprime(sprime, x, s);
 		for (SizeType i = 0; i < x.size() - 1; i++) {
@@ -65,12 +66,12 @@ private:
 	SizeType findRange(const RealType& x) const
 	{
 		if (x < interval_.first || x > interval_.second)
-			throw RuntimeError("Akima: out of range\n");
+			throw PsimagLite::RuntimeError("Akima: out of range\n");
 		for (SizeType i = 0; i < akimaStruct_.size(); i++)
 			if (x >= akimaStruct_[i].x0 && x <= akimaStruct_[i].x1)
 				return i;
 
-		throw RuntimeError("Akima: findRange(): internal error\n");
+		throw PsimagLite::RuntimeError("Akima: findRange(): internal error\n");
 	}
 
 	void calculateSprime(VectorType& sprime, const VectorType& x, const VectorType& s) const
@@ -109,7 +110,7 @@ private:
 			w[i] = fabs(d[i + 1] - d[i]);
 	}
 
-	typename Vector<AkimaStruct>::Type akimaStruct_;
+	typename PsimagLite::Vector<AkimaStruct>::Type akimaStruct_;
 	IntervalType interval_;
 };
 
-- 
2.43.0


From 86b48a00519574866b7a63406d079f04464a837c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:35 +0000
Subject: [PATCH 090/125] fix: LongChain actually rejects a distance not
 smaller than the chain

---
 src/Geometry/LongChain.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Geometry/LongChain.h b/src/Geometry/LongChain.h
index dda4894..cfead82 100644
--- a/src/Geometry/LongChain.h
+++ b/src/Geometry/LongChain.h
@@ -119,7 +119,7 @@ public:
 		}
 
 		if (linSize_ <= distance_)
-			RuntimeError("LongChain::ctor()\n");
+			throw RuntimeError("LongChain::ctor()\n");
 	}
 
 	virtual SizeType maxConnections() const
-- 
2.43.0


From e9cd6e47f0be73217c57b16d2a7d7a412b87b0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:35 +0000
Subject: [PATCH 091/125] fix: periodic chains give every bond its own handle

---
 src/Geometry/LongChain.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Geometry/LongChain.h b/src/Geometry/LongChain.h
index cfead82..aa04895 100644
--- a/src/Geometry/LongChain.h
+++ b/src/Geometry/LongChain.h
@@ -131,14 +131,16 @@ public:
 
 	SizeType handle(SizeType i, SizeType j) const
 	{
-		return (i < j) ? i : j;
+		const SizeType imin = (i < j) ? i : j;
+		const SizeType imax = (i < j) ? j : i;
+		// a bond that wraps around starts at the larger site
+		return (isPeriodic_ && imax - imin != distance_) ? imax : imin;
 	}
 
 	SizeType getVectorSize(SizeType dirId) const
 	{
 		assert(dirId == DIRECTION_X);
-		const SizeType oneOrZero = (isPeriodic_) ? 1 : 0;
-		return linSize_ - distance_ + oneOrZero;
+		return (isPeriodic_) ? linSize_ : linSize_ - distance_;
 	}
 
 	bool connected(SizeType i1, SizeType i2) const
-- 
2.43.0


From 71306338f106424ac08a5aa12653499e91fbdff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:35 +0000
Subject: [PATCH 092/125] fix: LadderX bonds along the ladder have the ladder's
 handles

---
 src/Geometry/LadderX.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Geometry/LadderX.h b/src/Geometry/LadderX.h
index a2ba12a..7a04051 100644
--- a/src/Geometry/LadderX.h
+++ b/src/Geometry/LadderX.h
@@ -187,9 +187,8 @@ public:
 		SizeType imin = (i1 < i2) ? i1 : i2;
 		switch (dir) {
 		case DIRECTION_X:
-			return imin;
 		case DIRECTION_Y:
-			return imin - imin / leg_;
+			return ladder_.handle(i1, i2);
 		case DIRECTION_XPY: // only checked for leg_=2
 			return (imin - 1) / leg_;
 		case DIRECTION_XMY: // only checked for leg_=2
-- 
2.43.0


From f87924c99a88d9cdfe034132aaecae7f527e2746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:35 +0000
Subject: [PATCH 093/125] fix: Ladder rejects zero legs and always sets its
 periodicity

---
 src/Geometry/Ladder.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Geometry/Ladder.h b/src/Geometry/Ladder.h
index 9440024..367d250 100644
--- a/src/Geometry/Ladder.h
+++ b/src/Geometry/Ladder.h
@@ -96,9 +96,13 @@ public:
 	Ladder(SizeType linSize, InputType& io)
 	    : linSize_(linSize)
 	    , isPeriodicX_(false)
+	    , isPeriodicY_(false)
 	{
 
 		io.readline(leg_, "LadderLeg=");
+		if (leg_ == 0)
+			throw RuntimeError("LadderLeg=0 is an error\n");
+
 		if (leg_ != 2) {
 			std::cerr << "WARNING: LadderLeg!=2 is experimental!\n";
 		}
-- 
2.43.0


From e0cdb022815327bd33125bfcb88d1ef5c2c837d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:35 +0000
Subject: [PATCH 094/125] fix: Ladder fringe of systems smaller than a rung

---
 src/Geometry/Ladder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Geometry/Ladder.h b/src/Geometry/Ladder.h
index 367d250..a3f0b3a 100644
--- a/src/Geometry/Ladder.h
+++ b/src/Geometry/Ladder.h
@@ -190,7 +190,7 @@ public:
 		if (smax + 1 == emin)
 			r = leg_; // finite loops
 
-		bool a = (i < emin && i >= smax - r + 1);
+		bool a = (i < emin && i + r >= smax + 1);
 		bool b = (i > smax && i <= emin + r - 1);
 		return (a || b);
 	}
-- 
2.43.0


From 2adfd584acfaaffd7f577bcff042eb14e9ef4d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:35 +0000
Subject: [PATCH 095/125] fix: LadderBath with an odd number of cluster sites

---
 src/Geometry/LadderBath.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Geometry/LadderBath.h b/src/Geometry/LadderBath.h
index d43360b..246020e 100644
--- a/src/Geometry/LadderBath.h
+++ b/src/Geometry/LadderBath.h
@@ -104,6 +104,9 @@ public:
 	    , ladder_(0)
 	{
 		io.readline(bathSitesPerSite_, "BathSitesPerSite=");
+		if (linSize_ % (1 + bathSitesPerSite_) != 0)
+			throw RuntimeError("LadderBath: number of sites must be a multiple of 1 + BathSitesPerSite\n");
+
 		clusterSize_ = linSize_ / (1 + bathSitesPerSite_);
 
 		ladder_ = new LadderType(clusterSize_, io);
@@ -237,13 +240,13 @@ private:
 		if (i >= firstClusterSite && i < lastP1ClusterSite)
 			return PairType(-1, -1);
 
-		SizeType middle = linSize_ / 2;
 		SizeType cs = clusterSize_ / 2;
 		// now i is in the bath:
-		if (i < middle) { // i is in the system
+		if (i < firstClusterSite) { // i is in the system
 			return PairType(i % cs + firstClusterSite, i / cs);
 		}
 		// is in the bath and in the environ:
+		cs = clusterSize_ - cs;
 		SizeType iprime = i - lastP1ClusterSite;
 		SizeType offset = lastP1ClusterSite - cs;
 		return PairType(iprime % cs + offset, iprime / cs);
-- 
2.43.0


From f5b3317011956e64501ff7159e23751dce56fcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:35 +0000
Subject: [PATCH 096/125] fix: Geometry::split with an odd number of blocks

---
 src/Geometry/Geometry.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Geometry/Geometry.h b/src/Geometry/Geometry.h
index 747267e..768318c 100644
--- a/src/Geometry/Geometry.h
+++ b/src/Geometry/Geometry.h
@@ -244,6 +244,9 @@ public:
 			i += sitesPerBlock;
 		}
 
+		// the last block of X may extend beyond the middle
+		middle = i;
+
 		SizeType lastMiddle = linSize_ - sitesPerBlock;
 		while (i < lastMiddle) {
 			typename Vector<SizeType>::Type tmpV(sitesPerBlock);
-- 
2.43.0


From caf4657822c4f717428af4598dae4a14b98fd0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:35 +0000
Subject: [PATCH 097/125] fix: Geometry::print compiles

---
 src/Geometry/Geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Geometry/Geometry.h b/src/Geometry/Geometry.h
index 768318c..05e233a 100644
--- a/src/Geometry/Geometry.h
+++ b/src/Geometry/Geometry.h
@@ -303,7 +303,7 @@ public:
 	void print(std::ostream& os) const
 	{
 		for (SizeType i = 0; i < terms_.size(); i++)
-			terms_[i]->print(os, linSize_);
+			terms_[i]->print(os);
 	}
 
 	SizeType handle(SizeType t, SizeType ind, SizeType jnd) const
-- 
2.43.0


From 91f3f9c7cfdc84daff489b7ef048f5811584eeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:05 +0000
Subject: [PATCH 098/125] fix: LongRange rejects connectors of the wrong size
 or out of range

---
 src/Geometry/LongRange.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/Geometry/LongRange.h b/src/Geometry/LongRange.h
index 9593054..e46e20a 100644
--- a/src/Geometry/LongRange.h
+++ b/src/Geometry/LongRange.h
@@ -129,7 +129,7 @@ public:
 			reinterpretMatrix();
 		}
 		else {
-			if (dofs_ != matrix_.rows() / linSize) {
+			if (matrix_.rows() != dofs_ * linSize || matrix_.cols() != dofs_ * linSize) {
 				throw RuntimeError("Wrong Connectors matrix size\n");
 			}
 		}
@@ -296,27 +296,43 @@ private:
 		matrix_.clear();
 		matrix_.resize(n, n);
 		if (dofs_ > 1) {
-			assert(values.cols() == 5);
+			checkCompact(values, 5);
 			for (SizeType i = 0; i < values.rows(); ++i) {
 				SizeType counter = 0;
 				SizeType site0 = complexToInteger(values(i, counter++));
 				SizeType orb0 = complexToInteger(values(i, counter++));
 				SizeType site1 = complexToInteger(values(i, counter++));
 				SizeType orb1 = complexToInteger(values(i, counter++));
+				checkSiteAndOrbital(site0, orb0);
+				checkSiteAndOrbital(site1, orb1);
 				matrix_(orb0 + site0 * dofs_, orb1 + site1 * dofs_) = values(i, counter++);
 			}
 		}
 		else {
-			assert(values.cols() == 3);
+			checkCompact(values, 3);
 			for (SizeType i = 0; i < values.rows(); ++i) {
 				SizeType counter = 0;
 				SizeType site0 = complexToInteger(values(i, counter++));
 				SizeType site1 = complexToInteger(values(i, counter++));
+				checkSiteAndOrbital(site0, 0);
+				checkSiteAndOrbital(site1, 0);
 				matrix_(site0, site1) = values(i, counter++);
 			}
 		}
 	}
 
+	static void checkCompact(const MatrixType& values, SizeType cols)
+	{
+		if (values.cols() != cols)
+			throw RuntimeError("Compact Connectors must have " + ttos(cols) + " columns\n");
+	}
+
+	void checkSiteAndOrbital(SizeType site, SizeType orb) const
+	{
+		if (site >= linSize_ || orb >= dofs_)
+			throw RuntimeError("Compact Connectors: site or orbital out of range\n");
+	}
+
 	static SizeType complexToInteger(const ComplexOrRealType& value)
 	{
 		if (std::imag(value) != 0) {
-- 
2.43.0


From e698fadbf720b203ac2b899068e247ea5f9cbfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:47 +0000
Subject: [PATCH 099/125] fix: LadderX fringe of systems smaller than a rung

---
 src/Geometry/LadderX.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Geometry/LadderX.h b/src/Geometry/LadderX.h
index 7a04051..789b143 100644
--- a/src/Geometry/LadderX.h
+++ b/src/Geometry/LadderX.h
@@ -171,11 +171,11 @@ public:
 
 	bool fringe(SizeType i, SizeType smax, SizeType emin) const
 	{
-		bool a = (i < emin && i >= smax - 1);
+		bool a = (i < emin && i + 1 >= smax);
 		bool b = (i > smax && i <= emin + 1);
 		if (smax & 1)
 			return (a || b);
-		a = (i < emin && i >= smax - 2);
+		a = (i < emin && i + 2 >= smax);
 		b = (i > smax && i <= emin + 2);
 		return (a || b);
 	}
-- 
2.43.0


From b17663a00e2dc3ed369af4c814bbbd17dea86d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:50 +0000
Subject: [PATCH 100/125] fix: ProgressIndicator leaves the previous message in
 a stream it has printed

---
 src/ProgressIndicator.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/ProgressIndicator.h b/src/ProgressIndicator.h
index 7904590..eb43401 100644
--- a/src/ProgressIndicator.h
+++ b/src/ProgressIndicator.h
@@ -155,14 +155,13 @@ public:
 			return;
 		prefix(os);
 		os << s().str() << "\n";
-		s().seekp(std::ios_base::beg);
 
-		if (!bufferActive_)
-			return;
+		if (bufferActive_) {
+			prefix(buffer_);
+			buffer_() << s().str() << "\n";
+		}
 
-		prefix(buffer_);
-		buffer_() << s().str() << "\n";
-		s().seekp(std::ios_base::beg);
+		s().str("");
 	}
 
 	void print(const String& something, std::ostream& os) const
-- 
2.43.0


From d8554615104ce1a3f856407c6ba2f4233a8d5130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:50 +0000
Subject: [PATCH 101/125] fix: printMemoryUsage dumps the whole buffer to the
 output and to itself

---
 src/ProgressIndicator.h | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/ProgressIndicator.h b/src/ProgressIndicator.h
index eb43401..e7ec6cf 100644
--- a/src/ProgressIndicator.h
+++ b/src/ProgressIndicator.h
@@ -189,13 +189,6 @@ public:
 		msg() << "Current virtual memory is " << vmSize
 		      << " maximum was " << vmPeak;
 		printline(msg, std::cout);
-
-		if (!bufferActive_)
-			return;
-
-		buffer_() << "Current virtual memory is " << vmSize
-		          << " maximum was " << vmPeak;
-		printline(buffer_, std::cout);
 	}
 
 	static MemoryUsage::TimeHandle time() { return musage_.time(); }
-- 
2.43.0


From 9e46c294ce2b949b75162d404c54e4931af997fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:36 +0000
Subject: [PATCH 102/125] fix: MemoryUsage::findEntry returns a blank for an
 entry without a value

---
 src/MemoryUsage.h | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/MemoryUsage.h b/src/MemoryUsage.h
index 8847eda..b684fe1 100644
--- a/src/MemoryUsage.h
+++ b/src/MemoryUsage.h
@@ -172,19 +172,13 @@ public:
 		if (y == String::npos)
 			len = data_.length() - x;
 		String s2 = data_.substr(x, len);
-		x = 0;
 		const SizeType n = s2.length();
-		for (SizeType i = 0; i < n; ++i) {
-			++x;
-			if (s2.at(i) == ' ' || s2.at(i) == '\t')
-				continue;
-			else
+		for (x = 0; x < n; ++x) {
+			if (s2.at(x) != ' ' && s2.at(x) != '\t')
 				break;
 		}
 
-		if (x > 0)
-			--x;
-		len = s2.length() - x;
+		len = n - x;
 		return s2.substr(x, len);
 	}
 
-- 
2.43.0


From eccd1524533583333e31b5ca099d62c11bdc51ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:58 +0000
Subject: [PATCH 103/125] fix: MemoryUsage::update never ends on a line longer
 than its buffer

---
 src/MemoryUsage.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/MemoryUsage.h b/src/MemoryUsage.h
index b684fe1..740458c 100644
--- a/src/MemoryUsage.h
+++ b/src/MemoryUsage.h
@@ -79,14 +79,13 @@ DISCLOSED WOULD NOT INFRINGE PRIVATELY OWNED RIGHTS.
 #define MEMORY_USAGE_H
 #include <fstream>
 #include <iostream>
+#include <string>
 #include <sys/time.h>
 
 namespace PsimagLite {
 
 class MemoryUsage {
 
-	static const SizeType MY_MAX_LINE = 40240;
-
 public:
 
 	class TimeHandle {
@@ -149,12 +148,11 @@ public:
 		std::ifstream ifp(myself_.c_str());
 		if (!ifp || !ifp.good() || ifp.bad())
 			return;
-		char tmp[MY_MAX_LINE];
+		String tmp;
 		data_ = "";
-		while (!ifp.eof()) {
-			ifp.getline(tmp, MY_MAX_LINE);
-			data_ += String(tmp);
-			data_ += String("\n");
+		while (std::getline(ifp, tmp)) {
+			data_ += tmp;
+			data_ += "\n";
 		}
 
 		ifp.close();
-- 
2.43.0


From 298ae9f80a585f4aaac9f342d9427556e9446ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:57 +0000
Subject: [PATCH 104/125] fix: PsiTag silently forgets a block that is never
 closed

---
 scripts/PsiTag.pm | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/PsiTag.pm b/scripts/PsiTag.pm
index 140fecd..36ec2f7 100644
--- a/scripts/PsiTag.pm
+++ b/scripts/PsiTag.pm
@@ -192,6 +192,8 @@ sub readTags
 			}
 		}
 	}
+
+	die "$0: FATAL: Block of tag $multilineTag is not closed\n" if ($blockScope);
 }
 
 sub addTag
-- 
2.43.0


From 9ae8188614b6229f3aaabc5f8c4406bcd23cfd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:06 +0000
Subject: [PATCH 105/125] fix: PsiTag takes a tag named 0 for a missing one

---
 scripts/PsiTag.pm | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/PsiTag.pm b/scripts/PsiTag.pm
index 36ec2f7..1c346ce 100644
--- a/scripts/PsiTag.pm
+++ b/scripts/PsiTag.pm
@@ -159,7 +159,7 @@ sub readTags
 					syntaxError($line, $i + 1);
 				}
 
-				($tag) or die "$0: FATAL: tag does not exist in line scope $line\n";
+				($tag ne "") or die "$0: FATAL: tag does not exist in line scope $line\n";
 				if ($thisLineParens > 0) {
 					$blockScope = 1;
 					$multilineContent = "";
@@ -284,7 +284,7 @@ sub unWrap
 		my $content = $line;
 		if ($line =~ /^[ \t]*\<(.*$)/) { # (3) in block scope
 			my $existingTag = $1;
-			($existingTag) or die "$0: FATAL: Tag does not exist in unWrap: $line\n";
+			($existingTag ne "") or die "$0: FATAL: Tag does not exist in unWrap: $line\n";
 			$existingTag = canonicalTagName($existingTag);
 			my $ptr = $tags->{"$existingTag"};
 			defined($ptr) or die "$0: FATAL: Tag $existingTag doesn't exist\n";
-- 
2.43.0


From 369db40078022471141be7bb58f302de6b0f6b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:43 +0000
Subject: [PATCH 106/125] fix: PsiTag drops the text that follows the opening
 parenthesis of a block

---
 scripts/PsiTag.pm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/PsiTag.pm b/scripts/PsiTag.pm
index 1c346ce..bba3620 100644
--- a/scripts/PsiTag.pm
+++ b/scripts/PsiTag.pm
@@ -162,7 +162,7 @@ sub readTags
 				($tag ne "") or die "$0: FATAL: tag does not exist in line scope $line\n";
 				if ($thisLineParens > 0) {
 					$blockScope = 1;
-					$multilineContent = "";
+					$multilineContent = ($content eq "\n") ? "" : $content;
 					$multilineTag = canonicalTagName($tag);
 					$multilineMode = $mode;
 				} else {
-- 
2.43.0


From 12a1b294b907319ca485e6675637c53ae0d4f635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:12 +0000
Subject: [PATCH 107/125] fix: PsiTag expands a tag that refers to itself until
 memory runs out

---
 scripts/PsiTag.pm | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scripts/PsiTag.pm b/scripts/PsiTag.pm
index bba3620..6293a34 100644
--- a/scripts/PsiTag.pm
+++ b/scripts/PsiTag.pm
@@ -274,7 +274,8 @@ sub canonicalTagName
 
 sub unWrap
 {
-	my ($tags, $text) = @_;
+	my ($tags, $text, $inUse) = @_;
+	defined($inUse) or $inUse = {};
 	my @lines = split/\n/, $text;
 	my $n = scalar(@lines);
 	my $result = "";
@@ -291,7 +292,10 @@ sub unWrap
 			(ref($ptr) eq "HASH") or die "$0: FATAL: Tag $existingTag not hash ref but ".ref($ptr)."\n";
 			$content = $ptr->{"content"};
 			defined($content) or die "$0: FATAL: No content for $existingTag\n";
-			$content = unWrap($tags, $content);
+			die "$0: FATAL: Tag $existingTag refers to itself\n" if ($inUse->{"$existingTag"});
+			$inUse->{"$existingTag"} = 1;
+			$content = unWrap($tags, $content, $inUse);
+			delete $inUse->{"$existingTag"};
 		}
 
 		$content =~ s/^[ \t]*\\//; # (4)
-- 
2.43.0


From 7adc7dbdbb58ad9f894601485e64bf949a85c884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:59 +0000
Subject: [PATCH 108/125] fix: PsiTag removes escapes from an expanded tag once
 more for every level of expansion

---
 scripts/PsiTag.pm | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/PsiTag.pm b/scripts/PsiTag.pm
index 6293a34..c4fb711 100644
--- a/scripts/PsiTag.pm
+++ b/scripts/PsiTag.pm
@@ -296,11 +296,11 @@ sub unWrap
 			$inUse->{"$existingTag"} = 1;
 			$content = unWrap($tags, $content, $inUse);
 			delete $inUse->{"$existingTag"};
+		} else {
+			$content =~ s/^[ \t]*\\//; # (4)
+			$content =~ s/\\([ \t]*)$/$1/; # (5)
 		}
 
-		$content =~ s/^[ \t]*\\//; # (4)
-		$content =~ s/\\([ \t]*)$/$1/; # (5)
-
 		$result .= $content."\n";
 	}
 
-- 
2.43.0


From 44cb4ca2727e80d5a8c9b7a87683d8046c7d5463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:03 +0000
Subject: [PATCH 109/125] fix: naiztnerol.pl passes over a sample that is
 exactly at the middle height

---
 scripts/naiztnerol.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/naiztnerol.pl b/scripts/naiztnerol.pl
index 8fc7de9..bd15eef 100755
--- a/scripts/naiztnerol.pl
+++ b/scripts/naiztnerol.pl
@@ -55,7 +55,7 @@ sub findMidOmegaIndex
 	my $prevVal = 0;
 	for (my $i = $start; $i < $n; ++$i) {
 		my $val = $data->[$i]->[1];
-		if ($prevVal > $midVal and $val < $midVal) {
+		if ($prevVal > $midVal and $val <= $midVal) {
 			return $i;
 		}
 
-- 
2.43.0


From 1a665e19a0d3cbfb7e4848ad9190efe785ec4c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:57 +0000
Subject: [PATCH 110/125] fix: ChebyshevSerializer::plot reads a sixth kernel
 value that may not exist

---
 src/ChebyshevSerializer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ChebyshevSerializer.h b/src/ChebyshevSerializer.h
index 6e19cb4..838b222 100644
--- a/src/ChebyshevSerializer.h
+++ b/src/ChebyshevSerializer.h
@@ -145,7 +145,8 @@ public:
 		if (result.size() == 0)
 			result.resize(n);
 		RealType offset = params_.Eg;
-		std::cerr << "gn[0]=" << gn[0] << " gn[5]=" << gn[5] << "\n";
+		if (gn.size() > 5)
+			std::cerr << "gn[0]=" << gn[0] << " gn[5]=" << gn[5] << "\n";
 		for (RealType omega = params.omega1; omega < params.omega2;
 		     omega += params.deltaOmega) {
 			RealType x = (omega + offset - params_.b) * params_.oneOverA;
-- 
2.43.0


From 9eb84b10c4e37a5b5df9dca9ff1ae8ef733c9452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:09 +0000
Subject: [PATCH 111/125] fix: LanczosCore stops at the minimum of steps
 because an earlier step met the tolerance by accident

---
 src/LanczosCore.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LanczosCore.h b/src/LanczosCore.h
index 6fa7b4f..423ce5d 100644
--- a/src/LanczosCore.h
+++ b/src/LanczosCore.h
@@ -238,8 +238,8 @@ public:
 					deltaMax = delta;
 			}
 
-			if (deltaMax < params_.tolerance)
-				exitFlag = true;
+			// an earlier step may have met the tolerance by accident
+			exitFlag = (deltaMax < params_.tolerance);
 			if (j == max_nstep - 1)
 				exitFlag = true;
 			if (exitFlag && mat_.rows() <= 4)
-- 
2.43.0


From 9ac7d1a8f2e88d59efbc2ddd39abad9f7b95b319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:46 +0000
Subject: [PATCH 112/125] fix: a Chebyshev plot narrower than its step wrote
 past an empty result

---
 src/ChebyshevSerializer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ChebyshevSerializer.h b/src/ChebyshevSerializer.h
index 838b222..2bfd22b 100644
--- a/src/ChebyshevSerializer.h
+++ b/src/ChebyshevSerializer.h
@@ -144,6 +144,8 @@ public:
 		SizeType n = SizeType((params.omega2 - params.omega1) / params.deltaOmega);
 		if (result.size() == 0)
 			result.resize(n);
+		if (result.size() == 0)
+			return;
 		RealType offset = params_.Eg;
 		if (gn.size() > 5)
 			std::cerr << "gn[0]=" << gn[0] << " gn[5]=" << gn[5] << "\n";
-- 
2.43.0


From 6a3bc63272c98b30d88e31c146c784e3f3f12ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:37 +0000
Subject: [PATCH 113/125] fix: a complex number without its closing
 parenthesis, or with more after it, was read from an input

---
 src/InputNg.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/InputNg.h b/src/InputNg.h
index 4896928..ed90aa8 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -1009,11 +1009,15 @@ public:
 			start++;
 			buffer = "";
 			for (SizeType i = start; i < s.length(); ++i) {
+				start = i;
 				if (s[i] == ')')
 					break;
 				buffer += s[i];
 			}
 
+			if (start + 1 != s.length() || s[start] != ')')
+				throw RuntimeError(s + " is not a complex number\n");
+
 			RealType img = stringToReal(buffer);
 
 			return ComplexOrRealType(r, img);
-- 
2.43.0


From 1a25a887333d6b8e66591ad416b3e21cf486423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:57 +0000
Subject: [PATCH 114/125] fix: a repeated entry of a map in an input was
 delivered under a key that is not in the input

---
 src/InputNg.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index ed90aa8..386a223 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -919,7 +919,8 @@ public:
 				}
 				String mystr2 = mystr;
 				mystr2.erase(0, label2.length() + 1);
-				mystr2.erase(mystr2.length() - 1, 1);
+				// a repeated entry has a suffix after the bracket
+				mystr2.erase(mystr2.rfind(']'));
 				val[mystr2] = atof(it->second.c_str());
 			}
 		}
-- 
2.43.0


From f6252927651d8e147eb718fa782ffe8b2ea77e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:01 +0000
Subject: [PATCH 115/125] fix: a negative number in typed input was read as a
 huge size

---
 src/Ainur/AinurComplex.hh | 12 ++++++++++--
 src/Ainur/AinurConvert.hh |  6 +++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/Ainur/AinurComplex.hh b/src/Ainur/AinurComplex.hh
index 12206b1..7a72772 100644
--- a/src/Ainur/AinurComplex.hh
+++ b/src/Ainur/AinurComplex.hh
@@ -10,12 +10,12 @@ struct AinurComplex {
 
 	static void convert(long unsigned int& t, std::string str)
 	{
-		t = PsimagLite::atoi(str);
+		t = nonNegative(str);
 	}
 
 	static void convert(unsigned int& t, std::string str)
 	{
-		t = PsimagLite::atoi(str);
+		t = nonNegative(str);
 	}
 
 	static void convert(long int& t, std::string str)
@@ -55,6 +55,14 @@ struct AinurComplex {
 
 private:
 
+	static int nonNegative(std::string str)
+	{
+		const int x = PsimagLite::atoi(str);
+		if (x < 0)
+			throw RuntimeError("Negative number " + str + " where none is allowed\n");
+		return x;
+	}
+
 	template <typename RealType>
 	static std::complex<RealType> toComplex(std::string str)
 	{
diff --git a/src/Ainur/AinurConvert.hh b/src/Ainur/AinurConvert.hh
index c4792f2..a95d322 100644
--- a/src/Ainur/AinurConvert.hh
+++ b/src/Ainur/AinurConvert.hh
@@ -3,6 +3,7 @@
 #include "../Matrix.h"
 #include "../PsimagLite.h"
 #include "AinurMacros.hh"
+#include <limits>
 
 namespace PsimagLite {
 
@@ -77,7 +78,10 @@ public:
 		String label = ainurMacros_.valueFromFunction(ainurVariable.value);
 
 		try {
-			t = PsimagLite::atoi(label.c_str());
+			const int x = PsimagLite::atoi(label.c_str());
+			if (x < 0 && !std::numeric_limits<T>::is_signed)
+				throw RuntimeError("Negative number\n");
+			t = x;
 		}
 		catch (...) {
 			err("FATAL: AinurState: Label " + label + " must be an integer\n");
-- 
2.43.0


From a9f82d1f1efd5638a62a61499c7d201953a9b2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:22 +0000
Subject: [PATCH 116/125] fix: negative numbers were read as sizes and
 fractions as integers of a vector from an input

---
 src/InputNg.h | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index 386a223..a98b9c6 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -89,9 +89,11 @@ DISCLOSED WOULD NOT INFRINGE PRIVATELY OWNED RIGHTS.
 #include "loki/TypeTraits.h"
 #include <algorithm>
 #include <cassert>
+#include <cmath>
 #include <cstdlib>
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <stdexcept>
 
 namespace PsimagLite {
@@ -743,7 +745,7 @@ public:
 			if (it == mapStrStr_.end())
 				throwWithMessage(label, label2);
 
-			val = atoi(it->second.c_str());
+			val = stringToSize(it->second);
 
 			cleanLabelsIfNeeded(label2, mapStrStr_, it);
 		}
@@ -783,7 +785,7 @@ public:
 			if (it == mapStrStr_.end())
 				throwWithMessage(label, label2);
 
-			val = atoi(it->second.c_str());
+			val = stringToSize(it->second);
 
 			cleanLabelsIfNeeded(label2, mapStrStr_, it);
 		}
@@ -1030,9 +1032,14 @@ public:
 		    typename Real<ComplexOrRealType>::Type>::Type
 		stringToComplexOrReal(const String& s) const
 		{
-			return static_cast<
-			    typename Real<ComplexOrRealType>::Type>(
-			    stringToReal(s));
+			typedef typename Real<ComplexOrRealType>::Type NumberType;
+			const double x = stringToReal(s);
+			// integers hold neither fractions nor what is out of their range
+			if (std::numeric_limits<NumberType>::is_integer
+			    && (x != std::floor(x) || x < std::numeric_limits<NumberType>::min()
+			        || x >= std::ldexp(1.0, std::numeric_limits<NumberType>::digits)))
+				throw RuntimeError(s + " is not an integer of the kind expected\n");
+			return static_cast<NumberType>(x);
 		}
 
 		template <typename ComplexOrRealType>
@@ -1043,6 +1050,14 @@ public:
 			return s;
 		}
 
+		static SizeType stringToSize(const String& s)
+		{
+			const int x = atoi(s);
+			if (x < 0)
+				throw RuntimeError("Negative number " + s + " where none is allowed\n");
+			return x;
+		}
+
 		double stringToReal(const String& s) const
 		{
 			for (SizeType i = 0; i < s.length(); ++i) {
-- 
2.43.0


From 5d0d6c3a0fadffa264b15c103574c06fe6631cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:48 +0000
Subject: [PATCH 117/125] fix: parallel loops joined threads that could not be
 created, and lost their tasks

---
 src/Parallelizer2Pthread.h | 18 ++++++++++++++++--
 src/Pthreads.h             | 18 ++++++++++++++++--
 src/PthreadsNg.h           | 18 ++++++++++++++++--
 3 files changed, 48 insertions(+), 6 deletions(-)

diff --git a/src/Parallelizer2Pthread.h b/src/Parallelizer2Pthread.h
index 4546349..78ea169 100644
--- a/src/Parallelizer2Pthread.h
+++ b/src/Parallelizer2Pthread.h
@@ -125,6 +125,8 @@ public:
 		pthread_t* thread_id = new pthread_t[nthreads_];
 		pthread_attr_t** attr = new pthread_attr_t*[nthreads_];
 
+		SizeType created = 0;
+		int createError = 0;
 		for (SizeType j = 0; j < nthreads_; ++j) {
 			pfs[j].pfh = &lambda;
 			pfs[j].loadBalancer = &loadBalancer;
@@ -160,11 +162,19 @@ public:
 			ret = pthread_create(
 			    &thread_id[j], attr[j], thread_function_wrapper2<SomeLambdaType, LoadBalancerType>, &pfs[j]);
 			checkForError(ret);
+			if (ret != 0) {
+				createError = ret;
+				pthread_attr_destroy(attr[j]);
+				delete attr[j];
+				break;
+			}
+
+			++created;
 		}
 
-		for (SizeType j = 0; j < nthreads_; ++j)
+		for (SizeType j = 0; j < created; ++j)
 			pthread_join(thread_id[j], 0);
-		for (SizeType j = 0; j < nthreads_; ++j) {
+		for (SizeType j = 0; j < created; ++j) {
 			int ret = pthread_attr_destroy(attr[j]);
 			checkForError(ret);
 			delete attr[j];
@@ -174,6 +184,10 @@ public:
 		delete[] attr;
 		delete[] thread_id;
 		delete[] pfs;
+
+		// the tasks of the threads that could not be created were not done
+		if (createError != 0)
+			throw RuntimeError("Parallelizer2: Could not create thread: " + String(strerror(createError)) + "\n");
 	}
 
 private:
diff --git a/src/Pthreads.h b/src/Pthreads.h
index ab836e7..11ec963 100644
--- a/src/Pthreads.h
+++ b/src/Pthreads.h
@@ -160,6 +160,8 @@ public:
 		pthread_t* thread_id = new pthread_t[nthreads_];
 		pthread_attr_t** attr = new pthread_attr_t*[nthreads_];
 
+		SizeType created = 0;
+		int createError = 0;
 		for (SizeType j = 0; j < nthreads_; j++) {
 			pfs[j].threadNum = j;
 			pfs[j].pfh = &pfh;
@@ -178,11 +180,19 @@ public:
 			ret = pthread_create(
 			    &thread_id[j], attr[j], thread_function_wrapper<PthreadFunctionHolderType>, &pfs[j]);
 			checkForError(ret);
+			if (ret != 0) {
+				createError = ret;
+				pthread_attr_destroy(attr[j]);
+				delete attr[j];
+				break;
+			}
+
+			++created;
 		}
 
-		for (SizeType j = 0; j < nthreads_; ++j)
+		for (SizeType j = 0; j < created; ++j)
 			pthread_join(thread_id[j], 0);
-		for (SizeType j = 0; j < nthreads_; ++j) {
+		for (SizeType j = 0; j < created; ++j) {
 			int ret = pthread_attr_destroy(attr[j]);
 			checkForError(ret);
 			delete attr[j];
@@ -204,6 +214,10 @@ public:
 		pthread_mutex_destroy(&mutex_);
 		delete[] thread_id;
 		delete[] pfs;
+
+		// the tasks of the threads that could not be created were not done
+		if (createError != 0)
+			throw RuntimeError("Pthreads: Could not create thread: " + String(strerror(createError)) + "\n");
 	}
 
 	String name() const { return "pthreads"; }
diff --git a/src/PthreadsNg.h b/src/PthreadsNg.h
index 35c6344..47c254e 100644
--- a/src/PthreadsNg.h
+++ b/src/PthreadsNg.h
@@ -229,6 +229,8 @@ public:
 		}
 #endif
 
+		SizeType created = 0;
+		int createError = 0;
 		for (SizeType j = 0; j < actualThreads; j++) {
 			pfs[j].pfh = &pfh;
 			pfs[j].loadBalancer = &loadBalancer;
@@ -268,11 +270,19 @@ public:
 			ret = pthread_create(
 			    &thread_id[j], attr[j], thread_function_wrapper<PthreadFunctionHolderType, LoadBalancerType>, &pfs[j]);
 			checkForError(ret);
+			if (ret != 0) {
+				createError = ret;
+				pthread_attr_destroy(attr[j]);
+				delete attr[j];
+				break;
+			}
+
+			++created;
 		}
 
-		for (SizeType j = 0; j < actualThreads; ++j)
+		for (SizeType j = 0; j < created; ++j)
 			pthread_join(thread_id[j], 0);
-		for (SizeType j = 0; j < actualThreads; ++j) {
+		for (SizeType j = 0; j < created; ++j) {
 			int ret = pthread_attr_destroy(attr[j]);
 			checkForError(ret);
 			delete attr[j];
@@ -282,6 +292,10 @@ public:
 		delete[] attr;
 		delete[] thread_id;
 		delete[] pfs;
+
+		// the tasks of the threads that could not be created were not done
+		if (createError != 0)
+			throw RuntimeError("PthreadsNg: Could not create thread: " + String(strerror(createError)) + "\n");
 	}
 
 	String name() const { return "PthreadsNg"; }
-- 
2.43.0


From 143eb603255cb28975847ee5cd1bf9a39539faae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:53 +0000
Subject: [PATCH 118/125] fix: doc.pl ignored the directories given for reading
 and for writing

---
 scripts/doc.pl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/doc.pl b/scripts/doc.pl
index 64f874b..f5884ff 100755
--- a/scripts/doc.pl
+++ b/scripts/doc.pl
@@ -56,7 +56,8 @@ sub loadFiles
 	while (<FILE>) {
 	    if (/\\ptexReadFile\{([^\}]+)\}/) {
 		        my $file = $1;
-			if ($doc_root != "") {
+			my $label = getLabelForFile($file);
+			if (defined($doc_root) and $doc_root ne "") {
 			    $file = $doc_root . "/" . $file;
 			}
 			my $ret = open(FILE2, "<", $file);
@@ -87,7 +88,6 @@ sub loadFiles
 
 			close(FILE2);
 
-			my $label = getLabelForFile($file);
 			my @temp = ($buffer);
 			$labels{"$label"} = \@temp;
 			next;
@@ -334,7 +334,7 @@ sub replaceLabels
 {
 	my ($file, $a) = @_;
 	my $fout = $file;
-	if ($out_dir != "") {
+	if (defined($out_dir) and $out_dir ne "") {
 	    $fout =~ s/.*\///; #chop the beginning of the path
 	    $fout =  $out_dir . "/" . $fout;
 	}
-- 
2.43.0


From 2ccf9fb6ed844fef038804274b089953899a4901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:53 +0000
Subject: [PATCH 119/125] fix: doc.pl converted only the first bold text of a
 markdown line

---
 scripts/doc.pl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/doc.pl b/scripts/doc.pl
index f5884ff..1450274 100755
--- a/scripts/doc.pl
+++ b/scripts/doc.pl
@@ -74,8 +74,8 @@ sub loadFiles
 					s/^## +(.*)/\\section\{$1\}/;
 					s/^### +(.*)\n$/\\subsection\{$1\}/;
 					s/\\\@/\@/g;
-					s/<b>/\{\\bf /;
-					s/<\/b>/\}/;
+					s/<b>/\{\\bf /g;
+					s/<\/b>/\}/g;
 
 					s/<pre>/\\begin\{verbatim\}\n/;
 					s/<\/pre>/\\end\{verbatim\}\n/;
-- 
2.43.0


From c2a76a5c81ced57da5a945a16e782edc14381bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:20 +0000
Subject: [PATCH 120/125] fix: doc.pl replaced a code block by the text up to
 the next comment, or lost it

---
 scripts/doc.pl | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scripts/doc.pl b/scripts/doc.pl
index 1450274..02f8796 100755
--- a/scripts/doc.pl
+++ b/scripts/doc.pl
@@ -176,6 +176,12 @@ sub loadLabels
 			$labels{"$label"} = [$codeBuffer];
 			$codeBuffer = "";
 			$inCodeBlock = 0;
+			$label = "!DISABLED"; # what comes next isn't part of it
+			next;
+		}
+
+		if ($inCodeBlock) {
+			$codeBuffer .= $_."\n";
 			next;
 		}
 
@@ -209,9 +215,6 @@ sub loadLabels
 			$label = "!DISABLED";
 			$modifyLater = 1;
 			$additional = "";
-		} elsif ($inCodeBlock) {
-			$codeBuffer .= $_."\n";
-			next;
 		}
 
 		if (/^[ \t]*PSIDOC_CONTINUE *$/) {
-- 
2.43.0


From c3789d1ed007a847e29b09fc31f1894e31517a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:26 +0000
Subject: [PATCH 121/125] fix: doc.pl never ended for documentation that copies
 itself

---
 scripts/doc.pl | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/scripts/doc.pl b/scripts/doc.pl
index 02f8796..812a852 100755
--- a/scripts/doc.pl
+++ b/scripts/doc.pl
@@ -387,29 +387,24 @@ sub recursiveExpand
 	my ($a) = @_;
 	my %labels = %$a;
 
-	my $recurse = 0;
 	foreach my $key (keys %labels) {
 		my $ptr = $labels{"$key"};
 		defined($ptr) or die "$0: Label $key has error\n";
 		scalar(@$ptr) > 0 or die "$0: Label $key has error\n";
 		my $txt = $ptr->[0];
 		next unless ($txt=~/PSIDOCCOPY/);
-		my $txt2 = expandIfNeeded($txt,$a);
-		$recurse = 1 if ($txt2=~/PSIDOCCOPY/);
+		my $txt2 = expandIfNeeded($txt,$a,$key);
 		my @buffer = ($txt2);
 		$ptr = \@buffer;
 		$labels{"$key"}=$ptr;
 	}
 
 	%$a = %labels;
-
-	recursiveExpand($a) if ($recurse);
 }
 
 sub expandIfNeeded
 {
-	my ($txt,$a) = @_;
-	my %labels = %$a;
+	my ($txt,$a,@parents) = @_; # the parents are being expanded
 	my @temp = split/\n/,$txt;
 
 	my $n = scalar(@temp);
@@ -425,6 +420,11 @@ sub expandIfNeeded
 				$txt = labelNotFound($label);
 			}
 
+			if (grep {$_ eq $label} @parents) {
+				die "$0: ERROR: Label $label copies itself\n";
+			}
+
+			$txt = expandIfNeeded($txt,$a,@parents,$label) if ($txt=~/PSIDOCCOPY/);
 			$buffer .= $txt;
 			next;
 		}
-- 
2.43.0


From 4123e0be7ae9a046e0df10f23bcd5aa42a746567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:47 +0000
Subject: [PATCH 122/125] fix: psimagdoc.pl pasted the documentation of the
 class for members that do not exist

---
 PsimagDoc/psimagdoc.pl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PsimagDoc/psimagdoc.pl b/PsimagDoc/psimagdoc.pl
index 55ea738..48a122a 100644
--- a/PsimagDoc/psimagdoc.pl
+++ b/PsimagDoc/psimagdoc.pl
@@ -36,7 +36,9 @@ while(<STDIN>) {
 				$kind="function";
 			}
 			
-			findKind($foundHash,$nameOfKind,\$foundHash,$kind);
+			my $owner = $foundHash;
+			$foundHash = \$x;
+			findKind($owner,$nameOfKind,\$foundHash,$kind);
 			(UNIVERSAL::isa( $foundHash, "HASH" ))
 				or die "$0: Not found function $x\n";
 
-- 
2.43.0


From 2113b4717909c4d5a5628a6b66d4a5dd35f04907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:38 +0000
Subject: [PATCH 123/125] fix: psimagdoc.pl replaced only the first paste of a
 line

---
 PsimagDoc/psimagdoc.pl | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/PsimagDoc/psimagdoc.pl b/PsimagDoc/psimagdoc.pl
index 48a122a..be94c18 100644
--- a/PsimagDoc/psimagdoc.pl
+++ b/PsimagDoc/psimagdoc.pl
@@ -17,7 +17,8 @@ my $verbose = 0;
 while(<STDIN>) {
 	next if (/\\newcommand\{\\ptex/);
 
-	if (/\\ptexPaste\{([^\}]+)\}/) {
+	my $done = "";
+	while (/\\ptexPaste\{([^\}]+)\}/) {
 		my $x = $1;
 		my @temp=split/,/,$x;
 		die "$0: Syntax error for \\ptexPaste line $.\n" if ($#temp<0);
@@ -47,8 +48,10 @@ while(<STDIN>) {
 		$x = $temp[0];
 		my $substitution = getDetailed($foundHash);
 		$substitution =~ s/!PTEX_THISCLASS/$x/g;
-		s/\\ptexPaste\{([^\}]+)\}/$substitution/;
+		s/^(.*?)\\ptexPaste\{[^\}]+\}//s;
+		$done .= $1.$substitution;
 	}
+	$_ = $done.$_;
 	if (/\\ptexReadFile\{([^\}]+)\}/) {
 		print STDERR "Reading $1\n" if ($verbose);
 		readFile($1);
-- 
2.43.0


From 1ded168e069c37921c30f55abeb7dd6b918883b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:11 +0000
Subject: [PATCH 124/125] fix: rectangular matrices were taken for the
 identity, or read out of bounds

---
 src/Matrix.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Matrix.h b/src/Matrix.h
index 6550218..d84ec17 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -851,6 +851,8 @@ bool isAntiHermitian(const Matrix<T>& A, bool verbose = false)
 template <typename T>
 bool isTheIdentity(Matrix<T> const& a)
 {
+	if (a.rows() != a.cols())
+		return false;
 
 	for (SizeType i = 0; i < a.rows(); i++) {
 		for (SizeType j = 0; j < a.cols(); j++) {
-- 
2.43.0


From 140c14b33c071efff50515105ece8e306e79182d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:18 +0000
Subject: [PATCH 125/125] fix: a second decomposition by the same eigensolver
 was limited to the steps of the first

---
 src/LanczosCore.h    | 1 +
 src/LanczosVectors.h | 6 +++---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/LanczosCore.h b/src/LanczosCore.h
index 423ce5d..8e83ccc 100644
--- a/src/LanczosCore.h
+++ b/src/LanczosCore.h
@@ -149,6 +149,7 @@ public:
 	                   SizeType excitedForStop)
 	{
 		SizeType& max_nstep = steps_;
+		max_nstep = params_.steps; // and not those of an earlier call
 		SizeType matsize = mat_.rows();
 
 		if (initVector.size() != matsize) {
diff --git a/src/LanczosVectors.h b/src/LanczosVectors.h
index 9cb4631..d75da85 100644
--- a/src/LanczosVectors.h
+++ b/src/LanczosVectors.h
@@ -287,9 +287,9 @@ private:
 			return;
 
 		if (data_) {
-			if (rows != data_->rows() || cols != data_->cols())
-				throw RuntimeError("LanczosVectors: data has "
-				                   "already been set!\n");
+			// of an earlier decomposition
+			data_->clear();
+			data_->resize(rows, cols);
 			return;
 		}
 
-- 
2.43.0

