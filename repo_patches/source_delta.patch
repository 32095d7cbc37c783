From 5660a4543c02dcf377a4d46c72e46d45119aa392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:41 +0000
Subject: [PATCH 01/29] fix: pass Async_Level_ILU0's options to the base class
 in the right order

threadedfactor was taken for compute_preconditioner_info, so that a sequential
factorization could not be requested.
---
 src/solverops_levels_ilu0.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solverops_levels_ilu0.cpp b/src/solverops_levels_ilu0.cpp
index 1d43d6a..b4e5e3e 100644
--- a/src/solverops_levels_ilu0.cpp
+++ b/src/solverops_levels_ilu0.cpp
@@ -127,7 +127,8 @@ Async_Level_ILU0<scalar,index>
                    const FactInit fact_inittype, const bool threadedfactor,
                    const bool compute_remainder)
 	: AsyncILU0_SRPreconditioner<scalar,index>(std::move(matrix), nbuildsweeps,1,use_scaling,thread_chunk_size,
-	                                           fact_inittype, INIT_A_NONE, threadedfactor, true)
+	                                           fact_inittype, INIT_A_NONE, compute_remainder,
+	                                           threadedfactor, true)
 { }
 
 template <typename scalar, typename index>
-- 
2.43.0


From 2e0df461f23f3ec007da996dac1c0fa46d483288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:58 +0000
Subject: [PATCH 02/29] fix: pass ReorderedAsyncILU0's threading options to the
 base class in the right order

threadedfactor was taken for compute_preconditioner_info and threadedapply for
threadedfactor.
---
 src/solverops_ilu0.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solverops_ilu0.cpp b/src/solverops_ilu0.cpp
index 432de49..bcf6f55 100644
--- a/src/solverops_ilu0.cpp
+++ b/src/solverops_ilu0.cpp
@@ -403,7 +403,7 @@ ReorderedAsyncILU0_SRPreconditioner<scalar,index>
                                       const FactInit finit, const ApplyInit ainit,
                                       const bool threadedfactor, const bool threadedapply)
 	: AsyncILU0_SRPreconditioner<scalar,index>(std::move(matrix),nbuildsweeps,napplysweeps,true, tcs,
-	                                           finit, ainit, threadedfactor,threadedapply),
+	                                           finit, ainit, false, threadedfactor,threadedapply),
 	  reord{reorderscale}
 { }
 
-- 
2.43.0


From 9422368461a0e397f52a7c4921b940031eaf2228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 03/29] fix: sort the blocks of each block-row by column in the
 coordinate to block-CSR conversion

---
 src/coomatrix.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index 4f6916b..7bf3e17 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -360,6 +360,15 @@ SRMatrixStorage<scalar,index> COOMatrix<scalar,index>::convertToBSR() const
 		if(bmat.browptr[i] == 0)
 			bmat.browptr[i] = bmat.browptr[i+1];
 
+	// different scalar rows of a block-row mention its blocks in different orders
+	for(index i = 0; i < bmat.nbrows; i++)
+	{
+		std::sort(bcolidxs.begin()+bmat.browptr[i], bcolidxs.begin()+bmat.browptr[i+1]);
+		for(index j = bmat.browptr[i]; j < bmat.browptr[i+1]; j++)
+			if(bcolidxs[j] == i)
+				bmat.diagind[i] = j;
+	}
+
 	bmat.bcolind.resize(bnnz);
 	bmat.vals.resize(bnnz*bs*bs);
 
-- 
2.43.0


From 03ba0c1e0b0a2da9fca9d3bbb401aeb9fcf0a584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 04/29] fix: mark rows without a diagonal entry in the
 coordinate to CSR conversion

---
 src/coomatrix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index 7bf3e17..a4a7211 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -278,6 +278,7 @@ SRMatrixStorage<scalar,index> COOMatrix<scalar,index>::convertToCSR() const
 
 	for(index i=0; i < nrows; i++)
 	{
+		cmat.diagind[i] = -1;
 		for(index j = rowptr[i]; j < rowptr[i+1]; j++)
 		{
 			if(entries[j].colind == entries[j].rowind)
-- 
2.43.0


From d9d68b28feece643960fcfc7477e76afe60f717e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 05/29] fix: recognise the Matrix Market names of pattern and
 skew-symmetric matrices

---
 src/coomatrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index a4a7211..c21c68a 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -61,7 +61,7 @@ MMDescription getMMDescription(std::ifstream& fin)
 		descr.scalartype = COMPLEX;
 	else if(typeofmatrix[3] == "integer")
 		descr.scalartype = INTEGER;
-	else if(typeofmatrix[3] == "patter")
+	else if(typeofmatrix[3] == "pattern")
 		descr.scalartype = PATTERN;
 	else {
 		std::cout << "! Invalid scalar type!\n";
@@ -72,7 +72,7 @@ MMDescription getMMDescription(std::ifstream& fin)
 		descr.matrixtype = GENERAL;
 	else if(typeofmatrix[4] == "symmetric")
 		descr.matrixtype = SYMMETRIC;
-	else if(typeofmatrix[4] == "skewsymmetric")
+	else if(typeofmatrix[4] == "skew-symmetric")
 		descr.matrixtype = SKEWSYMMETRIC;
 	else if(typeofmatrix[4] == "hermitian")
 		descr.matrixtype = HERMITIAN;
-- 
2.43.0


From 715e550b515ab5693785944b9e73acf485ca865f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 06/29] fix: refuse complex coordinate files instead of reading
 their imaginary parts as indices

---
 src/coomatrix.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index c21c68a..351022c 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -202,6 +202,9 @@ void COOMatrix<scalar,index>::readMatrixMarket(const std::string file)
 	if(descr.scalartype == PATTERN) {
 		throw MatrixReadException("! COOMatrix: readMatrixMarket: Cannot read pattern matrices.");
 	}
+	if(descr.scalartype == COMPLEX) {
+		throw MatrixReadException("! COOMatrix: readMatrixMarket: Cannot read complex matrices.");
+	}
 	if(descr.matrixtype != GENERAL) {
 		throw MatrixReadException("! COOMatrix: readMatrixMarket: Can only read general matrices.");
 	}
-- 
2.43.0


From 5eb5e74264b60509820d8e00bb4cc7e278a53d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 07/29] fix: refuse truncated Matrix Market files and entries
 outside the matrix

---
 src/coomatrix.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index 351022c..0e99026 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -157,7 +157,8 @@ device_vector<scalar> readDenseMatrixMarket(const std::string file)
 
 	device_vector<scalar> vals(sizes[0]*sizes[1]);
 	for(int i = 0; i < sizes[0]*sizes[1]; i++)
-		fin >> vals[i];
+		if(!(fin >> vals[i]))
+			throw MatrixReadException("! readDenseMatrixMarket: Could not read all values.");
 
 	fin.close();
 	return vals;
@@ -219,7 +220,10 @@ void COOMatrix<scalar,index>::readMatrixMarket(const std::string file)
 	// read the entries
 	for(index i = 0; i < nnz; i++) {
 		index ri, ci;
-		fin >> ri >> ci >> entries[i].value;
+		if(!(fin >> ri >> ci >> entries[i].value))
+			throw MatrixReadException("! COOMatrix: readMatrixMarket: Could not read all entries.");
+		if(ri < 1 || ri > nrows || ci < 1 || ci > ncols)
+			throw MatrixReadException("! COOMatrix: readMatrixMarket: Entry outside the matrix.");
  		entries[i].rowind = ri-1;
 		entries[i].colind = ci-1;
 	}
-- 
2.43.0


From 38310946db74f65fb69798d2681a42f18fa908ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 08/29] fix: refuse complex and pattern dense files

---
 src/coomatrix.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index 0e99026..61ebdc7 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -149,6 +149,11 @@ device_vector<scalar> readDenseMatrixMarket(const std::string file)
 		throw "Matrix should be stored as dense!";
 	}
 
+	if(descr.scalartype != REAL && descr.scalartype != INTEGER) {
+		fin.close();
+		throw MatrixReadException("! readDenseMatrixMarket: Can only read real or integer matrices.");
+	}
+
 	const std::vector<int> sizes = getSizeFromMatrixMarket<int>(fin,descr);
 	if(sizes.size() < 2) {
 		fin.close();
-- 
2.43.0


From fe84768bce9e34d09c51a02bd21f54452121e5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 09/29] fix: set the size of a block matrix constructed from
 its structure

---
 src/blockmatrices.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index 61ae16e..6e8761e 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -176,6 +176,9 @@ BSRMatrix<scalar,index,bs>::BSRMatrix(const index n_brows,
 	: AbstractMatrix<scalar,index>(BSR)
 {
 	constexpr int bs2 = bs*bs;
+	mat.nbrows = n_brows;
+	mat.nbstored = brptrs[n_brows];
+	mat.nnzb = mat.nbstored;
 	mat.browptr.resize(mat.nbrows+1);
 	mat.bcolind.resize(brptrs[mat.nbrows]);
 	mat.diagind.resize(mat.nbrows);
-- 
2.43.0


From 57d0b123d74af55ba0171bb0689cbbbe758358f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 10/29] fix: take the number of entries of a wrapped CSR matrix
 from its last row pointer

---
 src/blockmatrices.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index 6e8761e..195bc50 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -497,7 +497,7 @@ BSRMatrix<scalar,index,1>::BSRMatrix(const index nrows, index *const brptrs,
 	: AbstractMatrix<scalar,index>(CSR)
 {
 	mat.nbrows = nrows;
-	mat.nnzb = brptrs[nrows+1];
+	mat.nnzb = brptrs[nrows];
 	mat.nbstored = mat.nnzb;
 	mat.browptr.wrap(brptrs, nrows+1);
 	mat.bcolind.wrap(bcinds, mat.nnzb);
-- 
2.43.0


From b230a27135e6c1cd8defe907443255a3388a14e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 11/29] fix: address the rows of a rectangular block by its
 number of columns in updateBlock

---
 src/blockmatrices.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index 195bc50..6b519cb 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -681,7 +681,7 @@ void BSRMatrix<scalar,index,1>::updateBlock(const index starti, const index star
 				std::cout << "!  BSRMatrix<1>: updateBlock: Invalid block!!\n";
 #endif
 #pragma omp atomic update
-			mat.vals[jj] += buffer[locrow*bsi+k];
+			mat.vals[jj] += buffer[locrow*bsj+k];
 			k++;
 		}
 	}
-- 
2.43.0


From a8b941f6a2fa3f660f25994b2617effe3d963bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 12/29] fix: initialise the number of stored blocks of an empty
 raw matrix

---
 include/srmatrixdefs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/srmatrixdefs.hpp b/include/srmatrixdefs.hpp
index c8d60f2..0037a12 100644
--- a/include/srmatrixdefs.hpp
+++ b/include/srmatrixdefs.hpp
@@ -146,7 +146,7 @@ struct RawBSRMatrix
 	/// Default constructor
 	RawBSRMatrix()
 		: browptr{nullptr}, bcolind{nullptr}, vals{nullptr}, diagind{nullptr}, browendptr{nullptr},
-		  nbrows{0}, nnzb{0}
+		  nbrows{0}, nnzb{0}, nbstored{0}
 	{ }
 
 	/// Set data pointers
-- 
2.43.0


From 2abcc031f764415f83141aecf70ae89f53f3e5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 13/29] fix: keep the last row pointer of a raw matrix handed
 over to a block matrix

---
 src/blockmatrices.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index 6b519cb..d56d12b 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -216,7 +216,7 @@ BSRMatrix<scalar,index,bs>::BSRMatrix(RawBSRMatrix<scalar,index>& rmat)
 	: AbstractMatrix<scalar,index>(BSR)
 {
 	// Make sure to pass aligned memory!
-	mat.browptr.take_control(rmat.browptr, rmat.nbrows);
+	mat.browptr.take_control(rmat.browptr, rmat.nbrows+1);
 	mat.bcolind.take_control(rmat.bcolind, rmat.nbstored);
 	mat.vals.take_control(rmat.vals, rmat.nbstored*bs*bs);
 	mat.nbrows = rmat.nbrows;
-- 
2.43.0


From 171c25c1f6c114535600a19c84c8fcc9f1931f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 14/29] fix: take ownership of the arrays of a raw CSR matrix
 that are transferred

---
 include/blockmatrices.hpp |  3 +++
 src/blockmatrices.ipp     | 12 +++++-------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/blockmatrices.hpp b/include/blockmatrices.hpp
index a201c5a..4fe6f51 100644
--- a/include/blockmatrices.hpp
+++ b/include/blockmatrices.hpp
@@ -337,6 +337,9 @@ public:
 	          index *const cinds, scalar *const values, index *const dinds);
 
 	/// Transfers the arrays of a raw CSR matrix to itself and nulls the raw matrix
+	/** Make sure that memory in rmat is allocated using Boost aligned_alloc, because it will be
+	 * freed under that assumption.
+	 */
 	BSRMatrix(RawBSRMatrix<scalar,index>& rmat);
 
 	/// Construct from a SRMatrixStorage
diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index d56d12b..dbf7a4b 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -508,18 +508,16 @@ BSRMatrix<scalar,index,1>::BSRMatrix(const index nrows, index *const brptrs,
 
 template <typename scalar, typename index>
 BSRMatrix<scalar,index,1>::BSRMatrix(RawBSRMatrix<scalar,index>& rmat)
-	: AbstractMatrix<scalar,index>(CSR),
-	  mat(rmat.browptr, rmat.bcolind, rmat.vals, rmat.diagind,
-	      rmat.nbrows>0 ? &rmat.browptr[1]:nullptr, rmat.nbrows, rmat.nnzb, rmat.nbstored, 1)
+	: AbstractMatrix<scalar,index>(CSR)
 {
 	assert(rmat.nnzb == rmat.nbstored);
 	mat.nbrows = rmat.nbrows;
 	mat.nnzb = rmat.nnzb;
 	mat.nbstored = rmat.nbstored;
-	mat.browptr.wrap(rmat.browptr, rmat.nbrows+1);
-	mat.bcolind.wrap(rmat.bcolind, mat.nbstored);
-	mat.vals.wrap(rmat.vals, mat.nbstored);
-	mat.diagind.wrap(rmat.diagind, mat.nbrows);
+	mat.browptr.take_control(rmat.browptr, rmat.nbrows+1);
+	mat.bcolind.take_control(rmat.bcolind, mat.nbstored);
+	mat.vals.take_control(rmat.vals, mat.nbstored);
+	mat.diagind.take_control(rmat.diagind, mat.nbrows);
 	mat.browendptr.wrap(&rmat.browptr[1], mat.nbrows);
 
 	rmat.nbrows=0;
-- 
2.43.0


From c7f2b62178612603ef1cb3ef404096ace8c805f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 15/29] fix: give access to the storage of a block matrix
 instead of reinterpreting it as raw pointers

---
 include/blockmatrices.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/blockmatrices.hpp b/include/blockmatrices.hpp
index 4fe6f51..5623187 100644
--- a/include/blockmatrices.hpp
+++ b/include/blockmatrices.hpp
@@ -208,8 +208,8 @@ public:
 	virtual ~BSRMatrix();
 
 	/// Allows immutable access to the underlying matrix storage
-	const CRawBSRMatrix<scalar,index> *getRawSRMatrix() const {
-		return reinterpret_cast<const CRawBSRMatrix<scalar,index>*>(&mat);
+	const SRMatrixStorage<scalar,index>& getRawSRMatrix() const {
+		return mat;
 	}
 
 	/// Set the storage structure of the matrix
-- 
2.43.0


From 71f0b7f29e4b10b1713f2dc4bdac48dee42ffec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:17 +0000
Subject: [PATCH 16/29] fix: end the rows of a matrix-vector product at the row
 ends, as triangular views need

---
 src/blas/matvecs.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/blas/matvecs.cpp b/src/blas/matvecs.cpp
index dac4fdb..4dc8bc2 100644
--- a/src/blas/matvecs.cpp
+++ b/src/blas/matvecs.cpp
@@ -38,7 +38,7 @@ void BLAS_BSR<mscalar,mindex,bs,stor>
 		y[irow] = Vector<scalar>::Zero(bs);
 
 		// loop over non-zero blocks of this block-row
-		for(index jj = mat.browptr[irow]; jj < mat.browptr[irow+1]; jj++)
+		for(index jj = mat.browptr[irow]; jj < mat.browendptr[irow]; jj++)
 		{
 			// multiply the blocks with corresponding sub-vectors
 			const index jcol = mat.bcolind[jj];
@@ -66,7 +66,7 @@ void BLAS_BSR<mscalar,mindex,bs,stor>
 		z[irow] = b * y[irow];
 
 		// loop over non-zero blocks of this block-row
-		for(index jj = mat.browptr[irow]; jj < mat.browptr[irow+1]; jj++)
+		for(index jj = mat.browptr[irow]; jj < mat.browendptr[irow]; jj++)
 		{
 			const index jcol = mat.bcolind[jj];
 			z[irow].noalias() += a * data[jj] * x[jcol];
@@ -83,7 +83,7 @@ void BLAS_CSR<mscalar,mindex>::matrix_apply(const SRMatrixStorage<mscalar,mindex
 	{
 		yy[irow] = 0;
 
-		for(index jj = mat.browptr[irow]; jj < mat.browptr[irow+1]; jj++)
+		for(index jj = mat.browptr[irow]; jj < mat.browendptr[irow]; jj++)
 		{
 			yy[irow] += mat.vals[jj] * xx[mat.bcolind[jj]];
 		}
@@ -100,7 +100,7 @@ void BLAS_CSR<mscalar,mindex>::gemv3(const SRMatrixStorage<mscalar,mindex>&& mat
 	{
 		zz[irow] = b * yy[irow];
 
-		for(index jj = mat.browptr[irow]; jj < mat.browptr[irow+1]; jj++)
+		for(index jj = mat.browptr[irow]; jj < mat.browendptr[irow]; jj++)
 		{
 			zz[irow] += a * mat.vals[jj] * xx[mat.bcolind[jj]];
 		}
-- 
2.43.0


From 536647c639ede0d116bff261a2fe59067316fa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 17/29] fix: keep prefix_sum inside the array when the threads'
 shares are uneven

---
 src/utils/prefix_sum.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/prefix_sum.cpp b/src/utils/prefix_sum.cpp
index e94dbc9..70ccbce 100644
--- a/src/utils/prefix_sum.cpp
+++ b/src/utils/prefix_sum.cpp
@@ -32,10 +32,10 @@ void prefix_sum(IndexType *const counts, const int num_entries)
 #pragma omp parallel
     {
         const int thread_id = omp_get_thread_num();
-        const IndexType startidx = thread_id * def_num_witems;
+        const IndexType startidx = std::min(num_entries, thread_id * def_num_witems);
         const IndexType endidx =
             std::min(num_entries, (thread_id + 1) * def_num_witems);
-        const IndexType startval = counts[startidx];
+        const IndexType startval = startidx < num_entries ? counts[startidx] : 0;
 
 #pragma omp barrier
 
@@ -45,7 +45,7 @@ void prefix_sum(IndexType *const counts, const int num_entries)
             counts[i] = partial_sum;
             partial_sum += nnz;
         }
-        if (thread_id != nthreads - 1) {
+        if (endidx < num_entries) {
             counts[endidx] = partial_sum;
         }
     }
-- 
2.43.0


From b0f9f402ad14e784fb534881e4088426867893db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 18/29] fix: combine the partial sums of all threads in
 prefix_sum

---
 src/utils/prefix_sum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/prefix_sum.cpp b/src/utils/prefix_sum.cpp
index 70ccbce..3773fcd 100644
--- a/src/utils/prefix_sum.cpp
+++ b/src/utils/prefix_sum.cpp
@@ -52,7 +52,7 @@ void prefix_sum(IndexType *const counts, const int num_entries)
 
     counts[0] = 0;
 
-    const auto levels = static_cast<int>(std::ceil(std::log(nthreads)));
+    const auto levels = static_cast<int>(std::ceil(std::log2(nthreads)));
     for (int ilvl = 0; ilvl < levels; ilvl++) {
         const IndexType factor = power(2, (ilvl + 1));
         const IndexType lvl_num_witems = factor * def_num_witems;
-- 
2.43.0


From 026d57631ed48391b749e13dbd31773cdc724655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 19/29] fix: do not read an entry another task updates in
 prefix_sum

---
 src/utils/prefix_sum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/prefix_sum.cpp b/src/utils/prefix_sum.cpp
index 3773fcd..a82c7a0 100644
--- a/src/utils/prefix_sum.cpp
+++ b/src/utils/prefix_sum.cpp
@@ -64,7 +64,7 @@ void prefix_sum(IndexType *const counts, const int num_entries)
                 num_entries, lvl_num_witems / 2 + itask * lvl_num_witems + 1);
             const IndexType endidx =
                 std::min(num_entries, (itask + 1) * lvl_num_witems + 1);
-            const IndexType baseval = counts[startidx - 1];
+            const IndexType baseval = startidx < endidx ? counts[startidx - 1] : 0;
             for (int i = startidx; i < endidx; i++) {
                 counts[i] += baseval;
             }
-- 
2.43.0


From 49c6a68a63afdecae46e2c5e88c611a9892e53f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 20/29] fix: start the maximum norm from zero

---
 src/blas/blas1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blas/blas1.cpp b/src/blas/blas1.cpp
index 2b283fa..3807d78 100644
--- a/src/blas/blas1.cpp
+++ b/src/blas/blas1.cpp
@@ -12,7 +12,7 @@ namespace blasted {
 template <typename scalar>
 scalar maxnorm(const device_vector<scalar>& vec)
 {
-	scalar smax = std::numeric_limits<scalar>::min();
+	scalar smax = 0;
 	const int N = static_cast<int>(vec.size());
 
 #pragma omp parallel for default(shared) reduction(max:smax)
-- 
2.43.0


From 9606634fe18ec47529e07b1535b734314319dbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 21/29] fix: update the diagonal positions of a reordered
 matrix

---
 src/reorderingscaling.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/reorderingscaling.cpp b/src/reorderingscaling.cpp
index 6bd8d90..ae1fb05 100644
--- a/src/reorderingscaling.cpp
+++ b/src/reorderingscaling.cpp
@@ -195,6 +195,14 @@ void Reordering<scalar,index,bs>::applyOrdering(RawBSRMatrix<scalar,index>& mat,
 			}
 		}
 	}
+
+	// find the diagonal blocks of the reordered matrix
+	for(index i = 0; i < mat.nbrows; i++)
+	{
+		mat.diagind[i] = -1;
+		internal::inner_search<index>(mat.bcolind, mat.browptr[i], mat.browptr[i+1], i,
+		                              &mat.diagind[i]);
+	}
 }
 
 /** This is most likely not the best way to do it. The vector is first copied into a local
-- 
2.43.0


From b0a74e31650cbdbccaf24e54bb1efc2c7c1c17bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 22/29] fix: map the solution of a reordered ILU solve back
 with the inverse column ordering

---
 src/solverops_ilu0.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solverops_ilu0.cpp b/src/solverops_ilu0.cpp
index bcf6f55..cf6dc36 100644
--- a/src/solverops_ilu0.cpp
+++ b/src/solverops_ilu0.cpp
@@ -462,8 +462,8 @@ void ReorderedAsyncILU0_SRPreconditioner<scalar,index>::apply(const scalar *cons
 		                  applyinittype, ra, za);
 	}
 
-	// reorder solution
-	reord->applyOrdering(za, FORWARD, COLUMN);
+	// map the solution of the reordered system back
+	reord->applyOrdering(za, INVERSE, COLUMN);
 }
 
 template <typename scalar, typename index>
-- 
2.43.0


From 26f691c62d27ab7f0d9b49e7ec49afc84bb9835d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 23/29] fix: zero initialization of the scalar ILU factors fell
 through to the original-matrix initialization

---
 src/async_ilu_factor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/async_ilu_factor.cpp b/src/async_ilu_factor.cpp
index e7b218f..ca7a3a7 100644
--- a/src/async_ilu_factor.cpp
+++ b/src/async_ilu_factor.cpp
@@ -49,6 +49,7 @@ PrecInfo scalar_ilu0_factorize(const CRawBSRMatrix<scalar,index> *const mat,
 #pragma omp parallel for simd default(shared)
 		for(index i = 0; i < mat->browptr[mat->nbrows]; i++)
 			iluvals[i] = 0;
+		break;
 	case INIT_F_ORIGINAL:
 		fact_init_original(mat, scale, iluvals);
 		break;
@@ -250,6 +251,7 @@ void scalar_ilu0_factorize_noscale(const CRawBSRMatrix<scalar,index> *const mat,
 #pragma omp parallel for simd default(shared)
 		for(index i = 0; i < mat->browptr[mat->nbrows]; i++)
 			iluvals[i] = 0;
+		break;
 	case INIT_F_ORIGINAL:
 #pragma omp parallel for simd default(shared)
 		for(index i = 0; i < mat->browptr[mat->nbrows]; i++)
-- 
2.43.0


From 74b86cc517759a3465c71fc72f9b4a8e52771a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 24/29] fix: the SGS initialization of the scaled ILU factors
 indexed the scaling vector by entry positions

---
 src/async_ilu_factor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/async_ilu_factor.cpp b/src/async_ilu_factor.cpp
index ca7a3a7..d9f94ed 100644
--- a/src/async_ilu_factor.cpp
+++ b/src/async_ilu_factor.cpp
@@ -119,8 +119,8 @@ static void fact_init_sgs(const CRawBSRMatrix<scalar,index> *const mat, const sc
 				iluvals[j] = scale[i]*mat->vals[j]*scale[mat->bcolind[j]];
 			for(index j = mat->browptr[i]; j < mat->diagind[i]; j++)
 				iluvals[j] *= 1.0/(mat->vals[mat->diagind[mat->bcolind[j]]]
-				                   * scale[mat->diagind[mat->bcolind[j]]]
-				                   * scale[mat->diagind[mat->bcolind[j]]]);
+				                   * scale[mat->bcolind[j]]
+				                   * scale[mat->bcolind[j]]);
 		}
 	else
 #pragma omp parallel for default (shared)
-- 
2.43.0


From 4d83476a9c51ae97b50c66115a00fdf4e495f9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:24 +0000
Subject: [PATCH 25/29] fix: the SAI gather asserted that every column of a
 local system is full, and compute_SAI was declared with a signature it does
 not have

---
 src/sai.cpp | 2 +-
 src/sai.hpp | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sai.cpp b/src/sai.cpp
index e427b7e..d48ffef 100644
--- a/src/sai.cpp
+++ b/src/sai.cpp
@@ -349,7 +349,7 @@ LMatrix<scalar> gather_lhs_matrix(const SRMatrixStorage<const scalar,const index
 		const index start = sp.bcolptr[sp.sairowptr[row]+jcol],
 			end = sp.bcolptr[sp.sairowptr[row]+jcol+1];
 
-		assert(end-start == sp.nEqns[row]);
+		assert(end-start <= sp.nEqns[row]);
 
 #pragma omp simd
 		for(index ii = start; ii < end; ii++)
diff --git a/src/sai.hpp b/src/sai.hpp
index 372bcd0..20467a3 100644
--- a/src/sai.hpp
+++ b/src/sai.hpp
@@ -61,8 +61,9 @@ LeftSAIPattern<index> left_incomplete_SAI_pattern(const SRMatrixStorage<const sc
  * \param[out] sai The approximate inverse matrix preallocated to the same size as the original matrix
  */
 template <typename scalar, typename index, int bs, StorageOptions stor>
-void compute_SAI(const CRawBSRMatrix<scalar,index>& mat, const LeftSAIPattern<index>& sp,
-                 const int thread_chunk_size, const bool fullsai, RawBSRMatrix<scalar,index>& sai);
+void compute_SAI(const SRMatrixStorage<const scalar,const index>& mat, const LeftSAIPattern<index>& sp,
+                 const int thread_chunk_size, const bool fullsai,
+                 SRMatrixStorage<scalar,index>& sai);
 
 }
 
-- 
2.43.0


From 194f11b094a658b64b7aa7fc2d7f40c38c982b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:30 +0000
Subject: [PATCH 26/29] fix: report unreadable, malformed and truncated matrix
 market files by exception

---
 src/coomatrix.cpp | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index 61ebdc7..ae2787a 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -51,8 +51,7 @@ MMDescription getMMDescription(std::ifstream& fin)
 		descr.storagetype = ARRAY;
 	}
 	else {
-		std::cout << "! Invalid storage type!\n";
-		std::abort();
+		throw MatrixReadException("! Invalid storage type!");
 	}
 
 	if(typeofmatrix[3] == "real")
@@ -64,8 +63,7 @@ MMDescription getMMDescription(std::ifstream& fin)
 	else if(typeofmatrix[3] == "pattern")
 		descr.scalartype = PATTERN;
 	else {
-		std::cout << "! Invalid scalar type!\n";
-		std::abort();
+		throw MatrixReadException("! Invalid scalar type!");
 	}
 
 	if(typeofmatrix[4] == "general")
@@ -77,8 +75,7 @@ MMDescription getMMDescription(std::ifstream& fin)
 	else if(typeofmatrix[4] == "hermitian")
 		descr.matrixtype = HERMITIAN;
 	else {
-		std::cout << "! Invalid matrix type!\n";
-		std::abort();
+		throw MatrixReadException("! Invalid matrix type!");
 	}
 
 	return descr;
@@ -91,7 +88,8 @@ std::vector<index> getSizeFromMatrixMarket(std::ifstream& fin, const MMDescripti
 	// read and discard lines until the first line that does not begin with '%'
 	std::string line = "%";
 	while(line[0] == '%')
-		std::getline(fin, line);
+		if(!std::getline(fin, line))
+			throw MatrixReadException("! getSizeFromMatrixMarket: No size information!");
 
 	// parse matrix size line
 	std::istringstream iss(line);
@@ -100,14 +98,12 @@ std::vector<index> getSizeFromMatrixMarket(std::ifstream& fin, const MMDescripti
 
 	if(descr.storagetype == COORDINATE) {
 		if(sizestr.size() < 3) {
-			std::cout << "! getSizeFromMatrixMarket: Not enough size information!\n";
-			std::abort();
+			throw MatrixReadException("! getSizeFromMatrixMarket: Not enough size information!");
 		}
 	}
 	else {
 		if(sizestr.size() < 2) {
-			std::cout << "! getSizeFromMatrixMarket: Not enough size information!\n";
-			std::abort();
+			throw MatrixReadException("! getSizeFromMatrixMarket: Not enough size information!");
 		}
 	}
 
@@ -118,12 +114,10 @@ std::vector<index> getSizeFromMatrixMarket(std::ifstream& fin, const MMDescripti
 			sizes[i] = std::stoi(sizestr[i]);
 		}
 		catch(const std::invalid_argument& e) {
-			std::cout << "! getSizeFromMatrixMarket: Invalid size!!\n";
-			std::abort();
+			throw MatrixReadException("! getSizeFromMatrixMarket: Invalid size!!");
 		}
 		catch(const std::out_of_range& e) {
-			std::cout << "! getSizeFromMatrixMarket: Size is too large for the type of index!!\n";
-			std::abort();
+			throw MatrixReadException("! getSizeFromMatrixMarket: Size is too large for the type of index!!");
 		}
 	}
 
@@ -135,8 +129,7 @@ device_vector<scalar> readDenseMatrixMarket(const std::string file)
 {
 	std::ifstream fin(file);
 	if(!fin) {
-		std::cout << " readDenseMatrixMarket: File could not be opened to read!\n";
-		std::abort();
+		throw MatrixReadException("! readDenseMatrixMarket: File could not be opened to read!");
 	}
 
 	const MMDescription descr = getMMDescription(fin);
@@ -197,8 +190,7 @@ void COOMatrix<scalar,index>::readMatrixMarket(const std::string file)
 	std::cout << " Attempting to read file " << file << std::endl;
 	std::ifstream fin(file);
 	if(!fin) {
-		std::cout << " COOMatrix: File could not be opened to read!\n";
-		std::abort();
+		throw MatrixReadException("! COOMatrix: File could not be opened to read!");
 	}
 
 	const MMDescription descr = getMMDescription(fin);
-- 
2.43.0


From a0281ff3e38ed958d8ec32ae44e851f1e4e145ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:20 +0000
Subject: [PATCH 27/29] fix: setup_blasted_stack_ext exists as declared and
 every sub-solver uses the factory it is given

---
 src/blasted_petsc.cpp | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index bf7df99..34d7a49 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -343,6 +343,7 @@ void destroyBlastedDataList(Blasted_data_list *const b)
 {
 	if(b->_defaultfactory == 1) {
 		delete (FactoryBase<double,int>*)b->bfactory;
+		b->bfactory = NULL;
 		b->_defaultfactory = 0;
 	}
 
@@ -575,7 +576,11 @@ PetscErrorCode relax_local_blasted(PC pc, Vec rhs, Vec x, Vec w,
 	return ierr;
 }
 
-int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
+}
+
+namespace blasted {
+
+int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int>& fctry,
                             Blasted_data_list *const bctv)
 {
 	PetscErrorCode ierr = 0;
@@ -605,7 +610,7 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 			SETERRQ(PETSC_COMM_SELF, PETSC_ERR_ARG_WRONGSTATE,
 					"Only one subdomain per rank is supported.");
 
-		ierr = setup_blasted_stack(subksp[0], bctv); CHKERRQ(ierr);
+		ierr = setup_blasted_stack_ext(subksp[0], fctry, bctv); CHKERRQ(ierr);
 	}
 	else if(ismg || isgamg) {
 		ierr = KSPSetUp(ksp); CHKERRQ(ierr);
@@ -616,7 +621,7 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 		for(int ilvl = 1; ilvl < nlevels; ilvl++) {
 			KSP smootherctx;
 			ierr = PCMGGetSmoother(pc, ilvl , &smootherctx); CHKERRQ(ierr);
-			ierr = setup_blasted_stack(smootherctx, bctv); CHKERRQ(ierr);
+			ierr = setup_blasted_stack_ext(smootherctx, fctry, bctv); CHKERRQ(ierr);
 			/*
 			KSP smootherup, smootherdown;
 			ierr = PCMGGetSmootherDown(pc, ilvl , &smootherdown); CHKERRQ(ierr);
@@ -626,14 +631,14 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 		}
 		KSP coarsesolver;
 		ierr = PCMGGetCoarseSolve(pc, &coarsesolver); CHKERRQ(ierr);
-		ierr = setup_blasted_stack(coarsesolver, bctv); CHKERRQ(ierr);
+		ierr = setup_blasted_stack_ext(coarsesolver, fctry, bctv); CHKERRQ(ierr);
 	}
 	else if(isksp) {
 		ierr = KSPSetUp(ksp); CHKERRQ(ierr);
 		ierr = PCSetUp(pc); CHKERRQ(ierr);
 		KSP subksp;
 		ierr = PCKSPGetKSP(pc, &subksp); CHKERRQ(ierr);
-		ierr = setup_blasted_stack(subksp, bctv); CHKERRQ(ierr);
+		ierr = setup_blasted_stack_ext(subksp, fctry, bctv); CHKERRQ(ierr);
 	}
 	else if(isshell) {
 		// if the PC is shell, this is the relevant KSP to pass to BLASTed for setup
@@ -644,7 +649,7 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 		// so we setup the BLASTed preconditioner using the context at the head of the list
 
 		// set the factory to use - same for each solver context in the tree
-		bctv->ctxlist->bfactory = bctv->bfactory;
+		bctv->ctxlist->bfactory = (void*)&fctry;
 
 		ierr = setup_localpreconditioner_blasted(ksp, bctv->ctxlist); CHKERRQ(ierr);
 	}
@@ -652,12 +657,18 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 	return ierr;
 }
 
+}
+
+extern "C" {
+
 PetscErrorCode setup_blasted_stack(KSP ksp, Blasted_data_list *const bctx)
 {
-	FactoryBase<double,int> *factory = new SRFactory<double,int>();
-	bctx->bfactory = (void*)factory;
-	bctx->_defaultfactory = 1;
-	return setup_blasted_stack_ext(ksp, factory, bctx);
+	if(!bctx->bfactory) {
+		FactoryBase<double,int> *const factory = new SRFactory<double,int>();
+		bctx->bfactory = (void*)factory;
+		bctx->_defaultfactory = 1;
+	}
+	return setup_blasted_stack_ext(ksp, *(const FactoryBase<double,int>*)bctx->bfactory, bctx);
 }
 
 PetscErrorCode setup_localpreconditioner_blasted(KSP ksp, Blasted_data *const bctx)
-- 
2.43.0


From 7d63bafe40e2511ab02976faf9c2dfb4f4f8da63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:20 +0000
Subject: [PATCH 28/29] fix: the PETSc relaxation is set for the methods that
 have one, once the method is known

---
 src/blasted_petsc.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index 34d7a49..08e0256 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -300,6 +300,11 @@ PetscErrorCode createNewPreconditioner(PC pc)
 
 	ctx->bprec = reinterpret_cast<void*>(precop);
 
+	// set a relaxation application only for supported preconditioners
+	if(precop->relaxationAvailable()) {
+		ierr = PCShellSetApplyRichardson(pc, &relax_local_blasted); CHKERRQ(ierr);
+	}
+
 	ctx->infolist = NULL;
 	if(ctx->compute_precinfo) {
 		PrecInfoList *bpinfo = new PrecInfoList;
@@ -719,15 +724,6 @@ PetscErrorCode setup_localpreconditioner_blasted(KSP ksp, Blasted_data *const bc
 	ierr = PCShellSetApply(subpc, &apply_local_blasted);            CHKERRQ(ierr);
 	ierr = PCShellSetDestroy(subpc, &cleanup_blasted);              CHKERRQ(ierr);
 
-	// set a relaxation application only for supported preconditioners
-	if(bctx->prectype != BLASTED_ILU0 &&
-	   bctx->prectype != BLASTED_CSC_BGS &&
-	   bctx->prectype != BLASTED_NO_PREC)
-	{
-		ierr = PCShellSetApplyRichardson(subpc, &relax_local_blasted);
-		CHKERRQ(ierr);
-	}
-
 	return ierr;
 }
 
-- 
2.43.0


From 9adf6d37a93a6a005e14eaf20f79d973fd9e0348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:20 +0000
Subject: [PATCH 29/29] fix: a request for sequential sweeps does not turn a
 non-ILU PETSc preconditioner into ILU(0)

---
 src/blasted_petsc.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index 08e0256..a03bb35 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -95,8 +95,12 @@ static void setSweeps_checkSeq(const Blasted_data *const ctx, AsyncSolverSetting
 	if(settings.prectype == BLASTED_SEQILU0)
 		return;
 
+	const bool isilu0 = settings.prectype == BLASTED_ILU0 || settings.prectype == BLASTED_SFILU0
+		|| settings.prectype == BLASTED_SAPILU0 || settings.prectype == BLASTED_ASYNC_LEVEL_ILU0;
+
 	// Cases where both build and apply are sequential
-	if((ctx->napplysweeps == BLASTED_SEQUENTIAL_SYMBOL && ctx->nbuildsweeps == BLASTED_SEQUENTIAL_SYMBOL)
+	if((isilu0 && ctx->napplysweeps == BLASTED_SEQUENTIAL_SYMBOL
+	    && ctx->nbuildsweeps == BLASTED_SEQUENTIAL_SYMBOL)
 	   || (ctx->napplysweeps == BLASTED_SEQUENTIAL_SYMBOL && settings.prectype == BLASTED_SFILU0)
 	   || (ctx->nbuildsweeps == BLASTED_SEQUENTIAL_SYMBOL && settings.prectype == BLASTED_SAPILU0))
 	{
-- 
2.43.0

