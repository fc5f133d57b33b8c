From d7d1c85220087e97cda3b62dc6168f58de6407cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 01/46] fix: SparseMatrix::swap exchanges the column count too

---
 src/lib/matrix/SparseMatrix.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index bb62f06..662da8c 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -832,6 +832,7 @@ void SparseMatrix<T>::swap(SparseMatrix<T>& v)
 	std::swap(mValues, v.mValues);
 	std::swap(mColumnPtr, v.mColumnPtr);
 	std::swap(mRowPtr, v.mRowPtr);
+	std::swap(mColumnCount, v.mColumnCount);
 }
 
 template<typename T>
-- 
2.43.0


From fe24536040ee3c328de0b6156fd4cc18e5e8631c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 02/46] fix: SparseMatrix::column_begin does not read past the
 last row of an empty column

---
 src/lib/matrix/SparseMatrix.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 662da8c..c7324e9 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -518,7 +518,7 @@ const SparseMatrixColumnIterator<T> SparseMatrix<T>::column_begin(Index i) const
 	else
 	{
 		Index row = 0;
-		while (!has(row, i) && row != rows())
+		while (row != rows() && !has(row, i))
 			++row;
 
 		if (row == rows())
@@ -542,7 +542,7 @@ SparseMatrixColumnIterator<T> SparseMatrix<T>::column_begin(Index i)
 	else
 	{
 		Index row = 0;
-		while (!has(row, i) && row != rows())
+		while (row != rows() && !has(row, i))
 			++row;
 
 		if (row == rows())
-- 
2.43.0


From 004c31d61d3d81f685106a08bdb2d0dad1efce07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 03/46] fix: SparseMatrix::erase(iterator) returns the row of
 the following entry

---
 src/lib/matrix/SparseMatrix.inl | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index c7324e9..2ec30ec 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -620,12 +620,11 @@ SparseMatrixIterator<T> SparseMatrix<T>::erase(const SparseMatrixIterator<T>& it
 
 			for (Index s1 = it.row(); s1 < rows(); ++s1)
 			{
-				if (mRowPtr[s1] == it.mColumnPtrIndex)
+				if (mRowPtr[s1] <= it.mColumnPtrIndex)
 				{
 					nIt.mIndex1 = s1;// New row
-					break;
 				}
-				else if (mRowPtr[s1] > it.mColumnPtrIndex)
+				else
 				{
 					break;
 				}
-- 
2.43.0


From 022b55ea325a8c7851abacac4f1539764a049e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:44 +0000
Subject: [PATCH 04/46] fix: SparseMatrix::operator -= handles subtraction of
 the matrix from itself

---
 src/lib/matrix/SparseMatrix.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 2ec30ec..e28cf77 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -652,6 +652,9 @@ SparseMatrix<T>& SparseMatrix<T>::operator +=(const SparseMatrix<T>& v2)
 template<typename T>
 SparseMatrix<T>& SparseMatrix<T>::operator -=(const SparseMatrix<T>& v2)
 {
+	if (this == &v2)// Erasing while iterating over the same matrix would skip entries
+		return *this *= (T)0;
+
 	for (auto it = v2.cbegin(); it != v2.cend(); ++it)
 		set(it.row(), it.column(), at(it.row(), it.column()) - *it);
 
-- 
2.43.0


From 7da3c780a743130f8b56379830809e6345f5eb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:51 +0000
Subject: [PATCH 05/46] fix: max() of all-negative data returned the smallest
 positive number

---
 src/lib/CountableSet.inl        | 2 +-
 src/lib/matrix/BaseMatrix.inl   | 2 +-
 src/lib/matrix/SparseMatrix.inl | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/CountableSet.inl b/src/lib/CountableSet.inl
index 22a8dcd..d584ebf 100644
--- a/src/lib/CountableSet.inl
+++ b/src/lib/CountableSet.inl
@@ -76,7 +76,7 @@ T CountableSet<T, DC>::max() const
 {
 	typedef typename get_complex_internal<T>::type _t;
 
-	_t s = std::numeric_limits<_t>::min();
+	_t s = std::numeric_limits<_t>::lowest();
 	for (Index i = 0; i < size(); ++i)
 	{
 		_t d = complex_abs(mData[i]);
diff --git a/src/lib/matrix/BaseMatrix.inl b/src/lib/matrix/BaseMatrix.inl
index 3fc479c..37a11ca 100644
--- a/src/lib/matrix/BaseMatrix.inl
+++ b/src/lib/matrix/BaseMatrix.inl
@@ -372,7 +372,7 @@ T BaseMatrix<T,DC>::sum() const
 template<typename T, class DC>
 T BaseMatrix<T,DC>::max() const
 {
-	T s = std::numeric_limits<typename get_complex_internal<T>::type>::min();
+	T s = std::numeric_limits<typename get_complex_internal<T>::type>::lowest();
 	for (auto l : mValues.Container)
 	{
 		if (l > s)
diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index e28cf77..5d98150 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -763,7 +763,7 @@ T SparseMatrix<T>::sum() const
 template<typename T>
 T SparseMatrix<T>::max() const
 {
-	T s = std::numeric_limits<typename get_complex_internal<T>::type>::min();
+	T s = std::numeric_limits<typename get_complex_internal<T>::type>::lowest();
 	for (auto l : mValues)
 	{
 		if (l > s)
-- 
2.43.0


From d4c7379167afac7b1b89212664364a483fbf1a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:51 +0000
Subject: [PATCH 06/46] fix: negating a complex vector did not compile

---
 src/lib/Vector.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Vector.inl b/src/lib/Vector.inl
index c8b41dc..4c6be8e 100644
--- a/src/lib/Vector.inl
+++ b/src/lib/Vector.inl
@@ -276,7 +276,7 @@ template<typename T, class DC>
 Vector<T,DC> operator -(const Vector<T,DC>& v)
 {
 	Vector<T,DC> tmp = v;
-	return (tmp *= -1);
+	return (tmp *= (T)-1);
 }
 
 template<typename T, class DC>
-- 
2.43.0


From 1ce7a315bff4ca674481237232d4c89d3457a2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:26 +0000
Subject: [PATCH 07/46] fix: dense +=, -=, *= reject operands of equal size but
 different shape

---
 src/lib/matrix/DenseMatrix.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/matrix/DenseMatrix.inl b/src/lib/matrix/DenseMatrix.inl
index b6aa00b..c76365a 100644
--- a/src/lib/matrix/DenseMatrix.inl
+++ b/src/lib/matrix/DenseMatrix.inl
@@ -59,7 +59,7 @@ template<typename T>
 template<class DC2>
 DenseMatrix<T>& DenseMatrix<T>::operator +=(const BaseMatrix<T,DC2>& m)
 {
-	if (this->size() != m.size())
+	if (this->rows() != m.rows() || this->columns() != m.columns())
 		throw MatrixSizeMismatchException();
 
 	for (Index i = 0; i < this->size(); ++i)
@@ -72,7 +72,7 @@ template<typename T>
 template<class DC2>
 DenseMatrix<T>& DenseMatrix<T>::operator -=(const BaseMatrix<T,DC2>& m)
 {
-	if (this->size() != m.size())
+	if (this->rows() != m.rows() || this->columns() != m.columns())
 		throw MatrixSizeMismatchException();
 
 	for (Index i = 0; i < this->size(); ++i)
@@ -85,7 +85,7 @@ template<typename T>
 template<class DC2>
 DenseMatrix<T>& DenseMatrix<T>::operator *=(const BaseMatrix<T,DC2>& m)
 {
-	if (this->size() != m.size())
+	if (this->rows() != m.rows() || this->columns() != m.columns())
 		throw MatrixSizeMismatchException();
 
 	for (Index i = 0; i < this->size(); ++i)
-- 
2.43.0


From 5beb299f96928f44278b401236785393fca1e4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:26 +0000
Subject: [PATCH 08/46] fix: FixedMatrix::conjugate and adjugate did not
 compile

---
 src/lib/matrix/FixedMatrix.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/matrix/FixedMatrix.inl b/src/lib/matrix/FixedMatrix.inl
index 6dcd48a..c98b05a 100644
--- a/src/lib/matrix/FixedMatrix.inl
+++ b/src/lib/matrix/FixedMatrix.inl
@@ -111,7 +111,7 @@ FixedMatrix<T,K1,K2> FixedMatrix<T,K1,K2>::conjugate() const
 	{
 		for (Index j = 0; j < this->columns(); ++j)
 		{
-			tmp.set(i, j, conjugate_vt(this->at(i, j)));
+			tmp.set(i, j, complex_conj(this->at(i, j)));
 		}
 	}
 
@@ -126,7 +126,7 @@ FixedMatrix<T,K2,K1> FixedMatrix<T,K1,K2>::adjugate() const
 	{
 		for (Index j = 0; j < this->rows(); ++j)
 		{
-			tmp.set(i, j, conjugate_vt(this->at(j, i)));
+			tmp.set(i, j, complex_conj(this->at(j, i)));
 		}
 	}
 
-- 
2.43.0


From 7c4f194833a9fcd8fb65f53d486718d3c05ffe01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 09/46] fix: Vector scalar += -= *= with an element of the
 vector itself

---
 src/lib/Vector.inl | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib/Vector.inl b/src/lib/Vector.inl
index 4c6be8e..763cb30 100644
--- a/src/lib/Vector.inl
+++ b/src/lib/Vector.inl
@@ -159,8 +159,9 @@ Vector<T,DC>& Vector<T,DC>::operator +=(const Vector<T,DC>& v)
 template<typename T, class DC>
 Vector<T,DC>& Vector<T,DC>::operator +=(const T& f)
 {
+	const T s = f;// f may be an element of this vector
 	for (Index i = 0; i < this->size(); ++i)
-		this->mData[i] += f;
+		this->mData[i] += s;
 
 	return *this;
 }
@@ -180,8 +181,9 @@ Vector<T,DC>& Vector<T,DC>::operator -=(const Vector<T,DC>& v)
 template<typename T, class DC>
 Vector<T,DC>& Vector<T,DC>::operator -=(const T& f)
 {
+	const T s = f;// f may be an element of this vector
 	for (Index i = 0; i < this->size(); ++i)
-		this->mData[i] -= f;
+		this->mData[i] -= s;
 
 	return *this;
 }
@@ -201,8 +203,9 @@ Vector<T,DC>& Vector<T,DC>::operator *=(const Vector<T,DC>& v)
 template<typename T, class DC>
 Vector<T,DC>& Vector<T,DC>::operator *=(const T& f)
 {
+	const T s = f;// f may be an element of this vector
 	for (Index i = 0; i < this->size(); ++i)
-		this->mData[i] *= f;
+		this->mData[i] *= s;
 
 	return *this;
 }
-- 
2.43.0


From 72143e7b2c4eb4a307bf71acc30511f4ee39533d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 10/46] fix: dense and fixed matrix *= with a cell of the
 matrix itself

---
 src/lib/matrix/DenseMatrix.inl | 3 ++-
 src/lib/matrix/FixedMatrix.inl | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/matrix/DenseMatrix.inl b/src/lib/matrix/DenseMatrix.inl
index c76365a..c2f5024 100644
--- a/src/lib/matrix/DenseMatrix.inl
+++ b/src/lib/matrix/DenseMatrix.inl
@@ -97,8 +97,9 @@ DenseMatrix<T>& DenseMatrix<T>::operator *=(const BaseMatrix<T,DC2>& m)
 template<typename T>
 DenseMatrix<T>& DenseMatrix<T>::operator *=(const T& f)
 {
+	const T s = f;// f may be a cell of this matrix
 	for (Index i = 0; i < this->size(); ++i)
-		this->mValues.Container[i] *= f;
+		this->mValues.Container[i] *= s;
 
 	return *this;
 }
diff --git a/src/lib/matrix/FixedMatrix.inl b/src/lib/matrix/FixedMatrix.inl
index c98b05a..4ed2a7d 100644
--- a/src/lib/matrix/FixedMatrix.inl
+++ b/src/lib/matrix/FixedMatrix.inl
@@ -76,8 +76,9 @@ FixedMatrix<T,K1,K2>& FixedMatrix<T,K1,K2>::operator *=(const FixedMatrix<T,K1,K
 template<typename T, Dimension K1, Dimension K2>
 FixedMatrix<T,K1,K2>& FixedMatrix<T,K1,K2>::operator *=(const T& f)
 {
+	const T s = f;// f may be a cell of this matrix
 	for (Index i = 0; i < this->size(); ++i)
-		this->mValues.Container[i] *= f;
+		this->mValues.Container[i] *= s;
 
 	return *this;
 }
-- 
2.43.0


From 545aff5c517497de7a4739836d7a3bfcdebaa69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 11/46] fix: sparse matrix *= with an entry of the matrix
 itself

---
 src/lib/matrix/SparseMatrix.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 5d98150..7c58f59 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -695,8 +695,9 @@ SparseMatrix<T>& SparseMatrix<T>::operator *=(const T& f)
 	}
 	else
 	{
+		const T s = f;// f may be an entry of this matrix
 		for (auto it = begin(); it != end(); ++it)// O(D1*D2)
-			*it *= f; // O(1)
+			*it *= s; // O(1)
 	}
 
 	return *this;
-- 
2.43.0


From a47c6ed120a40f40ad5ca527047228dc1307f05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 12/46] fix: sparse element-wise product wrote through the
 shared empty entry

---
 src/lib/matrix/SparseMatrix.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 7c58f59..1706f82 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -670,7 +670,8 @@ SparseMatrix<T>& SparseMatrix<T>::operator *=(const SparseMatrix<T>& v2)
 		Index tmp;
 		T& val = const_cast<T&>(internal_at(it.row(), it.column(), tmp, found));// O(D2)
 
-		val *= *it;
+		if (found)// Otherwise val is the shared empty entry, which has to stay zero
+			val *= *it;
 	}
 
 	for (auto it = begin(); it != end();)// O(D1*D2)
-- 
2.43.0


From 1387349c13bda653eb0760c9184a39f22a210f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:28 +0000
Subject: [PATCH 13/46] fix: conjugate gradient updates the search direction
 from the previous direction

---
 src/lib/CG.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/CG.inl b/src/lib/CG.inl
index 7678225..f80d5e0 100644
--- a/src/lib/CG.inl
+++ b/src/lib/CG.inl
@@ -42,7 +42,7 @@ namespace CG {
 
 				const typename V2::value_type bk = ls / rs;
 
-				p = l + bk*r;
+				p = l + bk*p;
 				r = l;
 				rs = ls;
 			}
-- 
2.43.0


From f3909b13d8e9a27f36e23e0c90bc63a0c7e688fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:44 +0000
Subject: [PATCH 14/46] fix: conjugate gradient stops at a zero residual
 instead of dividing zero by zero

---
 src/lib/CG.inl | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/lib/CG.inl b/src/lib/CG.inl
index f80d5e0..4fa85d1 100644
--- a/src/lib/CG.inl
+++ b/src/lib/CG.inl
@@ -26,6 +26,13 @@ namespace CG {
 			V2 p = r;
 
 			typename V2::value_type rs = r.magSqr();
+			if (rs == (typename V2::value_type)0)// Already a solution
+			{
+				if (it_stat)
+					*it_stat = 0;
+
+				return x;
+			}
 
 			V2 l;
 			size_t k = 0;
@@ -37,7 +44,7 @@ namespace CG {
 				l = r - ak*t;
 
 				const auto ls = l.magSqr();
-				if (ls < eps2 || k == maxIter-1)
+				if (ls <= eps2 || k == maxIter-1)
 					break;
 
 				const typename V2::value_type bk = ls / rs;
@@ -78,6 +85,14 @@ namespace CG {
 			V2 z = c.mul(r);
 			V2 p = z;
 
+			if (r.magSqr() == 0)// Already a solution
+			{
+				if (it_stat)
+					*it_stat = 0;
+
+				return x;
+			}
+
 			auto l1 = r.dot(z);
 			auto l2 = l1;
 			size_t k = 0;
@@ -88,7 +103,7 @@ namespace CG {
 				x += ak*p;
 				r -= ak*t;
 
-				if (r.magSqr() < eps2 || k == maxIter-1)
+				if (r.magSqr() <= eps2 || k == maxIter-1)
 					break;
 
 				z = c.mul(r);
-- 
2.43.0


From 76baddd62978cf8bd18564f603e87b3af043278e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:44 +0000
Subject: [PATCH 15/46] fix: relaxation starts from the initial vector given by
 the caller

---
 src/lib/Iterative.inl | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib/Iterative.inl b/src/lib/Iterative.inl
index 19a1cdb..315dcac 100644
--- a/src/lib/Iterative.inl
+++ b/src/lib/Iterative.inl
@@ -82,7 +82,6 @@ namespace Iterative
 
 			V x = x0;
 			V xm = x0;
-			xm.fill((T)0);
 
 			for (size_t it = 0; it < maxIter; ++it)
 			{
-- 
2.43.0


From ed901790aaf1cc31d0fa50f0b7ce8a084ce813e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 16/46] fix: jacobi and sor no longer report an infinite step
 as convergence

---
 src/lib/Iterative.inl | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/lib/Iterative.inl b/src/lib/Iterative.inl
index 315dcac..4590147 100644
--- a/src/lib/Iterative.inl
+++ b/src/lib/Iterative.inl
@@ -43,11 +43,10 @@ namespace Iterative
 				}
 
 				auto conv = std::abs((xm - x).magSqr());
-				if (std::isnan(conv))
+				if (!std::isfinite(conv))
 					throw MatrixHasZeroInDiagException();
 
-				if (!std::isfinite(conv) ||
-					conv <= eps2)// Convergence
+				if (conv <= eps2)// Convergence
 				{
 					if (it_stat)
 						*it_stat = it + 1;
@@ -104,11 +103,10 @@ namespace Iterative
 				}
 
 				auto conv = std::abs((xm - x).magSqr());
-				if (std::isnan(conv))
+				if (!std::isfinite(conv))
 					throw MatrixHasZeroInDiagException();
 
-				if (!std::isfinite(conv) ||
-					conv <= eps2)// Convergence
+				if (conv <= eps2)// Convergence
 				{
 					if (it_stat)
 						*it_stat = it + 1;
-- 
2.43.0


From 1f7ae93b47726ff62930420ffb1b2b408dfaabbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 17/46] fix: jacobi and sor measure the step of complex
 iterates with a norm

---
 src/lib/Iterative.inl | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/Iterative.inl b/src/lib/Iterative.inl
index 4590147..e8bd73b 100644
--- a/src/lib/Iterative.inl
+++ b/src/lib/Iterative.inl
@@ -42,7 +42,10 @@ namespace Iterative
 					xm.set(i, (b.at(i) - t) / mid);
 				}
 
-				auto conv = std::abs((xm - x).magSqr());
+				typename get_complex_internal<T>::type conv = 0;
+				for (Index i = 0; i < xm.size(); ++i)
+					conv += std::norm(xm.at(i) - x.at(i));
+
 				if (!std::isfinite(conv))
 					throw MatrixHasZeroInDiagException();
 
@@ -102,7 +105,10 @@ namespace Iterative
 					xm.set(i, rweight*xm.at(i) + weight*t);
 				}
 
-				auto conv = std::abs((xm - x).magSqr());
+				typename get_complex_internal<T>::type conv = 0;
+				for (Index i = 0; i < xm.size(); ++i)
+					conv += std::norm(xm.at(i) - x.at(i));
+
 				if (!std::isfinite(conv))
 					throw MatrixHasZeroInDiagException();
 
-- 
2.43.0


From cb0706cbe2af3f3d29bc692df498d88cc64ce3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 18/46] fix: cholesky conjugates for complex matrices, rejects
 a zero pivot and does not read unset entries

---
 src/lib/LU.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index dc29013..2c0b9e6 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -27,19 +27,19 @@ namespace LU {
 				for (Index k = 0; k < j; ++k)
 				{
 					T v = L.at(j, k);
-					s += v*v;
+					s += v*complex_conj(v);
 				}
 
 				s = m.at(j, j) - s;
-				if (!sqrt_allowed(s))
+				if (!sqrt_allowed(s) || s == (T)0)
 					throw NotPositiveDefiniteException();
 
 				L.set(j, j, std::sqrt(s));
 				for (Index i = j; i < L.rows(); ++i)
 				{
 					s = (T)0;
-					for (Index k = 0; k < i; ++k)
-						s += L.at(i, k)*L.at(j, k);
+					for (Index k = 0; k < j; ++k)
+						s += L.at(i, k)*complex_conj(L.at(j, k));
 					L.set(i, j, (m.at(i, j) - s) / L.at(j, j));
 				}
 			}
-- 
2.43.0


From 911edda90aca4758985a81cdbbaad60b1a6571a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 19/46] fix: cholesky clears the upper part of the given output

---
 src/lib/LU.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index 2c0b9e6..a71c12e 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -34,6 +34,9 @@ namespace LU {
 				if (!sqrt_allowed(s) || s == (T)0)
 					throw NotPositiveDefiniteException();
 
+				for (Index i = 0; i < j; ++i)
+					L.set(i, j, (T)0);
+
 				L.set(j, j, std::sqrt(s));
 				for (Index i = j; i < L.rows(); ++i)
 				{
-- 
2.43.0


From 42c17c9ecf6cd4240aff87b3a66be970f940c001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 20/46] fix: doolittle releases its row table when the matrix
 is singular

---
 src/lib/LU.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index a71c12e..656b4d4 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -115,7 +115,10 @@ namespace LU {
 				// Actual calculating
 				if(std::abs(U.at(k,k)) <=
 					std::numeric_limits<typename get_complex_internal<T>::type>::epsilon())
+				{
+					delete[] rowTable;
 					throw SingularException();
+				}
 
 				const T invMid = (T)1/U.at(k,k);
 				for(Index j = k+1; j < n; ++j)
@@ -198,7 +201,10 @@ namespace LU {
 				// Actual calculating
 				if(std::abs(U.at(k,k)) <=
 					std::numeric_limits<typename get_complex_internal<T>::type>::epsilon())
+				{
+					delete[] rowTable;
 					throw SingularException();
+				}
 
 				const T invMid = (T)1/U.at(k,k);
 				for(Index j = k+1; j < n; ++j)
-- 
2.43.0


From 3b7d21828f4cc1b6fe6fc717721fb36c1ad4d570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 21/46] fix: doolittle clears the dense outputs L and P

---
 src/lib/LU.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index 656b4d4..9fcc61e 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -69,6 +69,12 @@ namespace LU {
 			Index* rowTable = new Index[n];
 			for (Index i = 0; i < n; ++i)
 			{
+				for (Index j = 0; j < n; ++j)
+				{
+					L.set(i, j, (T)0);
+					P.set(i, j, (T)0);
+				}
+
 				L.set(i, i, (T)1);
 				rowTable[i] = i;
 			}
-- 
2.43.0


From 41db3a0aaf1bc1d670cbcfb4525bb221161320a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:44 +0000
Subject: [PATCH 22/46] fix: ilu0 delivers a unit lower factor even if a
 diagonal entry is not stored or the outputs are in use

---
 src/lib/LU.inl | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index 9fcc61e..bea5e95 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -257,11 +257,15 @@ namespace LU {
 			}
 
 			// Seperate M into L and U
+			L = SparseMatrix<T>(M.rows(), M.columns());
+			U = SparseMatrix<T>(M.rows(), M.columns());
+			for(Index i = 0; i < M.rows(); ++i)
+				L.set(i, i, (T)1);
+
 			for(auto it = M.begin(); it != M.end(); ++it)
 			{
 				if(it.column() == it.row())
 				{
-					L.set(it.row(), it.column(), 1);
 					U.set(it.row(), it.column(), *it);
 				}
 				else if(it.column() < it.row())
-- 
2.43.0


From 69c4c89d418318b104f908b0aaf658382ea4a912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:44 +0000
Subject: [PATCH 23/46] fix: ainv_lu computes the inverse of the upper factor

---
 src/lib/LU.inl | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index bea5e95..2216d01 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -362,11 +362,14 @@ namespace LU {
 			for(Index k = 0; k < N; ++k)
 			{
 				// L
+				for(Index i = 0; i < k; ++i)
+					invL.set(i,k, (T)0);
+
 				invL.set(k,k, 1);// Assuming L has only ones as diagonal entries
 
 				for(Index i = k+1; i < N; ++i)
 				{
-					T m = invL.at(i,k);
+					T m = (T)0;
 
 					auto it = L.row_begin(i);
 					while(it != L.row_end(i) && it.column() < k)// Skipping. Is zero
@@ -379,11 +382,12 @@ namespace LU {
 				}
 
 				// U
-				invU.set(k,k, 1/U.at(k,k));
-				
-				for(Index i = (N-1)-k; ; --i)
+				for(Index i = k+1; i < N; ++i)
+					invU.set(i,k, (T)0);
+
+				for(Index i = k; ; --i)
 				{
-					T m = invU.at(i,k);
+					T m = (i == k) ? (T)1 : (T)0;
 
 					auto it = U.row_begin(i);
 					while(it != U.row_end(i) && it.column() < i+1)// Skipping. Is zero
-- 
2.43.0


From 48f62239061093b4ee8dbea416e0fcdeb29bfc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:44 +0000
Subject: [PATCH 24/46] fix: inverse from LU factors divides the current column

---
 src/lib/matrix/MatrixOperations.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/matrix/MatrixOperations.inl b/src/lib/matrix/MatrixOperations.inl
index f06e221..45dbec3 100644
--- a/src/lib/matrix/MatrixOperations.inl
+++ b/src/lib/matrix/MatrixOperations.inl
@@ -99,7 +99,7 @@ namespace Operations
 				if(std::abs(mid) <= std::numeric_limits<typename get_complex_internal<T>::type>::epsilon())
 					throw SingularException();
 				
-				Inv.set(j,j, Inv.at(j,j) / mid);
+				Inv.set(j,i, Inv.at(j,i) / mid);
 
 				if(j == 0)
 					break;
-- 
2.43.0


From 46c92afdd49a0d367bb2a071af985be5c5631a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 25/46] fix: toDenseMatrix names the dense matrix class

---
 src/lib/matrix/MatrixConverter.h   | 2 +-
 src/lib/matrix/MatrixConverter.inl | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/matrix/MatrixConverter.h b/src/lib/matrix/MatrixConverter.h
index 7742352..ead470c 100644
--- a/src/lib/matrix/MatrixConverter.h
+++ b/src/lib/matrix/MatrixConverter.h
@@ -20,7 +20,7 @@ namespace Convert
 	* @return The new dense matrix.
 	*/
 	template<typename T>
-	DynamicMatrix<T> toDenseMatrix(const SparseMatrix<T>& m);
+	DenseMatrix<T> toDenseMatrix(const SparseMatrix<T>& m);
 }
 
 NS_END_NAMESPACE
diff --git a/src/lib/matrix/MatrixConverter.inl b/src/lib/matrix/MatrixConverter.inl
index 1c38a06..0a45eae 100644
--- a/src/lib/matrix/MatrixConverter.inl
+++ b/src/lib/matrix/MatrixConverter.inl
@@ -24,9 +24,9 @@ namespace Convert
 	}
 
 	template<typename T>
-	DynamicMatrix<T> toDenseMatrix(const SparseMatrix<T>& m)
+	DenseMatrix<T> toDenseMatrix(const SparseMatrix<T>& m)
 	{
-		Matrix<T> res(m.rows(), m.columns());
+		DenseMatrix<T> res(m.rows(), m.columns());
 		for (auto it = m.begin(); it != m.end(); ++it)
 		{
 			res.set(it.row(), it.column(), *it);
-- 
2.43.0


From 4dbbe78268506d787c0e89e0ee28afa3ebcdbd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 26/46] fix: Simplex::center divides by the determinant and
 starts at the first vertex

---
 src/lib/Simplex.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Simplex.inl b/src/lib/Simplex.inl
index 0dc69b0..768395e 100644
--- a/src/lib/Simplex.inl
+++ b/src/lib/Simplex.inl
@@ -83,7 +83,7 @@ typename Simplex<T,K>::vertex_t Simplex<T,K>::center() const
 	vertex_t v;
 	v[0] = b[1]*a.magSqr() - a[1]*b.magSqr();
 	v[1] = a[0]*b.magSqr() - b[0]*a.magSqr();
-	return v / (T)2 * mDeterminant;
+	return mVertices[0] + v / ((T)2 * mDeterminant);
 }
 
 template<typename T, Dimension K>
-- 
2.43.0


From 19dd80c60165c524ec9a1f7bc4c78ef3a5d008f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 27/46] fix: Simplex::prepare does not treat small simplices as
 degenerate

---
 src/lib/Simplex.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/Simplex.inl b/src/lib/Simplex.inl
index 768395e..43fd114 100644
--- a/src/lib/Simplex.inl
+++ b/src/lib/Simplex.inl
@@ -37,7 +37,8 @@ void Simplex<T,K>::prepare()
 			mMatrix.set(j,i-1, dist[j]);
 	}
 
-	mDeterminant = Operations::determinant(mMatrix);
+	// The inverse below is two dimensional anyway, no need for pivoting and its threshold
+	mDeterminant = mMatrix.at(0,0)*mMatrix.at(1,1) - mMatrix.at(0,1)*mMatrix.at(1,0);
 
 	mInverseMatrix.set(0,0, mMatrix.at(1,1));
 	mInverseMatrix.set(0,1, -mMatrix.at(0,1));
-- 
2.43.0


From 5209c7cbe863c0dfc8153b3405b40f208879ee63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 28/46] fix: cuthill_mckee orders rows without entries too

---
 src/lib/matrix/MatrixOrder.inl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib/matrix/MatrixOrder.inl b/src/lib/matrix/MatrixOrder.inl
index a665e96..a7e842a 100644
--- a/src/lib/matrix/MatrixOrder.inl
+++ b/src/lib/matrix/MatrixOrder.inl
@@ -29,8 +29,7 @@ DynamicVector<Index> cuthill_mckee(const SparseMatrix<T>& m)
 	for(Index i = 0; i < m.rows(); ++i)
 	{
 		Index mc = m.row_filled_count(i);
-		if(mc > 0)
-			Rows.insert(std::pair<Dimension, Index>(mc, i));
+		Rows.insert(std::pair<Dimension, Index>(mc, i));
 	}
 	
 	while(!Rows.empty())
-- 
2.43.0


From 1a2300817eb00eaa2f6060a6f93225cf0610f056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 29/46] fix: permuting a vector moves in the same direction as
 permuting a matrix

---
 src/lib/matrix/MatrixOrder.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/matrix/MatrixOrder.inl b/src/lib/matrix/MatrixOrder.inl
index a7e842a..ad09c4d 100644
--- a/src/lib/matrix/MatrixOrder.inl
+++ b/src/lib/matrix/MatrixOrder.inl
@@ -143,7 +143,7 @@ DynamicVector<T> permutate(const DynamicVector<T>& m, const DynamicVector<Index>
 
 	DynamicVector<T> nm(m.size());
 	for(Index i = 0; i < m.size(); ++i)
-		nm.set(permutation[i], m[i]);
+		nm.set(i, m[permutation[i]]);
 
 	return nm;
 }
-- 
2.43.0


From 9fc72449db22a59a63a19f1255d6cb42f210760d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 30/46] fix: Mesh::clear releases the edges

---
 src/lib/mesh/Mesh.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/mesh/Mesh.inl b/src/lib/mesh/Mesh.inl
index 7d85878..e09048e 100644
--- a/src/lib/mesh/Mesh.inl
+++ b/src/lib/mesh/Mesh.inl
@@ -124,6 +124,10 @@ void Mesh<T,K>::clear()
 	for(auto ptr : mData->Elements)
 		delete ptr;
 	mData->Elements.clear();
+
+	for(auto ptr : mData->Edges)
+		delete ptr;
+	mData->Edges.clear();
 }
 
 template<typename T, Dimension K>
-- 
2.43.0


From 70d97d53274e574eb4ab163433f8b867e60e0a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 31/46] fix: assigning a mesh to itself keeps its content

---
 src/lib/mesh/Mesh.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/mesh/Mesh.inl b/src/lib/mesh/Mesh.inl
index e09048e..4a89737 100644
--- a/src/lib/mesh/Mesh.inl
+++ b/src/lib/mesh/Mesh.inl
@@ -77,6 +77,9 @@ Mesh<T,K>::~Mesh()
 template<typename T, Dimension K>
 Mesh<T,K>& Mesh<T,K>::operator =(const Mesh<T,K>& other)
 {
+	if(this == &other)
+		return *this;
+
 	if(mData)
 	{
 		NS_ASSERT(mData->Refs > 0);
@@ -97,6 +100,9 @@ Mesh<T,K>& Mesh<T,K>::operator =(const Mesh<T,K>& other)
 template<typename T, Dimension K>
 Mesh<T,K>& Mesh<T,K>::operator =(Mesh<T,K>&& other)
 {
+	if(this == &other)
+		return *this;
+
 	if(mData)
 	{
 		NS_ASSERT(mData->Refs > 0);
-- 
2.43.0


From c58b7e949e8c2d419e52afaf30cf7410f8ed7408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 32/46] fix: MeshEdge initialises all its vertices

---
 src/lib/mesh/Mesh.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/mesh/Mesh.inl b/src/lib/mesh/Mesh.inl
index 4a89737..64b46e5 100644
--- a/src/lib/mesh/Mesh.inl
+++ b/src/lib/mesh/Mesh.inl
@@ -30,7 +30,7 @@ MeshVertex<T,K>::MeshVertex(const FixedVector<T,K>& vertex) :
 template<typename T, Dimension K>
 MeshEdge<T,K>::MeshEdge()
 {
-	for(Index i = 0; i < K-1; ++i)
+	for(Index i = 0; i < K; ++i)
 		Vertices[i] = nullptr;
 	
 	Elements[0] = nullptr;
-- 
2.43.0


From 794ba9d0daff47138e7d21cd7f71dbee8aeb4156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 33/46] fix: HyperCube covers the box for different subdivision
 counts per axis

---
 src/lib/mesh/HyperCube.inl | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib/mesh/HyperCube.inl b/src/lib/mesh/HyperCube.inl
index 6bfa5db..ca8b386 100644
--- a/src/lib/mesh/HyperCube.inl
+++ b/src/lib/mesh/HyperCube.inl
@@ -40,10 +40,10 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 	ey.fill((T)0);
 	ey[1] = size[1]/(T)elements[1];
 	
-	MV** lastRowVertices = new MV*[elements[1]+1];
+	MV** lastRowVertices = new MV*[elements[0]+1];
 
 	// Generate first row
-	for(Index j = 0; j <= elements[1]; ++j)
+	for(Index j = 0; j <= elements[0]; ++j)
 	{
 		MV* v = new MV(offset + ex*(T)j);
 		v->Flags |= MVF_StrongBoundary;
@@ -52,7 +52,7 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 	}
 
 	// Iterate over rows
-	for(Index i = 1; i <= elements[0]; ++i)
+	for(Index i = 1; i <= elements[1]; ++i)
 	{
 		const auto py = ey*(T)i;
 		MV* lastVertex = new MV(offset + py);
@@ -60,7 +60,7 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 
 		mesh.addVertex(lastVertex);
 
-		for(Index j = 1; j <= elements[1]; ++j)
+		for(Index j = 1; j <= elements[0]; ++j)
 		{
 			MV* v = new MV(offset + ex*(T)j + py);
 			mesh.addVertex(v);
@@ -83,11 +83,11 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 
 		lastVertex->Flags |= MVF_StrongBoundary;// Set last column as boundary
 
-		lastRowVertices[elements[1]] = lastVertex;
+		lastRowVertices[elements[0]] = lastVertex;
 	}
 
 	// Set last row as boundary
-	for(Index j = 0; j <= elements[1]; ++j)
+	for(Index j = 0; j <= elements[0]; ++j)
 		lastRowVertices[j]->Flags |= MVF_StrongBoundary;
 
 
-- 
2.43.0


From eb76be12d6423bf1df15a7e21a32451332423e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 34/46] fix: number of degrees of freedom of the polynomial
 shape functions

---
 src/lib/sf/PolyShapeFunction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sf/PolyShapeFunction.h b/src/lib/sf/PolyShapeFunction.h
index 8911902..31da085 100644
--- a/src/lib/sf/PolyShapeFunction.h
+++ b/src/lib/sf/PolyShapeFunction.h
@@ -14,7 +14,7 @@ template<typename T, Dimension K, Dimension Order>
 class PolyShapePolicy
 {
 public:
-	static constexpr Dimension DOF = (K+1)*Order;// Wrong, but works for Order < 3
+	static constexpr Dimension DOF = Order == 1 ? K+1 : (Order == 2 ? (K+1)*(K+2)/2 : (K+1)*(K+2)*(K+3)/6);
 
 	// For the standard k-simplex
 	T value(Index localComponent, const FixedVector<T,K>& local) const;
-- 
2.43.0


From 6d7d940239fdf9f1856441d38e2dbe8742f4a12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 35/46] fix: second order line shape functions follow their
 node order

---
 src/lib/sf/PolyShapeFunction.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sf/PolyShapeFunction.inl b/src/lib/sf/PolyShapeFunction.inl
index c89473e..01f279e 100644
--- a/src/lib/sf/PolyShapeFunction.inl
+++ b/src/lib/sf/PolyShapeFunction.inl
@@ -13,7 +13,7 @@ NS_BEGIN_NAMESPACE
 constexpr float PSF_Coeff_1D_1[2][2] = {{1, -1}, {0,1}};
 
 // Second Order: x0 --x2-- x1
-constexpr float PSF_Coeff_1D_2[3][3] = {{1, -3, 2}, {0, 4, -4}, {0, -1, 2}};
+constexpr float PSF_Coeff_1D_2[3][3] = {{1, -3, 2}, {0, -1, 2}, {0, 4, -4}};
 
 // ----------- 2-Simplex (Triangle) [Multivariate Polynomial] -----------
 // First Order:
-- 
2.43.0


From efe917cc0eebc0aaad101722a43e925d72ed496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 36/46] fix: gradient of the linear triangle does not depend on
 the constant weight

---
 src/lib/sf/PolyShapeFunction.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/sf/PolyShapeFunction.inl b/src/lib/sf/PolyShapeFunction.inl
index 01f279e..12aa32b 100644
--- a/src/lib/sf/PolyShapeFunction.inl
+++ b/src/lib/sf/PolyShapeFunction.inl
@@ -211,8 +211,8 @@ FixedVector<T,K> PolyShapePolicy<T,K,Order>::gradient(Index localComponent, cons
         if(Order == 1)
         {
             NS_ASSERT(localComponent < 3);
-            g[0] = nodeValues[1]*nodeValues[0]*PSF_Coeff_2D_1[localComponent][1];
-            g[1] = nodeValues[2]*nodeValues[0]*PSF_Coeff_2D_1[localComponent][2];
+            g[0] = nodeValues[1]*PSF_Coeff_2D_1[localComponent][1];
+            g[1] = nodeValues[2]*PSF_Coeff_2D_1[localComponent][2];
         }
         else if(Order == 2)
         {
-- 
2.43.0


From bc27bc0f783407dd7c41e8ebbf00eff60bd537c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 37/46] fix: second derivative of the cubic triangle

---
 src/lib/sf/PolyShapeFunction.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sf/PolyShapeFunction.inl b/src/lib/sf/PolyShapeFunction.inl
index 12aa32b..495ebdc 100644
--- a/src/lib/sf/PolyShapeFunction.inl
+++ b/src/lib/sf/PolyShapeFunction.inl
@@ -328,7 +328,7 @@ FixedVector<T,K> PolyShapePolicy<T,K,Order>::gradient2(Index localComponent, con
                 + nodeValues[6]*2*PSF_Coeff_2D_3[localComponent][6]*local[1]
                 + nodeValues[8]*6*PSF_Coeff_2D_3[localComponent][8]*local[0];
             g[1] = nodeValues[5]*2*PSF_Coeff_2D_3[localComponent][5]
-                + nodeValues[7]*2*PSF_Coeff_2D_3[localComponent][7]*local[1]
+                + nodeValues[7]*2*PSF_Coeff_2D_3[localComponent][7]*local[0]
                 + nodeValues[9]*6*PSF_Coeff_2D_3[localComponent][9]*local[1];
         }
     }
-- 
2.43.0


From 6b6bbb60bdeb4617848c82bb06d0a4ab0e7b45a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 38/46] fix: binom is zero above the upper argument

---
 src/lib/Utils.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/Utils.h b/src/lib/Utils.h
index b677078..38df163 100644
--- a/src/lib/Utils.h
+++ b/src/lib/Utils.h
@@ -45,6 +45,9 @@ namespace Math
 		if (k == 0)
 			return 1;
 
+		if ((T)k > n)
+			return 0;
+
 		if (2 * (T)k > n)//Really cast to T? What is with signed?
 			return binom(n, static_cast<k_t>(n - k));
 
-- 
2.43.0


From db85b93e81e8c857e3f03c17e023f57acd7aeb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:44 +0000
Subject: [PATCH 39/46] fix: triangle loader rejects elements with vertices out
 of range

---
 src/lib/loader/MeshTriangleLoader.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/loader/MeshTriangleLoader.inl b/src/lib/loader/MeshTriangleLoader.inl
index 5449ec9..c209cc4 100644
--- a/src/lib/loader/MeshTriangleLoader.inl
+++ b/src/lib/loader/MeshTriangleLoader.inl
@@ -151,6 +151,10 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 
 			// Everything else is ignored
 
+			const size_t count = mesh.vertices().size();
+			if(i1-indexShift >= count || i2-indexShift >= count || i3-indexShift >= count)
+				throw LoadTriangleElementErrorException();
+
 			MeshElement<T,2>* me = new MeshElement<T,2>();
 			me->Vertices[0] = mesh.vertex(i1-indexShift);
 			me->Vertices[1] = mesh.vertex(i2-indexShift);
-- 
2.43.0


From 1b2c4fc5473be4b2a5ed9def769ed78194ad2be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:44 +0000
Subject: [PATCH 40/46] fix: triangle loader does not step back in front of a
 line ending with a number

---
 src/lib/loader/MeshTriangleLoader.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/loader/MeshTriangleLoader.inl b/src/lib/loader/MeshTriangleLoader.inl
index c209cc4..02913f5 100644
--- a/src/lib/loader/MeshTriangleLoader.inl
+++ b/src/lib/loader/MeshTriangleLoader.inl
@@ -191,7 +191,10 @@ T2 MeshTriangleLoader<T>::extractFirstNumber(std::string::const_iterator& start,
 	std::stringstream stream(std::string(start, end));
 	T2 ret = 0;
 	stream >> ret;
-	start += stream.tellg();
+	if(stream.eof() || stream.fail())
+		start = end;
+	else
+		start += stream.tellg();
 
 	return ret;
 }
-- 
2.43.0


From 346ea6df2db913ffb4cb583749b250461185ead7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:44 +0000
Subject: [PATCH 41/46] fix: VTK export without point data

---
 src/lib/export/VTKExporter.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/export/VTKExporter.inl b/src/lib/export/VTKExporter.inl
index 1a3de4d..66f129a 100644
--- a/src/lib/export/VTKExporter.inl
+++ b/src/lib/export/VTKExporter.inl
@@ -92,7 +92,7 @@ void VTKExporter<T,K>::write(const std::string& path,
 	stream << "</Cells>" << std::endl;
 
 	// Point data
-	stream << "<PointData Scalars=\"" << pointData.begin()->first << "\">" << std::endl;
+	stream << "<PointData Scalars=\"" << (pointData.empty() ? std::string() : pointData.begin()->first) << "\">" << std::endl;
 	for(auto res : pointData)
 	{
 		stream << "<DataArray Name=\"" << res.first << "\" type=\"Float32\" format=\"ascii\">" << std::endl;
-- 
2.43.0


From 624258f09d2771e437d3dd3ad2f36a9305650cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:44 +0000
Subject: [PATCH 42/46] fix: VTK export declares the number of gradient
 components it writes

---
 src/lib/export/VTKExporter.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/export/VTKExporter.inl b/src/lib/export/VTKExporter.inl
index 66f129a..4d3d52f 100644
--- a/src/lib/export/VTKExporter.inl
+++ b/src/lib/export/VTKExporter.inl
@@ -154,7 +154,7 @@ void VTKExporter<T,K>::write(const std::string& path,
 	if(outputOptions & VOO_ElementGradient)
 	{
 		stream << "<DataArray Name=\"ElementGradient\" type=\"Float32\" NumberOfComponents=\"" 
-			<< (K*K) << "\" format=\"ascii\">" << std::endl;
+			<< K << "\" format=\"ascii\">" << std::endl;
 		for (MeshElement<T,K>* elem : mesh.elements())
 		{
 			const auto M = elem->Element.gradient(0);
-- 
2.43.0


From faa30c0bf8e1fbf71db98afcd854b977cd111727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:11 +0000
Subject: [PATCH 43/46] fix: triangle loader rejects fields that are not
 numbers

---
 src/lib/loader/MeshTriangleLoader.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/loader/MeshTriangleLoader.inl b/src/lib/loader/MeshTriangleLoader.inl
index 02913f5..9f8ec55 100644
--- a/src/lib/loader/MeshTriangleLoader.inl
+++ b/src/lib/loader/MeshTriangleLoader.inl
@@ -191,7 +191,10 @@ T2 MeshTriangleLoader<T>::extractFirstNumber(std::string::const_iterator& start,
 	std::stringstream stream(std::string(start, end));
 	T2 ret = 0;
 	stream >> ret;
-	if(stream.eof() || stream.fail())
+	if(stream.fail())
+		throw LoadTriangleNodeErrorException();
+
+	if(stream.eof())
 		start = end;
 	else
 		start += stream.tellg();
-- 
2.43.0


From d4a5db56fd413980cf6b3e56c19a13bf70a22db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:11 +0000
Subject: [PATCH 44/46] fix: triangle loader rejects files whose number of
 entries differs from the header

---
 src/lib/loader/MeshTriangleLoader.inl | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib/loader/MeshTriangleLoader.inl b/src/lib/loader/MeshTriangleLoader.inl
index 9f8ec55..82e43bc 100644
--- a/src/lib/loader/MeshTriangleLoader.inl
+++ b/src/lib/loader/MeshTriangleLoader.inl
@@ -33,6 +33,7 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 	uint32 parseMode = 0;
 	uint32 indexShift = 1;
 	size_t nextIndex = 0;
+	size_t count = 0;
 
 	std::istringstream f(nodeStr);
     std::string line;    
@@ -56,6 +57,7 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 				throw LoadTriangleNodeErrorException();
 			
 			mesh.reserveVertices(nodes);
+			count = nodes;
 			// Everything else is ignored!
 			parseMode = 1;
 		}
@@ -87,6 +89,9 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 			mesh.addVertex(mv);
 		}
     }
+
+	if(parseMode == 0 || nextIndex != count)
+		throw LoadTriangleNodeErrorException();
 }
 
 template<typename T>
@@ -95,6 +100,7 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 	uint32 parseMode = 0;
 	uint32 indexShift = 1;
 	size_t nextIndex = 0;
+	size_t elementCount = 0;
 
 	std::istringstream f(eleStr);
     std::string line;    
@@ -118,6 +124,7 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 				throw LoadTriangleElementErrorException();
 			
 			mesh.reserveVertices(nodes);
+			elementCount = nodes;
 			// Everything else is ignored!
 			parseMode = 1;
 		}
@@ -163,6 +170,9 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 			mesh.addElement(me);
 		}
     }
+
+	if(parseMode == 0 || nextIndex != elementCount)
+		throw LoadTriangleElementErrorException();
 }
 
 template<typename T>
-- 
2.43.0


From c26b7bdd90fb2bf73d3f71b4d4ea0950747eb9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:11 +0000
Subject: [PATCH 45/46] fix: mesh loaders reject elements with a repeated
 corner

---
 src/lib/loader/MeshTriangleLoader.inl  | 2 ++
 src/objloader/loader/MeshObjLoader.inl | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/src/lib/loader/MeshTriangleLoader.inl b/src/lib/loader/MeshTriangleLoader.inl
index 82e43bc..3669604 100644
--- a/src/lib/loader/MeshTriangleLoader.inl
+++ b/src/lib/loader/MeshTriangleLoader.inl
@@ -161,6 +161,8 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 			const size_t count = mesh.vertices().size();
 			if(i1-indexShift >= count || i2-indexShift >= count || i3-indexShift >= count)
 				throw LoadTriangleElementErrorException();
+			if(i1 == i2 || i1 == i3 || i2 == i3)
+				throw LoadTriangleElementErrorException();
 
 			MeshElement<T,2>* me = new MeshElement<T,2>();
 			me->Vertices[0] = mesh.vertex(i1-indexShift);
diff --git a/src/objloader/loader/MeshObjLoader.inl b/src/objloader/loader/MeshObjLoader.inl
index e238b1f..eda5e20 100644
--- a/src/objloader/loader/MeshObjLoader.inl
+++ b/src/objloader/loader/MeshObjLoader.inl
@@ -69,6 +69,12 @@ Mesh<T,2> MeshObjLoader<T,yI,xI>::load(const std::vector<tinyobj::shape_t>& shap
 				s->Vertices[j] = mesh.vertex(idx);
 			}
 
+			if (s->Vertices[0] == s->Vertices[1] || s->Vertices[0] == s->Vertices[2] || s->Vertices[1] == s->Vertices[2])
+			{
+				delete s;
+				throw LoadObjErrorException();
+			}
+
 			mesh.addElement(s);
 		}
 
-- 
2.43.0


From 445c57dfa0467725f4823e4398b02b0fc1fb94d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:27 +0000
Subject: [PATCH 46/46] fix: object loader rejects faces without three valid
 vertices

---
 src/objloader/external/tiny_obj_loader.h | 35 +++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index 820d0bf..c0b3cb7 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -518,7 +518,8 @@ static vertex_index parseTriple(const char *&token, int vsize, int vnsize,
                                 int vtsize) {
   vertex_index vi(-1);
 
-  vi.v_idx = fixIndex(atoi(token), vsize);
+  const int idx = atoi(token);
+  vi.v_idx = (idx == 0) ? -1 : fixIndex(idx, vsize); // There is no vertex 0
   token += strcspn(token, "/ \t\r");
   if (token[0] != '/') {
     return vi;
@@ -609,6 +610,26 @@ static void InitMaterial(material_t &material) {
   material.unknown_parameter.clear();
 }
 
+// A face needs at least three corners, each referring to a known vertex.
+static bool
+validFaceGroup(const std::vector<float> &in_positions,
+               const std::vector<std::vector<vertex_index> > &faceGroup,
+               std::string &err) {
+  const size_t vertexCount = in_positions.size() / 3;
+  for (size_t i = 0; i < faceGroup.size(); i++) {
+    bool valid = faceGroup[i].size() >= 3;
+    for (size_t k = 0; valid && k < faceGroup[i].size(); k++)
+      valid = faceGroup[i][k].v_idx >= 0 &&
+              static_cast<size_t>(faceGroup[i][k].v_idx) < vertexCount;
+
+    if (!valid) {
+      err += "Invalid face.\n";
+      return false;
+    }
+  }
+  return true;
+}
+
 static bool exportFaceGroupToShape(
     shape_t &shape, std::map<vertex_index, unsigned int> vertexCache,
     const std::vector<float> &in_positions,
@@ -1111,6 +1132,9 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
 
       if (newMaterialId != material) {
         // Create per-face material
+        if (!validFaceGroup(v, faceGroup, err)) {
+          return false;
+        }
         exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup, tags,
                                material, name, true, flags, err );
         faceGroup.clear();
@@ -1146,6 +1170,9 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
     if (token[0] == 'g' && IS_SPACE((token[1]))) {
 
       // flush previous face group.
+      if (!validFaceGroup(v, faceGroup, err)) {
+        return false;
+      }
       bool ret =
           exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup, tags,
                                  material, name, true, flags, err );
@@ -1183,6 +1210,9 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
     if (token[0] == 'o' && IS_SPACE((token[1]))) {
 
       // flush previous face group.
+      if (!validFaceGroup(v, faceGroup, err)) {
+        return false;
+      }
       bool ret =
           exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup, tags,
                                  material, name, true, flags, err );
@@ -1255,6 +1285,9 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
     // Ignore unknown command.
   }
 
+  if (!validFaceGroup(v, faceGroup, err)) {
+    return false;
+  }
   bool ret = exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup,
                                     tags, material, name, true, flags, err );
   if (ret) {
-- 
2.43.0

