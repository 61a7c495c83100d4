From 395a406475bc1a39acc7e13ecb2510065df147c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 01/42] fix: SparseMatrix::erase returns the row of the
 following entry past empty rows

---
 src/lib/matrix/SparseMatrix.inl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index bb62f06..0304b5a 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -622,8 +622,7 @@ SparseMatrixIterator<T> SparseMatrix<T>::erase(const SparseMatrixIterator<T>& it
 			{
 				if (mRowPtr[s1] == it.mColumnPtrIndex)
 				{
-					nIt.mIndex1 = s1;// New row
-					break;
+					nIt.mIndex1 = s1;// New row (the last match, rows before it are empty)
 				}
 				else if (mRowPtr[s1] > it.mColumnPtrIndex)
 				{
-- 
2.43.0


From 42f0e4550806edb0ace6d071799d5a47a2f0aeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 02/42] fix: SparseMatrix::column_begin accepts columns without
 entries

---
 src/lib/matrix/SparseMatrix.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 0304b5a..84cc1f6 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -518,7 +518,7 @@ const SparseMatrixColumnIterator<T> SparseMatrix<T>::column_begin(Index i) const
 	else
 	{
 		Index row = 0;
-		while (!has(row, i) && row != rows())
+		while (row != rows() && !has(row, i))
 			++row;
 
 		if (row == rows())
@@ -542,7 +542,7 @@ SparseMatrixColumnIterator<T> SparseMatrix<T>::column_begin(Index i)
 	else
 	{
 		Index row = 0;
-		while (!has(row, i) && row != rows())
+		while (row != rows() && !has(row, i))
 			++row;
 
 		if (row == rows())
-- 
2.43.0


From 1507e590e8ef711c91d47589f7518c99246f57df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 03/42] fix: SparseMatrix operators check the shape and work
 with the matrix itself as operand

---
 src/lib/matrix/SparseMatrix.inl | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 84cc1f6..2b279f2 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -643,6 +643,9 @@ SparseMatrixIterator<T> SparseMatrix<T>::erase(const SparseMatrixIterator<T>& it
 template<typename T>
 SparseMatrix<T>& SparseMatrix<T>::operator +=(const SparseMatrix<T>& v2)
 {
+	if (rows() != v2.rows() || columns() != v2.columns())
+		throw MatrixSizeMismatchException();
+
 	for (auto it = v2.cbegin(); it != v2.cend(); ++it)// O(D1*D2)
 		set(it.row(), it.column(), at(it.row(), it.column()) + *it);// O(D1*D2)
 
@@ -652,6 +655,12 @@ SparseMatrix<T>& SparseMatrix<T>::operator +=(const SparseMatrix<T>& v2)
 template<typename T>
 SparseMatrix<T>& SparseMatrix<T>::operator -=(const SparseMatrix<T>& v2)
 {
+	if (rows() != v2.rows() || columns() != v2.columns())
+		throw MatrixSizeMismatchException();
+
+	if (this == &v2)// Entries would be removed while iterating over them
+		return (*this *= (T)0);
+
 	for (auto it = v2.cbegin(); it != v2.cend(); ++it)
 		set(it.row(), it.column(), at(it.row(), it.column()) - *it);
 
@@ -661,21 +670,21 @@ SparseMatrix<T>& SparseMatrix<T>::operator -=(const SparseMatrix<T>& v2)
 template<typename T>
 SparseMatrix<T>& SparseMatrix<T>::operator *=(const SparseMatrix<T>& v2)
 {
-	for (auto it = v2.cbegin(); it != v2.cend(); ++it)// O(D1*D2)
-	{
-		bool found;
-		Index tmp;
-		T& val = const_cast<T&>(internal_at(it.row(), it.column(), tmp, found));// O(D2)
-
-		val *= *it;
-	}
+	if (rows() != v2.rows() || columns() != v2.columns())
+		throw MatrixSizeMismatchException();
 
 	for (auto it = begin(); it != end();)// O(D1*D2)
 	{
-		if (!v2.has(it.row(), it.column()))// O(D2)
+		const T val = *it * v2.at(it.row(), it.column());// O(D2)
+		if (val == (T)0)
+		{
 			it = erase(it);// O(D1*D2)
+		}
 		else
+		{
+			*it = val;
 			++it;
+		}
 	}
 
 	return *this;
-- 
2.43.0


From 5dc4e40f4a047bf02452ffb22de7246eec35daec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 04/42] fix: SparseMatrix::swap exchanges the column count too

---
 src/lib/matrix/SparseMatrix.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 2b279f2..dc833bf 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -840,6 +840,7 @@ void SparseMatrix<T>::swap(SparseMatrix<T>& v)
 	std::swap(mValues, v.mValues);
 	std::swap(mColumnPtr, v.mColumnPtr);
 	std::swap(mRowPtr, v.mRowPtr);
+	std::swap(mColumnCount, v.mColumnCount);
 }
 
 template<typename T>
-- 
2.43.0


From 43668b309deb3232fbcfd97d847401eab2185321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 05/42] fix: MatrixConverter names the dense matrix type

---
 src/lib/matrix/MatrixConverter.h   | 2 +-
 src/lib/matrix/MatrixConverter.inl | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/matrix/MatrixConverter.h b/src/lib/matrix/MatrixConverter.h
index 7742352..ead470c 100644
--- a/src/lib/matrix/MatrixConverter.h
+++ b/src/lib/matrix/MatrixConverter.h
@@ -20,7 +20,7 @@ namespace Convert
 	* @return The new dense matrix.
 	*/
 	template<typename T>
-	DynamicMatrix<T> toDenseMatrix(const SparseMatrix<T>& m);
+	DenseMatrix<T> toDenseMatrix(const SparseMatrix<T>& m);
 }
 
 NS_END_NAMESPACE
diff --git a/src/lib/matrix/MatrixConverter.inl b/src/lib/matrix/MatrixConverter.inl
index 1c38a06..0a45eae 100644
--- a/src/lib/matrix/MatrixConverter.inl
+++ b/src/lib/matrix/MatrixConverter.inl
@@ -24,9 +24,9 @@ namespace Convert
 	}
 
 	template<typename T>
-	DynamicMatrix<T> toDenseMatrix(const SparseMatrix<T>& m)
+	DenseMatrix<T> toDenseMatrix(const SparseMatrix<T>& m)
 	{
-		Matrix<T> res(m.rows(), m.columns());
+		DenseMatrix<T> res(m.rows(), m.columns());
 		for (auto it = m.begin(); it != m.end(); ++it)
 		{
 			res.set(it.row(), it.column(), *it);
-- 
2.43.0


From 7fcb5d7d7bb862cdd62d88fb9e2b135acdc2f2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 06/42] fix: FixedMatrix conjugate and adjugate use
 complex_conj

---
 src/lib/matrix/FixedMatrix.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/matrix/FixedMatrix.inl b/src/lib/matrix/FixedMatrix.inl
index 6dcd48a..c98b05a 100644
--- a/src/lib/matrix/FixedMatrix.inl
+++ b/src/lib/matrix/FixedMatrix.inl
@@ -111,7 +111,7 @@ FixedMatrix<T,K1,K2> FixedMatrix<T,K1,K2>::conjugate() const
 	{
 		for (Index j = 0; j < this->columns(); ++j)
 		{
-			tmp.set(i, j, conjugate_vt(this->at(i, j)));
+			tmp.set(i, j, complex_conj(this->at(i, j)));
 		}
 	}
 
@@ -126,7 +126,7 @@ FixedMatrix<T,K2,K1> FixedMatrix<T,K1,K2>::adjugate() const
 	{
 		for (Index j = 0; j < this->rows(); ++j)
 		{
-			tmp.set(i, j, conjugate_vt(this->at(j, i)));
+			tmp.set(i, j, complex_conj(this->at(j, i)));
 		}
 	}
 
-- 
2.43.0


From e6f764af9fce3db75dfe502a38b4468029fb6182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 07/42] fix: DenseMatrix element wise operators compare the
 shape, not only the number of entries

---
 src/lib/matrix/DenseMatrix.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/matrix/DenseMatrix.inl b/src/lib/matrix/DenseMatrix.inl
index b6aa00b..c76365a 100644
--- a/src/lib/matrix/DenseMatrix.inl
+++ b/src/lib/matrix/DenseMatrix.inl
@@ -59,7 +59,7 @@ template<typename T>
 template<class DC2>
 DenseMatrix<T>& DenseMatrix<T>::operator +=(const BaseMatrix<T,DC2>& m)
 {
-	if (this->size() != m.size())
+	if (this->rows() != m.rows() || this->columns() != m.columns())
 		throw MatrixSizeMismatchException();
 
 	for (Index i = 0; i < this->size(); ++i)
@@ -72,7 +72,7 @@ template<typename T>
 template<class DC2>
 DenseMatrix<T>& DenseMatrix<T>::operator -=(const BaseMatrix<T,DC2>& m)
 {
-	if (this->size() != m.size())
+	if (this->rows() != m.rows() || this->columns() != m.columns())
 		throw MatrixSizeMismatchException();
 
 	for (Index i = 0; i < this->size(); ++i)
@@ -85,7 +85,7 @@ template<typename T>
 template<class DC2>
 DenseMatrix<T>& DenseMatrix<T>::operator *=(const BaseMatrix<T,DC2>& m)
 {
-	if (this->size() != m.size())
+	if (this->rows() != m.rows() || this->columns() != m.columns())
 		throw MatrixSizeMismatchException();
 
 	for (Index i = 0; i < this->size(); ++i)
-- 
2.43.0


From 945b998c5903a815ad7aa0d834b6a4f4edb34ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 08/42] fix: max() of matrices and vectors is right when all
 entries are negative

---
 src/lib/CountableSet.inl        | 2 +-
 src/lib/matrix/BaseMatrix.inl   | 2 +-
 src/lib/matrix/SparseMatrix.inl | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/CountableSet.inl b/src/lib/CountableSet.inl
index 22a8dcd..d584ebf 100644
--- a/src/lib/CountableSet.inl
+++ b/src/lib/CountableSet.inl
@@ -76,7 +76,7 @@ T CountableSet<T, DC>::max() const
 {
 	typedef typename get_complex_internal<T>::type _t;
 
-	_t s = std::numeric_limits<_t>::min();
+	_t s = std::numeric_limits<_t>::lowest();
 	for (Index i = 0; i < size(); ++i)
 	{
 		_t d = complex_abs(mData[i]);
diff --git a/src/lib/matrix/BaseMatrix.inl b/src/lib/matrix/BaseMatrix.inl
index 3fc479c..37a11ca 100644
--- a/src/lib/matrix/BaseMatrix.inl
+++ b/src/lib/matrix/BaseMatrix.inl
@@ -372,7 +372,7 @@ T BaseMatrix<T,DC>::sum() const
 template<typename T, class DC>
 T BaseMatrix<T,DC>::max() const
 {
-	T s = std::numeric_limits<typename get_complex_internal<T>::type>::min();
+	T s = std::numeric_limits<typename get_complex_internal<T>::type>::lowest();
 	for (auto l : mValues.Container)
 	{
 		if (l > s)
diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index dc833bf..5ad37f0 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -769,7 +769,7 @@ T SparseMatrix<T>::sum() const
 template<typename T>
 T SparseMatrix<T>::max() const
 {
-	T s = std::numeric_limits<typename get_complex_internal<T>::type>::min();
+	T s = std::numeric_limits<typename get_complex_internal<T>::type>::lowest();
 	for (auto l : mValues)
 	{
 		if (l > s)
-- 
2.43.0


From 3c8096f8930573265645e8a743e2dea7f4c6d6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 09/42] fix: avg, has_nan and has_inf can be used with complex
 matrices

---
 src/lib/matrix/BaseMatrix.inl   | 6 +++---
 src/lib/matrix/SparseMatrix.inl | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib/matrix/BaseMatrix.inl b/src/lib/matrix/BaseMatrix.inl
index 37a11ca..34a2fca 100644
--- a/src/lib/matrix/BaseMatrix.inl
+++ b/src/lib/matrix/BaseMatrix.inl
@@ -398,7 +398,7 @@ T BaseMatrix<T,DC>::min() const
 template<typename T, class DC>
 T BaseMatrix<T,DC>::avg() const
 {
-	return sum() / size();
+	return sum() / (T)size();
 }
 
 template<typename T, class DC>
@@ -406,7 +406,7 @@ bool BaseMatrix<T,DC>::has_nan() const
 {
 	for (auto l : mValues.Container)
 	{
-		if (std::isnan(l))
+		if (complex_isnan(l))
 			return true;
 	}
 
@@ -418,7 +418,7 @@ bool BaseMatrix<T,DC>::has_inf() const
 {
 	for (auto l : mValues.Container)
 	{
-		if (std::isinf(l))
+		if (complex_isinf(l))
 			return true;
 	}
 
diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 5ad37f0..3c311d0 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -801,7 +801,7 @@ T SparseMatrix<T>::min() const
 template<typename T>
 T SparseMatrix<T>::avg() const
 {
-	return sum() / size();// Overflow?
+	return sum() / (T)size();// Overflow?
 }
 
 template<typename T>
@@ -809,7 +809,7 @@ bool SparseMatrix<T>::has_nan() const
 {
 	for (auto l : mValues)
 	{
-		if (std::isnan(l))
+		if (complex_isnan(l))
 			return true;
 	}
 
@@ -821,7 +821,7 @@ bool SparseMatrix<T>::has_inf() const
 {
 	for (auto l : mValues)
 	{
-		if (std::isinf(l))
+		if (complex_isinf(l))
 			return true;
 	}
 
-- 
2.43.0


From a4f97f476973c1de7e804cb3a851cb44019c97e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 10/42] fix: unary minus can be used with dynamic complex
 vectors

---
 src/lib/Vector.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Vector.inl b/src/lib/Vector.inl
index c8b41dc..4c6be8e 100644
--- a/src/lib/Vector.inl
+++ b/src/lib/Vector.inl
@@ -276,7 +276,7 @@ template<typename T, class DC>
 Vector<T,DC> operator -(const Vector<T,DC>& v)
 {
 	Vector<T,DC> tmp = v;
-	return (tmp *= -1);
+	return (tmp *= (T)-1);
 }
 
 template<typename T, class DC>
-- 
2.43.0


From 1a4d2118f94b7ba861e7e632091d4d5ecc389ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 11/42] fix: left, right and mid of dynamic vectors return
 vectors of the needed size

---
 src/lib/Vector.inl | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/lib/Vector.inl b/src/lib/Vector.inl
index 4c6be8e..1146f73 100644
--- a/src/lib/Vector.inl
+++ b/src/lib/Vector.inl
@@ -4,6 +4,22 @@
 
 NS_BEGIN_NAMESPACE
 
+// Only for internal use
+namespace Internal
+{
+	template<typename T>
+	inline void resize_container(dynamic_container_t<T>& c, Dimension size)
+	{
+		c.resize(size);
+	}
+
+	template<typename T, size_t N>
+	inline void resize_container(std::array<T, N>&, Dimension)
+	{
+		// Fixed containers always keep their size
+	}
+}
+
 template<typename T, class DC>
 Vector<T,DC>::Vector() :
 	CountableSet<T,DC>()
@@ -92,25 +108,25 @@ Vector<T,DC> Vector<T,DC>::normalized() const
 }
 
 // Boolean set operations
-// NOT WORKING
 template<typename T, class DC>
 Vector<T,DC> Vector<T,DC>::left(Index i) const
 {
 	NS_ASSERT(i < this->size());
 	Vector<T,DC> tmp;//Size i+1
+	Internal::resize_container(tmp.mData, i + 1);
 	for (Index j = 0; j < i + 1; ++j)
 		tmp.set(j, at(j));
 
 	return tmp;
 }
 
-// NOT WORKING
 template<typename T, class DC>
 Vector<T,DC> Vector<T,DC>::right(Index i) const
 {
 	NS_ASSERT(i < this->size());
 	
 	Vector<T,DC> tmp;//(this->size() - i)
+	Internal::resize_container(tmp.mData, this->size() - i);
 
 	for (Index j = i; j < this->size(); ++j)
 		tmp.set(j - i, at(j));
@@ -118,13 +134,14 @@ Vector<T,DC> Vector<T,DC>::right(Index i) const
 	return tmp;
 }
 
-// NOT WORKING
 template<typename T, class DC>
 Vector<T,DC> Vector<T,DC>::mid(Index start, Index end) const
 {
 	NS_ASSERT(start < end);
 
+	const Index last = end < this->size() ? end : this->size();
 	Vector<T,DC> tmp;//(end-start)
+	Internal::resize_container(tmp.mData, start < last ? last - start : 0);
 	for (Index i = start; i < end && i < this->size(); ++i)
 		tmp.set(i - start, at(i));
 
-- 
2.43.0


From 25489c867326ffb6fb8647cef68844cf75aa22ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 12/42] fix: doolittle overwrites all entries of L and P and
 releases its row table when it throws

---
 src/lib/LU.h   |  2 ++
 src/lib/LU.inl | 14 +++++++-------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/lib/LU.h b/src/lib/LU.h
index a1a3e41..c59b7fa 100644
--- a/src/lib/LU.h
+++ b/src/lib/LU.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <vector>
+
 #include "Types.h"
 #include "Exceptions.h"
 
diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index dc29013..3c16174 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -63,10 +63,14 @@ namespace LU {
 			if(pivotCount)
 				*pivotCount = 0;
 
-			Index* rowTable = new Index[n];
+			std::vector<Index> rowTable(n);
 			for (Index i = 0; i < n; ++i)
 			{
-				L.set(i, i, (T)1);
+				for (Index j = 0; j < n; ++j)
+				{
+					L.set(i, j, i == j ? (T)1 : (T)0);
+					P.set(i, j, (T)0);
+				}
 				rowTable[i] = i;
 			}
 			
@@ -127,8 +131,6 @@ namespace LU {
 			// Build pivot matrix
 			for (Index i = 0; i < n; ++i)
 				P.set(i,rowTable[i], (T)1);
-			
-			delete[] rowTable;
 		}
 
 		/* TODO: Optimize*/
@@ -146,7 +148,7 @@ namespace LU {
 			if(pivotCount)
 				*pivotCount = 0;
 
-			Index* rowTable = new Index[n];
+			std::vector<Index> rowTable(n);
 			for (Index i = 0; i < n; ++i)
 			{
 				L.set(i, i, (T)1);
@@ -211,8 +213,6 @@ namespace LU {
 			P = SparseMatrix<T>(n,n);
 			for (Index i = 0; i < n; ++i)
 				P.set(i,rowTable[i], (T)1);
-			
-			delete[] rowTable;
 		}
 
 		template<typename T>
-- 
2.43.0


From 38c2fe4411bc0456a7ea9608652c6ae6d887b0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 13/42] fix: doolittle leaves exact zeros below the diagonal of
 U

---
 src/lib/LU.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index 3c16174..c1fc039 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -123,7 +123,8 @@ namespace LU {
 				{
 					L.set(j,k, U.at(j,k)*invMid);
 
-					for(Index t = k; t < n; ++t)
+					U.set(j,k, (T)0);
+					for(Index t = k+1; t < n; ++t)
 						U.set(j,t, U.at(j,t) - L.at(j,k)*U.at(k,t));
 				}
 			}
@@ -204,7 +205,8 @@ namespace LU {
 				{
 					L.set(j,k, U.at(j,k)*invMid);
 
-					for(Index t = k; t < n; ++t)
+					U.set(j,k, (T)0);
+					for(Index t = k+1; t < n; ++t)
 						U.set(j,t, U.at(j,t) - L.at(j,k)*U.at(k,t));
 				}
 			}
-- 
2.43.0


From 32f46cff151ded5c1d7668e94814caa7d985370e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 14/42] fix: cholesky needs a positive pivot, conjugates
 complex entries and overwrites all of L

---
 src/lib/LU.inl | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index c1fc039..b60cff0 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -27,19 +27,22 @@ namespace LU {
 				for (Index k = 0; k < j; ++k)
 				{
 					T v = L.at(j, k);
-					s += v*v;
+					s += v*complex_conj(v);
 				}
 
 				s = m.at(j, j) - s;
-				if (!sqrt_allowed(s))
+				if (!(std::real(s) > 0))
 					throw NotPositiveDefiniteException();
 
-				L.set(j, j, std::sqrt(s));
-				for (Index i = j; i < L.rows(); ++i)
+				L.set(j, j, std::sqrt(std::real(s)));
+				for (Index i = 0; i < j; ++i)
+					L.set(i, j, (T)0);
+
+				for (Index i = j+1; i < L.rows(); ++i)
 				{
 					s = (T)0;
-					for (Index k = 0; k < i; ++k)
-						s += L.at(i, k)*L.at(j, k);
+					for (Index k = 0; k < j; ++k)
+						s += L.at(i, k)*complex_conj(L.at(j, k));
 					L.set(i, j, (m.at(i, j) - s) / L.at(j, j));
 				}
 			}
-- 
2.43.0


From 07292bd1a22a0b0eb0c071607423648f12070c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 15/42] fix: ilu0 does not depend on the previous content of
 its outputs and always sets the diagonal of L

---
 src/lib/LU.inl | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index b60cff0..5378167 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -247,11 +247,15 @@ namespace LU {
 			}
 
 			// Seperate M into L and U
+			L = SparseMatrix<T>(M.rows(), M.columns());
+			U = SparseMatrix<T>(M.rows(), M.columns());
+			for(Index i = 0; i < M.rows(); ++i)
+				L.set(i, i, 1);
+
 			for(auto it = M.begin(); it != M.end(); ++it)
 			{
 				if(it.column() == it.row())
 				{
-					L.set(it.row(), it.column(), 1);
 					U.set(it.row(), it.column(), *it);
 				}
 				else if(it.column() < it.row())
-- 
2.43.0


From 9b34222a3bdeb736fbd199be13c36cba6078a53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 16/42] fix: ainv_lu solves the columns of the inverse of U in
 the right order and overwrites its outputs

---
 src/lib/LU.inl | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index 5378167..94a9e35 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -352,11 +352,14 @@ namespace LU {
 			for(Index k = 0; k < N; ++k)
 			{
 				// L
+				for(Index i = 0; i < k; ++i)
+					invL.set(i,k, 0);
+
 				invL.set(k,k, 1);// Assuming L has only ones as diagonal entries
 
 				for(Index i = k+1; i < N; ++i)
 				{
-					T m = invL.at(i,k);
+					T m = (T)0;
 
 					auto it = L.row_begin(i);
 					while(it != L.row_end(i) && it.column() < k)// Skipping. Is zero
@@ -369,11 +372,12 @@ namespace LU {
 				}
 
 				// U
-				invU.set(k,k, 1/U.at(k,k));
-				
-				for(Index i = (N-1)-k; ; --i)
+				for(Index i = k+1; i < N; ++i)
+					invU.set(i,k, 0);
+
+				for(Index i = k; ; --i)
 				{
-					T m = invU.at(i,k);
+					T m = i == k ? (T)1 : (T)0;
 
 					auto it = U.row_begin(i);
 					while(it != U.row_end(i) && it.column() < i+1)// Skipping. Is zero
-- 
2.43.0


From 6c95821c86b886fede86c2ba95a2ae2ea43c2094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 17/42] fix: inverse(L,U) divides the entry of the column being
 solved

---
 src/lib/matrix/MatrixOperations.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/matrix/MatrixOperations.inl b/src/lib/matrix/MatrixOperations.inl
index f06e221..45dbec3 100644
--- a/src/lib/matrix/MatrixOperations.inl
+++ b/src/lib/matrix/MatrixOperations.inl
@@ -99,7 +99,7 @@ namespace Operations
 				if(std::abs(mid) <= std::numeric_limits<typename get_complex_internal<T>::type>::epsilon())
 					throw SingularException();
 				
-				Inv.set(j,j, Inv.at(j,j) / mid);
+				Inv.set(j,i, Inv.at(j,i) / mid);
 
 				if(j == 0)
 					break;
-- 
2.43.0


From a169a12a30d456cc655b6f754fc966cc46e6959d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:14 +0000
Subject: [PATCH 18/42] fix: inverse can be used with fixed matrices

---
 src/lib/matrix/MatrixOperations.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/matrix/MatrixOperations.inl b/src/lib/matrix/MatrixOperations.inl
index 45dbec3..0a0ab43 100644
--- a/src/lib/matrix/MatrixOperations.inl
+++ b/src/lib/matrix/MatrixOperations.inl
@@ -135,13 +135,13 @@ namespace Operations
 		M Inv = L;
 		for(Index i = 0; i < L.columns(); ++i)
 		{
-			b[i] = 1;
-			x = LU::serial::solve_lu(L,U,P.mul(b));
+			for(Index j = 0; j < L.rows(); ++j)
+				b[j] = P.at(j,i);
+
+			x = LU::serial::solve_lu(L,U,b);
 
 			for(Index j = 0; j < L.rows(); ++j)
 				Inv.set(j,i,x[j]);
-
-			b[i] = 0;
 		}
 		
 		return Inv;
-- 
2.43.0


From c704d74260ef6984edf9ac12c0565d14ae45f114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 19/42] fix: sor starts from the given start vector

---
 src/lib/Iterative.inl | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib/Iterative.inl b/src/lib/Iterative.inl
index 19a1cdb..315dcac 100644
--- a/src/lib/Iterative.inl
+++ b/src/lib/Iterative.inl
@@ -82,7 +82,6 @@ namespace Iterative
 
 			V x = x0;
 			V xm = x0;
-			xm.fill((T)0);
 
 			for (size_t it = 0; it < maxIter; ++it)
 			{
-- 
2.43.0


From 71ac09549fc8196c3f3b4be13114edce024e80d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 20/42] fix: jacobi and sor report every zero on the diagonal

---
 src/lib/Iterative.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/Iterative.inl b/src/lib/Iterative.inl
index 315dcac..ef9b9a0 100644
--- a/src/lib/Iterative.inl
+++ b/src/lib/Iterative.inl
@@ -39,6 +39,9 @@ namespace Iterative
 							mid = *rit;
 					}
 
+					if (mid == (T)0)
+						throw MatrixHasZeroInDiagException();
+
 					xm.set(i, (b.at(i) - t) / mid);
 				}
 
@@ -99,6 +102,9 @@ namespace Iterative
 							mid = *rit;
 					}
 
+					if (mid == (T)0)
+						throw MatrixHasZeroInDiagException();
+
 					t = (b.at(i) - t) / mid;
 					xm.set(i, rweight*xm.at(i) + weight*t);
 				}
-- 
2.43.0


From 61fdbe7eb6178bc88116d7ac622014e906a2e8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 21/42] fix: jacobi and sor measure the distance of complex
 iterates with absolute values

---
 src/lib/Iterative.inl | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/Iterative.inl b/src/lib/Iterative.inl
index ef9b9a0..de072db 100644
--- a/src/lib/Iterative.inl
+++ b/src/lib/Iterative.inl
@@ -45,7 +45,10 @@ namespace Iterative
 					xm.set(i, (b.at(i) - t) / mid);
 				}
 
-				auto conv = std::abs((xm - x).magSqr());
+				double conv = 0;
+				for (Index i = 0; i < a.rows(); ++i)
+					conv += std::norm(xm.at(i) - x.at(i));
+
 				if (std::isnan(conv))
 					throw MatrixHasZeroInDiagException();
 
@@ -109,7 +112,10 @@ namespace Iterative
 					xm.set(i, rweight*xm.at(i) + weight*t);
 				}
 
-				auto conv = std::abs((xm - x).magSqr());
+				double conv = 0;
+				for (Index i = 0; i < a.rows(); ++i)
+					conv += std::norm(xm.at(i) - x.at(i));
+
 				if (std::isnan(conv))
 					throw MatrixHasZeroInDiagException();
 
-- 
2.43.0


From 14ef4403d8ff5209e40f9dbf53704ae61050e49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 22/42] fix: cg updates its search direction with the previous
 direction and both methods stop at an exact start vector

---
 src/lib/CG.inl | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/lib/CG.inl b/src/lib/CG.inl
index 7678225..9909a24 100644
--- a/src/lib/CG.inl
+++ b/src/lib/CG.inl
@@ -27,28 +27,23 @@ namespace CG {
 
 			typename V2::value_type rs = r.magSqr();
 
-			V2 l;
 			size_t k = 0;
-			for (; k < maxIter; ++k)
+			for (; k < maxIter && rs > eps2; ++k)
 			{
 				const auto t = a.mul(p);
 				const typename M::value_type ak = rs / (t.dot(p));
 				x += ak*p;
-				l = r - ak*t;
-
-				const auto ls = l.magSqr();
-				if (ls < eps2 || k == maxIter-1)
-					break;
+				r -= ak*t;
 
+				const auto ls = r.magSqr();
 				const typename V2::value_type bk = ls / rs;
 
-				p = l + bk*r;
-				r = l;
+				p = r + bk*p;
 				rs = ls;
 			}
 
 			if (it_stat)
-				*it_stat = k + 1;
+				*it_stat = k;
 
 			return x;
 		}
@@ -81,16 +76,13 @@ namespace CG {
 			auto l1 = r.dot(z);
 			auto l2 = l1;
 			size_t k = 0;
-			for (; k < maxIter; ++k)
+			for (; k < maxIter && r.magSqr() > eps2; ++k)
 			{
 				const auto t = a.mul(p);
 				const typename M::value_type ak = l1 / (t.dot(p));
 				x += ak*p;
 				r -= ak*t;
 
-				if (r.magSqr() < eps2 || k == maxIter-1)
-					break;
-
 				z = c.mul(r);
 				l2 = r.dot(z);
 				p = z + (l2/l1)*p;
@@ -98,7 +90,7 @@ namespace CG {
 			}
 
 			if (it_stat)
-				*it_stat = k + 1;
+				*it_stat = k;
 
 			return x;
 		}
-- 
2.43.0


From dfa4abb4397386f6c9e7823d9a228f4f68208637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 23/42] fix: the jacobi preconditioner overwrites all entries
 of its output

---
 src/lib/CG.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/CG.inl b/src/lib/CG.inl
index 9909a24..602c00f 100644
--- a/src/lib/CG.inl
+++ b/src/lib/CG.inl
@@ -114,7 +114,8 @@ namespace CG {
 				const auto mid = A.at(i,i);
 				if(std::abs(mid) <= std::numeric_limits<typename get_complex_internal<T>::type>::epsilon())
 					throw SingularException();
-				C.set(i,i, 1/mid);
+				for(Index j = 0; j < A.columns(); ++j)
+					C.set(i,j, i == j ? (T)1/mid : (T)0);
 			}
 		}
 	}
-- 
2.43.0


From 8a9a635d1fe3518dc00dae7e6b74cf1863cbfb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:47 +0000
Subject: [PATCH 24/42] fix: cuthill_mckee numbers rows without entries too

---
 src/lib/matrix/MatrixOrder.inl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib/matrix/MatrixOrder.inl b/src/lib/matrix/MatrixOrder.inl
index a665e96..a7e842a 100644
--- a/src/lib/matrix/MatrixOrder.inl
+++ b/src/lib/matrix/MatrixOrder.inl
@@ -29,8 +29,7 @@ DynamicVector<Index> cuthill_mckee(const SparseMatrix<T>& m)
 	for(Index i = 0; i < m.rows(); ++i)
 	{
 		Index mc = m.row_filled_count(i);
-		if(mc > 0)
-			Rows.insert(std::pair<Dimension, Index>(mc, i));
+		Rows.insert(std::pair<Dimension, Index>(mc, i));
 	}
 	
 	while(!Rows.empty())
-- 
2.43.0


From 56c214fe9e6fca17ad251d2c622c82db7ec5a021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:47 +0000
Subject: [PATCH 25/42] fix: inverse_permutation is inline and can be used in
 several translation units

---
 src/lib/matrix/MatrixOrder.h   | 2 +-
 src/lib/matrix/MatrixOrder.inl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/matrix/MatrixOrder.h b/src/lib/matrix/MatrixOrder.h
index a02d229..c18af48 100644
--- a/src/lib/matrix/MatrixOrder.h
+++ b/src/lib/matrix/MatrixOrder.h
@@ -28,7 +28,7 @@ DynamicVector<Index> r_cuthill_mckee(const SparseMatrix<T>& m);
 template<typename T>
 SparseMatrix<T> permutation_matrix(const DynamicVector<Index>& permutation);
 
-DynamicVector<Index> inverse_permutation(const DynamicVector<Index>& permutation);
+inline DynamicVector<Index> inverse_permutation(const DynamicVector<Index>& permutation);
 
 /**
 * @brief Reorders the given matrix based on the permuation
diff --git a/src/lib/matrix/MatrixOrder.inl b/src/lib/matrix/MatrixOrder.inl
index a7e842a..5e1eda1 100644
--- a/src/lib/matrix/MatrixOrder.inl
+++ b/src/lib/matrix/MatrixOrder.inl
@@ -113,7 +113,7 @@ SparseMatrix<T> permutation_matrix(const DynamicVector<Index>& permutation)
 	return nm;
 }
 
-DynamicVector<Index> inverse_permutation(const DynamicVector<Index>& permutation)
+inline DynamicVector<Index> inverse_permutation(const DynamicVector<Index>& permutation)
 {
 	DynamicVector<Index> np(permutation.size());
 	for(Index i = 0; i < permutation.size(); ++i)
-- 
2.43.0


From 77f190335a0bf930d9b59e359e9e8b7cf2a4779a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:53 +0000
Subject: [PATCH 26/42] fix: Mesh::clear frees the edges too and tolerates a
 moved-from mesh

---
 src/lib/mesh/Mesh.inl | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/mesh/Mesh.inl b/src/lib/mesh/Mesh.inl
index 7d85878..9b8440d 100644
--- a/src/lib/mesh/Mesh.inl
+++ b/src/lib/mesh/Mesh.inl
@@ -117,6 +117,9 @@ Mesh<T,K>& Mesh<T,K>::operator =(Mesh<T,K>&& other)
 template<typename T, Dimension K>
 void Mesh<T,K>::clear()
 {
+	if(!mData)
+		return;
+
 	for(auto ptr : mData->Vertices)
 		delete ptr;
 	mData->Vertices.clear();
@@ -124,6 +127,10 @@ void Mesh<T,K>::clear()
 	for(auto ptr : mData->Elements)
 		delete ptr;
 	mData->Elements.clear();
+
+	for(auto ptr : mData->Edges)
+		delete ptr;
+	mData->Edges.clear();
 }
 
 template<typename T, Dimension K>
-- 
2.43.0


From 27d96072b2efddacbaec0425d3d6a4be7493f316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:53 +0000
Subject: [PATCH 27/42] fix: copying and assigning a mesh is safe for itself
 and for moved-from meshes

---
 src/lib/mesh/Mesh.inl | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib/mesh/Mesh.inl b/src/lib/mesh/Mesh.inl
index 9b8440d..9657cfe 100644
--- a/src/lib/mesh/Mesh.inl
+++ b/src/lib/mesh/Mesh.inl
@@ -49,7 +49,8 @@ template<typename T, Dimension K>
 Mesh<T,K>::Mesh(const Mesh<T,K>& other)
 {
 	mData = other.mData;
-	mData->Refs++;
+	if(mData)
+		mData->Refs++;
 }
 
 template<typename T, Dimension K>
@@ -77,6 +78,9 @@ Mesh<T,K>::~Mesh()
 template<typename T, Dimension K>
 Mesh<T,K>& Mesh<T,K>::operator =(const Mesh<T,K>& other)
 {
+	if(mData == other.mData)
+		return *this;
+
 	if(mData)
 	{
 		NS_ASSERT(mData->Refs > 0);
@@ -89,7 +93,8 @@ Mesh<T,K>& Mesh<T,K>::operator =(const Mesh<T,K>& other)
 	}
 
 	mData = other.mData;
-	mData->Refs++;
+	if(mData)
+		mData->Refs++;
 	
 	return *this;
 }
@@ -97,6 +102,9 @@ Mesh<T,K>& Mesh<T,K>::operator =(const Mesh<T,K>& other)
 template<typename T, Dimension K>
 Mesh<T,K>& Mesh<T,K>::operator =(Mesh<T,K>&& other)
 {
+	if(this == &other)
+		return *this;
+
 	if(mData)
 	{
 		NS_ASSERT(mData->Refs > 0);
-- 
2.43.0


From 75272c39ec36d279f623b0585caa1dbe994544e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:53 +0000
Subject: [PATCH 28/42] fix: HyperCube takes the cell counts of the right
 direction

---
 src/lib/mesh/HyperCube.inl | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib/mesh/HyperCube.inl b/src/lib/mesh/HyperCube.inl
index 6bfa5db..ca8b386 100644
--- a/src/lib/mesh/HyperCube.inl
+++ b/src/lib/mesh/HyperCube.inl
@@ -40,10 +40,10 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 	ey.fill((T)0);
 	ey[1] = size[1]/(T)elements[1];
 	
-	MV** lastRowVertices = new MV*[elements[1]+1];
+	MV** lastRowVertices = new MV*[elements[0]+1];
 
 	// Generate first row
-	for(Index j = 0; j <= elements[1]; ++j)
+	for(Index j = 0; j <= elements[0]; ++j)
 	{
 		MV* v = new MV(offset + ex*(T)j);
 		v->Flags |= MVF_StrongBoundary;
@@ -52,7 +52,7 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 	}
 
 	// Iterate over rows
-	for(Index i = 1; i <= elements[0]; ++i)
+	for(Index i = 1; i <= elements[1]; ++i)
 	{
 		const auto py = ey*(T)i;
 		MV* lastVertex = new MV(offset + py);
@@ -60,7 +60,7 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 
 		mesh.addVertex(lastVertex);
 
-		for(Index j = 1; j <= elements[1]; ++j)
+		for(Index j = 1; j <= elements[0]; ++j)
 		{
 			MV* v = new MV(offset + ex*(T)j + py);
 			mesh.addVertex(v);
@@ -83,11 +83,11 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 
 		lastVertex->Flags |= MVF_StrongBoundary;// Set last column as boundary
 
-		lastRowVertices[elements[1]] = lastVertex;
+		lastRowVertices[elements[0]] = lastVertex;
 	}
 
 	// Set last row as boundary
-	for(Index j = 0; j <= elements[1]; ++j)
+	for(Index j = 0; j <= elements[0]; ++j)
 		lastRowVertices[j]->Flags |= MVF_StrongBoundary;
 
 
-- 
2.43.0


From 94342a0f6f32683ac1501fc142c20b857bbe3824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:53 +0000
Subject: [PATCH 29/42] fix: Simplex::center is the circumcenter of any
 triangle

---
 src/lib/Simplex.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Simplex.inl b/src/lib/Simplex.inl
index 0dc69b0..768395e 100644
--- a/src/lib/Simplex.inl
+++ b/src/lib/Simplex.inl
@@ -83,7 +83,7 @@ typename Simplex<T,K>::vertex_t Simplex<T,K>::center() const
 	vertex_t v;
 	v[0] = b[1]*a.magSqr() - a[1]*b.magSqr();
 	v[1] = a[0]*b.magSqr() - b[0]*a.magSqr();
-	return v / (T)2 * mDeterminant;
+	return mVertices[0] + v / ((T)2 * mDeterminant);
 }
 
 template<typename T, Dimension K>
-- 
2.43.0


From a0222907cb02f1ae582153f152a24a04430e203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:30 +0000
Subject: [PATCH 30/42] fix: setupNeighbors enters elements added later in the
 edges that exist already

---
 src/lib/mesh/Mesh.inl | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/lib/mesh/Mesh.inl b/src/lib/mesh/Mesh.inl
index 9657cfe..9a6f445 100644
--- a/src/lib/mesh/Mesh.inl
+++ b/src/lib/mesh/Mesh.inl
@@ -313,7 +313,18 @@ void Mesh<T,K>::setupNeighbors()
 					// Add if found
 					if(!found)
 					{
-						edge->Elements[1]->Neighbors[j] = edge;
+						MeshEdge<T,K>*& neighbor = edge->Elements[1]->Neighbors[j];
+						if(neighbor)// The edge is known from an earlier setup
+						{
+							neighbor->Elements[1] = S;
+							S->Neighbors[i] = neighbor;
+							mData->Edges.pop_back();
+							delete edge;
+						}
+						else
+						{
+							neighbor = edge;
+						}
 						break;
 					}
 				}
-- 
2.43.0


From cfbadf2644bee1540f5710e2bce110411432e45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:57 +0000
Subject: [PATCH 31/42] fix: the number of shape functions is right for every
 dimension and order

---
 src/lib/sf/PolyShapeFunction.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/sf/PolyShapeFunction.h b/src/lib/sf/PolyShapeFunction.h
index 8911902..57526f7 100644
--- a/src/lib/sf/PolyShapeFunction.h
+++ b/src/lib/sf/PolyShapeFunction.h
@@ -4,6 +4,7 @@
 #include "mesh/Mesh.h"
 #include "matrix/DenseMatrix.h"
 #include "Vector.h"
+#include "Utils.h"
 
 NS_BEGIN_NAMESPACE
 
@@ -14,7 +15,8 @@ template<typename T, Dimension K, Dimension Order>
 class PolyShapePolicy
 {
 public:
-	static constexpr Dimension DOF = (K+1)*Order;// Wrong, but works for Order < 3
+	// Binomial coefficient (K+Order over Order)
+	static constexpr Dimension DOF = Math::factorial<Dimension>(K+Order)/(Math::factorial<Dimension>(K)*Math::factorial<Dimension>(Order));
 
 	// For the standard k-simplex
 	T value(Index localComponent, const FixedVector<T,K>& local) const;
-- 
2.43.0


From 86290cfff9785e545694b921f5c341a238acd19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:57 +0000
Subject: [PATCH 32/42] fix: second order shape functions of lines follow the
 documented node order

---
 src/lib/sf/PolyShapeFunction.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sf/PolyShapeFunction.inl b/src/lib/sf/PolyShapeFunction.inl
index c89473e..01f279e 100644
--- a/src/lib/sf/PolyShapeFunction.inl
+++ b/src/lib/sf/PolyShapeFunction.inl
@@ -13,7 +13,7 @@ NS_BEGIN_NAMESPACE
 constexpr float PSF_Coeff_1D_1[2][2] = {{1, -1}, {0,1}};
 
 // Second Order: x0 --x2-- x1
-constexpr float PSF_Coeff_1D_2[3][3] = {{1, -3, 2}, {0, 4, -4}, {0, -1, 2}};
+constexpr float PSF_Coeff_1D_2[3][3] = {{1, -3, 2}, {0, -1, 2}, {0, 4, -4}};
 
 // ----------- 2-Simplex (Triangle) [Multivariate Polynomial] -----------
 // First Order:
-- 
2.43.0


From 1108c1a25b16c6af09debd19f290eaa6b951267b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:57 +0000
Subject: [PATCH 33/42] fix: second y-derivative of third order shape functions
 uses x for the xy^2 term

---
 src/lib/sf/PolyShapeFunction.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sf/PolyShapeFunction.inl b/src/lib/sf/PolyShapeFunction.inl
index 01f279e..ee1034e 100644
--- a/src/lib/sf/PolyShapeFunction.inl
+++ b/src/lib/sf/PolyShapeFunction.inl
@@ -328,7 +328,7 @@ FixedVector<T,K> PolyShapePolicy<T,K,Order>::gradient2(Index localComponent, con
                 + nodeValues[6]*2*PSF_Coeff_2D_3[localComponent][6]*local[1]
                 + nodeValues[8]*6*PSF_Coeff_2D_3[localComponent][8]*local[0];
             g[1] = nodeValues[5]*2*PSF_Coeff_2D_3[localComponent][5]
-                + nodeValues[7]*2*PSF_Coeff_2D_3[localComponent][7]*local[1]
+                + nodeValues[7]*2*PSF_Coeff_2D_3[localComponent][7]*local[0]
                 + nodeValues[9]*6*PSF_Coeff_2D_3[localComponent][9]*local[1];
         }
     }
-- 
2.43.0


From 08e446cb79046e0f11c287f3623a2f28286291f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:57 +0000
Subject: [PATCH 34/42] fix: VTKExporter can be used without point data

---
 src/lib/export/VTKExporter.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/export/VTKExporter.inl b/src/lib/export/VTKExporter.inl
index 1a3de4d..231c68a 100644
--- a/src/lib/export/VTKExporter.inl
+++ b/src/lib/export/VTKExporter.inl
@@ -92,7 +92,10 @@ void VTKExporter<T,K>::write(const std::string& path,
 	stream << "</Cells>" << std::endl;
 
 	// Point data
-	stream << "<PointData Scalars=\"" << pointData.begin()->first << "\">" << std::endl;
+	stream << "<PointData";
+	if(!pointData.empty())
+		stream << " Scalars=\"" << pointData.begin()->first << "\"";
+	stream << ">" << std::endl;
 	for(auto res : pointData)
 	{
 		stream << "<DataArray Name=\"" << res.first << "\" type=\"Float32\" format=\"ascii\">" << std::endl;
-- 
2.43.0


From 9d6ecd855938c68c99ba22ee859f2b9ccc9faa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:57 +0000
Subject: [PATCH 35/42] fix: VTKExporter declares the right number of
 components for gradients

---
 src/lib/export/VTKExporter.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/export/VTKExporter.inl b/src/lib/export/VTKExporter.inl
index 231c68a..bc227c0 100644
--- a/src/lib/export/VTKExporter.inl
+++ b/src/lib/export/VTKExporter.inl
@@ -157,7 +157,7 @@ void VTKExporter<T,K>::write(const std::string& path,
 	if(outputOptions & VOO_ElementGradient)
 	{
 		stream << "<DataArray Name=\"ElementGradient\" type=\"Float32\" NumberOfComponents=\"" 
-			<< (K*K) << "\" format=\"ascii\">" << std::endl;
+			<< K << "\" format=\"ascii\">" << std::endl;
 		for (MeshElement<T,K>* elem : mesh.elements())
 		{
 			const auto M = elem->Element.gradient(0);
-- 
2.43.0


From b0e83912b60cf61dfdc6746fc76cb814bb1adf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:57 +0000
Subject: [PATCH 36/42] fix: binom is 0 for k > n and does not overflow for k
 close to n

---
 src/lib/Utils.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/Utils.h b/src/lib/Utils.h
index b677078..b834a9f 100644
--- a/src/lib/Utils.h
+++ b/src/lib/Utils.h
@@ -45,7 +45,10 @@ namespace Math
 		if (k == 0)
 			return 1;
 
-		if (2 * (T)k > n)//Really cast to T? What is with signed?
+		if (n >= 0 && k > static_cast<k_t>(n))
+			return 0;
+
+		if ((T)k > n - (T)k)//Really cast to T? What is with signed?
 			return binom(n, static_cast<k_t>(n - k));
 
 		T v = n - k + 1;
-- 
2.43.0


From c07ec224284d7bf0072443097e575f92bfb901df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 37/42] fix: MeshTriangleLoader reads numbers as whole fields
 and reports fields that are not numbers

---
 src/lib/loader/MeshTriangleLoader.h   |  4 +-
 src/lib/loader/MeshTriangleLoader.inl | 91 ++++++++++++++-------------
 2 files changed, 50 insertions(+), 45 deletions(-)

diff --git a/src/lib/loader/MeshTriangleLoader.h b/src/lib/loader/MeshTriangleLoader.h
index d5badfd..fc9692e 100644
--- a/src/lib/loader/MeshTriangleLoader.h
+++ b/src/lib/loader/MeshTriangleLoader.h
@@ -24,8 +24,8 @@ private:
 		std::string::const_iterator end);
 	
 	template<typename T2>
-	static T2 extractFirstNumber(std::string::const_iterator& it,
-		std::string::const_iterator end);
+	static bool extractFirstNumber(std::string::const_iterator& it,
+		std::string::const_iterator end, T2& value);// False if the field is not a number
 
 	static void setupNode(Mesh<T,2>& mesh, const std::string& nodeStr);
 	static void setupElement(Mesh<T,2>& mesh, const std::string& eleStr);
diff --git a/src/lib/loader/MeshTriangleLoader.inl b/src/lib/loader/MeshTriangleLoader.inl
index 5449ec9..01b146c 100644
--- a/src/lib/loader/MeshTriangleLoader.inl
+++ b/src/lib/loader/MeshTriangleLoader.inl
@@ -46,13 +46,13 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 
 		if(parseMode == 0)//First Line
 		{
-			size_t nodes = extractFirstNumber<size_t>(it, line.end());
-
-			if(nodes == 0)
+			size_t nodes;
+			if(!extractFirstNumber(it, line.cend(), nodes) || nodes == 0)
 				throw LoadTriangleNodeErrorException();
 
-			skipWS(it, line.end());
-			if(it == line.end() || extractFirstNumber<int>(it, line.end()) != 2)
+			int dimension;
+			skipWS(it, line.cend());
+			if(!extractFirstNumber(it, line.cend(), dimension) || dimension != 2)
 				throw LoadTriangleNodeErrorException();
 			
 			mesh.reserveVertices(nodes);
@@ -61,7 +61,10 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 		}
 		else// Vertices
 		{
-			size_t index = extractFirstNumber<size_t>(it, line.end());
+			size_t index;
+			if(!extractFirstNumber(it, line.cend(), index))
+				throw LoadTriangleNodeErrorException();
+
 			if(index == 0)
 				indexShift = 0;
 			
@@ -69,18 +72,16 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 				throw LoadTriangleNodeErrorException();
 			nextIndex = index-indexShift + 1;
 			
-			skipWS(it, line.end());
-			if(it == line.end())
+			T e1;
+			skipWS(it, line.cend());
+			if(!extractFirstNumber(it, line.cend(), e1))
 				throw LoadTriangleNodeErrorException();
-			
-			T e1 = extractFirstNumber<T>(it, line.end());
 
-			skipWS(it, line.end());
-			if(it == line.end())
+			T e2;
+			skipWS(it, line.cend());
+			if(!extractFirstNumber(it, line.cend(), e2))
 				throw LoadTriangleNodeErrorException();
 
-			T e2 = extractFirstNumber<T>(it, line.end());
-
 			// Everything else is ignored
 
 			MeshVertex<T,2>* mv = new MeshVertex<T,2>(FixedVector<T,2>{e1,e2});
@@ -108,13 +109,13 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 
 		if(parseMode == 0)//First Line
 		{
-			size_t nodes = extractFirstNumber<size_t>(it, line.end());
-
-			if(nodes == 0)
+			size_t nodes;
+			if(!extractFirstNumber(it, line.cend(), nodes) || nodes == 0)
 				throw LoadTriangleElementErrorException();
 
-			skipWS(it, line.end());
-			if(it == line.end() || extractFirstNumber<int>(it, line.end()) != 3)
+			int corners;
+			skipWS(it, line.cend());
+			if(!extractFirstNumber(it, line.cend(), corners) || corners != 3)
 				throw LoadTriangleElementErrorException();
 			
 			mesh.reserveVertices(nodes);
@@ -123,31 +124,31 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 		}
 		else// Vertices
 		{
-			size_t index = extractFirstNumber<size_t>(it, line.end());
+			size_t index;
+			if(!extractFirstNumber(it, line.cend(), index))
+				throw LoadTriangleElementErrorException();
+
 			if(index == 0)
 				indexShift = 0;
 			
 			if(index-indexShift != nextIndex)
-				throw LoadTriangleNodeErrorException();
+				throw LoadTriangleElementErrorException();
 			nextIndex = index-indexShift + 1;
 			
-			skipWS(it, line.end());
-			if(it == line.end())
-				throw LoadTriangleNodeErrorException();
-			
-			size_t i1 = extractFirstNumber<size_t>(it, line.end());
-
-			skipWS(it, line.end());
-			if(it == line.end())
-				throw LoadTriangleNodeErrorException();
-
-			size_t i2 = extractFirstNumber<size_t>(it, line.end());
+			size_t i1;
+			skipWS(it, line.cend());
+			if(!extractFirstNumber(it, line.cend(), i1))
+				throw LoadTriangleElementErrorException();
 
-			skipWS(it, line.end());
-			if(it == line.end())
-				throw LoadTriangleNodeErrorException();
+			size_t i2;
+			skipWS(it, line.cend());
+			if(!extractFirstNumber(it, line.cend(), i2))
+				throw LoadTriangleElementErrorException();
 
-			size_t i3 = extractFirstNumber<size_t>(it, line.end());
+			size_t i3;
+			skipWS(it, line.cend());
+			if(!extractFirstNumber(it, line.cend(), i3))
+				throw LoadTriangleElementErrorException();
 
 			// Everything else is ignored
 
@@ -181,15 +182,19 @@ void MeshTriangleLoader<T>::skipWS(std::string::const_iterator& it,
 
 template<typename T>
 template<typename T2>
-T2 MeshTriangleLoader<T>::extractFirstNumber(std::string::const_iterator& start,
-	std::string::const_iterator end)
+bool MeshTriangleLoader<T>::extractFirstNumber(std::string::const_iterator& start,
+	std::string::const_iterator end, T2& value)
 {
-	std::stringstream stream(std::string(start, end));
-	T2 ret = 0;
-	stream >> ret;
-	start += stream.tellg();
+	const auto first = start;
+	while(start != end && *start != '#' && !isspace(*start))
+		++start;
+
+	// The streams would wrap negative numbers around
+	if(std::is_unsigned<T2>::value && first != start && *first == '-')
+		return false;
 
-	return ret;
+	std::istringstream stream(std::string(first, start));
+	return (stream >> value) && stream.peek() == std::istringstream::traits_type::eof();
 }
 
 NS_END_NAMESPACE
\ No newline at end of file
-- 
2.43.0


From e5b761a70861ac9220c67632cab340e20afccbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 38/42] fix: MeshTriangleLoader rejects vertices outside of the
 mesh

---
 src/lib/loader/MeshTriangleLoader.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/loader/MeshTriangleLoader.inl b/src/lib/loader/MeshTriangleLoader.inl
index 01b146c..adc1a61 100644
--- a/src/lib/loader/MeshTriangleLoader.inl
+++ b/src/lib/loader/MeshTriangleLoader.inl
@@ -152,6 +152,10 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 
 			// Everything else is ignored
 
+			const size_t count = mesh.vertices().size();
+			if(i1-indexShift >= count || i2-indexShift >= count || i3-indexShift >= count)
+				throw LoadTriangleElementErrorException();
+
 			MeshElement<T,2>* me = new MeshElement<T,2>();
 			me->Vertices[0] = mesh.vertex(i1-indexShift);
 			me->Vertices[1] = mesh.vertex(i2-indexShift);
-- 
2.43.0


From ef83b8792e7a2b20cb2e9a8f4f17a7ddbfc6ac43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 39/42] fix: MeshTriangleLoader reports a missing header and a
 wrong number of lines

---
 src/lib/loader/MeshTriangleLoader.inl | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lib/loader/MeshTriangleLoader.inl b/src/lib/loader/MeshTriangleLoader.inl
index adc1a61..415f369 100644
--- a/src/lib/loader/MeshTriangleLoader.inl
+++ b/src/lib/loader/MeshTriangleLoader.inl
@@ -33,6 +33,7 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 	uint32 parseMode = 0;
 	uint32 indexShift = 1;
 	size_t nextIndex = 0;
+	size_t nodes = 0;
 
 	std::istringstream f(nodeStr);
     std::string line;    
@@ -46,7 +47,6 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 
 		if(parseMode == 0)//First Line
 		{
-			size_t nodes;
 			if(!extractFirstNumber(it, line.cend(), nodes) || nodes == 0)
 				throw LoadTriangleNodeErrorException();
 
@@ -55,7 +55,6 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 			if(!extractFirstNumber(it, line.cend(), dimension) || dimension != 2)
 				throw LoadTriangleNodeErrorException();
 			
-			mesh.reserveVertices(nodes);
 			// Everything else is ignored!
 			parseMode = 1;
 		}
@@ -88,6 +87,9 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 			mesh.addVertex(mv);
 		}
     }
+
+	if(parseMode == 0 || nextIndex != nodes)
+		throw LoadTriangleNodeErrorException();
 }
 
 template<typename T>
@@ -96,6 +98,7 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 	uint32 parseMode = 0;
 	uint32 indexShift = 1;
 	size_t nextIndex = 0;
+	size_t elements = 0;
 
 	std::istringstream f(eleStr);
     std::string line;    
@@ -109,8 +112,7 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 
 		if(parseMode == 0)//First Line
 		{
-			size_t nodes;
-			if(!extractFirstNumber(it, line.cend(), nodes) || nodes == 0)
+			if(!extractFirstNumber(it, line.cend(), elements) || elements == 0)
 				throw LoadTriangleElementErrorException();
 
 			int corners;
@@ -118,7 +120,6 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 			if(!extractFirstNumber(it, line.cend(), corners) || corners != 3)
 				throw LoadTriangleElementErrorException();
 			
-			mesh.reserveVertices(nodes);
 			// Everything else is ignored!
 			parseMode = 1;
 		}
@@ -164,6 +165,9 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 			mesh.addElement(me);
 		}
     }
+
+	if(parseMode == 0 || nextIndex != elements)
+		throw LoadTriangleElementErrorException();
 }
 
 template<typename T>
-- 
2.43.0


From fb2c3607d333bc4510d17e33123de8329c08c18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:49 +0000
Subject: [PATCH 40/42] fix: keep the faces of an OBJ shape that ends after a
 material change

A usemtl line moves the collected faces into the current shape. When no face
followed before the next g or o line or the end of the text, the shape was
dropped together with these faces.
---
 src/objloader/external/tiny_obj_loader.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index 820d0bf..e60d64d 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -1149,7 +1149,7 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
       bool ret =
           exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup, tags,
                                  material, name, true, flags, err );
-      if (ret) {
+      if (ret || !shape.mesh.indices.empty()) {
         shapes.push_back(shape);
       }
 
@@ -1186,7 +1186,7 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
       bool ret =
           exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup, tags,
                                  material, name, true, flags, err );
-      if (ret) {
+      if (ret || !shape.mesh.indices.empty()) {
         shapes.push_back(shape);
       }
 
@@ -1257,7 +1257,7 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
 
   bool ret = exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup,
                                     tags, material, name, true, flags, err );
-  if (ret) {
+  if (ret || !shape.mesh.indices.empty()) {
     shapes.push_back(shape);
   }
   faceGroup.clear(); // for safety
-- 
2.43.0


From b8ad50e06ac802632fc8683cad22327c84feeb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:48 +0000
Subject: [PATCH 41/42] fix: vector += -= *= with one of its own entries use
 the original value

---
 src/lib/Vector.inl | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib/Vector.inl b/src/lib/Vector.inl
index 1146f73..926fb52 100644
--- a/src/lib/Vector.inl
+++ b/src/lib/Vector.inl
@@ -176,8 +176,9 @@ Vector<T,DC>& Vector<T,DC>::operator +=(const Vector<T,DC>& v)
 template<typename T, class DC>
 Vector<T,DC>& Vector<T,DC>::operator +=(const T& f)
 {
+	const T s = f;// f could be an entry of this vector
 	for (Index i = 0; i < this->size(); ++i)
-		this->mData[i] += f;
+		this->mData[i] += s;
 
 	return *this;
 }
@@ -197,8 +198,9 @@ Vector<T,DC>& Vector<T,DC>::operator -=(const Vector<T,DC>& v)
 template<typename T, class DC>
 Vector<T,DC>& Vector<T,DC>::operator -=(const T& f)
 {
+	const T s = f;// f could be an entry of this vector
 	for (Index i = 0; i < this->size(); ++i)
-		this->mData[i] -= f;
+		this->mData[i] -= s;
 
 	return *this;
 }
@@ -218,8 +220,9 @@ Vector<T,DC>& Vector<T,DC>::operator *=(const Vector<T,DC>& v)
 template<typename T, class DC>
 Vector<T,DC>& Vector<T,DC>::operator *=(const T& f)
 {
+	const T s = f;// f could be an entry of this vector
 	for (Index i = 0; i < this->size(); ++i)
-		this->mData[i] *= f;
+		this->mData[i] *= s;
 
 	return *this;
 }
-- 
2.43.0


From 1ab6dd7c57653e99b7f01d37e407eca4a785a31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:48 +0000
Subject: [PATCH 42/42] fix: matrix *= with one of its own entries uses the
 original value

---
 src/lib/matrix/DenseMatrix.inl  | 3 ++-
 src/lib/matrix/FixedMatrix.inl  | 3 ++-
 src/lib/matrix/SparseMatrix.inl | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib/matrix/DenseMatrix.inl b/src/lib/matrix/DenseMatrix.inl
index c76365a..9e9b413 100644
--- a/src/lib/matrix/DenseMatrix.inl
+++ b/src/lib/matrix/DenseMatrix.inl
@@ -97,8 +97,9 @@ DenseMatrix<T>& DenseMatrix<T>::operator *=(const BaseMatrix<T,DC2>& m)
 template<typename T>
 DenseMatrix<T>& DenseMatrix<T>::operator *=(const T& f)
 {
+	const T s = f;// f could be an entry of this matrix
 	for (Index i = 0; i < this->size(); ++i)
-		this->mValues.Container[i] *= f;
+		this->mValues.Container[i] *= s;
 
 	return *this;
 }
diff --git a/src/lib/matrix/FixedMatrix.inl b/src/lib/matrix/FixedMatrix.inl
index c98b05a..caec26c 100644
--- a/src/lib/matrix/FixedMatrix.inl
+++ b/src/lib/matrix/FixedMatrix.inl
@@ -76,8 +76,9 @@ FixedMatrix<T,K1,K2>& FixedMatrix<T,K1,K2>::operator *=(const FixedMatrix<T,K1,K
 template<typename T, Dimension K1, Dimension K2>
 FixedMatrix<T,K1,K2>& FixedMatrix<T,K1,K2>::operator *=(const T& f)
 {
+	const T s = f;// f could be an entry of this matrix
 	for (Index i = 0; i < this->size(); ++i)
-		this->mValues.Container[i] *= f;
+		this->mValues.Container[i] *= s;
 
 	return *this;
 }
diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 3c311d0..dd4b2ab 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -701,8 +701,9 @@ SparseMatrix<T>& SparseMatrix<T>::operator *=(const T& f)
 	}
 	else
 	{
+		const T s = f;// f could be an entry of this matrix
 		for (auto it = begin(); it != end(); ++it)// O(D1*D2)
-			*it *= f; // O(1)
+			*it *= s; // O(1)
 	}
 
 	return *this;
-- 
2.43.0

