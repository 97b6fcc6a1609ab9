From dde3795a9eaa685ec1da67a0019e9cdbd063cfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 01/29] fix: keep existing rows when Matrix::set_rows grows a
 matrix

---
 src/libcatnip/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index b206b70..5c5d877 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -480,7 +480,7 @@ void Matrix::set_rows(int r) {
     for (int i = 1; i <= r; i++) {
       for (int j = 1; j <= cols; j++) {
         for (int k = 1; k <= shel; k++) {
-          if (r <= rows) {
+          if (i <= rows) {
             temp[index(i, j, k)] = elem[index(i, j, k)];
           } else {
             temp[index(i, j, k)] = 0;
-- 
2.43.0


From 2a14dffbc1484386fcffde5eaa89cf516036dc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 02/29] fix: use the new layout when set_cols/set_shel copy
 matrix data

---
 src/libcatnip/matrix.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 5c5d877..c5541da 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -537,10 +537,10 @@ void Matrix::set_cols(int c) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= c; j++) {
         for (int k = 1; k <= shel; k++) {
-          if (c <= cols) {
-            temp[index(i, j, k)] = elem[index(i, j, k)];
+          if (j <= cols) {
+            temp[(i - 1) * c * shel + (j - 1) * shel + k - 1] = elem[index(i, j, k)];
           } else {
-            temp[index(i, j, k)] = 0;
+            temp[(i - 1) * c * shel + (j - 1) * shel + k - 1] = 0;
           }
         }
       }
@@ -556,7 +556,7 @@ void Matrix::set_cols(int c) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= c; j++) {
         for (int k = 1; k <= shel; k++) {
-          temp[index(i, j, k)] = elem[index(i, j, k)];
+          temp[(i - 1) * c * shel + (j - 1) * shel + k - 1] = elem[index(i, j, k)];
         }
       }
     }
@@ -577,10 +577,10 @@ void Matrix::set_shel(int s) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= cols; j++) {
         for (int k = 1; k <= s; k++) {
-          if (s <= shel) {
-            temp[index(i, j, k)] = elem[index(i, j, k)];
+          if (k <= shel) {
+            temp[(i - 1) * cols * s + (j - 1) * s + k - 1] = elem[index(i, j, k)];
           } else {
-            temp[index(i, j, k)] = 0;
+            temp[(i - 1) * cols * s + (j - 1) * s + k - 1] = 0;
           }
         }
       }
@@ -596,7 +596,7 @@ void Matrix::set_shel(int s) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= cols; j++) {
         for (int k = 1; k <= s; k++) {
-          temp[index(i, j, k)] = elem[index(i, j, k)];
+          temp[(i - 1) * cols * s + (j - 1) * s + k - 1] = elem[index(i, j, k)];
         }
       }
     }
-- 
2.43.0


From e4f868a2328f42e1d373e1e18ef27491d32c682f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 03/29] fix: release matrix storage with delete[]

---
 src/libcatnip/matrix.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index c5541da..d0db6b6 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -416,7 +416,7 @@ int Matrix::resize(int r, int c) {
     }
   }
 
-  delete elem;
+  delete[] elem;
   rows = r;
   cols = c;
   shel = 1;
@@ -488,7 +488,7 @@ void Matrix::set_rows(int r) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     rows = r;
     elem = temp;
   } else if (r < rows) {
@@ -503,7 +503,7 @@ void Matrix::set_rows(int r) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     rows = r;
     elem = temp;
   }
@@ -545,7 +545,7 @@ void Matrix::set_cols(int c) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     cols = c;
     elem = temp;
   } else if (c < cols) {
@@ -560,7 +560,7 @@ void Matrix::set_cols(int c) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     cols = c;
     elem = temp;
   }
@@ -585,7 +585,7 @@ void Matrix::set_shel(int s) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     shel = s;
     elem = temp;
   } else if (s < shel) {
@@ -600,7 +600,7 @@ void Matrix::set_shel(int s) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     shel = s;
     elem = temp;
   }
-- 
2.43.0


From adc187f1da99a82d845e1c15e0f7878a1a87024e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 04/29] fix: do not leak a buffer in the nested vector Matrix
 constructor

---
 src/libcatnip/matrix.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index d0db6b6..21f4950 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -279,7 +279,6 @@ Matrix::Matrix(vector<vector<double>> vv_data) {
   cols = vv_data.at(0).size();
   shel = 1;
   elem = new double[rows * cols];
-  elem = new double[rows * cols];
 
   int r = 1;
   for (auto v : vv_data) {
-- 
2.43.0


From 65c42726cc89744856e97eb707eda82d17ddd0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 05/29] fix: Matrix::set_col takes one value per row

---
 src/libcatnip/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 21f4950..3874db6 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -456,7 +456,7 @@ void Matrix::set_row(vector<double> row, int r) {
 
 void Matrix::set_col(vector<double> col, int c) {
 
-  if (get_cols() != static_cast<int>(col.size())) {
+  if (get_rows() != static_cast<int>(col.size())) {
     throw invalid_argument("vector is not the same size as matrix");
   }
   for (int i = 1; i <= get_rows(); ++i) {
-- 
2.43.0


From e6a6c835a025b3a99a90a8d8110a4a52cc75c524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 06/29] fix: Matrix::getCol result has one row per matrix row

---
 src/libcatnip/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 3874db6..09beecd 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -933,7 +933,7 @@ Matrix Matrix::getCol(int C) const {
     printf(" because mat has only %d cols\n.", this->get_cols());
     exit(1);
   }
-  Matrix mat2(this->get_cols(), 1, this->get_shel());
+  Matrix mat2(this->get_rows(), 1, this->get_shel());
 
   for (int i = 1; i <= this->get_rows(); i++) {
     for (int k = 1; k <= this->get_shel(); k++) {
-- 
2.43.0


From 2d07cb2cc14eeda5faa4fa339e901a32d2676d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 07/29] fix: reject out of range rows and cols instead of
 touching foreign memory

---
 src/libcatnip/matrix.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 09beecd..eca79f0 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -444,6 +444,9 @@ void Matrix::set_row(vector<double> row, int r) {
   if (get_cols() != static_cast<int>(row.size())) {
     throw invalid_argument("vector is not the same size as matrix");
   }
+  if (r < 1 || r > rows) {
+    throw invalid_argument("row is outside of the matrix");
+  }
 
   for (int j = 1; j <= get_cols(); j++) {
     if (r <= rows) {
@@ -459,6 +462,9 @@ void Matrix::set_col(vector<double> col, int c) {
   if (get_rows() != static_cast<int>(col.size())) {
     throw invalid_argument("vector is not the same size as matrix");
   }
+  if (c < 1 || c > cols) {
+    throw invalid_argument("col is outside of the matrix");
+  }
   for (int i = 1; i <= get_rows(); ++i) {
     if (c <= cols) {
       elem[index(i, c, 1)] = col.at(i - 1);
@@ -509,6 +515,9 @@ void Matrix::set_rows(int r) {
 }
 
 vector<double> Matrix::get_col(int c) const{
+  if (c < 1 || c > cols) {
+    throw invalid_argument("col is outside of the matrix");
+  }
   vector<double> col_data;
   for (int i = 1; i <= rows; i++) {
     col_data.push_back(elem[index(i, c, 1)]);
@@ -517,6 +526,9 @@ vector<double> Matrix::get_col(int c) const{
 }
 
 vector<double> Matrix::get_row(int r) const {
+  if (r < 1 || r > rows) {
+    throw invalid_argument("row is outside of the matrix");
+  }
   vector<double> row_data;
   for (int i = 1; i <= cols; i++) {
     row_data.push_back(elem[index(r, i, 1)]);
@@ -732,6 +744,9 @@ double Matrix::get_elem(const int r, const int c) const {
 }
 
 double *Matrix::get_elem_ptr(const int r, const int c) const {
+  if (r < 1 || r > rows || c < 1 || c > cols) {
+    throw invalid_argument("row or col is outside of the matrix");
+  }
   return &elem[index(r, c, 1)];
 }
 
-- 
2.43.0


From 73ce1801f3bccb9034d15eb37c0757f00e36886a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 08/29] fix: Matrix assignment keeps every shelf and accepts
 empty matrices

---
 src/libcatnip/matrix.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index eca79f0..dcb9859 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -425,13 +425,22 @@ int Matrix::resize(int r, int c) {
 }
 
 Matrix &Matrix::operator=(const Matrix &m) {
-  this->resize(m.get_rows(), m.get_cols());
+  if (this == &m) return *this;
 
-  for (int i = 1; i <= m.get_rows(); ++i) {
-    for (int j = 1; j <= m.get_cols(); ++j) {
-      this->set_elem(m.get_elem(i, j), i, j);
+  double *temp = new double[m.rows * m.cols * m.shel];
+  for (int i = 1; i <= m.rows; ++i) {
+    for (int j = 1; j <= m.cols; ++j) {
+      for (int k = 1; k <= m.shel; ++k) {
+        temp[m.index(i, j, k)] = m.elem[m.index(i, j, k)];
+      }
     }
   }
+
+  delete[] elem;
+  rows = m.rows;
+  cols = m.cols;
+  shel = m.shel;
+  elem = temp;
   return *this;
 }
 
-- 
2.43.0


From d26d6593c436f10aded68eb6e6de2da9478e7ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 09/29] fix: copying a Matrix copies its data instead of
 sharing it

---
 src/libcatnip/matrix.cpp | 14 ++++++++++++++
 src/libcatnip/matrix.hpp |  1 +
 2 files changed, 15 insertions(+)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index dcb9859..96e5aca 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -362,6 +362,20 @@ Matrix::Matrix(const int r, const int c, const int s) {
   }
 }
 
+Matrix::Matrix(const Matrix &m) {
+  rows = m.rows;
+  cols = m.cols;
+  shel = m.shel;
+  elem = new double[rows * cols * shel];
+  for (int i = 1; i <= rows; i++) {
+    for (int j = 1; j <= cols; j++) {
+      for (int k = 1; k <= shel; k++) {
+        elem[index(i, j, k)] = m.elem[index(i, j, k)];
+      }
+    }
+  }
+}
+
 int Matrix::resize(int r, int c) {
 
   if (r < 1) {
diff --git a/src/libcatnip/matrix.hpp b/src/libcatnip/matrix.hpp
index cce1c3e..f428fac 100644
--- a/src/libcatnip/matrix.hpp
+++ b/src/libcatnip/matrix.hpp
@@ -22,6 +22,7 @@ class Matrix {
   explicit Matrix(const int r);
   Matrix(const int r, const int c);
   Matrix(const int r, const int c, const int s);
+  Matrix(const Matrix &m);
 
   Matrix &operator=(const Matrix &m);
   // manipulators
-- 
2.43.0


From 246fecce3ab707479dff5e6d02b25865a0b0aca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 10/29] fix: compare every decimal asked for when matching, and
 -0 with 0

---
 src/libcatnip/matrix.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 96e5aca..0fd41d2 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -1,6 +1,7 @@
 #include <cmath>
 #include <cstdlib>
 #include <exception>
+#include <iomanip>
 #include <iostream>
 #include <sstream>
 #include <stdexcept>
@@ -170,8 +171,9 @@ Matrix Matrix_concatenate_cols(const Matrix &mat1, const Matrix &mat2) {
 
 string double_tos(double f, int nd) {
   ostringstream ostr;
-  int tens = stod("1" + string(nd, '0'));
-  ostr << round(f * tens) / tens;
+  double tens = stod("1" + string(nd, '0'));
+  // Adding 0.0 turns a negative zero into a zero
+  ostr << fixed << setprecision(nd) << round(f * tens) / tens + 0.0;
   return ostr.str();
 }
 
-- 
2.43.0


From 08852c4eb8af9e011317e826e56141fabe1976eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 11/29] fix: refuse to unscramble with unmatched or doubly
 matched atoms

---
 src/libcatnip/qc_functions.cpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/libcatnip/qc_functions.cpp b/src/libcatnip/qc_functions.cpp
index 963c6fd..92043a4 100644
--- a/src/libcatnip/qc_functions.cpp
+++ b/src/libcatnip/qc_functions.cpp
@@ -413,11 +413,39 @@ Matrix *createNewMatrix(list<Matrix *> &p_atom_mat_coef, int rows, int cols,
   return mergeListOfMatrices(p_atom_mat_coef, rows, cols, ColRow);
 }
 
+// Every atom must have been matched (-1 means no match was found) to an atom
+// that exists and that no other atom was matched to, it is otherwise impossible
+// to line up the basis functions
+void checkMatch(const vector<int> &match, vector<bool> &matched) {
+  for (size_t i = 0; i < match.size(); ++i) {
+    int atom = match.at(i);
+    if (atom < 1 || atom > static_cast<int>(matched.size())) {
+      throw invalid_argument("Unable to match all of the atoms");
+    }
+    if (matched.at(atom - 1)) {
+      throw invalid_argument("Two atoms have been matched to the same atom");
+    }
+    matched.at(atom - 1) = true;
+  }
+}
+
+void checkMatch(const vector<int> &matchA, const vector<int> &matchB,
+                const vector<int> &basisFunc) {
+  if (matchA.size() + matchB.size() > basisFunc.size()) {
+    throw invalid_argument("More atoms have been matched than there are atoms");
+  }
+  vector<bool> matched(basisFunc.size(), false);
+  checkMatch(matchA, matched);
+  checkMatch(matchB, matched);
+}
+
 // unscramble the coefficients
 Matrix *unscramble_Coef(const std::vector<int> &matchDimerA,
                         const std::vector<int> &matchDimerB,
                         const std::vector<int> &basisFuncP, Matrix *dimerCoef) {
 
+  checkMatch(matchDimerA, matchDimerB, basisFuncP);
+
   // Let's reduce the complexity of the problem by instead of working
   // with the basis functions lets just work with the atoms. We can do
   // this by treating all the basis functions associated with a single
@@ -454,6 +482,8 @@ Matrix *unscramble_Coef(const std::vector<int> &matchDimerA,
 Matrix *unscramble_Coef(const std::vector<int> &matchDimerB,
                         const std::vector<int> &basisFuncB, Matrix *Coef) {
 
+  checkMatch(matchDimerB, vector<int>(), basisFuncB);
+
   // Let's reduce the complexity of the problem by instead of working
   // with the basis functions lets just work with the atoms. We can do
   // this by treating all the basis functions associated with a single
@@ -487,6 +517,8 @@ Matrix *unscramble_S(const std::vector<int> &matchDimerA,
                      const std::vector<int> &matchDimerB,
                      const std::vector<int> &basisFuncP, Matrix *S) {
 
+  checkMatch(matchDimerA, matchDimerB, basisFuncP);
+
   Matrix *S_new;
   {
     list<Matrix *> p_atom_mat_S = splitCoefsUpByAtoms(basisFuncP, S, "Columns");
@@ -539,6 +571,8 @@ Matrix *unscramble_S(const std::vector<int> &matchDimerA,
 Matrix *unscramble_S(const std::vector<int> &matchDimerA,
                      const std::vector<int> &basisFuncP, Matrix *S) {
 
+  checkMatch(matchDimerA, vector<int>(), basisFuncP);
+
   Matrix *S_new;
   {
     list<Matrix *> p_atom_mat_S = splitCoefsUpByAtoms(basisFuncP, S, "Columns");
-- 
2.43.0


From 9481e707b9082ca8de00762473ec0750a265a447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 12/29] fix: look for the last occurrence of the whole string,
 not of any of its characters

---
 src/libcatnip/string_support.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/libcatnip/string_support.cpp b/src/libcatnip/string_support.cpp
index 1c082e2..34dbc96 100644
--- a/src/libcatnip/string_support.cpp
+++ b/src/libcatnip/string_support.cpp
@@ -132,13 +132,13 @@ string grabStrAfterFirstOccurance(string s, string occ) {
 }
 
 string grabStrAfterLastOccurance(string s, string occ) {
-  auto pos = s.find_last_of(occ);
+  auto pos = s.rfind(occ);
   if (pos == string::npos) return "";
-  return s.substr(pos + 1);
+  return s.substr(pos + occ.length());
 }
 
 string grabStrAfterLastOccuranceInclusive(string s, string occ) {
-  auto pos = s.find_last_of(occ);
+  auto pos = s.rfind(occ);
   if (pos == string::npos) return "";
   return s.substr(pos);
 }
@@ -150,15 +150,15 @@ string grabStrBeforeFirstOccurance(string s, string occ) {
 }
 
 string grabStrBeforeLastOccurance(string s, string occ) {
-  auto pos = s.find_last_of(occ);
+  auto pos = s.rfind(occ);
   if (pos == string::npos) return s;
   return s.substr(0, pos);
 }
 
 string grabStrBeforeLastOccuranceInclusive(string s, string occ) {
-  auto pos = s.find_last_of(occ);
+  auto pos = s.rfind(occ);
   if (pos == string::npos) return s;
-  return s.substr(0, pos + 1);
+  return s.substr(0, pos + occ.length());
 }
 
 bool foundSubStrInStr(string s, string sub_s) {
-- 
2.43.0


From 3d3033b9545ad0903433f0a9cfd9bcc53322f12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 13/29] fix: initialise Parameters::citation

---
 src/libcatnip/parameters.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libcatnip/parameters.hpp b/src/libcatnip/parameters.hpp
index 1664717..9f7c7f3 100644
--- a/src/libcatnip/parameters.hpp
+++ b/src/libcatnip/parameters.hpp
@@ -47,6 +47,7 @@ class Parameters {
         orb_numP(0),
         orb_num1(0),
         orb_num2(0),
+        citation(false),
         counterPoise(false){};
 
   std::string getLog1() const { return log1_; }
-- 
2.43.0


From 12214f78802fe48e94e147544e2e0ad150784767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 14/29] fix: PropertyStringChoice accepts a single choice and
 rejects an empty enforced set

---
 src/libcatnip/io/arguments/properties/propertystringchoice.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
index a8f1116..b10025b 100644
--- a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
+++ b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
@@ -38,6 +38,7 @@ void PropertyStringChoice::setPropOption(std::string option, std::string var) {
   } else if (option.compare("STRING_CHOICES") == 0) {
     set<string> set_var{var};
     setPropOption_(option, set_var);
+    return;
   }
   throw invalid_argument("Unrecognized option value combo " + option + " " +
                          var);
@@ -50,7 +51,7 @@ void PropertyStringChoice::setPropOption(std::string option,
     setPropOption_(option, set_vars);
     return;
   } else if (option.compare("STRING_CHOICE_ENFORCED") == 0) {
-    if (set_vars.size() > 1) {
+    if (set_vars.size() != 1) {
       string err = "";
       for (auto var : set_vars) {
         err.append(var);
-- 
2.43.0


From 4d34d25d2c0efa29d3d6bb0468f99c86e791d106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 15/29] fix: PropertyFileExist reports on the file it checked
 last

---
 src/libcatnip/io/arguments/properties/propertyfileexist.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libcatnip/io/arguments/properties/propertyfileexist.cpp b/src/libcatnip/io/arguments/properties/propertyfileexist.cpp
index df1bbbc..2629e7e 100644
--- a/src/libcatnip/io/arguments/properties/propertyfileexist.cpp
+++ b/src/libcatnip/io/arguments/properties/propertyfileexist.cpp
@@ -14,6 +14,7 @@ PropertyFileExist::PropertyFileExist(void) {
 
 PropertyFileExist::PropertyFileExist(int fileMustExist) {
   setPropOption_("FILE_MUST_EXIST", fileMustExist);
+  setPropOption_("FILE_DOES_EXIST", 0);
 }
 
 vector<string> PropertyFileExist::getOpts_(void) const {
@@ -27,6 +28,7 @@ bool PropertyFileExist::fileExist(const string& fileNamePath) const {
 }
 
 bool PropertyFileExist::propValid(const string& fileNamePath) {
+  setPropOption_("FILE_DOES_EXIST", 0);
   if (getPropOption("FILE_MUST_EXIST")) {
     if (!fileExist(fileNamePath)) {
       string err = "" + fileNamePath + " does not exist";
-- 
2.43.0


From 7ae28d2473b8c78b8ca8e4c6d281101c1263b2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 16/29] fix: consume the explicit value of a switch flag

---
 src/libcatnip/io/argumentparser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index 0615d2a..a3e6981 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -466,6 +466,7 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
         } else {
           int_values_[flag] = 0;
         }
+        ++index;
       }
     } else {
       unrecognized = false;
-- 
2.43.0


From cf8c0d76fea833086e4b7e92f397941c293589cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 17/29] fix: honour -v, the documented short form of --version

---
 src/libcatnip/io/argumentparser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index a3e6981..2fe8ef7 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -664,7 +664,8 @@ void ArgumentParser::parse(const char* argv[], int argc) {
       }
       ++allowed_args_before_exit;
     } else if (version_flag.compare(arguments.at(index)) == 0 ||
-               version_flag_short.compare(arguments.at(index)) == 0) {
+               version_flag_short.compare(arguments.at(index)) == 0 ||
+               arguments.at(index).compare("-v") == 0) {
       exit(0);
     } else if (citation_flag.compare(arguments.at(index)) == 0 ||
                citation_flag_short.compare(arguments.at(index)) == 0) {
-- 
2.43.0


From 0a488aa6612e676750eb972ce3d8e8588bfc5c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 18/29] fix: ArgumentParser::addFlagArg checks for an existing
 double argument

---
 src/libcatnip/io/argumentparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index 2fe8ef7..991f635 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -183,7 +183,7 @@ void ArgumentParser::addFlagArg(string flag, string argname) {
           flag);
     }
   } else if (argname.compare("ARGUMENT_DOUBLE") == 0) {
-    if (file_arg_.count(flag) == 0) {
+    if (double_arg_.count(flag) == 0) {
       ArgumentDouble* ArDouble = new ArgumentDouble;
       double_arg_[flag] = ArDouble;
     } else {
-- 
2.43.0


From 0c8206dd55fb0a6bc2f5604509f4c79f6882dd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 19/29] fix: the extension of a file starts at the last dot of
 its name

---
 src/libcatnip/io/file_readers/filereader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/io/file_readers/filereader.cpp b/src/libcatnip/io/file_readers/filereader.cpp
index 1fd77ea..73a1747 100644
--- a/src/libcatnip/io/file_readers/filereader.cpp
+++ b/src/libcatnip/io/file_readers/filereader.cpp
@@ -64,7 +64,7 @@ void FileReader::checkSections_() {
 string FileReader::fileExt_() const {
   string path = lastStringInPath(fileName_);
   path = trimmed(path);
-  auto index = path.find(".");
+  auto index = path.rfind(".");
   if (index == string::npos) throw invalid_argument("File has no extension");
   return path.substr(index);
 }
-- 
2.43.0


From ee932c2d037823e530b9af8e27e16f631638cd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 20/29] fix: reading a .pun file ends at the end of the file

---
 src/libcatnip/io/file_readers/punreader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/io/file_readers/punreader.cpp b/src/libcatnip/io/file_readers/punreader.cpp
index 0b5a92c..f73dff5 100644
--- a/src/libcatnip/io/file_readers/punreader.cpp
+++ b/src/libcatnip/io/file_readers/punreader.cpp
@@ -73,7 +73,7 @@ void PunReader::ReadCoef(const string &orb_type) {
   bool allCoefsRead = false;
   while (!allCoefsRead) {
     string line;
-    getline(fid_, line);
+    if (!getline(fid_, line)) break;
     vector<double> row;
     size_t current_count = 0;
     while (!foundSubStrInStr(line, pattern)) {
@@ -84,7 +84,7 @@ void PunReader::ReadCoef(const string &orb_type) {
         row.push_back(val);
         ++current_count;
       }
-      getline(fid_, line);
+      if (!getline(fid_, line)) break;
     }
     first_row_set = true;
     count = row.size();
-- 
2.43.0


From 1746640d044dd27b9857d23fe25763ed885e7b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 21/29] fix: do not swallow the Beta header that follows the
 Alpha coefficients

---
 src/libcatnip/io/file_readers/punreader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libcatnip/io/file_readers/punreader.cpp b/src/libcatnip/io/file_readers/punreader.cpp
index f73dff5..4fddd6f 100644
--- a/src/libcatnip/io/file_readers/punreader.cpp
+++ b/src/libcatnip/io/file_readers/punreader.cpp
@@ -73,6 +73,7 @@ void PunReader::ReadCoef(const string &orb_type) {
   bool allCoefsRead = false;
   while (!allCoefsRead) {
     string line;
+    pos_ = fid_.tellg();
     if (!getline(fid_, line)) break;
     vector<double> row;
     size_t current_count = 0;
@@ -84,6 +85,7 @@ void PunReader::ReadCoef(const string &orb_type) {
         row.push_back(val);
         ++current_count;
       }
+      pos_ = fid_.tellg();
       if (!getline(fid_, line)) break;
     }
     first_row_set = true;
@@ -93,6 +95,8 @@ void PunReader::ReadCoef(const string &orb_type) {
     allCoefsRead = !(foundSubStrInStr(line, orb_type));
   }
 
+  // Reset the fid because Beta may come right after alpha
+  fid_.seekg(pos_);
   Matrix *Coefs = new Matrix(v_vec);
   coefs[orb_type] = Coefs;
   LOG("Success reading atomic orbital coefficients from .pun file.", 2);
-- 
2.43.0


From 4134f869413ae8742b87b3b38c10dd10d5f0bb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 22/29] fix: a .log file that ends inside of a section is an
 error

---
 src/libcatnip/io/file_readers/filereader.cpp |  6 ++++++
 src/libcatnip/io/file_readers/filereader.hpp |  1 +
 src/libcatnip/io/file_readers/logreader.cpp  | 22 ++++++++++----------
 3 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/libcatnip/io/file_readers/filereader.cpp b/src/libcatnip/io/file_readers/filereader.cpp
index 73a1747..d682c5c 100644
--- a/src/libcatnip/io/file_readers/filereader.cpp
+++ b/src/libcatnip/io/file_readers/filereader.cpp
@@ -79,6 +79,12 @@ void FileReader::readSection_(string tag) {
   sectionReaders_[tag](ptr);
 }
 
+void FileReader::nextLine_(string &line) {
+  if (!getline(fid_, line)) {
+    throw runtime_error("File " + fileName_ + " ended inside of a section");
+  }
+}
+
 string FileReader::startSection_(const string &line) {
   for (pair<const string, set<string>> &tag_and_header : sectionHeaders_) {
     for (const string &header : tag_and_header.second) {
diff --git a/src/libcatnip/io/file_readers/filereader.hpp b/src/libcatnip/io/file_readers/filereader.hpp
index 91d374d..1dc6844 100644
--- a/src/libcatnip/io/file_readers/filereader.hpp
+++ b/src/libcatnip/io/file_readers/filereader.hpp
@@ -30,6 +30,7 @@ class FileReader {
   virtual void validFileName_(){};
   void checkSections_();
   void readSection_(std::string tag);
+  void nextLine_(std::string &line);
   std::string startSection_(const std::string &tag);
   std::string fileExt_() const;
   bool fileExist_() const;
diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index d5326f9..5337fa4 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -109,8 +109,8 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
   int atom_num = 1;
   string end_pattern = "         Condensed to atoms";
   string line;
-  getline(LR_ptr->fid_, line);
-  getline(LR_ptr->fid_, line);
+  LR_ptr->nextLine_(line);
+  LR_ptr->nextLine_(line);
   bool sectionEnd = false;
   while (sectionEnd == false) {
     istringstream iss(line);
@@ -130,7 +130,7 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
     }
     LR_ptr->orb_[make_pair(atom_num, elemType)][orbType] = orbVals;
 
-    getline(LR_ptr->fid_, line);
+    LR_ptr->nextLine_(line);
     string elemType2 = "";
     elemType2.append(string(1, line.at(9)));
     elemType2.append(string(1, line.at(10)));
@@ -150,7 +150,7 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
 
       LR_ptr->orb_[make_pair(atom_num, elemType)][orbType] = orbVals;
 
-      getline(LR_ptr->fid_, line);
+      LR_ptr->nextLine_(line);
 
       istringstream iss3(line);
       iss3 >> elemType2;
@@ -185,13 +185,13 @@ void LogReader::OverlapSectionReader(void *ptr) {
   bool endFirstSection = false;
   // Skip first line simply has column numbers
   string line;
-  getline(LR_ptr->fid_, line);
+  LR_ptr->nextLine_(line);
   string countC;
 
   // First group of coordinates will be stored in vector<vector<double>>
   vector<vector<double>> first_coefs;
   while (!endFirstSection) {
-    getline(LR_ptr->fid_, line);
+    LR_ptr->nextLine_(line);
     istringstream iss(line);
     iss >> countC;
     int countCint = stoi(countC);
@@ -239,7 +239,7 @@ void LogReader::OverlapSectionReader(void *ptr) {
 
     int sectionCoef = currentSectionStart;
     while (sectionCoef < countCoef) {
-      getline(LR_ptr->fid_, line);
+      LR_ptr->nextLine_(line);
       istringstream iss(line);
       string dummy;
       iss >> dummy;
@@ -333,9 +333,9 @@ void LogReader::CoordSectionReader(void *ptr) {
       "----------------------------------";
   string line;
   // Skip the 2nd and third line
-  getline(LR_ptr->fid_, line);
-  getline(LR_ptr->fid_, line);
-  getline(LR_ptr->fid_, line);
+  LR_ptr->nextLine_(line);
+  LR_ptr->nextLine_(line);
+  LR_ptr->nextLine_(line);
 
   // While the line does not match the end of the table read in the coordinates
   while (!foundSubStrInStr(line, end_pattern)) {
@@ -343,7 +343,7 @@ void LogReader::CoordSectionReader(void *ptr) {
     X.push_back(stod(vec_str.at(3)));
     Y.push_back(stod(vec_str.at(4)));
     Z.push_back(stod(vec_str.at(5)));
-    getline(LR_ptr->fid_, line);
+    LR_ptr->nextLine_(line);
   }
   LR_ptr->xyz.push_back(X);
   LR_ptr->xyz.push_back(Y);
-- 
2.43.0


From d018d2f10845793016884d0d9e23f010294a160c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 23/29] fix: read overlap matrices of five or fewer basis
 functions

---
 src/libcatnip/io/file_readers/logreader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 5337fa4..644dd40 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -194,7 +194,8 @@ void LogReader::OverlapSectionReader(void *ptr) {
     LR_ptr->nextLine_(line);
     istringstream iss(line);
     iss >> countC;
-    int countCint = stoi(countC);
+    // The line after the last coefficient need not start with a number
+    int countCint = isdigit(countC[0]) ? stoi(countC) : 0;
     if (countCint != (countCoef + 1)) {
       endFirstSection = true;
     } else {
-- 
2.43.0


From 8b630154f2f4a62f44ad7768c10436c432a9eacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 24/29] fix: a switch given without a value no longer reads as
 OFF

---
 src/libcatnip/io/argumentparser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index 991f635..cc6d629 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -455,6 +455,7 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
         } else {
           unrecognized = false;
           int_values_[flag] = 1;
+          string_values_[flag] = "ON";
         }
       } else {
         string argument = arguments.at(index + 1);
@@ -471,6 +472,7 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
     } else {
       unrecognized = false;
       int_values_[flag] = 1;
+      string_values_[flag] = "ON";
     }
   }
   if (int_arg_.count(flag) != 0) {
-- 
2.43.0


From f4c92cb81284c584a0673d1cdb0aa4d2966cebd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:39 +0000
Subject: [PATCH 25/29] fix: option checks of a property also apply when it is
 set through its argument

---
 src/libcatnip/io/arguments/properties/propertyfileext.cpp      | 2 +-
 src/libcatnip/io/arguments/properties/propertyfileext.hpp      | 2 +-
 src/libcatnip/io/arguments/properties/propertyobject.hpp       | 2 +-
 src/libcatnip/io/arguments/properties/propertysisterfile.cpp   | 2 +-
 src/libcatnip/io/arguments/properties/propertysisterfile.hpp   | 2 +-
 src/libcatnip/io/arguments/properties/propertystringchoice.cpp | 2 +-
 src/libcatnip/io/arguments/properties/propertystringchoice.hpp | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/libcatnip/io/arguments/properties/propertyfileext.cpp b/src/libcatnip/io/arguments/properties/propertyfileext.cpp
index 670a889..a7465a0 100644
--- a/src/libcatnip/io/arguments/properties/propertyfileext.cpp
+++ b/src/libcatnip/io/arguments/properties/propertyfileext.cpp
@@ -66,7 +66,7 @@ void PropertyFileExt::checkExt(const string& ext) const {
 }
 
 void PropertyFileExt::setPropOption(std::string option,
-                                    std::set<std::string> vars) {
+                                    const std::set<std::string>& vars) {
   PropertyObject::setPropOption(option, vars);
 }
 
diff --git a/src/libcatnip/io/arguments/properties/propertyfileext.hpp b/src/libcatnip/io/arguments/properties/propertyfileext.hpp
index 7cf4b41..43add2c 100644
--- a/src/libcatnip/io/arguments/properties/propertyfileext.hpp
+++ b/src/libcatnip/io/arguments/properties/propertyfileext.hpp
@@ -21,7 +21,7 @@ class PropertyFileExt
   PropertyFileExt(std::set<std::string> exts);
   bool propValid(const std::string &fileNamePath);
   void setPropOption(std::string option, std::string var);
-  void setPropOption(std::string option, std::set<std::string> var);
+  void setPropOption(std::string option, const std::set<std::string>& var);
 };
 
 }  // namespace catnip
diff --git a/src/libcatnip/io/arguments/properties/propertyobject.hpp b/src/libcatnip/io/arguments/properties/propertyobject.hpp
index 584c662..4759b54 100644
--- a/src/libcatnip/io/arguments/properties/propertyobject.hpp
+++ b/src/libcatnip/io/arguments/properties/propertyobject.hpp
@@ -61,7 +61,7 @@ class PropertyObject {
   std::vector<std::string> getPropertyOptions(void) const { return getOpts_(); }
 
   // Setup the valid options associated with the parameter
-  void setPropOption(std::string option, const T & val) {
+  virtual void setPropOption(std::string option, const T & val) {
     if (!propOptionValid_(option)) {
       throw std::invalid_argument("Property option is unrecognized " + option);
     }
diff --git a/src/libcatnip/io/arguments/properties/propertysisterfile.cpp b/src/libcatnip/io/arguments/properties/propertysisterfile.cpp
index c1df59f..2426d06 100644
--- a/src/libcatnip/io/arguments/properties/propertysisterfile.cpp
+++ b/src/libcatnip/io/arguments/properties/propertysisterfile.cpp
@@ -78,7 +78,7 @@ void PropertySisterFile::setPropOption(std::string option,
 }
 
 void PropertySisterFile::setPropOption(std::string option,
-                                       vector<string> vec_vars) {
+                                       const vector<string>& vec_vars) {
 
   if (option.compare("ALLOWED_SISTER_FILE_EXT") == 0) {
     vector<string> fileNames;
diff --git a/src/libcatnip/io/arguments/properties/propertysisterfile.hpp b/src/libcatnip/io/arguments/properties/propertysisterfile.hpp
index b7fdaec..ad7c93d 100644
--- a/src/libcatnip/io/arguments/properties/propertysisterfile.hpp
+++ b/src/libcatnip/io/arguments/properties/propertysisterfile.hpp
@@ -19,7 +19,7 @@ class PropertySisterFile
  public:
   PropertySisterFile(void);
   void setPropOption(std::string option, const std::string &var);
-  void setPropOption(std::string option, std::vector<std::string> var);
+  void setPropOption(std::string option, const std::vector<std::string>& var);
   bool propValid(const std::string &fileNamePath);
 };
 
diff --git a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
index b10025b..a845e00 100644
--- a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
+++ b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
@@ -45,7 +45,7 @@ void PropertyStringChoice::setPropOption(std::string option, std::string var) {
 }
 
 void PropertyStringChoice::setPropOption(std::string option,
-                                         set<string> set_vars) {
+                                         const set<string>& set_vars) {
 
   if (option.compare("STRING_CHOICES") == 0) {
     setPropOption_(option, set_vars);
diff --git a/src/libcatnip/io/arguments/properties/propertystringchoice.hpp b/src/libcatnip/io/arguments/properties/propertystringchoice.hpp
index 580d816..6cf44a5 100644
--- a/src/libcatnip/io/arguments/properties/propertystringchoice.hpp
+++ b/src/libcatnip/io/arguments/properties/propertystringchoice.hpp
@@ -16,7 +16,7 @@ class PropertyStringChoice
  public:
   PropertyStringChoice(void);
   void setPropOption(std::string option, std::string var);
-  void setPropOption(std::string option, std::set<std::string> var);
+  void setPropOption(std::string option, const std::set<std::string>& var);
   bool propValid(const std::string& string_choice);
 };
 
-- 
2.43.0


From 4bd72a22d0a64d31f76277d5691b7e59ee34083c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:06 +0000
Subject: [PATCH 26/29] fix: sister files in directories with spaces in their
 name

---
 src/libcatnip/io/io.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/libcatnip/io/io.cpp b/src/libcatnip/io/io.cpp
index 28756bc..08e7fb8 100644
--- a/src/libcatnip/io/io.cpp
+++ b/src/libcatnip/io/io.cpp
@@ -358,14 +358,18 @@ unique_ptr<Parameters> prepareParameters(unique_ptr<ArgumentParser>& ArgParse) {
     prop = "PROPERTY_SISTER_FILE";
     opt = "SISTER_FILE_EXISTS";
     auto line = ArgParse->getFlagArgOptValue(flag, argu, prop, opt);
-    opt = "SISTER_FILE_PATH_NAME";
+    opt = "ALLOWED_SISTER_FILE_EXT";
     auto line2 = ArgParse->getFlagArgOptValue(flag, argu, prop, opt);
     auto sisters_exist = splitSt(line);
-    vector<string> sister_file_paths = splitSt(line2);
+    // The file paths may contain spaces, the extensions do not
+    vector<string> sister_exts = splitSt(line2);
     int countFiles = 0;
     for (auto sister_exists : sisters_exist) {
       if (sister_exists.compare("true") == 0) {
-        flag_sister_arg[flag_sister] = sister_file_paths.at(countFiles);
+        string file = ArgParse->getStr(flag);
+        string core = grabStrBeforeLastOccurance(lastStringInPath(file), ".");
+        flag_sister_arg[flag_sister] =
+            getPath(file) + core + sister_exts.at(countFiles);
       }
       ++countFiles;
     }
-- 
2.43.0


From 89ecae3f39ab3d6bcf99483cac0b6c74b71ac258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:44 +0000
Subject: [PATCH 27/29] fix: usage text for flags without a short name
 terminates

---
 src/libcatnip/io/argumentparser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index cc6d629..a8ab7ed 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -107,7 +107,10 @@ void ArgumentParser::showUsage(void) {
       cout << " ";
     }
     string short_flag = item.second.first;
-    diff = maxShortFlagSize - short_flag.size();
+    // A flag without a short name is listed with a longer placeholder
+    diff = maxShortFlagSize > short_flag.size()
+               ? maxShortFlagSize - short_flag.size()
+               : 0;
     cout << short_flag;
     for (size_t i = 0; i <= diff; ++i) {
       cout << " ";
-- 
2.43.0


From 34903babf13f2264efba92bcb260f0083787faea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 28/29] fix: reject a coefficient file that ends after an
 orbital's title line

---
 src/libcatnip/io/file_readers/punreader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/io/file_readers/punreader.cpp b/src/libcatnip/io/file_readers/punreader.cpp
index 4fddd6f..30c2336 100644
--- a/src/libcatnip/io/file_readers/punreader.cpp
+++ b/src/libcatnip/io/file_readers/punreader.cpp
@@ -74,7 +74,7 @@ void PunReader::ReadCoef(const string &orb_type) {
   while (!allCoefsRead) {
     string line;
     pos_ = fid_.tellg();
-    if (!getline(fid_, line)) break;
+    nextLine_(line);
     vector<double> row;
     size_t current_count = 0;
     while (!foundSubStrInStr(line, pattern)) {
-- 
2.43.0


From ca393428a6396b547d7f644213398422e3c35f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:21 +0000
Subject: [PATCH 29/29] fix: split run-together energies of a nine-word line

A line of nine words with run-together energies (fewer spaces, more
energies) was taken as already split.
---
 src/libcatnip/io/file_readers/logreader.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 644dd40..7ff5f73 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -19,7 +19,6 @@ using namespace std;
  **/
 vector<string> splitStEnergies(const string & line){
   vector<string> items = splitSt(line); 
-  if(items.size()==9) return items;
 
   // There should normally be 5 energies listed per line in a log file, if
   // there are fewer it may be the case that there are no spaces between
-- 
2.43.0

