From 74f69b6989862a5dd7f4188d15e5a809863fb996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:52 +0000
Subject: [PATCH 01/25] fix: Vector range getters return the entries instead of
 their positions

---
 src/Vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index 4e72305..f5c6225 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -270,7 +270,7 @@ public:
 
         Vector<NumericalType> v((b - a) + 1);
         for (auto i = 0; i < v.size(); i++) {
-            v(i) = a + i;
+            v(i) = operator[](a + i);
         }
         return v;
     }
@@ -296,7 +296,7 @@ public:
 
         Vector<NumericalType> v((b - a) + 1);
         for (auto i = 0; i < v.size(); i++) {
-            v(i) = a + i;
+            v(i) = operator[](a + i);
         }
         return v;
     }
-- 
2.43.0


From 179b3d15efe2d1852f8777cfbbca790c194166c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:52 +0000
Subject: [PATCH 02/25] fix: Vector accesses one past the end are out of range

---
 src/Vector.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index f5c6225..e8e60fd 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -144,7 +144,7 @@ public:
      * @return NumericalType Value of entry
      */
     NumericalType getEntry(std::size_t index) {
-        if (index > size_ || index < 0) {
+        if (index >= size_ || index < 0) {
             std::string errorMessage = "[EllipticForest::Vector::getEntry] `index` is out of range:\n";
             errorMessage += "\tindex = " + std::to_string(index) + "\n";
             errorMessage += "\tsize = " + std::to_string(size_) + "\n";
@@ -164,7 +164,7 @@ public:
      * @return NumericalType& Reference to value in vector
      */
     NumericalType& operator[](std::size_t index) {
-        if (index > size_ || index < 0) {
+        if (index >= size_ || index < 0) {
             std::string errorMessage = "[EllipticForest::Vector::operator[]] `index` is out of range:\n";
             errorMessage += "\tindex = " + std::to_string(index) + "\n";
             errorMessage += "\tsize = " + std::to_string(size_) + "\n";
@@ -184,7 +184,7 @@ public:
      * @return NumericalType& Reference to value in vector
      */
     const NumericalType& operator[](std::size_t index) const {
-        if (index > size_ || index < 0) {
+        if (index >= size_ || index < 0) {
             std::string errorMessage = "[EllipticForest::Vector::operator[]] `index` is out of range:\n";
             errorMessage += "\tindex = " + std::to_string(index) + "\n";
             errorMessage += "\tsize = " + std::to_string(size_) + "\n";
@@ -204,7 +204,7 @@ public:
      * @return NumericalType& Reference to value in vector
      */
     NumericalType& operator()(std::size_t index) {
-        if (index > size_ || index < 0) {
+        if (index >= size_ || index < 0) {
             std::string errorMessage = "[EllipticForest::Vector::operator()] `index` is out of range:\n";
             errorMessage += "\tindex = " + std::to_string(index) + "\n";
             errorMessage += "\tsize = " + std::to_string(size_) + "\n";
@@ -259,7 +259,7 @@ public:
      * @return Vector<NumericalType> Vector of size `(b - a) + 1` with entries
      */
     Vector<NumericalType> getRange(std::size_t a, std::size_t b) {
-        if (a > size_ || b > size_ || a < 0 || b < 0) {
+        if (a >= size_ || b >= size_ || a < 0 || b < 0) {
             std::string errorMessage = "[EllipticForest::Vector::getRange] `a` or `b` is outside of range of vector:\n";
             errorMessage += "\ta = " + std::to_string(a) + "\n";
             errorMessage += "\tb = " + std::to_string(b) + "\n";
@@ -285,7 +285,7 @@ public:
      * @return Vector<NumericalType> Vector of size `(b - a) + 1` with entries
      */
     Vector<NumericalType> operator()(std::size_t a, std::size_t b) {
-        if (a > size_ || b > size_ || a < 0 || b < 0) {
+        if (a >= size_ || b >= size_ || a < 0 || b < 0) {
             std::string errorMessage = "[EllipticForest::Vector::operator()] `a` or `b` is outside of range of vector:\n";
             errorMessage += "\ta = " + std::to_string(a) + "\n";
             errorMessage += "\tb = " + std::to_string(b) + "\n";
@@ -377,7 +377,7 @@ public:
 
         Vector<NumericalType> res(I.size());
         for (auto i = 0; i < I.size(); i++) {
-            if (I[i] > size_ || I[i] < 0) {
+            if (I[i] >= size_ || I[i] < 0) {
                 std::string errorMessage = "[EllipticForest::Vector::operator()] Index in `I` is out of range:\n";
                 errorMessage += "\ti = " + std::to_string(i) + "\n";
                 errorMessage += "\tI[i] = " + std::to_string(I[i]) + "\n";
@@ -409,7 +409,7 @@ public:
 
         Vector<NumericalType> res(I.size());
         for (auto i = 0; i < I.size(); i++) {
-            if (I[i] > size_ || I[i] < 0) {
+            if (I[i] >= size_ || I[i] < 0) {
                 std::string errorMessage = "[EllipticForest::Vector::operator()] Index in `I` is out of range:\n";
                 errorMessage += "\ti = " + std::to_string(i) + "\n";
                 errorMessage += "\tI[i] = " + std::to_string(I[i]) + "\n";
-- 
2.43.0


From 3f98ad3cdd1cc07217484a781331f2f9e5a5b599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:52 +0000
Subject: [PATCH 03/25] fix: coarse-to-fine interpolation of sides with fewer
 than six fine cells

---
 src/SpecialMatrices.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/SpecialMatrices.hpp b/src/SpecialMatrices.hpp
index 27e01a3..6a2ed0c 100644
--- a/src/SpecialMatrices.hpp
+++ b/src/SpecialMatrices.hpp
@@ -145,19 +145,18 @@ public:
     InterpolationMatrixCoarse2Fine(std::size_t nfine) :
         Matrix<NumericalType>(nfine, nfine/2, 0) {
 
-        int k = 3;
+        // Sides with fewer than three coarse cells extrapolate with the cells they have
+        int k = this->ncols_ < 3 ? this->ncols_ : 3;
         Vector<NumericalType> edge_coefficients = {1.40625, -0.5625, 0.15625};
+        if (k == 2) edge_coefficients = {1.25, -0.25};
+        if (k == 1) edge_coefficients = {1.0};
         for (auto i = 0; i < this->nrows_; i++) {
             for (auto j = 0; j < this->ncols_; j++) {
                 if (i == 0 && j == 0) {
-                    this->operator()(i,j) = edge_coefficients[0];
-                    this->operator()(i,j+1) = edge_coefficients[1];
-                    this->operator()(i,j+2) = edge_coefficients[2];
+                    for (auto l = 0; l < k; l++) this->operator()(i,j+l) = edge_coefficients[l];
                 }
                 else if (i == this->nrows_-1 && j == this->ncols_-k) {
-                    this->operator()(i,j) = edge_coefficients[2];
-                    this->operator()(i,j+1) = edge_coefficients[1];
-                    this->operator()(i,j+2) = edge_coefficients[0];
+                    for (auto l = 0; l < k; l++) this->operator()(i,j+l) = edge_coefficients[k-1-l];
                 }
                 else if (i == 2*j+1 && i%2 == 1 && i != this->nrows_-1) {
                     this->operator()(i,j) = 0.75;
-- 
2.43.0


From 4e1a12d73b682b065ec7b4cb7a1b8e43472ce747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:52 +0000
Subject: [PATCH 04/25] fix: Matrix::getCol reads one entry per row

---
 src/Matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index 6906d8a..beb072b 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -300,7 +300,7 @@ public:
     Vector<NumericalType> getCol(std::size_t col_index) {
         Vector<NumericalType> res(nrows_);
         Matrix<NumericalType> colMatrix = operator()(0, nrows_ - 1, col_index, col_index);
-        for (auto i = 0; i < ncols_; i++) {
+        for (auto i = 0; i < nrows_; i++) {
             res[i] = colMatrix(i, 0);
         }
         return res;
-- 
2.43.0


From 975fdd27e4c78b0df779fb75107a4137f5c8d8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:52 +0000
Subject: [PATCH 05/25] fix: Matrix::operator*= multiplies

---
 src/Matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index beb072b..af9816a 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -693,7 +693,7 @@ public:
     Matrix<NumericalType>& operator*=(NumericalType rhs) {
         for (auto i = 0; i < nrows_; i++) {
             for (auto j = 0; j < ncols_; j++) {
-                operator()(i, j) += rhs;
+                operator()(i, j) *= rhs;
             }
         }
         return *this;
-- 
2.43.0


From 68a6816ac1213e4d3236eb17b93a9d6f789f0e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:52 +0000
Subject: [PATCH 06/25] fix: Matrix accesses one past the last row or column
 are out of range

---
 src/Matrix.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index af9816a..df24d75 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -332,13 +332,13 @@ public:
         Matrix<NumericalType> res(I.size(), J.size());
         for (auto i = 0; i < I.size(); i++) {
             for (auto j = 0; j < J.size(); j++) {
-                if (I[i] > nrows_ || I[i] < 0) {
+                if (I[i] >= nrows_ || I[i] < 0) {
                     std::string error_msg = "[EllipticForest::Matrix::getFromIndexSet] Index in `I` is out of range:\n";
                     error_msg += "\ti = " + std::to_string(i) + "\n";
                     error_msg += "\tI[i] = " + std::to_string(I[i]) + "\n";
                     error_msg += "\tnrows = " + std::to_string(nrows_) + "\n";
                 }
-                if (J[j] > ncols_ || J[j] < 0) {
+                if (J[j] >= ncols_ || J[j] < 0) {
                     std::string error_msg = "[EllipticForest::Matrix::getFromIndexSet] Index in `J` is out of range:\n";
                     error_msg += "\tj = " + std::to_string(j) + "\n";
                     error_msg += "\tJ[j] = " + std::to_string(J[j]) + "\n";
@@ -369,7 +369,7 @@ public:
      * @param vec Vector to set
      */
     void setRow(std::size_t row_index, Vector<NumericalType>& vec) {
-        if (row_index > nrows_) {
+        if (row_index >= nrows_) {
             std::string error_msg = "[EllipticForest::Matrix::setRow] `row_index` exceeds matrix size:\n";
             error_msg += "\trowIndex = " + std::to_string(row_index) + "\n";
             error_msg += "\tnrows = " + std::to_string(nrows_) + "\n";
@@ -397,7 +397,7 @@ public:
      * @param vec Vector to set
      */
     void setColumn(std::size_t col_index, Vector<NumericalType>& vec) {
-        if (col_index > ncols_) {
+        if (col_index >= ncols_) {
             std::string error_msg = "[EllipticForest::Matrix::setColumn] `col_index` exceeds matrix size:\n";
             error_msg += "\tcolIndex = " + std::to_string(col_index) + "\n";
             error_msg += "\tncols = " + std::to_string(ncols_) + "\n";
@@ -709,14 +709,14 @@ private:
      * @return std::size_t 
      */
     std::size_t flattenIndex_(std::size_t i, std::size_t j) {
-        if (i < 0 || i > nrows_) {
+        if (i < 0 || i >= nrows_) {
             std::string error_msg = "[EllipticForest::Matrix::flattenIndex] Index `i` is outside of range:\n";
             error_msg += "\ti = " + std::to_string(i) + "\n";
             error_msg += "\tnrows = " + std::to_string(nrows_) + "\n";
             std::cerr << error_msg << std::endl;
             throw std::out_of_range(error_msg);
         }
-        if (j < 0 || j > ncols_) {
+        if (j < 0 || j >= ncols_) {
             std::string error_msg = "[EllipticForest::Matrix::flattenIndex] Index `j` is outside of range:\n";
             error_msg += "\tj = " + std::to_string(j) + "\n";
             error_msg += "\tncols = " + std::to_string(ncols_) + "\n";
-- 
2.43.0


From a1b45bf2498b8ea79098ea78f5b4f610d61d2845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:46:45 +0000
Subject: [PATCH 07/25] fix: scaling or shifting a Vector by one of its own
 entries

---
 src/Vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index e8e60fd..5970d4e 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -583,7 +583,7 @@ public:
      * @param rhs RHS scalar
      * @return Vector<NumericalType>& 
      */
-    Vector<NumericalType>& operator-=(const NumericalType& rhs) {
+    Vector<NumericalType>& operator-=(const NumericalType rhs) {
         for (auto i = 0; i < size_; i++) {
             data_[i] -= rhs;
         }
@@ -625,7 +625,7 @@ public:
      * @param rhs RHS scalar
      * @return Vector<NumericalType>& 
      */
-    Vector<NumericalType>& operator*=(const NumericalType& rhs) {
+    Vector<NumericalType>& operator*=(const NumericalType rhs) {
         for (auto i = 0; i < size_; i++) {
             data_[i] *= rhs;
         }
@@ -660,7 +660,7 @@ public:
      * @param rhs RHS scalar
      * @return Vector<NumericalType>& 
      */
-    Vector<NumericalType>& operator/=(const NumericalType& rhs) {
+    Vector<NumericalType>& operator/=(const NumericalType rhs) {
         for (auto i = 0; i < size_; i++) {
             data_[i] /= rhs;
         }
-- 
2.43.0


From 34cf4998355e12f88da018f75c213cce5d279745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:22:19 +0000
Subject: [PATCH 08/25] fix: impose the root boundary condition for homogeneous
 problems

The solve stage multiplied the boundary coefficients with the root's particular
Neumann data even when the right-hand side is homogeneous, where the upwards
stage never sets it: every tree of more than one patch ended in a dimension
mismatch exception.
---
 src/HPSAlgorithm.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/HPSAlgorithm.hpp b/src/HPSAlgorithm.hpp
index c5456a7..069f639 100644
--- a/src/HPSAlgorithm.hpp
+++ b/src/HPSAlgorithm.hpp
@@ -404,7 +404,9 @@ public:
             Vector<NumericalType> r = concatenate(rVectors);
             Vector<NumericalType> a = concatenate(aVectors);
             Vector<NumericalType> b = concatenate(bVectors);
-            Vector<NumericalType>& h = rootPatch.vectorH();
+            // A homogeneous problem has no particular Neumann data (the upwards stage leaves h unset)
+            bool homogeneous_rhs = std::get<bool>(app.options["homogeneous-rhs"]);
+            Vector<NumericalType> h = homogeneous_rhs ? Vector<NumericalType>(4*M, 0) : rootPatch.vectorH();
             Matrix<NumericalType>& T = rootPatch.matrixT();
             Vector<NumericalType>& g = rootPatch.vectorG();
 
-- 
2.43.0


From 9ae088667771dfdfead28a379a95b684fba7bbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:42:15 +0000
Subject: [PATCH 09/25] fix: broadcast of a string to ranks whose own string is
 shorter

The receiving ranks read size characters out of their own, possibly
shorter, string and ended up with a string of another length than the
root announced.
---
 src/MPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MPI.cpp b/src/MPI.cpp
index 6998e60..4016af3 100644
--- a/src/MPI.cpp
+++ b/src/MPI.cpp
@@ -68,7 +68,7 @@ int broadcast<std::string>(std::string& str, int root, MPI_Comm comm) {
     int rank; MPI_Comm_rank(comm, &rank);
     int size = str.length();
     broadcast(size, root, comm);
-    if (rank != root) str = std::string(TypeTraits<std::string>::getAddress(str), size);
+    if (rank != root) str.resize(size);
     return MPI_Bcast(TypeTraits<std::string>::getAddress(str), TypeTraits<std::string>::getSize(str), TypeTraits<std::string>::getType(str), root, comm);
 }
 
-- 
2.43.0


From 19cd039efac6975d79c0f3b2052fbd082593fd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:42:16 +0000
Subject: [PATCH 10/25] fix: messages of empty vectors

TypeTraits<std::vector<T>> formed references to the first element of
empty vectors.
---
 src/MPI.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MPI.hpp b/src/MPI.hpp
index 28d374b..1d16637 100644
--- a/src/MPI.hpp
+++ b/src/MPI.hpp
@@ -312,7 +312,7 @@ struct TypeTraits<std::vector<T>> {
      * @param vec Reference to std::vector
      * @return Datatype 
      */
-    static inline Datatype getType(std::vector<T>& vec) { return TypeTraits<T>::getType(vec[0]); }
+    static inline Datatype getType(std::vector<T>& vec) { T value{}; return TypeTraits<T>::getType(value); }
 
     /**
      * @brief Returns the size of the std::vector
@@ -328,7 +328,7 @@ struct TypeTraits<std::vector<T>> {
      * @param vec Reference to std::vector
      * @return T* 
      */
-    static inline T* getAddress(std::vector<T>& vec) { return &vec.front(); }
+    static inline T* getAddress(std::vector<T>& vec) { return vec.data(); }
 
 };
 
-- 
2.43.0


From f4a18781c5368a2c5b5fecc1ab33d534c00810ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:42:16 +0000
Subject: [PATCH 11/25] fix: argument order of MPI_Allgatherv in the generic
 allgatherv

---
 src/MPI.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MPI.hpp b/src/MPI.hpp
index 1d16637..4b116c8 100644
--- a/src/MPI.hpp
+++ b/src/MPI.hpp
@@ -295,7 +295,7 @@ int allgather(T& send_data, T& recv_data, int recv_count, Communicator comm) {
  */
 template<class T>
 int allgatherv(T& send_data, T& recv_data, std::vector<int> recv_counts, std::vector<int> displacements, Communicator comm) {
-    return MPI_Allgatherv(TypeTraits<T>::getAddress(send_data), TypeTraits<T>::getSize(send_data), TypeTraits<T>::getType(send_data), TypeTraits<T>::getAddress(recv_data), recv_counts.data(), TypeTraits<T>::getType(recv_data), displacements.data(), comm);
+    return MPI_Allgatherv(TypeTraits<T>::getAddress(send_data), TypeTraits<T>::getSize(send_data), TypeTraits<T>::getType(send_data), TypeTraits<T>::getAddress(recv_data), recv_counts.data(), displacements.data(), TypeTraits<T>::getType(recv_data), comm);
 }
 
 /**
-- 
2.43.0


From 559ef80ff13d85478ca5c4181f08ea5d4aff6014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:18:55 +0000
Subject: [PATCH 12/25] fix: building the mesh again starts from an empty mesh

A second refineByFunction appended points, cells, offsets and types to those of the first mesh.
---
 src/Mesh.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Mesh.hpp b/src/Mesh.hpp
index 7ab02b8..0525fd9 100644
--- a/src/Mesh.hpp
+++ b/src/Mesh.hpp
@@ -185,6 +185,14 @@ public:
      */
     void setMeshFromQuadtree() {
 
+        // Start from an empty mesh
+        npoints = 0;
+        ncells = 0;
+        points = Vector<double>();
+        connectivity = Vector<int>();
+        offsets = Vector<int>();
+        types = Vector<int>();
+
         points.name() = "points";
         points.setNumberOfComponents("3");
         connectivity.name() = "connectivity";
-- 
2.43.0


From c3f3a49cbb70367b378fcd6a189217726df1db6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:18:55 +0000
Subject: [PATCH 13/25] fix: every traversal hands its own tree to the p4est
 callbacks

Only traversePreOrder with a node callback set p4est's user pointer; the others (merge and split included) relied on
whatever was left there, which is the pointer saved by the constructor when nothing was traversed before.
---
 src/Quadtree.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Quadtree.hpp b/src/Quadtree.hpp
index 9b46b6c..ec6cd4b 100644
--- a/src/Quadtree.hpp
+++ b/src/Quadtree.hpp
@@ -257,6 +257,7 @@ public:
 	 */
 	void traversePreOrder(std::function<void(T&)> visit) {
 
+		p4est->user_pointer = (void*) this;
 		visit_node_data_fn = visit;
 		int skip_levels = 0;
 		p4est_search_reorder(
@@ -278,6 +279,7 @@ public:
 	 */
 	void traversePostOrder(std::function<int(Node<T>*)> visit) {
 
+		p4est->user_pointer = (void*) this;
 		visit_node_fn = visit;
 		int skip_levels = 0;
 		p4est_search_reorder(
@@ -299,6 +301,7 @@ public:
 	 */
 	void traversePostOrder(std::function<void(T&)> visit) {
 
+		p4est->user_pointer = (void*) this;
 		visit_node_data_fn = visit;
 		int skip_levels = 0;
 		p4est_search_reorder(
@@ -321,6 +324,7 @@ public:
 	 */
 	void merge(std::function<int(Node<T>*)> visit_leaf, std::function<int(Node<T>*, std::vector<Node<T>*>)> visit_family) {
 
+		p4est->user_pointer = (void*) this;
 		visit_node_fn = visit_leaf;
 		visit_family_fn = visit_family;
 		int skip_levels = 0;
@@ -344,6 +348,7 @@ public:
 	 */
 	void split(std::function<int(Node<T>*)> visit_leaf, std::function<int(Node<T>*, std::vector<Node<T>*>)> visit_family) {
 
+		p4est->user_pointer = (void*) this;
 		visit_node_fn = visit_leaf;
 		visit_family_fn = visit_family;
 		int skip_levels = 0;
-- 
2.43.0


From d30bc4d4b8c5fe3539f3c9994a1555076767ea2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:14:03 +0000
Subject: [PATCH 14/25] fix: read text options as the text, signed integers as
 integers and only whole decimal numbers as floating point

---
 src/Options.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/Options.cpp b/src/Options.cpp
index c15d3cb..170cbb1 100644
--- a/src/Options.cpp
+++ b/src/Options.cpp
@@ -1,5 +1,8 @@
 #include "Options.hpp"
 
+#include <cctype>
+#include <cstdlib>
+
 namespace EllipticForest {
 
 Options::Options()
@@ -100,16 +103,22 @@ Options::OptionTypes Options::checkValue(std::string value) {
     else if (isInt(value)) {
         return (int) std::stoi(value);
     }
-    return {};
+    return value;
 }
 
 bool Options::isDouble(std::string& str) {
-    return str.find('.') != std::string::npos;
+    if (str.find_first_of(".eE") == std::string::npos) return false;
+    if (str.find_first_not_of("+-.0123456789eE") != std::string::npos) return false;
+    char* end = nullptr;
+    std::strtod(str.c_str(), &end);
+    return end == str.c_str() + str.length();
 }
 
 bool Options::isInt(std::string& str) {
-    for (auto c : str) {
-        if (!std::isdigit(c)) return false;
+    std::size_t first = (str[0] == '-' || str[0] == '+') ? 1 : 0;
+    if (str.length() == first) return false;
+    for (std::size_t i = first; i < str.length(); i++) {
+        if (!std::isdigit(static_cast<unsigned char>(str[i]))) return false;
     }
     return true;
 }
-- 
2.43.0


From f83fbf656338a2a0d99ee50558bdd6a114faf470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:14:03 +0000
Subject: [PATCH 15/25] fix: short options with a value are classified like
 long ones

---
 src/InputParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/InputParser.cpp b/src/InputParser.cpp
index 3bad9cb..2850df4 100644
--- a/src/InputParser.cpp
+++ b/src/InputParser.cpp
@@ -27,7 +27,7 @@ void InputParser::parse(Options& options) {
                 if (option.find('=') != std::string::npos) {
                     std::string value = option.substr(option.find('=') + 1);
                     option = option.substr(0, option.find('='));
-                    options[option] = value;
+                    options[option] = options.checkValue(value);
                 }
                 else {
                     options[option] = "";
-- 
2.43.0


From 73dc1b8f4a6b4dff10075deb77216915b10c174b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:22:49 +0000
Subject: [PATCH 16/25] fix: escape the characters with a meaning in XML when
 writing attributes and data

---
 src/XMLTree.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/XMLTree.cpp b/src/XMLTree.cpp
index 3582d1a..bc32f03 100644
--- a/src/XMLTree.cpp
+++ b/src/XMLTree.cpp
@@ -22,6 +22,25 @@ void XMLNode::addChild(XMLNode* child) {
     children.push_back(child);
 }
 
+namespace {
+
+/**
+ * @brief Replaces the characters that have a meaning in XML by their entities
+ */
+std::string escapeXML(const std::string& text) {
+    std::string escaped;
+    for (char c : text) {
+        if (c == '&') escaped += "&amp;";
+        else if (c == '<') escaped += "&lt;";
+        else if (c == '>') escaped += "&gt;";
+        else if (c == '"') escaped += "&quot;";
+        else escaped += c;
+    }
+    return escaped;
+}
+
+} // NAMESPACE
+
 XMLTree::XMLTree() :
     root_(nullptr)
         {}
@@ -44,7 +63,7 @@ void XMLTree::write_(std::ofstream& file, XMLNode& node, std::string prefix) {
     std::string header = prefix;
     header += "<" + node.name + " ";
     for (auto& attributePair : node.attributes) {
-        header += attributePair.first + "=\"" + attributePair.second + "\" ";
+        header += attributePair.first + "=\"" + escapeXML(attributePair.second) + "\" ";
     }
     header.pop_back(); // Remove last space
     header += ">";
@@ -52,7 +71,7 @@ void XMLTree::write_(std::ofstream& file, XMLNode& node, std::string prefix) {
 
     // Write data
     if (node.data != "") {
-        file << node.data << std::endl;
+        file << escapeXML(node.data) << std::endl;
     }
 
     // Write children
-- 
2.43.0


From 8221e751cdb2ef50334f518a09a8f19f1c7d4cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:22:49 +0000
Subject: [PATCH 17/25] fix: write vectors as VTK data with all their digits,
 and empty vectors at all

---
 src/Vector.hpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index 5970d4e..124a759 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -3,6 +3,8 @@
 
 #include <iostream>
 #include <iomanip>
+#include <limits>
+#include <sstream>
 #include <vector>
 #include <algorithm>
 #include <initializer_list>
@@ -727,8 +729,9 @@ public:
      * @return std::string 
      */
     virtual std::string getRangeMin() {
+        if (data_.empty()) return "0";
         NumericalType min = *std::min_element(data_.begin(), data_.end());
-        return std::to_string(min);
+        return toText(min);
     }
 
     /**
@@ -737,8 +740,9 @@ public:
      * @return std::string 
      */
     virtual std::string getRangeMax() {
+        if (data_.empty()) return "0";
         NumericalType max = *std::max_element(data_.begin(), data_.end());
-        return std::to_string(max);
+        return toText(max);
     }
 
     /**
@@ -748,10 +752,25 @@ public:
      */
     virtual std::string getData() {
         std::string str = "";
-        for (auto p : data_) { str += std::to_string(p) + " "; }
+        for (auto p : data_) { str += toText(p) + " "; }
         return str;
     }
 
+private:
+
+    /**
+     * @brief Text of a number with as many digits as it takes to read the same number back
+     * 
+     * @param number Number
+     * @return std::string 
+     */
+    static std::string toText(NumericalType number) {
+        std::ostringstream text;
+        text.precision(std::numeric_limits<NumericalType>::max_digits10);
+        text << +number;
+        return text.str();
+    }
+
 };
 
 /**
-- 
2.43.0


From 5dda1084599eb4c7055f2417fc33e84d5d633c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:22:49 +0000
Subject: [PATCH 18/25] fix: names of parallel VTK files that are long or
 contain a percent sign

---
 src/VTK.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index dfc2561..743a545 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -238,10 +238,9 @@ void PUnstructuredGridVTK::addCellData(DataArrayNodeBase& cell_data) {
 void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
 
     // All ranks write individual file
-    char str_buffer[256];
-    std::string filename = filenameBase + "_%04i.vtu";
-    snprintf(str_buffer, 256, filename.c_str(), this->getRank());
-    filename = std::string(str_buffer);
+    char str_buffer[32];
+    snprintf(str_buffer, 32, "_%04i.vtu", this->getRank());
+    std::string filename = filenameBase + str_buffer;
     vtu.toVTK(filename);
 
     // Head rank writes metadata file
@@ -274,9 +273,8 @@ void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
 
         std::vector<XMLNode> node_piece_vector;
         for (int i = 0; i < this->getSize(); i++) {
-            filename = filenameBase + "_%04i.vtu";
-            snprintf(str_buffer, 256, filename.c_str(), i);
-            filename = std::string(str_buffer);
+            snprintf(str_buffer, 32, "_%04i.vtu", i);
+            filename = filenameBase + str_buffer;
             XMLNode node_piece("Piece");
             node_piece.addAttribute("Source", filename);
             node_piece_vector.push_back(node_piece);
-- 
2.43.0


From 47b1e86d86548f68fe5b4f585fe94b8a5f7753aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:22:49 +0000
Subject: [PATCH 19/25] fix: writing a VTK file twice visited the nodes of the
 first time

---
 src/VTK.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index 743a545..0e30a23 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -101,6 +101,7 @@ void RectilinearGridVTK::toVTK(std::string filename) {
 
         XMLNode node_coordinates("Coordinates");
         
+        root_.children.clear(); // The nodes of an earlier call are gone
         root_.addChild(node_rectilinear_grid);
         node_rectilinear_grid.addChild(node_piece);
         if (!cell_data_vector_.empty()) node_piece.addChild(node_cell_data);
@@ -184,6 +185,7 @@ void UnstructuredGridVTK::toVTK(std::string filename) {
             node_point_data.addAttribute("Scalars", names);
         }
 
+        root_.children.clear(); // The nodes of an earlier call are gone
         root_.addChild(node_unstructured_grid);
             node_unstructured_grid.addChild(node_piece);
                 node_piece.addChild(node_points);
@@ -281,6 +283,7 @@ void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
         }
 
         // Build structure
+        root_.children.clear(); // The nodes of an earlier call are gone
         root_.addChild(node_p_unstructured_grid);
             node_p_unstructured_grid.addChild(node_p_points);
                 node_p_points.addChild(mesh.getPoints().toPVTK());
-- 
2.43.0


From cf3909050ba90c0a89f4b40800f6bd18ca6bf9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:22:49 +0000
Subject: [PATCH 20/25] fix: pieces of a parallel VTK file are found relative
 to the file, not to the working directory

---
 src/VTK.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index 0e30a23..06e2ac4 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -276,7 +276,7 @@ void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
         std::vector<XMLNode> node_piece_vector;
         for (int i = 0; i < this->getSize(); i++) {
             snprintf(str_buffer, 32, "_%04i.vtu", i);
-            filename = filenameBase + str_buffer;
+            filename = filenameBase.substr(filenameBase.find_last_of('/') + 1) + str_buffer; // Relative to this file
             XMLNode node_piece("Piece");
             node_piece.addAttribute("Source", filename);
             node_piece_vector.push_back(node_piece);
-- 
2.43.0


From 27d45bfcbffc3f1e637e70fb90cb3433a0e29cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:31:03 +0000
Subject: [PATCH 21/25] fix: building the mesh of a rectilinear VTK file again
 kept the former coordinates

---
 src/VTK.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index 06e2ac4..831f9ce 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -41,6 +41,7 @@ RectilinearGridVTK::RectilinearGridVTK() : mesh_complete_(false), coords_data_ve
 
 void RectilinearGridVTK::buildMesh(RectilinearGridNodeBase& mesh, DataArrayNodeBase* x_coords, DataArrayNodeBase* y_coords, DataArrayNodeBase* z_coords) {
     mesh_ = &mesh;
+    coords_data_vector_.clear(); // Replaces the coordinates of an earlier mesh
     
     if (x_coords != nullptr) {
         coords_data_vector_.push_back(x_coords);
-- 
2.43.0


From e03fa225936ae014ef9d82277fd719ef01b3a66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:34 +0000
Subject: [PATCH 22/25] fix: refuse segments and blocks whose position or
 length is the image of a negative number

position + length wrapped around to a small number, so such accesses were
accepted (and returned zeros, or a matrix without entries).
---
 src/Matrix.hpp | 8 ++++----
 src/Vector.hpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index df24d75..993710c 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -481,7 +481,7 @@ public:
      * @return Matrix<NumericalType> 
      */
     Matrix<NumericalType> getBlock(std::size_t row_index, std::size_t col_index, std::size_t row_length, std::size_t col_length) {
-        if (row_index + row_length > nrows_) {
+        if (row_length > nrows_ || row_index > nrows_ - row_length) {
             std::string error_msg = "[EllipticForest::Matrix::getBlock] Row size exceeds matrix size:\n";
             error_msg += "\trowIndex = " + std::to_string(row_index) + "\n";
             error_msg += "\trowLength = " + std::to_string(row_length) + "\n";
@@ -489,7 +489,7 @@ public:
             std::cerr << error_msg << std::endl;
             throw std::out_of_range(error_msg);
         }
-        if (col_index + col_length > ncols_) {
+        if (col_length > ncols_ || col_index > ncols_ - col_length) {
             std::string error_msg = "[EllipticForest::Matrix::getBlock] Column size exceeds matrix size:\n";
             error_msg += "\tcolIndex = " + std::to_string(col_index) + "\n";
             error_msg += "\tcolLength = " + std::to_string(col_length) + "\n";
@@ -517,7 +517,7 @@ public:
      * @param mat Sub-matrix to set
      */
     void setBlock(std::size_t row_index, std::size_t col_index, Matrix<NumericalType>& mat) {
-        if (row_index + mat.nrows() > nrows_) {
+        if (mat.nrows() > nrows_ || row_index > nrows_ - mat.nrows()) {
             std::string error_msg = "[EllipticForest::Matrix::setBlock] Row size exceeds matrix size:\n";
             error_msg += "\trowIndex = " + std::to_string(row_index) + "\n";
             error_msg += "\tmat.nrows() = " + std::to_string(mat.nrows()) + "\n";
@@ -525,7 +525,7 @@ public:
             std::cerr << error_msg << std::endl;
             throw std::out_of_range(error_msg);
         }
-        if (col_index + mat.ncols() > ncols_) {
+        if (mat.ncols() > ncols_ || col_index > ncols_ - mat.ncols()) {
             std::string error_msg = "[EllipticForest::Matrix::setBlock] Column size exceeds matrix size:\n";
             error_msg += "\tcolIndex = " + std::to_string(col_index) + "\n";
             error_msg += "\tmat.ncols() = " + std::to_string(mat.ncols()) + "\n";
diff --git a/src/Vector.hpp b/src/Vector.hpp
index 124a759..f24cf59 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -311,7 +311,7 @@ public:
      * @return Vector<NumericalType> 
      */
     Vector<NumericalType> getSegment(std::size_t startIndex, std::size_t length) {
-        if (startIndex + length > size_) {
+        if (length > size_ || startIndex > size_ - length) {
             std::string errorMessage = "[EllipticForest::Vector::getSegment] Index mismatch. `startIndex` + `length` is greater than size of vector:\n";
             errorMessage += "\tstartIndex = " + std::to_string(startIndex) + "\n";
             errorMessage += "\tlength = " + std::to_string(length) + "\n";
@@ -336,7 +336,7 @@ public:
      * @param vec Vector of data to set into this vector
      */
     void setSegment(std::size_t startIndex, const Vector<NumericalType>& vec) {
-        if (startIndex + vec.size() > size_) {
+        if (vec.size() > size_ || startIndex > size_ - vec.size()) {
             std::string errorMessage = "[EllipticForest::Vector::setSegment] Index mismatch. `startIndex` + `vec.size()` is greater than size of host vector:\n";
             errorMessage += "\tstartIndex = " + std::to_string(startIndex) + "\n";
             errorMessage += "\tvec.size() = " + std::to_string(vec.size()) + "\n";
-- 
2.43.0


From b36d95410c1ca8e089f618c8009cd793b62f4c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:34 +0000
Subject: [PATCH 23/25] fix: patches of a single cell are solved with all four
 sides

The single cell was treated as the lower-left corner of a larger patch, so
the east and north data were ignored and entries outside the matrix set.
---
 src/Patches/FiniteVolume/FiniteVolumeSolver.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp b/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
index 676bd2c..f1932cb 100644
--- a/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
+++ b/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
@@ -97,7 +97,14 @@ Vector<double> FiniteVolumeSolver::solve(FiniteVolumeGrid& grid, Vector<double>&
                 double f_boundary = rhs_data[IC];
                 VecSetValue(f, IC, rhs_data[IC], INSERT_VALUES);
 
-                if (i == 0 && j == 0) {
+                if (nx == 1 && ny == 1) {
+                    // Single cell between all four sides
+                    n = 1;
+                    idxn[0] = JC; v[0] = cC - cW - cE - cS - cN;
+                    f_boundary = -2.0*(cW*g_west[j] + cE*g_east[j] + cS*g_south[i] + cN*g_north[i]);
+                    VecSetValue(f, IC, f_boundary, ADD_VALUES);
+                }
+                else if (i == 0 && j == 0) {
                     // Lower-left corner
                     n = 3;
                     idxn[0] = JE; v[0] = cE;
-- 
2.43.0


From 039a546f1b513c23735bced468e9a0e796db8172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:08 +0000
Subject: [PATCH 24/25] fix: cached leaf operators are shared only by leaves of
 the same level

With cache-operators on, every leaf of an adaptive mesh was given the
Dirichlet-to-Neumann matrix of the first leaf, whatever its size.
---
 src/HPSAlgorithm.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/HPSAlgorithm.hpp b/src/HPSAlgorithm.hpp
index 069f639..85b7706 100644
--- a/src/HPSAlgorithm.hpp
+++ b/src/HPSAlgorithm.hpp
@@ -132,10 +132,12 @@ public:
                 PatchType& patch = leaf_node->data;
                 // patch.isLeaf = true;
                 if (std::get<bool>(app.options["cache-operators"])) {
-                    if (!matrixCache.contains("T_leaf")) {
-                        matrixCache["T_leaf"] = patch_solver.buildD2N(patch.grid());
+                    // Only leaves of the same level have the same size and thus the same operator
+                    std::string name = "T_leaf_" + std::to_string(leaf_node->level);
+                    if (!matrixCache.contains(name)) {
+                        matrixCache[name] = patch_solver.buildD2N(patch.grid());
                     }
-                    patch.matrixT() = matrixCache["T_leaf"];
+                    patch.matrixT() = matrixCache[name];
                 }
                 else {
                     patch.matrixT() = patch_solver.buildD2N(patch.grid());
-- 
2.43.0


From bb6a9ad19603a9c6f39a42d469e85530a0a2cf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:08 +0000
Subject: [PATCH 25/25] fix: building the operators again starts from
 uncoarsened patches

The number of coarsenings of the first build was kept, so a second build
stage on an adaptive mesh did not match the sides (or threw).
---
 src/HPSAlgorithm.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HPSAlgorithm.hpp b/src/HPSAlgorithm.hpp
index 85b7706..6a9ad04 100644
--- a/src/HPSAlgorithm.hpp
+++ b/src/HPSAlgorithm.hpp
@@ -131,6 +131,7 @@ public:
                 // Leaf callback
                 PatchType& patch = leaf_node->data;
                 // patch.isLeaf = true;
+                patch.n_coarsens = 0;
                 if (std::get<bool>(app.options["cache-operators"])) {
                     // Only leaves of the same level have the same size and thus the same operator
                     std::string name = "T_leaf_" + std::to_string(leaf_node->level);
@@ -1009,6 +1010,7 @@ private:
 
         PatchGridType merged_grid(MPI_COMM_SELF, alpha.size() + beta.size(), alpha.grid().xLower(), beta.grid().xUpper(), alpha.size() + gamma.size(), alpha.grid().yLower(), gamma.grid().yUpper());
         tau.grid() = merged_grid;
+        tau.n_coarsens = 0;
 
     }
 
-- 
2.43.0

