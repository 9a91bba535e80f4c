From 5dd445e37410323661d49d1c990a0aab24f39e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:27 +0000
Subject: [PATCH 01/61] fix: do not use a halfedge reference across
 reallocation

Mesh::construct kept a reference into the halfedge list while appending
the boundary halfedges to the same list, and read it again after the
list had moved.
---
 src/tinymesh/core/mesh.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index db11b9c..3d5d472 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -300,14 +300,14 @@ void Mesh::construct() {
     // Construct new faces (possibly non-triangle) for each boundary components
     const auto numHalfedges = static_cast<int>(halfedges_.size());
     for (int i = 0; i < numHalfedges; i++) {
-        auto &he = halfedges_[i];
-        Assertion(he.get() != nullptr, "Null halfedge detected!");
+        Halfedge *he = halfedges_[i].get();
+        Assertion(he != nullptr, "Null halfedge detected!");
         if (he->rev_ == nullptr) {
             auto face = new Face();
             addFace(face);
 
             std::vector<Halfedge *> boundaryHalfedges;
-            Halfedge *it = he.get();
+            Halfedge *it = he;
             do {
                 auto rev = new Halfedge();
                 addHalfedge(rev);
@@ -324,11 +324,11 @@ void Mesh::construct() {
 
                 // Advance it to the next halfedge along the current boundary loop
                 it = it->next_;
-                while (it != he.get() && it->rev_ != nullptr) {
+                while (it != he && it->rev_ != nullptr) {
                     it = it->rev_;
                     it = it->next_;
                 }
-            } while (it != he.get());
+            } while (it != he);
 
             face->halfedge_ = boundaryHalfedges.front();
 
-- 
2.43.0


From 6f7bcd179bfc5f8b7680a10139bb53a24795120b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:27 +0000
Subject: [PATCH 02/61] fix: forget the previous indices when a mesh object is
 reused

Building or loading a second mesh into the same object appended the new
triangles to those of the first.
---
 src/tinymesh/core/mesh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 3d5d472..4ac62d6 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -71,6 +71,7 @@ void Mesh::load(const std::string &filename) {
     vertices_.clear();
     halfedges_.clear();
     faces_.clear();
+    indices_.clear();
 
     // Load new mesh
     const std::string ext = fs::path(filename.c_str()).extension().string();
@@ -90,6 +91,7 @@ void Mesh::construct(const std::vector<Vec3> &vertices, const std::vector<uint32
     vertices_.clear();
     halfedges_.clear();
     faces_.clear();
+    indices_.clear();
 
     std::unordered_map<Vec3, uint32_t> uniqueVertices;
     vertices_.clear();
-- 
2.43.0


From fcf046a2b1cdfa6fe11229b67468f9761e0e573b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:27 +0000
Subject: [PATCH 03/61] fix: drop degenerate triangles at the end of the index
 list

The triangle swapped in for a removed one was not examined, so an input
whose last triangle was degenerate too was rejected.
---
 src/tinymesh/core/mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 4ac62d6..7ec0187 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -193,6 +193,9 @@ void Mesh::construct() {
             std::swap(indices_[i + 1], indices_[size - 2]);
             std::swap(indices_[i + 2], indices_[size - 1]);
             indices_.resize(size - 3);
+
+            // Check the triangle swapped into this place as well
+            i -= 3;
         }
     }
 
-- 
2.43.0


From 2341e2e2e243df8b2dfa250cad0839a792af55d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:27 +0000
Subject: [PATCH 04/61] fix: reject index lists that cannot describe triangles

Out-of-range indices and incomplete triangles were read out of bounds.
---
 src/tinymesh/core/mesh.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 7ec0187..6b4c24c 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -95,7 +95,14 @@ void Mesh::construct(const std::vector<Vec3> &vertices, const std::vector<uint32
 
     std::unordered_map<Vec3, uint32_t> uniqueVertices;
     vertices_.clear();
+    if (indices.size() % 3 != 0) {
+        Error("The number of indices must be a multiple of three!");
+    }
+
     for (uint32_t i : indices) {
+        if (i >= vertices.size()) {
+            Error("Vertex index is out of range: %d", i);
+        }
         const Vec3 &pos = vertices[i];
 
         if (uniqueVertices.count(pos) == 0) {
-- 
2.43.0


From dbe850a515daa7ee49d554519a4515e86e3f32e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:27 +0000
Subject: [PATCH 05/61] fix: report unreferenced vertices before using them

The check for vertices without a polygon came after their halfedge had
already been dereferenced.
---
 src/tinymesh/core/mesh.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 6b4c24c..4926555 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -296,6 +296,13 @@ void Mesh::construct() {
         }
     }
 
+    // Check if all vertices are used by the faces
+    for (auto v : vertices_) {
+        if (v->halfedge_ == nullptr) {
+            Error("Some vertices are not referenced by any polygon!");
+        }
+    }
+
     // For convenience, advance halfedge of each boundary vertex to one that is on the boundary
     for (auto v : vertices_) {
         Halfedge *he = v->halfedge_;
@@ -359,10 +366,6 @@ void Mesh::construct() {
 
     // Check if the mesh is non-manifold
     for (auto v : vertices_) {
-        if (v->halfedge_ == nullptr) {
-            Error("Some vertices are not referenced by any polygon!");
-        }
-
         uint32_t count = v->isBoundary() ? -1 : 0;
         Halfedge *he = v->halfedge_;
         do {
-- 
2.43.0


From 68b930fa50570e72cea63887be11cea4f68524e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:27 +0000
Subject: [PATCH 06/61] fix: do not take an isolated triangle for a hole

A triangle without neighbours has boundary halfedges only and was
dropped when exporting or saving the mesh.
---
 src/tinymesh/core/face.cpp | 5 +++++
 src/tinymesh/core/face.h   | 1 +
 src/tinymesh/core/mesh.cpp | 1 +
 3 files changed, 7 insertions(+)

diff --git a/src/tinymesh/core/face.cpp b/src/tinymesh/core/face.cpp
index c73ba45..493cb24 100644
--- a/src/tinymesh/core/face.cpp
+++ b/src/tinymesh/core/face.cpp
@@ -76,6 +76,11 @@ int Face::numCorners() const {
 }
 
 bool Face::isHole() const {
+    // An isolated triangle also has boundary halfedges only.
+    if (!isHole_) {
+        return false;
+    }
+
     // Face is hole if all the vertices are at the boundary.
     for (auto it = this->he_begin(); it != this->he_end(); ++it) {
         if (!it->isBoundary()) {
diff --git a/src/tinymesh/core/face.h b/src/tinymesh/core/face.h
index 0f4ef98..b8fe9a6 100644
--- a/src/tinymesh/core/face.h
+++ b/src/tinymesh/core/face.h
@@ -67,6 +67,7 @@ public:
 private:
     Halfedge *halfedge_ = nullptr;
     int index_ = -1;
+    bool isHole_ = false;
 
     friend class Mesh;
 };
diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 4926555..a9fe134 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -323,6 +323,7 @@ void Mesh::construct() {
         Assertion(he != nullptr, "Null halfedge detected!");
         if (he->rev_ == nullptr) {
             auto face = new Face();
+            face->isHole_ = true;
             addFace(face);
 
             std::vector<Halfedge *> boundaryHalfedges;
-- 
2.43.0


From d5e2f6934281412130586b8d7b642a94cf4b1069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:11 +0000
Subject: [PATCH 07/61] fix: refuse to flip boundary edges

Flipping an edge between a triangle and a hole rewired the hole polygon
and left a structure that is not a manifold.
---
 src/tinymesh/core/mesh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index a9fe134..a42d7aa 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -887,6 +887,11 @@ bool Mesh::flipHE(Halfedge *he) {
         Error("Flip is called boundary halfedge!");
     }
 
+    // Skip halfedge at the boundary
+    if (he->isBoundary() || rev->isBoundary()) {
+        return false;
+    }
+
     Vertex *u0 = he->src();
     Vertex *u1 = he->prev()->src();
     Vertex *u2 = rev->src();
-- 
2.43.0


From 3558029fdc2b14feb22ed4d44ba25437338c469b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:01 +0000
Subject: [PATCH 08/61] fix: do not collapse an interior edge between boundary
 vertices

Merging its ends joined two places of the boundary in one vertex, which
is not a manifold any more.
---
 src/tinymesh/core/mesh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index a42d7aa..d852389 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -750,6 +750,11 @@ bool Mesh::collapseHE(Halfedge *he) {
         return false;
     }
 
+    // Merging two boundary vertices along an interior edge pinches the surface
+    if (v0->isBoundary() && v2->isBoundary()) {
+        return false;
+    }
+
     // Collect neighboring vertices of the one to be removed
     std::vector<Vertex *> neighbors;
     for (auto it = v2->he_begin(); it != v2->he_end(); ++it) {
-- 
2.43.0


From e2428cee986fa8102df951ce3377f6cfa119164f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:41 +0000
Subject: [PATCH 09/61] fix: measure the closest point from the second triangle
 corner

The region tests used the third corner in place of the second one, so the
closest point was wrong for many queries.
---
 src/tinymesh/core/triangle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/core/triangle.cpp b/src/tinymesh/core/triangle.cpp
index 77c46ca..134f60d 100644
--- a/src/tinymesh/core/triangle.cpp
+++ b/src/tinymesh/core/triangle.cpp
@@ -16,7 +16,7 @@ Vec3 Triangle::closestPoint(const Vec3 &p) const {
     const double d2 = dot(ac, ap);
     if (d1 <= 0.0 && d2 <= 0.0) return p0;  //#1
 
-    const Vec3 bp = p - p2;
+    const Vec3 bp = p - p1;
     const double d3 = dot(ab, bp);
     const double d4 = dot(ac, bp);
     if (d3 >= 0.0 && d4 <= d3) return p1;  //#2
-- 
2.43.0


From 2489e3ce7d777cefae4cf98269cbbbcc0354093a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:41 +0000
Subject: [PATCH 10/61] fix: do not write past the end of a two-component
 vector

---
 src/tinymesh/core/vec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tinymesh/core/vec.h b/src/tinymesh/core/vec.h
index 76ae2e9..ee20a4f 100644
--- a/src/tinymesh/core/vec.h
+++ b/src/tinymesh/core/vec.h
@@ -32,8 +32,8 @@ public:
         std::fill(elems.begin(), elems.end(), w);
 
         elems[0] = x;
-        if (Dims >= 1) elems[1] = y;
-        if (Dims >= 2) elems[2] = z;
+        elems[1] = y;
+        if (Dims >= 3) elems[2] = z;
     }
 
     explicit Vec(const Vec &other) {
-- 
2.43.0


From d35479a2c0c57798c009f0c5214b937b06b4f0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:42 +0000
Subject: [PATCH 11/61] fix: subtract, not multiply, between vectors and
 scalars

---
 src/tinymesh/core/vec.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tinymesh/core/vec.h b/src/tinymesh/core/vec.h
index ee20a4f..857cc2d 100644
--- a/src/tinymesh/core/vec.h
+++ b/src/tinymesh/core/vec.h
@@ -221,14 +221,14 @@ Vec<Float, Dims> operator-(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v
 template <typename Float, int Dims>
 Vec<Float, Dims> operator-(const Vec<Float, Dims> &v, Float s) {
     auto ret = v;
-    ret *= s;
+    ret -= Vec<Float, Dims>(s);
     return ret;
 }
 
 template <typename Float, int Dims>
 Vec<Float, Dims> operator-(Float s, const Vec<Float, Dims> &v) {
-    auto ret = v;
-    ret *= s;
+    auto ret = Vec<Float, Dims>(s);
+    ret -= v;
     return ret;
 }
 template <typename Float, int Dims>
-- 
2.43.0


From 50b33c2fe1b4ffacfa1ce58f2b89deadafd1c4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:42 +0000
Subject: [PATCH 12/61] fix: rotate between opposite vectors

The rotation axis was the normalised cross product.  It is zero or mere
rounding noise there, so the result was an exception or no rotation to the
second vector.
---
 src/tinymesh/core/utils.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tinymesh/core/utils.h b/src/tinymesh/core/utils.h
index 64c8457..aab9f13 100644
--- a/src/tinymesh/core/utils.h
+++ b/src/tinymesh/core/utils.h
@@ -51,6 +51,11 @@ inline EigenMatrix3 rotationFromTwoVectors(const Vec3 &v0, const Vec3 &v1) {
     if (std::abs(theta) < 1.0e-12) {
         return EigenMatrix3::Identity();
     }
+    if (dot(v0, v1) < 0.0 && length(outer) < 1.0e-8 * length(v0) * length(v1)) {
+        // The vectors are opposite, and any axis perpendicular to them does.
+        const Vec3 e = std::abs(v0.x()) < std::abs(v0.y()) ? Vec3(1.0, 0.0, 0.0) : Vec3(0.0, 1.0, 0.0);
+        return rotationAxisAngle(theta, normalize(cross(v0, e)));
+    }
     const Vec3 axis = normalize(outer);
     return rotationAxisAngle(theta, axis);
 }
-- 
2.43.0


From 5949b96ffd676462155bba56e0fff4286f0fc71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:05 +0000
Subject: [PATCH 13/61] fix: leave holes out of vertex normals

---
 src/tinymesh/core/vertex.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tinymesh/core/vertex.cpp b/src/tinymesh/core/vertex.cpp
index 1fb9bb8..6dd4321 100644
--- a/src/tinymesh/core/vertex.cpp
+++ b/src/tinymesh/core/vertex.cpp
@@ -47,6 +47,10 @@ Vec3 Vertex::normal() const {
     // Reference: Weights for Computing Vertex Normals from Facet Normals
     Vec3 norm = Vec3(0.0);
     for (auto it = he_begin(); it != he_end(); ++it) {
+        if (it->face()->isHole()) {
+            continue;
+        }
+
         const Vec3 p0 = this->pos();
         const Vec3 p1 = it->dst()->pos();
         const Vec3 p2 = it->next()->dst()->pos();
-- 
2.43.0


From f15398452fb776094f3744dffce152aacdde8b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:05 +0000
Subject: [PATCH 14/61] fix: sum the area of a polygon over a fan of triangles

The triangles of consecutive corners used before overlap.
---
 src/tinymesh/core/face.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tinymesh/core/face.cpp b/src/tinymesh/core/face.cpp
index 493cb24..0c3420b 100644
--- a/src/tinymesh/core/face.cpp
+++ b/src/tinymesh/core/face.cpp
@@ -59,8 +59,8 @@ double Face::area() const {
     const int N = static_cast<int>(vs.size());
     double area = 0.0;
     for (int i = 1; i < N - 1; i++) {
-        const Vec3 &p0 = vs[i];
-        const Vec3 &p1 = vs[i - 1];
+        const Vec3 &p0 = vs[0];
+        const Vec3 &p1 = vs[i];
         const Vec3 &p2 = vs[i + 1];
         area += 0.5 * length(cross(p1 - p0, p2 - p0));
     }
-- 
2.43.0


From fed6e8111afa69d4d8416eb3cf6f6283852091f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:05 +0000
Subject: [PATCH 15/61] fix: limit cotangent weights independently of the mesh
 scale

The limit compared an area with a constant, so all weights of small meshes
were wrong.
---
 src/tinymesh/core/halfedge.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tinymesh/core/halfedge.cpp b/src/tinymesh/core/halfedge.cpp
index fb0a2a9..67a122a 100644
--- a/src/tinymesh/core/halfedge.cpp
+++ b/src/tinymesh/core/halfedge.cpp
@@ -34,10 +34,10 @@ double Halfedge::cotWeight() const {
     const Vec3 &p3 = v3->pos();
     const double sin_a = ::length(cross(p0 - p2, p1 - p2));
     const double cos_a = dot(p0 - p2, p1 - p2);
-    const double cot_a = cos_a / std::max(sin_a, 1.0e-6);
+    const double cot_a = cos_a / std::max(sin_a, 1.0e-6 * std::abs(cos_a) + 1.0e-300);
     const double sin_b = ::length(cross(p0 - p3, p1 - p3));
     const double cos_b = dot(p0 - p3, p1 - p3);
-    const double cot_b = cos_b / std::max(sin_b, 1.0e-6);
+    const double cot_b = cos_b / std::max(sin_b, 1.0e-6 * std::abs(cos_b) + 1.0e-300);
     return 0.5 * (cot_a + cot_b);
 }
 
-- 
2.43.0


From d0c9f8322ae0ce674088a5015864691405ee4bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:05 +0000
Subject: [PATCH 16/61] fix: leave holes out of cotangent weights

For boundary edges the angle at some other vertex of the hole was added.
---
 src/tinymesh/core/halfedge.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/core/halfedge.cpp b/src/tinymesh/core/halfedge.cpp
index 67a122a..dbfbf71 100644
--- a/src/tinymesh/core/halfedge.cpp
+++ b/src/tinymesh/core/halfedge.cpp
@@ -38,7 +38,9 @@ double Halfedge::cotWeight() const {
     const double sin_b = ::length(cross(p0 - p3, p1 - p3));
     const double cos_b = dot(p0 - p3, p1 - p3);
     const double cot_b = cos_b / std::max(sin_b, 1.0e-6 * std::abs(cos_b) + 1.0e-300);
-    return 0.5 * (cot_a + cot_b);
+    const double weight_a = this->face()->isHole() ? 0.0 : cot_a;
+    const double weight_b = this->rev()->face()->isHole() ? 0.0 : cot_b;
+    return 0.5 * (weight_a + weight_b);
 }
 
 bool Halfedge::isLocked() const {
-- 
2.43.0


From c2041d80b0feb8a5b476edeb08415cbf0757b159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:36 +0000
Subject: [PATCH 17/61] fix: return the mean curvature, not the sum of
 principal curvatures

The cotangent formula of Meyer et al. gives twice the mean curvature normal.
A unit sphere was reported with mean curvature two.
---
 src/tinymesh/core/vertex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/core/vertex.cpp b/src/tinymesh/core/vertex.cpp
index 6dd4321..d8f931e 100644
--- a/src/tinymesh/core/vertex.cpp
+++ b/src/tinymesh/core/vertex.cpp
@@ -233,7 +233,7 @@ double Vertex::H() const {
             }
         }
     }
-    return -1.0 * dot(laplace, this->normal()) / (2.0 * sumAreas);
+    return -1.0 * dot(laplace, this->normal()) / (4.0 * sumAreas);
 }
 
 Vertex::VertexIterator Vertex::v_begin() {
-- 
2.43.0


From 71b18db6f547380d64afa40490b9a733cf835664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:06:05 +0000
Subject: [PATCH 18/61] fix: do not take right triangles for obtuse ones

Squares of rounded lengths were compared, so a right triangle could count as
obtuse although none of its angles is.  Its vertex areas then summed up to
three quarters of the triangle.
---
 src/tinymesh/core/vec.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/tinymesh/core/vec.h b/src/tinymesh/core/vec.h
index 857cc2d..1414928 100644
--- a/src/tinymesh/core/vec.h
+++ b/src/tinymesh/core/vec.h
@@ -315,12 +315,7 @@ double angle(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Flo
 template <typename Float, int Dims>
 bool obtuse(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Float, Dims> &c,
             typename std::enable_if<Dims == 3>::type * = 0) {
-    const Float l0 = length(b - a);
-    const Float l1 = length(c - b);
-    const Float l2 = length(a - c);
-    std::array<Float, 3> ls = { l0, l1, l2 };
-    std::sort(ls.begin(), ls.end(), std::less<Float>());
-    return ls[0] * ls[0] + ls[1] * ls[1] < ls[2] * ls[2];
+    return dot(b - a, c - a) < 0.0 || dot(c - b, a - b) < 0.0 || dot(a - c, b - c) < 0.0;
 }
 
 //! cotangent for angle a-b-c
-- 
2.43.0


From 896c5fc306fa3ac0663c428d8189cb702c3a9f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:04 +0000
Subject: [PATCH 19/61] fix: clear boundary flags on both sides of a filled
 hole

---
 src/tinymesh/core/completion.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index 8219f3a..a50d4f2 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -69,6 +69,13 @@ Face *Mesh::addNewTriangle(const std::vector<Vertex *> &boundary, const std::tup
     new_he1->isBoundary_ = false;
     new_he2->isBoundary_ = false;
 
+    // Edges that have been on the border of the hole are interior now
+    for (Halfedge *he : { new_he0, new_he1, new_he2 }) {
+        if (he->rev_) {
+            he->rev_->isBoundary_ = false;
+        }
+    }
+
     auto new_face = new Face();
     addFace(new_face);
 
-- 
2.43.0


From 62374284edf668fd49bdfb5b3ab54458ceba22ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:31 +0000
Subject: [PATCH 20/61] fix: keep the rim of a hole in place while merging
 front vertices

---
 src/tinymesh/core/completion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index a50d4f2..786885f 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -268,7 +268,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
         for (int i = 0; i < N; i++) {
             const int prev = (i - 1 + N) % N;
             const int next = (i + 1) % N;
-            if (!face_vs[i]->isLocked() && !face_vs[i]->isLocked() &&
+            if (!face_vs[i]->isLocked() && !face_vs[next]->isLocked() &&
                 length(face_vs[i]->pos() - face_vs[next]->pos()) < 0.5 * avgEdgeLen) {
                 Halfedge *he = face_hes[i];
                 std::vector<Halfedge *> v_hes;
-- 
2.43.0


From b043d6a54fbb92736b1db32aea21d4eeff4e7b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:00 +0000
Subject: [PATCH 21/61] fix: trisect straight corners of a hole by direction

---
 src/tinymesh/core/completion.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index 786885f..e685df3 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -446,8 +446,10 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
             const double len1 = (length(e1) * 2.0 + length(e2)) / 3.0;
             const double len2 = (length(e1) + length(e2) * 2.0) / 3.0;
 
-            const Vec3 pnew1 = p1 + normalize(e1 * 2.0 + e2) * len1;
-            const Vec3 pnew2 = p1 + normalize(e1 + e2 * 2.0) * len2;
+            const Vec3 d1 = normalize(e1);
+            const Vec3 d2 = normalize(e2);
+            const Vec3 pnew1 = p1 + normalize(d1 * 2.0 + d2) * len1;
+            const Vec3 pnew2 = p1 + normalize(d1 + d2 * 2.0) * len2;
 
             Vertex *new_vert1 = new Vertex(pnew1);
             Vertex *new_vert2 = new Vertex(pnew2);
-- 
2.43.0


From 9961aab4069634248a9501678318472eed55edd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:32 +0000
Subject: [PATCH 22/61] fix: accept opposite normals along the border of a hole

---
 src/tinymesh/core/completion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index e685df3..ff6fa6c 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -341,7 +341,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
             const int next = (i + 1) % N;
             const Vec3 norm1 = pair2he[E(prev, i)]->rev()->face()->normal();
             const Vec3 norm2 = pair2he[E(i, next)]->rev()->face()->normal();
-            const Vec3 norm = normalize(norm1 + norm2);
+            const Vec3 norm = norm1 + norm2;
 
             const Vec3 e1 = face_vs[prev]->pos() - face_vs[i]->pos();
             const Vec3 e2 = face_vs[next]->pos() - face_vs[i]->pos();
-- 
2.43.0


From 32bb55e0e300d9732029a9681184737f8422a722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:18 +0000
Subject: [PATCH 23/61] fix: close a folded front instead of extending it
 forever

---
 src/tinymesh/core/completion.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index ff6fa6c..7527360 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -361,7 +361,9 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
 
         // Put new triangles
         std::vector<Face *> newFaces;
-        if (minAngle <= Pi * (75.0 / 180.0)) {
+        if (minAngle <= Pi * (75.0 / 180.0) || minAngle > Pi) {
+            // NOTE: Open angles are all reflex only if the front has folded over itself,
+            // and then it would never be closed by adding vertices.
             const int prev = (minIndex - 1 + N) % N;
             const int next = (minIndex + 1) % N;
 
-- 
2.43.0


From 56e8eb9fbc60fc7d322bf9f7f534236a17203288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:18 +0000
Subject: [PATCH 24/61] fix: keep a face whose vertex normals cancel while
 filling a hole

---
 src/tinymesh/core/completion.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index 7527360..d60491b 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -603,7 +603,8 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
         for (auto it = f->v_begin(); it != f->v_end(); ++it) {
             n1 += newNormals[it.ptr()];
         }
-        n1 = normalize(n1);
+        // Opposite vertex normals leave the face as it is
+        n1 = length(n1) > 0.0 ? normalize(n1) : n0;
 
         const Vec3 axis = cross(n0, n1);
         const double theta = std::atan2(length(axis), dot(n0, n1));
-- 
2.43.0


From 34252b535a7cdeda349e25bed865783996628737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:32 +0000
Subject: [PATCH 25/61] fix: place the contracted vertex at the quadric
 minimiser and undo refused contractions

---
 src/tinymesh/remesh/simplify.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/remesh/simplify.cpp b/src/tinymesh/remesh/simplify.cpp
index 9a0708a..b337242 100644
--- a/src/tinymesh/remesh/simplify.cpp
+++ b/src/tinymesh/remesh/simplify.cpp
@@ -316,11 +316,17 @@ void simplifyQEM(Mesh &mesh, int numTarget, int maxTrials, bool verbose) {
             removedHalfedges.insert(qn.he->rev()->next()->next());
 
             // Collapse halfedge
-            qn.he->src()->setPos(qn.v);
+            const Vec3 pos_i = v_i->pos();
+            const Vec3 pos_j = v_j->pos();
+            v_i->setPos(qn.v);
+            v_j->setPos(qn.v);
             checked[qn.he->src()->index()] = 1;
             if (mesh.collapseHE(qn.he)) {
                 numRemoved += 2;
                 if (verbose) pbar.step(2);
+            } else {
+                v_i->setPos(pos_i);
+                v_j->setPos(pos_j);
             }
 
             if (numRemoved >= numTargetRemove) {
-- 
2.43.0


From 24ffc0905137ee31e7b27d55959d3387720bf4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:54 +0000
Subject: [PATCH 26/61] fix: reject negative simplification targets

---
 src/tinymesh/remesh/simplify.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/remesh/simplify.cpp b/src/tinymesh/remesh/simplify.cpp
index b337242..49a0fb2 100644
--- a/src/tinymesh/remesh/simplify.cpp
+++ b/src/tinymesh/remesh/simplify.cpp
@@ -115,7 +115,7 @@ double computeQEM(const Matrix4 &m1, const Matrix4 &m2, const Vertex &v1, const
 void simplifyQEM(Mesh &mesh, int numTarget, int maxTrials, bool verbose) {
     static const double Eps = 1.0e-12;
     const int numTargetRemove = (int)mesh.numFaces() - numTarget;
-    if (numTarget == 0) {
+    if (numTarget <= 0) {
         Assertion(numTarget > 0, "Target face number is equal or less than 0!");
     }
 
-- 
2.43.0


From d80f9a1fbf6fe53a2be2c61b0cdb76efde223ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:54 +0000
Subject: [PATCH 27/61] fix: keep the progress bar within its width when the
 last step overshoots

---
 src/tinymesh/core/progress.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/core/progress.h b/src/tinymesh/core/progress.h
index 830eacf..b169dd2 100644
--- a/src/tinymesh/core/progress.h
+++ b/src/tinymesh/core/progress.h
@@ -7,6 +7,7 @@
 
 #include <iostream>
 #include <iomanip>
+#include <algorithm>
 #include <string>
 #include <chrono>
 #include <sstream>
@@ -65,7 +66,7 @@ public:
             it_text = oss.str();
         }
 
-        const int tick = (int)(m_width * m_step / m_total);
+        const int tick = std::min(m_width, (int)(m_width * m_step / m_total));
         std::string pbar = std::string(tick, '=');
         if (tick != m_width) {
             pbar += ">";
-- 
2.43.0


From f74519cb74f751cc6248432838a1a843850f229e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:23 +0000
Subject: [PATCH 28/61] fix: check the remaining faces, not the contracted
 ones, for flips in simplification

---
 src/tinymesh/remesh/simplify.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/remesh/simplify.cpp b/src/tinymesh/remesh/simplify.cpp
index 49a0fb2..59a77f7 100644
--- a/src/tinymesh/remesh/simplify.cpp
+++ b/src/tinymesh/remesh/simplify.cpp
@@ -250,7 +250,7 @@ void simplifyQEM(Mesh &mesh, int numTarget, int maxTrials, bool verbose) {
                     }
                 }
 
-                if (!has_i || !has_j) {
+                if (has_i && has_j) {
                     // This is contracted face
                     continue;
                 }
-- 
2.43.0


From 40ad47702962b5d0a991a7f03e45c2026dfba203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:09 +0000
Subject: [PATCH 29/61] fix: solve the implicit fairing system directly instead
 of with a solver that may break down

---
 src/tinymesh/filters/smooth.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/tinymesh/filters/smooth.cpp b/src/tinymesh/filters/smooth.cpp
index 65b5b43..d2e45cb 100644
--- a/src/tinymesh/filters/smooth.cpp
+++ b/src/tinymesh/filters/smooth.cpp
@@ -5,7 +5,7 @@
 #include <unordered_map>
 
 #include <Eigen/SparseCore>
-#include <Eigen/IterativeLinearSolvers>
+#include <Eigen/SparseLU>
 
 using ScalarType = double;
 using IndexType = int64_t;
@@ -150,13 +150,12 @@ void implicitFairing(Mesh &mesh, double epsilon, int iterations) {
 
         SparseMatrix A = I - epsilon * K;
 
-        Eigen::BiCGSTAB<SparseMatrix> cg;
-        cg.setTolerance(1.0e-6);
-        cg.setMaxIterations(50);
-        cg.compute(A);
+        Eigen::SparseLU<SparseMatrix> lu;
+        lu.compute(A);
+        Assertion(lu.info() == Eigen::Success, "Diffusion matrix is singular!");
 
         Eigen::MatrixXd Xnext(n_verts, 3);
-        Xnext = cg.solve(X);
+        Xnext = lu.solve(X);
 
         for (int i = 0; i < n_verts; i++) {
             const Vec3 newpos = Vec3(Xnext(i, 0), Xnext(i, 1), Xnext(i, 2));
-- 
2.43.0


From c211b21cc9bf2b91c15586290e9ef779f6a4c603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:26 +0000
Subject: [PATCH 30/61] fix: make the denoising kernel continuous, so that
 nearer faces never weigh less

---
 src/tinymesh/filters/denoise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/filters/denoise.cpp b/src/tinymesh/filters/denoise.cpp
index c335a53..6bb06fd 100644
--- a/src/tinymesh/filters/denoise.cpp
+++ b/src/tinymesh/filters/denoise.cpp
@@ -20,7 +20,7 @@ inline double K(double x, double sigma) {
     const double sigma2 = sigma * sigma;
     const double coef = 1.0 / (std::sqrt(2.0 * Pi) * sigma);
     if (x < 2.0 * sigma) {
-        return coef * std::exp(-x * x / sigma2);
+        return coef * std::exp(-x * x / (2.0 * sigma2));
     }
 
     if (x < 4.0 * sigma) {
-- 
2.43.0


From b1893164667ccaba7cbaf6bf0b3837414659bace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:33 +0000
Subject: [PATCH 31/61] fix: report open meshes given to normal denoising
 outside of the parallel region

---
 src/tinymesh/filters/denoise.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/tinymesh/filters/denoise.cpp b/src/tinymesh/filters/denoise.cpp
index 6bb06fd..eac3f08 100644
--- a/src/tinymesh/filters/denoise.cpp
+++ b/src/tinymesh/filters/denoise.cpp
@@ -31,11 +31,28 @@ inline double K(double x, double sigma) {
     return 0.0;
 }
 
+// NOTE: An error cannot be thrown from inside of a parallel region.
+inline void checkTriangular(const tinymesh::Mesh &mesh) {
+    for (int i = 0; i < (int)mesh.numFaces(); i++) {
+        int degree = 0;
+        tinymesh::Face *f = mesh.face(i);
+        for (auto vit = f->v_begin(); vit != f->v_end(); ++vit) {
+            degree++;
+        }
+
+        if (degree != 3) {
+            Error("Mesh is not triangular! Call \"mesh.triangulate()\" first!");
+        }
+    }
+}
+
 }  // anonymous namespace
 
 namespace tinymesh {
 
 void denoiseNormalGaussian(Mesh &mesh, double sigma, int iterations) {
+    checkTriangular(mesh);
+
     // Average edge length
     double avgEdge = mesh.getMeanEdgeLength();
 
@@ -55,10 +72,6 @@ void denoiseNormalGaussian(Mesh &mesh, double sigma, int iterations) {
                 vs.push_back(vit->pos());
             }
 
-            if (vs.size() != 3) {
-                Error("Mesh is not triangular! Call \"mesh.triangulate()\" first!");
-            }
-
             const Vec3 outer = cross(vs[1] - vs[0], vs[2] - vs[0]);
             normals[i] = normalize(outer);
             centroids[i] = (vs[0] + vs[1] + vs[2]) / 3.0;
@@ -102,6 +115,8 @@ void denoiseNormalGaussian(Mesh &mesh, double sigma, int iterations) {
 }
 
 void denoiseNormalBilateral(Mesh &mesh, double sigmaCenter, double sigmaNormal, int iterations) {
+    checkTriangular(mesh);
+
     // Average edge length
     double avgEdge = mesh.getMeanEdgeLength();
 
@@ -121,10 +136,6 @@ void denoiseNormalBilateral(Mesh &mesh, double sigmaCenter, double sigmaNormal,
                 vs.push_back(vit->pos());
             }
 
-            if (vs.size() != 3) {
-                Error("Mesh is not triangular! Call \"mesh.triangulate()\" first!");
-            }
-
             const Vec3 outer = cross(vs[1] - vs[0], vs[2] - vs[0]);
             normals[i] = normalize(outer);
             centroids[i] = (vs[0] + vs[1] + vs[2]) / 3.0;
-- 
2.43.0


From f17bdc8c7853869bdaccf426378ffa4370b9bfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:54 +0000
Subject: [PATCH 32/61] fix: solve the L0 denoising system directly instead of
 with a solver that may break down

---
 src/tinymesh/filters/denoise.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tinymesh/filters/denoise.cpp b/src/tinymesh/filters/denoise.cpp
index eac3f08..bb3d330 100644
--- a/src/tinymesh/filters/denoise.cpp
+++ b/src/tinymesh/filters/denoise.cpp
@@ -12,7 +12,7 @@
 
 #define EIGEN_ENABLE_SPARSE
 #include "core/eigen.h"
-#include <Eigen/IterativeLinearSolvers>
+#include <Eigen/SparseCholesky>
 
 namespace {
 
@@ -305,10 +305,10 @@ void denoiseL0Smooth(Mesh &mesh, double alpha, double beta) {
         EigenSparseMatrix A = I + alpha * R.transpose() * R + beta * D.transpose() * D;
         EigenMatrix bb = pVecInit + beta * D.transpose() * delta;
 
-        Eigen::BiCGSTAB<EigenSparseMatrix> cg;
-        cg.compute(A);
-        pVec = cg.solve(bb);
-        if (cg.info() != Eigen::Success) {
+        Eigen::SimplicialLDLT<EigenSparseMatrix> ldlt;
+        ldlt.compute(A);
+        pVec = ldlt.solve(bb);
+        if (ldlt.info() != Eigen::Success) {
             Warn("Solve linear system failed\n");
         }
 
-- 
2.43.0


From 7812c08e44830bb1bf78115e4a33775bf35e41dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:58:47 +0000
Subject: [PATCH 33/61] fix: reject heat kernel signatures with too few
 eigenvalues or times

---
 src/tinymesh/ops/features.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tinymesh/ops/features.cpp b/src/tinymesh/ops/features.cpp
index 39c8372..1140e01 100644
--- a/src/tinymesh/ops/features.cpp
+++ b/src/tinymesh/ops/features.cpp
@@ -130,6 +130,8 @@ void smoothingTensors(std::vector<EigenMatrix2> &tensors, std::vector<LocalFrame
 
 EigenMatrix getHeatKernelSignatures(const EigenSparseMatrix &L, int K, int nTimes) {
     Assertion(K < L.rows(), "Eigenvalues less than matrix size can only be requested!");
+    Assertion(K >= 2, "At least two eigenvalues are required to choose the times!");
+    Assertion(nTimes >= 1, "At least one time is required!");
     const int ncv = std::min(K * 8, (int)L.rows());
 
     // Spectra::SparseSymMatProd<FloatType> op(L);
-- 
2.43.0


From 5ac478b84ef2f8726bd70b9fa013bd14df091fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:58:47 +0000
Subject: [PATCH 34/61] fix: give finite heat kernel signatures for a single
 time

---
 src/tinymesh/ops/features.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/ops/features.cpp b/src/tinymesh/ops/features.cpp
index 1140e01..05167c0 100644
--- a/src/tinymesh/ops/features.cpp
+++ b/src/tinymesh/ops/features.cpp
@@ -159,7 +159,7 @@ EigenMatrix getHeatKernelSignatures(const EigenSparseMatrix &L, int K, int nTime
 
     const double log_t_min = std::log(t_min);
     const double log_t_max = std::log(t_max);
-    const double inc = (log_t_max - log_t_min) / (nTimes - 1);
+    const double inc = nTimes > 1 ? (log_t_max - log_t_min) / (nTimes - 1) : 0.0;
     EigenVector times(nTimes);
     for (int i = 0; i < nTimes; i++) {
         times(i) = std::exp(log_t_min + i * inc);
-- 
2.43.0


From 675e1bf3395cb870777eeeda8267b04dbe89da50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:00:05 +0000
Subject: [PATCH 35/61] fix: shift the heat kernel eigenproblem relative to the
 size of the operator

---
 src/tinymesh/ops/features.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/ops/features.cpp b/src/tinymesh/ops/features.cpp
index 05167c0..98d1bca 100644
--- a/src/tinymesh/ops/features.cpp
+++ b/src/tinymesh/ops/features.cpp
@@ -143,8 +143,9 @@ EigenMatrix getHeatKernelSignatures(const EigenSparseMatrix &L, int K, int nTime
     //     Error("Eigen decomposition failed!");
     // }
 
+    const double shift = -1.0e-8 * std::max(1.0e-12, L.diagonal().cwiseAbs().maxCoeff());
     Spectra::SparseSymShiftSolve<FloatType> op(L);
-    Spectra::SymEigsShiftSolver<Spectra::SparseSymShiftSolve<FloatType>> eigs(op, K, ncv, -1.0e-8);
+    Spectra::SymEigsShiftSolver<Spectra::SparseSymShiftSolve<FloatType>> eigs(op, K, ncv, shift);
     eigs.init();
     eigs.compute(Spectra::SortRule::LargestMagn, 200, 1.0e-4, Spectra::SortRule::SmallestMagn);
     if (eigs.info() != Spectra::CompInfo::Successful) {
-- 
2.43.0


From 1029a77732692e7bfde2bef8a023fd426fa0da4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:03:56 +0000
Subject: [PATCH 36/61] fix: make the vertex frames of the curvature tensors
 orthonormal

---
 src/tinymesh/ops/features.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tinymesh/ops/features.cpp b/src/tinymesh/ops/features.cpp
index 98d1bca..1440534 100644
--- a/src/tinymesh/ops/features.cpp
+++ b/src/tinymesh/ops/features.cpp
@@ -271,8 +271,13 @@ void getCurvatureTensors(const Mesh &mesh, std::vector<EigenMatrix2> &tensors, s
         const Vec3 np = vertex->normal();
         Vec3 up, vp;
         for (auto it = vertex->v_begin(); it != vertex->v_end(); ++it) {
-            up = normalize(it->pos() - vertex->pos());
-            break;
+            // Project the edge to the tangent plane so that the frame is orthonormal
+            const Vec3 e = it->pos() - vertex->pos();
+            const Vec3 t = e - dot(e, np) * np;
+            if (length(t) > 1.0e-6 * length(e)) {
+                up = normalize(t);
+                break;
+            }
         }
         vp = normalize(cross(np, up));
 
-- 
2.43.0


From cdcf93c0f8c83a8922399fe1b1a0231cb2be905f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:03:56 +0000
Subject: [PATCH 37/61] fix: return the principal direction of the maximum
 curvature as such

---
 src/tinymesh/ops/features.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tinymesh/ops/features.cpp b/src/tinymesh/ops/features.cpp
index 1440534..f9273ae 100644
--- a/src/tinymesh/ops/features.cpp
+++ b/src/tinymesh/ops/features.cpp
@@ -60,10 +60,10 @@ void getPrincipalCurvaturesFromTensors(std::vector<double> &ks_max, std::vector<
         double k_max = M(1, 1) + tt * M(0, 1);
         Vec3 t_min, t_max;
         if (k_max > k_min) {
-            t_max = c * up - s * vp;
+            t_max = s * up + c * vp;
         } else {
             std::swap(k_min, k_max);
-            t_max = s * up + c * vp;
+            t_max = c * up - s * vp;
         }
         t_min = normalize(cross(np, t_max));
 
-- 
2.43.0


From 6981ee166568faedc3e9e347352dcb8d7b5a4d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:58 +0000
Subject: [PATCH 38/61] fix: leave the feature line field zero where the
 surface has no ridge or valley

---
 src/tinymesh/ops/features.cpp | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/tinymesh/ops/features.cpp b/src/tinymesh/ops/features.cpp
index f9273ae..653d18b 100644
--- a/src/tinymesh/ops/features.cpp
+++ b/src/tinymesh/ops/features.cpp
@@ -663,6 +663,26 @@ std::tuple<EigenMatrix, EigenVector> getFeatureLineFieldWithFlags(const Mesh &me
         }
     }
 
+    // Find vertices connected to a ridge or valley. The field is left zero elsewhere
+    std::vector<bool> reached(mesh.numVertices(), false);
+    std::vector<int> stack;
+    for (int i = 0; i < mesh.numVertices(); i++) {
+        if (ridgeValleyFlags(i) != 0.0) {
+            reached[i] = true;
+            stack.push_back(i);
+        }
+    }
+    while (!stack.empty()) {
+        const Vertex *v = mesh.vertex(stack.back());
+        stack.pop_back();
+        for (auto it = v->v_begin(); it != v->v_end(); ++it) {
+            if (!reached[it->index()]) {
+                reached[it->index()] = true;
+                stack.push_back(it->index());
+            }
+        }
+    }
+
     // Solve Laplace equation
     std::vector<EigenTriplet> tripNonRV;
     std::vector<EigenTriplet> tripRV;
@@ -672,7 +692,7 @@ std::tuple<EigenMatrix, EigenVector> getFeatureLineFieldWithFlags(const Mesh &me
     int countRV = 0;
     for (size_t i = 0; i < mesh.numVertices(); i++) {
         const Vertex *v = mesh.vertex(i);
-        if (ridgeValleyFlags(i) == 0.0) {
+        if (ridgeValleyFlags(i) == 0.0 && reached[i]) {
             // non-ridge-valley vertex
             if (uniqueNonRV.count(i) == 0) {
                 uniqueNonRV[i] = countNonRV;
@@ -726,12 +746,18 @@ std::tuple<EigenMatrix, EigenVector> getFeatureLineFieldWithFlags(const Mesh &me
     }
 
     EigenMatrix bb = -SS * xxRV;
-    Eigen::SimplicialLDLT<EigenSparseMatrix> solver(LL);
-    EigenMatrix xx = solver.solve(bb);
+    EigenMatrix xx(countNonRV, 3);
+    if (countNonRV > 0) {
+        Eigen::SimplicialLDLT<EigenSparseMatrix> solver(LL);
+        xx = solver.solve(bb);
+    }
 
     for (auto it : uniqueNonRV) {
         const int i = it.second;
-        rvDirections[it.first] = normalize(Vec3(xx(i, 0), xx(i, 1), xx(i, 2)));
+        const Vec3 d(xx(i, 0), xx(i, 1), xx(i, 2));
+        if (length(d) > 1.0e-8) {
+            rvDirections[it.first] = normalize(d);
+        }
     }
 
     // Convert std::vector to EigenMatrix
-- 
2.43.0


From 9decacf7d74eb2afdb07bcd2c03ee49bb256a0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:58 +0000
Subject: [PATCH 39/61] fix: use the whole curvature tensor at umbilical points
 for curvature derivatives

---
 src/tinymesh/ops/features.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/tinymesh/ops/features.cpp b/src/tinymesh/ops/features.cpp
index 653d18b..c4b9522 100644
--- a/src/tinymesh/ops/features.cpp
+++ b/src/tinymesh/ops/features.cpp
@@ -396,8 +396,8 @@ getPrincipalCurvaturesWithDerivatives(const Mesh &mesh, bool smoothTensors) {
 
         std::array<EigenVector3, 3> Mfs;
         for (int k = 0; k < 3; k++) {
-            const Vec3 &up = ts_max[ids[k]];
-            const Vec3 &vp = ts_min[ids[k]];
+            const Vec3 &up = std::get<0>(frames[ids[k]]);
+            const Vec3 &vp = std::get<1>(frames[ids[k]]);
             const Vec3 &np = std::get<2>(frames[ids[k]]);
             const EigenMatrix3 rot = rotationFromTwoVectors(nf, np);
 
@@ -407,8 +407,7 @@ getPrincipalCurvaturesWithDerivatives(const Mesh &mesh, bool smoothTensors) {
             new_uf << dot(rot_uf, up), dot(rot_uf, vp);
             new_vf << dot(rot_vf, up), dot(rot_vf, vp);
 
-            EigenMatrix2 M;
-            M << ks_max[ids[k]], 0.0, 0.0, ks_min[ids[k]];
+            const EigenMatrix2 &M = tensors[ids[k]];
             Mfs[k] << secondForm(M, new_uf, new_uf),  //
                 secondForm(M, new_uf, new_vf),        //
                 secondForm(M, new_vf, new_vf);
-- 
2.43.0


From 6fc1d3eb09b920f259bf5d4c9a68f872b5a24ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:26 +0000
Subject: [PATCH 40/61] fix: save OBJ coordinates with all their digits

---
 src/tinymesh/core/mesh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index d852389..c9e8e02 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -4,6 +4,7 @@
 #include <cstring>
 #include <iostream>
 #include <fstream>
+#include <limits>
 #include <set>
 #include <map>
 #include <queue>
@@ -501,6 +502,7 @@ void Mesh::saveOBJ(const std::string &filename) const {
         Error("Failed to open file: %s", filename.c_str());
     }
 
+    writer.precision(std::numeric_limits<double>::max_digits10);
     for (const auto &v : vertices_) {
         writer << "v " << v->pos().x() << " " << v->pos().y() << " " << v->pos().z() << std::endl;
     }
-- 
2.43.0


From 36b2cfce0544e6aa0af3035d2563465861617159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:49 +0000
Subject: [PATCH 41/61] fix: report PLY files that cannot be opened for writing

---
 src/tinymesh/core/mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index c9e8e02..fb62422 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -531,7 +531,7 @@ void Mesh::savePLY(const std::string &filename) const {
     buffer.open(filename.c_str(), std::ios::out | std::ios::binary);
 
     std::ostream outstream(&buffer);
-    if (outstream.fail()) {
+    if (!buffer.is_open()) {
         Error("Failed to open file: %s", filename.c_str());
     }
 
-- 
2.43.0


From 49c32dcecbd8fee8d65320f836483a521fc0daad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:11:14 +0000
Subject: [PATCH 42/61] fix: report mesh files that could not be written
 completely

---
 src/tinymesh/core/mesh.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index fb62422..eecaeb6 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -522,6 +522,9 @@ void Mesh::saveOBJ(const std::string &filename) const {
     }
 
     writer.close();
+    if (writer.fail()) {
+        Error("Failed to write file: %s", filename.c_str());
+    }
 }
 
 void Mesh::savePLY(const std::string &filename) const {
@@ -575,6 +578,10 @@ void Mesh::savePLY(const std::string &filename) const {
     plyfile.get_comments().push_back("generated by tinyply 2.2");
 
     plyfile.write(outstream, true);
+    outstream.flush();
+    if (outstream.fail()) {
+        Error("Failed to write file: %s", filename.c_str());
+    }
 }
 
 bool Mesh::splitHE(Halfedge *he) {
-- 
2.43.0


From de06ed2bea8f4bfef8fc1f595c3fb8d9503352a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:06 +0000
Subject: [PATCH 43/61] fix: report PLY files without vertices or faces

---
 src/tinymesh/core/mesh.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index eecaeb6..4d625fb 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -460,6 +460,10 @@ void Mesh::loadPLY(const std::string &filename) {
         std::cerr << "tinyply exception: " << e.what() << std::endl;
     }
 
+    if (!vert_data || !face_data) {
+        Error("Vertices or faces are missing in file: %s", filename.c_str());
+    }
+
     // Read vertex data
     file.read(reader);
 
-- 
2.43.0


From 20c3b708054636f46797bbdf24dbac646de6594a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:06 +0000
Subject: [PATCH 44/61] fix: convert PLY coordinates and indices from their
 scalar type

---
 src/tinymesh/core/mesh.cpp | 82 ++++++++++++++++++++++++++++++++++----
 1 file changed, 74 insertions(+), 8 deletions(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 4d625fb..5c4a691 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -28,6 +28,76 @@
 
 namespace fs = std::filesystem;
 
+namespace {
+
+size_t plySize(tinyply::Type type) {
+    switch (type) {
+        case tinyply::Type::INT8:
+        case tinyply::Type::UINT8:
+            return 1;
+        case tinyply::Type::INT16:
+        case tinyply::Type::UINT16:
+            return 2;
+        case tinyply::Type::INT32:
+        case tinyply::Type::UINT32:
+        case tinyply::Type::FLOAT32:
+            return 4;
+        case tinyply::Type::FLOAT64:
+            return 8;
+        default:
+            return 0;
+    }
+}
+
+template <typename T>
+double plyNumber(const uint8_t *src) {
+    T value;
+    std::memcpy(&value, src, sizeof(T));
+    return static_cast<double>(value);
+}
+
+//! Convert PLY data of any scalar type (three numbers per element) to doubles
+std::vector<double> plyNumbers(tinyply::PlyData &data) {
+    const size_t size = plySize(data.t);
+    if (size == 0 || data.buffer.size_bytes() != data.count * 3 * size) {
+        Error("Unexpected number of values in PLY file!");
+    }
+
+    std::vector<double> ret(data.count * 3);
+    for (size_t i = 0; i < ret.size(); i++) {
+        const uint8_t *src = data.buffer.get() + i * size;
+        switch (data.t) {
+            case tinyply::Type::INT8:
+                ret[i] = plyNumber<int8_t>(src);
+                break;
+            case tinyply::Type::UINT8:
+                ret[i] = plyNumber<uint8_t>(src);
+                break;
+            case tinyply::Type::INT16:
+                ret[i] = plyNumber<int16_t>(src);
+                break;
+            case tinyply::Type::UINT16:
+                ret[i] = plyNumber<uint16_t>(src);
+                break;
+            case tinyply::Type::INT32:
+                ret[i] = plyNumber<int32_t>(src);
+                break;
+            case tinyply::Type::UINT32:
+                ret[i] = plyNumber<uint32_t>(src);
+                break;
+            case tinyply::Type::FLOAT32:
+                ret[i] = plyNumber<float>(src);
+                break;
+            default:
+                ret[i] = plyNumber<double>(src);
+                break;
+        }
+    }
+    return ret;
+}
+
+}  // anonymous namespace
+
 namespace tinymesh {
 
 // ----------
@@ -468,17 +538,13 @@ void Mesh::loadPLY(const std::string &filename) {
     file.read(reader);
 
     // Copy vertex data
-    const size_t numVerts = vert_data->count;
-    std::vector<float> raw_vertices(numVerts * 3);
-    std::memcpy(raw_vertices.data(), vert_data->buffer.get(), sizeof(float) * numVerts * 3);
-
-    const size_t numFaces = face_data->count;
-    std::vector<uint32_t> raw_indices(numFaces * 3);
-    std::memcpy(raw_indices.data(), face_data->buffer.get(), sizeof(uint32_t) * numFaces * 3);
+    const std::vector<double> raw_vertices = plyNumbers(*vert_data);
+    const std::vector<double> raw_indices = plyNumbers(*face_data);
 
     std::unordered_map<Vec3, uint32_t> uniqueVertices;
     vertices_.clear();
-    for (uint32_t i : raw_indices) {
+    for (double index : raw_indices) {
+        const int64_t i = static_cast<int64_t>(index);
         const Vec3 pos = Vec3(raw_vertices[i * 3 + 0], raw_vertices[i * 3 + 1], raw_vertices[i * 3 + 2]);
         if (uniqueVertices.count(pos) == 0) {
             uniqueVertices[pos] = static_cast<uint32_t>(vertices_.size());
-- 
2.43.0


From a0159175ab4c550417e31f8ba26f597648a7139f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:06 +0000
Subject: [PATCH 45/61] fix: reject PLY files with indices out of range

---
 src/tinymesh/core/mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 5c4a691..b94adc7 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -544,6 +544,9 @@ void Mesh::loadPLY(const std::string &filename) {
     std::unordered_map<Vec3, uint32_t> uniqueVertices;
     vertices_.clear();
     for (double index : raw_indices) {
+        if (!(index >= 0.0 && index < static_cast<double>(vert_data->count))) {
+            Error("Vertex index is out of range: %s", filename.c_str());
+        }
         const int64_t i = static_cast<int64_t>(index);
         const Vec3 pos = Vec3(raw_vertices[i * 3 + 0], raw_vertices[i * 3 + 1], raw_vertices[i * 3 + 2]);
         if (uniqueVertices.count(pos) == 0) {
-- 
2.43.0


From 38874b905ceabff82e57cd6c4b998fd76a8e9b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:06 +0000
Subject: [PATCH 46/61] fix: reject OBJ files with indices out of range

---
 src/tinymesh/core/mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index b94adc7..78e397c 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -474,6 +474,9 @@ void Mesh::loadOBJ(const std::string &filename) {
     for (const auto &shape : shapes) {
         for (const auto &index : shape.mesh.indices) {
             Vec3 v;
+            if ((index.vertex_index + 1) * 3LL > (long long)attrib.vertices.size()) {
+                Error("Vertex index is out of range: %s", filename.c_str());
+            }
             if (index.vertex_index >= 0) {
                 v = Vec3(attrib.vertices[index.vertex_index * 3 + 0], attrib.vertices[index.vertex_index * 3 + 1],
                          attrib.vertices[index.vertex_index * 3 + 2]);
-- 
2.43.0


From 857c7080d7c2c894e0c33617347bb134aae1d394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:23 +0000
Subject: [PATCH 47/61] fix: reject vertices whose position is not finite

---
 src/tinymesh/core/mesh.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 78e397c..d5dbdd5 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -263,6 +263,13 @@ double Mesh::getMeanFaceArea() const {
 }
 
 void Mesh::construct() {
+    for (const auto &v : vertices_) {
+        const Vec3 p = v->pos();
+        if (!std::isfinite(p.x()) || !std::isfinite(p.y()) || !std::isfinite(p.z())) {
+            Error("Vertex position is not finite!");
+        }
+    }
+
     for (size_t i = 0; i < indices_.size(); i += 3) {
         if (indices_[i + 0] == indices_[i + 1] || indices_[i + 1] == indices_[i + 2] ||
             indices_[i + 2] == indices_[i + 0]) {
-- 
2.43.0


From 45f53bcf8bd98cf1c739fb470f16d2348ec0be98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:33:08 +0000
Subject: [PATCH 48/61] fix: keep the existing vertices when completion repairs
 its patch

---
 src/tinymesh/restore/completion.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tinymesh/restore/completion.cpp b/src/tinymesh/restore/completion.cpp
index 869f815..15dadbe 100644
--- a/src/tinymesh/restore/completion.cpp
+++ b/src/tinymesh/restore/completion.cpp
@@ -571,6 +571,9 @@ void holeFillContextCoherent(Mesh &mesh, int maxiters) {
 
                 Vertex *v = mesh.vertex(tgtId);
                 for (auto it = v->he_begin(); it != v->he_end(); ++it) {
+                    // Existing vertices must not be merged into the patch
+                    if (v->isLocked() || it->dst()->isLocked()) continue;
+
                     const Vec3 v0 = it->src()->pos();
                     const Vec3 v1 = it->dst()->pos();
                     const Vec3 vl = it->next()->dst()->pos();
@@ -601,6 +604,13 @@ void holeFillContextCoherent(Mesh &mesh, int maxiters) {
                 for (auto it = v->f_begin(); it != v->f_end(); ++it) {
                     if (it->index() < 0) continue;
 
+                    // Existing vertices must not be merged into the patch
+                    bool hasLocked = false;
+                    for (auto vit = it->v_begin(); vit != it->v_end(); ++vit) {
+                        hasLocked |= vit->isLocked();
+                    }
+                    if (hasLocked) continue;
+
                     if (it->area() < 0.01 * avgArea) {
                         if (mesh.collapseFace(it.ptr())) {
                             isRepaired = true;
-- 
2.43.0


From 08090cd33321a803b63514b12d7754dc86ddf73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:57:33 +0000
Subject: [PATCH 49/61] fix: refuse collapses that turn triangles over

The sign of each triangle was compared with that of the previous one only,
so the outcome depended on where the neighbourhood started and a collapse
that turned every triangle over was accepted.
---
 src/tinymesh/core/mesh.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index d5dbdd5..aff475d 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -885,16 +885,13 @@ bool Mesh::collapseHE(Halfedge *he) {
     }
     norm = normalize(norm);
 
-    double sign = 0.0;
     for (size_t i = 0; i < neighbors.size(); i++) {
         const size_t j = (i + 1) % neighbors.size();
         const Vec3 e1 = neighbors[i]->pos() - v0->pos();
         const Vec3 e2 = neighbors[j]->pos() - v0->pos();
-        const double s = dot(norm, cross(e1, e2));
-        if (sign * s < 0.0) {
+        if (dot(norm, cross(e1, e2)) < 0.0) {
             return false;
         }
-        sign = s;
     }
 
     // Update origins of all outward halfedges
-- 
2.43.0


From 42bf5f86fbf369f25f41e7fc5838604a75b8c728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:26:28 +0000
Subject: [PATCH 50/61] fix: keep the mesh alive while Python holds its
 elements

---
 src/pybind11.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybind11.cpp b/src/pybind11.cpp
index e9870e9..020e1cf 100644
--- a/src/pybind11.cpp
+++ b/src/pybind11.cpp
@@ -58,8 +58,8 @@ PYBIND11_MODULE(tinymesh, m) {
         .def("clone", &Mesh::clone, py::return_value_policy::move)
         .def("load", &Mesh::load)
         .def("save", &Mesh::save)
-        .def("vertex", &Mesh::vertex, py::return_value_policy::reference)
-        .def("face", &Mesh::face, py::return_value_policy::reference)
+        .def("vertex", &Mesh::vertex, py::return_value_policy::reference_internal)
+        .def("face", &Mesh::face, py::return_value_policy::reference_internal)
         .def("get_vertices", &Mesh::getVertices)
         .def("get_vertex_indices", &Mesh::getVertexIndices)
         .def("num_vertices", &Mesh::numVertices)
-- 
2.43.0


From 5d3f1941e32c190d401982d4c48df17a26aa49bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:27:08 +0000
Subject: [PATCH 51/61] fix: refuse None as the hole to fill

---
 src/pybind11.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybind11.cpp b/src/pybind11.cpp
index 020e1cf..d811be4 100644
--- a/src/pybind11.cpp
+++ b/src/pybind11.cpp
@@ -137,10 +137,10 @@ PYBIND11_MODULE(tinymesh, m) {
           py::arg("n_trials") = 10, py::arg("verbose") = false);
 
     /*** Hole filling ***/
-    m.def("hole_fill_min_dihedral", &holeFillMinDihedral, "Max-area hole filling", py::arg("mesh"), py::arg("face"),
+    m.def("hole_fill_min_dihedral", &holeFillMinDihedral, "Max-area hole filling", py::arg("mesh"), py::arg("face").none(false),
           py::arg("dihedral_bound") = Pi);
     m.def("hole_fill_advancing_front", &holeFillAdvancingFront, "Advancing front hole filling", py::arg("mesh"),
-          py::arg("face"));
+          py::arg("face").none(false));
     m.def("hole_fill_context_coherent", &holeFillContextCoherent, "Context-based coherent surface completion",
           py::arg("mesh"), py::arg("maxiters") = 200);
 }
-- 
2.43.0


From 54ba90188ec22d11a24597d5bfab6bebe8dc41bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:46 +0000
Subject: [PATCH 52/61] fix: leave vertices where they are when smoothing
 weights cancel

---
 src/tinymesh/filters/smooth.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/filters/smooth.cpp b/src/tinymesh/filters/smooth.cpp
index d2e45cb..3870d21 100644
--- a/src/tinymesh/filters/smooth.cpp
+++ b/src/tinymesh/filters/smooth.cpp
@@ -40,7 +40,7 @@ void smoothLaplacian(Mesh &mesh, double epsilon, bool cotangentWeight, int itera
                 cent += weight * it->dst()->pos();
                 sumWgt += weight;
             }
-            centroids[i] = cent / sumWgt;
+            centroids[i] = sumWgt != 0.0 ? cent / sumWgt : v->pos();
         }
 
         // Update vertex positions
-- 
2.43.0


From e66b3221a63889ad2c1650aa9a1c4eae3a0cdf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:51:19 +0000
Subject: [PATCH 53/61] fix: measure the edges a collapse makes from the vertex
 that remains

---
 src/tinymesh/remesh/remesh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tinymesh/remesh/remesh.cpp b/src/tinymesh/remesh/remesh.cpp
index 265a92d..d39ef1d 100644
--- a/src/tinymesh/remesh/remesh.cpp
+++ b/src/tinymesh/remesh/remesh.cpp
@@ -134,6 +134,11 @@ void remeshTriangular(Mesh &mesh, double shortLength, double longLength, double
                     // Check if collapse does not generate long edge
                     Vertex *a = he->src();
                     Vertex *b = he->dst();
+                    if (a->degree() > b->degree()) {
+                        // The vertex with smaller degree remains
+                        std::swap(a, b);
+                    }
+
                     bool collapseOK = true;
                     for (auto vit = b->v_begin(); vit != b->v_end(); ++vit) {
                         if (length(a->pos() - vit->pos()) >= Lavg * longLength) {
-- 
2.43.0


From 2450b57f0703b21405073a88f7aa1702a4484f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:19:48 +0000
Subject: [PATCH 54/61] fix: compare patches by how well they fit, not by how
 far they were moved

---
 src/tinymesh/restore/completion.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tinymesh/restore/completion.cpp b/src/tinymesh/restore/completion.cpp
index 15dadbe..86e571a 100644
--- a/src/tinymesh/restore/completion.cpp
+++ b/src/tinymesh/restore/completion.cpp
@@ -76,9 +76,8 @@ double solveRigidICP(const std::vector<Vertex *> &tgtPatch, const std::vector<Ve
     R = U * diagH.asDiagonal() * V.transpose();
     t = yMean - R * xMean;
 
-    // Error
-    EigenMatrix Xt = X * R.transpose();
-    Xt.rowwise() += t.transpose();
+    // Error (both patches are centered here)
+    const EigenMatrix Xt = X * R.transpose();
 
     const double error = (Y - Xt).squaredNorm() / (double)nSrcSize;
     return error;
-- 
2.43.0


From 15b7018200ae3910f2ad2fcd1ecad14b23cf4b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:34:13 +0000
Subject: [PATCH 55/61] fix: describe a patch by the mean and deviation over
 its own vertices

---
 src/tinymesh/restore/completion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tinymesh/restore/completion.cpp b/src/tinymesh/restore/completion.cpp
index 86e571a..0aa0e14 100644
--- a/src/tinymesh/restore/completion.cpp
+++ b/src/tinymesh/restore/completion.cpp
@@ -289,8 +289,8 @@ void holeFillContextCoherent(Mesh &mesh, int maxiters) {
                 hksSigma += f.cwiseProduct(f);
             }
 
-            hksMean /= (double)N;
-            hksSigma /= (double)N;
+            hksMean /= (double)patchVerts[i].size();
+            hksSigma /= (double)patchVerts[i].size();
             hksSigma = (hksSigma - hksMean.cwiseProduct(hksMean)).array().max(0.0);
             hksSigma = hksSigma.cwiseSqrt();
 
-- 
2.43.0


From 3a3e8752182df2b774afd788f2dcfebc0ca90432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:49:39 +0000
Subject: [PATCH 56/61] fix: show the rate of a progress bar that has taken no
 time yet

Before the first millisecond had passed the rate was infinite, its conversion
to an integer undefined, and the bar said "0s/it".
---
 src/tinymesh/core/progress.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/core/progress.h b/src/tinymesh/core/progress.h
index b169dd2..e448ad2 100644
--- a/src/tinymesh/core/progress.h
+++ b/src/tinymesh/core/progress.h
@@ -49,7 +49,7 @@ public:
         const int r_sec = (int)(rest_time / 1000.0) % 60;
 
         std::string it_text = "";
-        const int steps_per_sec = (int)(1000.0 / time_msec_per_step);
+        const int steps_per_sec = (int)std::min(1000.0, 1000.0 / time_msec_per_step);
         if (steps_per_sec > 0) {
             std::ostringstream oss;
             if (steps_per_sec < 1000) {
-- 
2.43.0


From 25d97eb942b4dc1c8d23998a2c9bffc077a8600d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:49:39 +0000
Subject: [PATCH 57/61] fix: draw progress bars of more than 53 million steps

The length of the bar overflowed, and a negative length made drawing it throw.
---
 src/tinymesh/core/progress.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/core/progress.h b/src/tinymesh/core/progress.h
index e448ad2..796a89a 100644
--- a/src/tinymesh/core/progress.h
+++ b/src/tinymesh/core/progress.h
@@ -66,7 +66,7 @@ public:
             it_text = oss.str();
         }
 
-        const int tick = std::min(m_width, (int)(m_width * m_step / m_total));
+        const int tick = std::min(m_width, (int)((int64_t)m_width * m_step / m_total));
         std::string pbar = std::string(tick, '=');
         if (tick != m_width) {
             pbar += ">";
-- 
2.43.0


From 8145a9930cd6afa25a01b16c8d5ac533ea64447e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:59:29 +0000
Subject: [PATCH 58/61] fix: relax filled holes in an order that does not
 depend on addresses

The normals of the new vertices were smoothed in the order of a hash set of
pointers, so filling the same hole twice could give different surfaces.
---
 src/tinymesh/core/completion.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index d60491b..fe36302 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -533,6 +533,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
 
     // Correct internal vertices
     std::unordered_set<Vertex *> insideVerts;
+    std::vector<Vertex *> insideOrder;  // the same in an order that does not depend on addresses
     std::queue<Vertex *> que;
     for (auto it = face->v_begin(); it != face->v_end(); ++it) {
         if (!it->isLocked()) {
@@ -548,6 +549,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
             continue;
         }
         insideVerts.insert(v);
+        insideOrder.push_back(v);
 
         for (auto it = v->v_begin(); it != v->v_end(); ++it) {
             if (!it->isLocked() && insideVerts.count(it.ptr()) == 0) {
@@ -558,12 +560,12 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
 
     // Smooth vertex normals
     std::unordered_map<Vertex *, Vec3> newNormals;
-    for (Vertex *v : insideVerts) {
+    for (Vertex *v : insideOrder) {
         newNormals[v] = v->normal();
     }
 
     for (int kIter = 0; kIter < 1000; kIter++) {
-        for (Vertex *v : insideVerts) {
+        for (Vertex *v : insideOrder) {
             Vec3 nn = Vec3(0.0);
             double sumWgt = 0.0;
             for (auto it = v->he_begin(); it != v->he_end(); ++it) {
@@ -579,7 +581,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
 
     // Compute face normals
     std::unordered_set<Face *> insideFaces;
-    for (Vertex *v : insideVerts) {
+    for (Vertex *v : insideOrder) {
         for (auto it = v->f_begin(); it != v->f_end(); ++it) {
             Face *f = it.ptr();
             bool inside = true;
@@ -613,7 +615,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
 
     // Compute rotated gradients
     std::unordered_map<Vertex *, Vec3> rotGrads;
-    for (Vertex *v : insideVerts) {
+    for (Vertex *v : insideOrder) {
         Vec3 sumGrad(0.0);
         int count = 0;
         for (auto it = v->he_begin(); it != v->he_end(); ++it) {
@@ -649,7 +651,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
     std::unordered_map<Vertex *, uint32_t> uniqueOuter;
     int countInner = 0;
     int countOuter = 0;
-    for (Vertex *v : insideVerts) {
+    for (Vertex *v : insideOrder) {
         if (uniqueInner.count(v) == 0) {
             uniqueInner[v] = countInner;
             countInner++;
-- 
2.43.0


From 83798a8d8b9cb2420a4e17bb8b7216344c5c1254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:59:29 +0000
Subject: [PATCH 59/61] fix: list the triangles of a patch in an order that
 does not depend on addresses

Completing the same surface twice could give different results, because
patches were hash sets of pointers.
---
 src/tinymesh/restore/completion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/restore/completion.cpp b/src/tinymesh/restore/completion.cpp
index 0aa0e14..8ab2d7d 100644
--- a/src/tinymesh/restore/completion.cpp
+++ b/src/tinymesh/restore/completion.cpp
@@ -223,6 +223,7 @@ void holeFillContextCoherent(Mesh &mesh, int maxiters) {
                 if (visited.count(f) != 0) continue;
 
                 visited.insert(f);
+                patchFaces[i].push_back(f);
                 for (auto it = f->f_begin(); it != f->f_end(); ++it) {
                     if (visited.count(it.ptr()) == 0 && dist + 1 <= patchRadius) {
                         que.push(std::make_pair(it.ptr(), dist + 1));
@@ -230,7 +231,6 @@ void holeFillContextCoherent(Mesh &mesh, int maxiters) {
                 }
             }
 
-            patchFaces[i].assign(visited.begin(), visited.end());
             if (ctr->isLocked()) {
                 srcIds.push_back(i);
             } else {
-- 
2.43.0


From 3f08b7eab8f3a59059b4df852564685c573039c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:46:05 +0000
Subject: [PATCH 60/61] fix: compute the distance to boxes of any dimension and
 number type

---
 src/tinymesh/core/bounds.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tinymesh/core/bounds.h b/src/tinymesh/core/bounds.h
index cbbcb3c..ede6787 100644
--- a/src/tinymesh/core/bounds.h
+++ b/src/tinymesh/core/bounds.h
@@ -56,8 +56,8 @@ public:
     }
 
     double distance(const VecD &p) {
-        const Vec3 vmin = std::abs(posMin_ - p);
-        const Vec3 vmax = std::abs(posMax_ - p);
+        const VecD vmin = std::abs(posMin_ - p);
+        const VecD vmax = std::abs(posMax_ - p);
         double dist = 0.0;
         for (int d = 0; d < Dims; d++) {
             if (p[d] < posMin_[d] || posMax_[d] < p[d]) {
-- 
2.43.0


From 433c0b3fd6162dcb3c0c6387ea99f45479889519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:06:04 +0000
Subject: [PATCH 61/61] fix: turn triangles of a filled hole fully onto the
 smoothed normals

---
 src/tinymesh/core/completion.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index fe36302..890d545 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -608,9 +608,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
         // Opposite vertex normals leave the face as it is
         n1 = length(n1) > 0.0 ? normalize(n1) : n0;
 
-        const Vec3 axis = cross(n0, n1);
-        const double theta = std::atan2(length(axis), dot(n0, n1));
-        rotations[f] = rotationAxisAngle(theta, axis);
+        rotations[f] = rotationFromTwoVectors(n0, n1);
     }
 
     // Compute rotated gradients
-- 
2.43.0

