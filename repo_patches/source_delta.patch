From c94b31f5cbd148f4356d91077ffbd0ca824c9615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 01/43] fix: compress symmetric matrices with absent diagonal
 entries

---
 lib/nikfemm/src/algebra/csr.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/algebra/csr.cpp b/lib/nikfemm/src/algebra/csr.cpp
index 74025f0..fb4c192 100644
--- a/lib/nikfemm/src/algebra/csr.cpp
+++ b/lib/nikfemm/src/algebra/csr.cpp
@@ -62,7 +62,10 @@ namespace nikfemm {
             return a.first < b.first;
         });
 
-        nnz = elems.size() - m;
+        // only off-diagonal elements go in the compressed rows, and not every diagonal element needs to be present
+        nnz = std::count_if(elems.begin(), elems.end(), [](const auto& elem) {
+            return (elem.first >> 32) != (elem.first & 0xFFFFFFFF);
+        });
 
         row_ptr = std::vector<uint32_t>(m + 1, 0);
         col_ind = std::vector<uint32_t>(nnz);
-- 
2.43.0


From 63eec94e7301f63480eabb04931b089daa5c3663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 02/43] fix: compress material-dependent matrices with absent
 diagonal entries

---
 lib/nikfemm/src/algebra/non_linear.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/nikfemm/src/algebra/non_linear.cpp b/lib/nikfemm/src/algebra/non_linear.cpp
index f9a2e96..db34526 100644
--- a/lib/nikfemm/src/algebra/non_linear.cpp
+++ b/lib/nikfemm/src/algebra/non_linear.cpp
@@ -23,7 +23,10 @@ namespace nikfemm {
         // sort elems by key
         std::sort(keys.begin(), keys.end());
 
-        nnz = coo.elems.size() - m;
+        // only off-diagonal elements go in the compressed rows, and not every diagonal element needs to be present
+        nnz = std::count_if(keys.begin(), keys.end(), [](const uint64_t key) {
+            return (key >> 32) != (key & 0xFFFFFFFF);
+        });
 
         row_ptr = std::vector<uint32_t>(m + 1, 0);
         col_ind = std::vector<uint32_t>(nnz);
@@ -57,8 +60,9 @@ namespace nikfemm {
     void NonLinearMatCSRSymmetric::evaluate(std::vector<double>& mu) {
         // diagonal
         for (uint32_t i = 0; i < m; i++) {
-            double old_val = diag[i];
-            diag[i] = diag_expr[i]->evaluate(mu);
+            if (diag_expr[i] != nullptr) {
+                diag[i] = diag_expr[i]->evaluate(mu);
+            }
         }
         // off-diagonal
         for (uint32_t i = 0; i < nnz; i++) {
-- 
2.43.0


From 0db3e391ee9b2a5d8de731fbefdc1f252ca025f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 03/43] fix: take the permeability from the curve segment that
 contains the field

---
 lib/nikfemm/src/magnetostatic/properties.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/properties.cpp b/lib/nikfemm/src/magnetostatic/properties.cpp
index 05d8734..34121b3 100644
--- a/lib/nikfemm/src/magnetostatic/properties.cpp
+++ b/lib/nikfemm/src/magnetostatic/properties.cpp
@@ -43,10 +43,10 @@ namespace nikfemm {
             // printf("B is larger than the largest B in the curve, returning mu %.17g\n", m);
             return m;
         } else {
-            // forward difference
+            // slope of the segment that contains B: it points to the first curve point not below B
             double B1 = it->B;
             double H1 = it->H;
-            double B2 = (++it)->B;
+            double B2 = (--it)->B;
             double H2 = it->H;
 
             // mu = dB/dH
-- 
2.43.0


From fb5f21b9aabe0fb4e5eb1753100b2ae21bacbe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:22 +0000
Subject: [PATCH 04/43] fix: stop conjugate gradients at once on a converged
 start and do not clamp small curvature

---
 lib/nikfemm/src/algebra/solvers.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/nikfemm/src/algebra/solvers.cpp b/lib/nikfemm/src/algebra/solvers.cpp
index ecf0bcc..eb1c144 100644
--- a/lib/nikfemm/src/algebra/solvers.cpp
+++ b/lib/nikfemm/src/algebra/solvers.cpp
@@ -90,13 +90,13 @@ namespace nikfemm {
         copy(p, r);
         double rTr = squareSum(r);
         double squareError = squareSum(r);
+        if (squareError < maxError * maxError) {
+            nloginfo("converged after 0 iterations");
+            return;
+        }
         for (uint32_t i = 0; i < maxIterations; i++) {
             mult(Ap, A, p);
             double pAp = dot(p, Ap);
-            if (fabs(pAp) < std::numeric_limits<double>::epsilon()) {
-                pAp = std::numeric_limits<double>::epsilon();
-                nlogwarn("warning: pAp is zero. approximating with epsilon");
-            }
             double alpha = rTr / pAp;
             addScaled(x, x, alpha, p);
             addScaled(r, r, -alpha, Ap);
@@ -131,6 +131,10 @@ namespace nikfemm {
         std::vector<double> Ap(b.size());
         double rTzold;
         double squareError = squareSum(r);
+        if (squareError < maxError * maxError) {
+            nloginfo("converged after 0 iterations");
+            return;
+        }
         for (uint32_t i = 0; i < maxIterations; i++) {
             mult(Ap, A, p);
             double alpha = dot(r, z) / dot(p, Ap);
-- 
2.43.0


From 39950fe1120a9992a31f1ce74b4038fa54907591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:57 +0000
Subject: [PATCH 05/43] fix: detect end points touching a segment whatever the
 order of the segments

---
 lib/nikfemm/src/geometry/segment.cpp | 50 +++++++---------------------
 1 file changed, 12 insertions(+), 38 deletions(-)

diff --git a/lib/nikfemm/src/geometry/segment.cpp b/lib/nikfemm/src/geometry/segment.cpp
index 50ec3de..5649b5c 100644
--- a/lib/nikfemm/src/geometry/segment.cpp
+++ b/lib/nikfemm/src/geometry/segment.cpp
@@ -101,48 +101,22 @@ namespace nikfemm {
     }
 
     bool Segment::segmentsIntersect(Vector s1p1, Vector s1p2, Vector s2p1, Vector s2p2) {
-        double epsilon = 1e-100;
         double c_area = area(s1p1, s1p2, s2p1);
         double d_area = area(s1p1, s1p2, s2p2);
-        if (std::abs(c_area) < epsilon) {
-            if (std::abs(s2p1.x-s1p1.x) < epsilon) {
-                if (std::min(s1p1.y,s1p2.y)-epsilon < s2p1.y && s2p1.y < std::max(s1p1.y,s1p2.y)+epsilon) {
-                    return true;
-                }
-            } else {
-                if (std::min(s1p1.x,s1p2.x)-epsilon < s2p1.x && s2p1.x < std::max(s1p1.x,s1p2.x)+epsilon) {
-                    return true;
-                }
-            }
-            if (std::abs(d_area) > epsilon) {
-                return false;
-            }
-        }
-        if (std::abs(d_area) < epsilon) {
-            if (std::abs(s2p2.x-s1p1.x) < epsilon) {
-                if (std::min(s1p1.y,s1p2.y)-epsilon < s2p2.y && s2p2.y < std::max(s1p1.y,s1p2.y)+epsilon) {
-                    return true;
-                }
-            } else {
-                if (std::min(s1p1.x,s1p2.x)-epsilon < s2p2.x && s2p2.x < std::max(s1p1.x,s1p2.x)+epsilon) {
-                    return true;
-                }
-            }
-            if (std::abs(c_area) > epsilon) {
-                return false;
-            }
-            if (std::abs(s2p1.x-s1p1.x) < epsilon) {
-                return (s1p1.y < s2p1.y) != (s1p1.y < s2p2.y);
-            } else {
-                return (s1p1.x < s2p1.x) != (s1p1.x < s2p2.x);
-            }
-        }
-        if ((c_area > 0) == (d_area > 0)) {
-            return false;
-        }
         double a_area = area(s2p1, s2p2, s1p1);
         double b_area = area(s2p1, s2p2, s1p2);
-        return (a_area > 0) != (b_area > 0);
+
+        // the end points of each segment lie on opposite sides of the other one
+        if (((c_area > 0 && d_area < 0) || (c_area < 0 && d_area > 0)) &&
+            ((a_area > 0 && b_area < 0) || (a_area < 0 && b_area > 0))) {
+            return true;
+        }
+
+        // an end point of one segment lies on the other one
+        return (c_area == 0 && pointInSegmentBB(s2p1, s1p1, s1p2)) ||
+               (d_area == 0 && pointInSegmentBB(s2p2, s1p1, s1p2)) ||
+               (a_area == 0 && pointInSegmentBB(s1p1, s2p1, s2p2)) ||
+               (b_area == 0 && pointInSegmentBB(s1p2, s2p1, s2p2));
     }
 
     bool Segment::operator==(const Segment& s) const {
-- 
2.43.0


From 96e2d284b547298c134715a4610d67d8075d991f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:57 +0000
Subject: [PATCH 06/43] fix: distance to a segment of zero length

---
 lib/nikfemm/src/geometry/segment.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/geometry/segment.cpp b/lib/nikfemm/src/geometry/segment.cpp
index 5649b5c..ed9af10 100644
--- a/lib/nikfemm/src/geometry/segment.cpp
+++ b/lib/nikfemm/src/geometry/segment.cpp
@@ -84,7 +84,11 @@ namespace nikfemm {
         return Vector::distance(p, projection);
         */
         // return pointSegmentDistance(p, Segment(p1, p2));
-        double param = ((p - p1) * (p2 - p1)) / Vector::distanceSquared(p1, p2);
+        double length_squared = Vector::distanceSquared(p1, p2);
+        if (length_squared == 0) {
+            return Vector::distance(p, p1);
+        }
+        double param = ((p - p1) * (p2 - p1)) / length_squared;
         if (param < 0) {
             return Vector::distance(p, p1);
         }
-- 
2.43.0


From 8723678e853c6543f135de8805d849c7f1df4b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:57 +0000
Subject: [PATCH 07/43] fix: measure the radius of the enclosing circle from
 its centre

---
 lib/nikfemm/src/geometry/circle.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/nikfemm/src/geometry/circle.cpp b/lib/nikfemm/src/geometry/circle.cpp
index de327e3..82d4ad6 100644
--- a/lib/nikfemm/src/geometry/circle.cpp
+++ b/lib/nikfemm/src/geometry/circle.cpp
@@ -87,16 +87,18 @@ namespace nikfemm {
     }
 
     Circle Circle::getEnclosingCircle(std::vector<Vector> points) {
-        double maxmod = 0;
+        if (points.size() == 0) {
+            return Circle();
+        }
         Vector center = {0, 0};
         for (auto p : points) {
-            double mod = p.norm();
-            if (mod > maxmod) {
-                maxmod = mod;
-            }
             center += p;
         }
         center /= points.size();
+        double maxmod = 0;
+        for (auto p : points) {
+            maxmod = std::max(maxmod, Vector::distance(p, center));
+        }
         return Circle(center, maxmod);
     }
 }
\ No newline at end of file
-- 
2.43.0


From 941ed38c60fb59de34a193bfbf1a352ddc098a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:18 +0000
Subject: [PATCH 08/43] fix: minimum enclosing circle of points that are
 collinear or on one circle

---
 lib/nikfemm/src/geometry/circle.cpp | 48 +++++++++++++++++------------
 lib/nikfemm/src/geometry/circle.hpp |  3 --
 2 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/lib/nikfemm/src/geometry/circle.cpp b/lib/nikfemm/src/geometry/circle.cpp
index 82d4ad6..6de0206 100644
--- a/lib/nikfemm/src/geometry/circle.cpp
+++ b/lib/nikfemm/src/geometry/circle.cpp
@@ -1,4 +1,5 @@
 #include <math.h>
+#include <cmath>
 #include <assert.h>
 #include <algorithm>
 #include <random>
@@ -52,29 +53,38 @@ namespace nikfemm {
         return getCircleFromPoints(points[0], points[1], points[2]);
     }
 
-    Circle Circle::welzlHelper(std::vector<Vector> points, std::vector<Vector> R, uint32_t n) {
-        if (n == 0 || R.size() == 3) {
-            return trivialCircleFromPoints(R);
+    Circle Circle::getMinimumEnclosingCircle(std::vector<Vector> points) {
+        if (points.size() == 0) {
+            return Circle();
         }
+        auto rng = std::default_random_engine {};
+        std::shuffle(points.begin(), points.end(), rng);
 
-        uint32_t k = rand() % n;
-        Vector p = points[k];
-
-        std::swap(points[k], points[n - 1]);
-        Circle c = welzlHelper(points, R, n - 1);
-
-        if (c.contains(p)) {
-            return c;
+        // points that define a circle may miss it by a rounding error
+        auto outside = [](const Circle& c, const Vector& p) {
+            return Vector::distance(c.center, p) > c.radius * (1 + 1e-12);
+        };
+
+        // move the circle each time a point is found outside of it, that point is on the border of the new circle
+        Circle c = Circle(points[0], 0);
+        for (size_t i = 1; i < points.size(); i++) {
+            if (!outside(c, points[i])) continue;
+            c = Circle(points[i], 0);
+            for (size_t j = 0; j < i; j++) {
+                if (!outside(c, points[j])) continue;
+                c = getCircleFromPoints(points[i], points[j]);
+                for (size_t k = 0; k < j; k++) {
+                    if (!outside(c, points[k])) continue;
+                    Circle through = getCircleFromPoints(points[i], points[j], points[k]);
+                    if (std::isfinite(through.radius)) c = through;
+                }
+            }
         }
 
-        R.push_back(p);
-        return welzlHelper(points, R, n - 1);
-    }
-
-    Circle Circle::getMinimumEnclosingCircle(std::vector<Vector> points) {
-        auto rng = std::default_random_engine {};
-        std::shuffle(points.begin(), points.end(), rng);
-        return welzlHelper(points, std::vector<Vector>(), points.size());
+        for (auto p : points) {
+            c.radius = std::max(c.radius, Vector::distance(c.center, p));
+        }
+        return c;
     }
 
     Circle Circle::getMinimumEnclosingCircle(std::unordered_set<Vector> points) {
diff --git a/lib/nikfemm/src/geometry/circle.hpp b/lib/nikfemm/src/geometry/circle.hpp
index 509d008..a1742ea 100644
--- a/lib/nikfemm/src/geometry/circle.hpp
+++ b/lib/nikfemm/src/geometry/circle.hpp
@@ -61,9 +61,6 @@ namespace nikfemm {
 
             static Circle trivialCircleFromPoints(std::vector<Vector> points);
 
-        protected:
-            static Circle welzlHelper(std::vector<Vector> points, std::vector<Vector> R, uint32_t n);
-        public:
             static Circle getMinimumEnclosingCircle(std::vector<Vector> points);
             static Circle getMinimumEnclosingCircle(std::unordered_set<Vector> points);
             static Circle getEnclosingCircle(std::vector<Vector> points);
-- 
2.43.0


From 5f4bf354347051fa7aa2e38952992033f14ed3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:18 +0000
Subject: [PATCH 09/43] fix: a polygon does not contain an outline that leaves
 it between two corners

---
 lib/nikfemm/src/geometry/polygon.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/lib/nikfemm/src/geometry/polygon.cpp b/lib/nikfemm/src/geometry/polygon.cpp
index 2a7e08e..9e8c297 100644
--- a/lib/nikfemm/src/geometry/polygon.cpp
+++ b/lib/nikfemm/src/geometry/polygon.cpp
@@ -1,3 +1,5 @@
+#include <algorithm>
+
 #include "polygon.hpp"
 #include "segment.hpp"
 
@@ -98,6 +100,32 @@ namespace nikfemm {
             }
         }
 
+        // the corners are inside but a side may still pass outside: split every side of p where it meets
+        // this outline, each piece is inside exactly when its middle is
+        for (size_t i = 0; i < p.points.size(); i++) {
+            Vector A = p.points[i];
+            Vector B = p.points[(i + 1) % p.points.size()];
+            Vector AB = B - A;
+
+            std::vector<double> cuts = {0, 1};
+            for (size_t j = 0; j < points.size(); j++) {
+                Vector C = points[j];
+                Vector CD = points[(j + 1) % points.size()] - C;
+                double det = AB ^ CD;
+                double t = det != 0 ? ((C - A) ^ CD) / det : ((C - A) * AB) / AB.normSquared();
+                if (t > 0 && t < 1) {
+                    cuts.push_back(t);
+                }
+            }
+            std::sort(cuts.begin(), cuts.end());
+
+            for (size_t j = 0; j + 1 < cuts.size(); j++) {
+                if (!contains(Vector::lerp(A, B, (cuts[j] + cuts[j + 1]) / 2), true, EPSILON)) {
+                    return false;
+                }
+            }
+        }
+
         return true;
     }
 
-- 
2.43.0


From bb08cd0a3350037cf2d713a8e41ac86127c06955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:25 +0000
Subject: [PATCH 10/43] fix: look a region up by its id

---
 lib/nikfemm/src/drawing/drawing.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index e53bdbc..2f30076 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -177,12 +177,7 @@ namespace nikfemm {
 
     template <typename Prop>
     Prop Drawing<Prop>::getRegionFromId(uint32_t id) const {
-        for (auto it = region_map.begin(); it != region_map.end(); it++) {
-            if (it->second == id) {
-                return it->first;
-            }
-        }
-        nexit("Error: region id not found");
+        return *getRegionPtrFromId(id);
     }
 
     template <typename Prop>
-- 
2.43.0


From 3eda44e76bd3047ca57605d25a23c64f69e86379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:39 +0000
Subject: [PATCH 11/43] fix: close circles exactly whatever their radius and
 number of sides

---
 lib/nikfemm/src/drawing/drawing.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index 2f30076..8a433be 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -125,14 +125,15 @@ namespace nikfemm {
 
     template <typename Prop>
     void Drawing<Prop>::drawCircle(Vector p, double radius, uint32_t n_segments) {
-        double angle = 0;
         double angle_step = 2 * PI / n_segments;
-        Vector p1 = Vector(p.x + radius, p.y);
+        Vector first = Vector(p.x + radius, p.y);
+        Vector p1 = first;
         Vector p2;
         std::vector<Vector> my_points;
         for (uint32_t i = 0; i < n_segments; i++) {
-            angle += angle_step;
-            p2 = Vector(p.x + radius * cos(angle), p.y + radius * sin(angle));
+            // the last segment ends exactly where the first one starts
+            double angle = angle_step * (i + 1);
+            p2 = i + 1 == n_segments ? first : Vector(p.x + radius * cos(angle), p.y + radius * sin(angle));
             drawSegment(p1, p2);
             p1 = p2;
             my_points.push_back(p2);
-- 
2.43.0


From e8cb4838a587d315aa6f5e4945abec8462effab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:39 +0000
Subject: [PATCH 12/43] fix: compare the bounding boxes of both segments before
 the crossing test

---
 lib/nikfemm/src/drawing/drawing.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index 8a433be..299cbcb 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -232,7 +232,10 @@ namespace nikfemm {
                 continue;
             }
             // before checking for intersection, check if the segments have overlapping bounding boxes to avoid unnecessary intersection checks
-            if (!(Segment::pointInSegmentBB(p1, points[s.p1], points[s.p2]) || Segment::pointInSegmentBB(p2, points[s.p1], points[s.p2]))) {
+            if (std::max(p1.x, p2.x) < std::min(points[s.p1].x, points[s.p2].x) - EPSILON ||
+                std::min(p1.x, p2.x) > std::max(points[s.p1].x, points[s.p2].x) + EPSILON ||
+                std::max(p1.y, p2.y) < std::min(points[s.p1].y, points[s.p2].y) - EPSILON ||
+                std::min(p1.y, p2.y) > std::max(points[s.p1].y, points[s.p2].y) + EPSILON) {
                 continue;
             }
             // check for intersection
-- 
2.43.0


From de4eebd91b4058af6d01a32667f2be48209c34f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:39 +0000
Subject: [PATCH 13/43] fix: do not add a point that the drawing already has

---
 lib/nikfemm/src/drawing/drawing.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index 299cbcb..2015ca9 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -254,6 +254,11 @@ namespace nikfemm {
 
     template <typename Prop>
     void Drawing<Prop>::drawPoint(Vector p) {
+        for (const Vector& q : points) {
+            if (q == p) {
+                return;
+            }
+        }
         points.push_back(p);
     }
 
-- 
2.43.0


From 31663c5f85c7729b054147a47e92413a3648dc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:56 +0000
Subject: [PATCH 14/43] fix: material of a polygon that has others nested
 inside it

---
 lib/nikfemm/src/drawing/drawing.hpp | 40 ++++++++++++-----------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index 2015ca9..3cd1caf 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -393,35 +393,27 @@ namespace nikfemm {
             }
         }
 
-        if (drawing_regions_contained_by_polygon.size() == 0) {
-            nexit("Error: no region found for polygon");
-        } else if (drawing_regions_contained_by_polygon.size() == 1) {
-            return region_map[drawing_regions_contained_by_polygon[0].second];
-        } else {
-            // if there are multiple regions, this means that there are polygons inside this polygon
-            std::vector<Polygon> polygons_contained_by_polygon;
-            for (Polygon polygon : polygons) {
-                if (p.contains(polygon)) {
-                    polygons_contained_by_polygon.push_back(polygon);
-                }
+        // regions in a polygon nested inside this polygon belong to the nested polygon
+        std::vector<Polygon> nested_polygons;
+        for (Polygon polygon : polygons) {
+            if (p.contains(polygon) && !polygon.contains(p)) {
+                nested_polygons.push_back(polygon);
             }
+        }
 
-            // for each region, check if it is contained by a polygon contained by this polygon
-            for (DrawingRegion region : drawing_regions_contained_by_polygon) {
-                bool found = false;
-                for (Polygon polygon : polygons_contained_by_polygon) {
-                    if (polygon.contains(region.first)) {
-                        found = true;
-                        break;
-                    }
-                }
-                if (!found) {
-                    // this region is not contained by any polygon contained by this polygon, so it is the region we want
-                    // find the corresponding property
-                    return region_map[region.second];
+        for (DrawingRegion region : drawing_regions_contained_by_polygon) {
+            bool nested = false;
+            for (Polygon polygon : nested_polygons) {
+                if (polygon.contains(region.first)) {
+                    nested = true;
+                    break;
                 }
             }
+            if (!nested) {
+                return region_map[region.second];
+            }
         }
+        nexit("Error: no region found for polygon");
         // unreachable
         return Prop();
     }
-- 
2.43.0


From f4e77ad466b33d5ecfb109b85056907f64dd71df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:56 +0000
Subject: [PATCH 15/43] fix: ignore points lying on a segment when measuring
 the clearance of a drawing

---
 lib/nikfemm/src/drawing/drawing.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index 3cd1caf..52aa645 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -275,7 +275,8 @@ namespace nikfemm {
                     continue;
                 }
                 double dist = Segment::pointSegmentDistance(point, points[segment.p1], points[segment.p2]);
-                if (dist < min_dist) {
+                // a point lying on a segment is contained by it
+                if (dist >= EPSILON && dist < min_dist) {
                     min_dist = dist;
                 }
             }
-- 
2.43.0


From f7e8c39437d9864bc24f708985fba485752359d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:51 +0000
Subject: [PATCH 16/43] fix: allow vertices with more than 18 triangles around
 them

---
 lib/nikfemm/src/current_density/mesh.cpp     | 33 +++++++++-----------
 lib/nikfemm/src/magnetostatic/mesh.cpp       | 11 +++----
 lib/nikfemm/src/magnetostatic/simulation.cpp | 12 +++----
 lib/nikfemm/src/magnetostatic/simulation.hpp |  3 +-
 4 files changed, 25 insertions(+), 34 deletions(-)

diff --git a/lib/nikfemm/src/current_density/mesh.cpp b/lib/nikfemm/src/current_density/mesh.cpp
index b9de0d6..d54e00a 100644
--- a/lib/nikfemm/src/current_density/mesh.cpp
+++ b/lib/nikfemm/src/current_density/mesh.cpp
@@ -11,25 +11,24 @@ namespace nikfemm {
         auto start = std::chrono::high_resolution_clock::now();
 
         // COMPUTE FEM WEIGHTS
-        auto adjelems_ids = std::vector<std::array<uint32_t, 18>>(data.numberofpoints);
-        auto adjelems_props = std::vector<std::array<const CurrentDensityProp*, 18>>(data.numberofpoints);
-        auto adjelems_count = std::vector<uint8_t>(data.numberofpoints, 0);
+        auto adjelems_ids = std::vector<std::vector<uint32_t>>(data.numberofpoints);
+        auto adjelems_props = std::vector<std::vector<const CurrentDensityProp*>>(data.numberofpoints);
 
         for (uint32_t i = 0; i < data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = data.trianglelist[i][j];
-                adjelems_ids[myid][adjelems_count[myid]] = i;
-                adjelems_props[myid][adjelems_count[myid]++] = drawing.getRegionPtrFromId(data.triangleattributelist[i]);
+                adjelems_ids[myid].push_back(i);
+                adjelems_props[myid].push_back(drawing.getRegionPtrFromId(data.triangleattributelist[i]));
             }
         }
 
         // surface integral
         for (uint32_t i = 0; i < data.numberofpoints; i++) {
-            if (adjelems_count[i] == 0) {
+            if (adjelems_ids[i].empty()) {
                 nlogerror("vertex %d has no adjacent elements", i);
                 nexit("error: vertex has no adjacent elements");
             }
-            for (uint8_t j = 0; j < adjelems_count[i]; j++) {
+            for (uint32_t j = 0; j < adjelems_ids[i].size(); j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 Elem myelem = data.trianglelist[adjelems_ids[i][j]];
@@ -96,26 +95,24 @@ namespace nikfemm {
 
         auto start = std::chrono::high_resolution_clock::now();
 
-        auto adjelems_ids = std::vector<std::array<uint32_t, 18>>(data.numberofpoints);
-        auto adjelems_props = std::vector<std::array<const CurrentDensityProp*, 18>>(data.numberofpoints);
-        auto adjelems_count = std::vector<uint8_t>(data.numberofpoints, 0);
+        auto adjelems_ids = std::vector<std::vector<uint32_t>>(data.numberofpoints);
+        auto adjelems_props = std::vector<std::vector<const CurrentDensityProp*>>(data.numberofpoints);
 
         for (uint32_t i = 0; i < data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = data.trianglelist[i][j];
-                adjelems_ids[myid][adjelems_count[myid]] = i;
-                adjelems_props[myid][adjelems_count[myid]++] = drawing.getRegionPtrFromId(data.triangleattributelist[i]);
+                adjelems_ids[myid].push_back(i);
+                adjelems_props[myid].push_back(drawing.getRegionPtrFromId(data.triangleattributelist[i]));
             }
         }
 
-        auto adjverts_ids = std::vector<std::array<uint32_t, 18>>(data.numberofpoints);
-        auto adjverts_count = std::vector<uint8_t>(data.numberofpoints, 0);
+        auto adjverts_ids = std::vector<std::vector<uint32_t>>(data.numberofpoints);
 
         for (uint32_t i = 0; i < data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = data.trianglelist[i][j];
-                adjverts_ids[myid][adjverts_count[myid]++] = data.trianglelist[i][(j + 1) % 3];
-                adjverts_ids[myid][adjverts_count[myid]++] = data.trianglelist[i][(j + 2) % 3];
+                adjverts_ids[myid].push_back(data.trianglelist[i][(j + 1) % 3]);
+                adjverts_ids[myid].push_back(data.trianglelist[i][(j + 2) % 3]);
             }
         }
 
@@ -125,7 +122,7 @@ namespace nikfemm {
             // to do this we iterate over all adjacent vertices and for each we try to find the two adjacent triangles
             // the two adjacent triangles are the ones that both contain the current vertex and the adjacent vertex
             double sum = 0;
-            for (uint8_t j = 0; j < adjverts_count[i]; j++) {
+            for (uint32_t j = 0; j < adjverts_ids[i].size(); j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 v2 = adjverts_ids[i][j];
@@ -133,7 +130,7 @@ namespace nikfemm {
                 // find the two triangles that contain the current vertex and the adjacent vertex
                 uint32_t t1 = 0, t2 = 0;
                 bool found_t1 = false, found_t2 = false;
-                for (uint8_t k = 0; k < adjelems_count[i]; k++) {
+                for (uint32_t k = 0; k < adjelems_ids[i].size(); k++) {
                     if (data.trianglelist[adjelems_ids[i][k]][0] == v1 || data.trianglelist[adjelems_ids[i][k]][1] == v1 || data.trianglelist[adjelems_ids[i][k]][2] == v1) {
                         if (data.trianglelist[adjelems_ids[i][k]][0] == v2 || data.trianglelist[adjelems_ids[i][k]][1] == v2 || data.trianglelist[adjelems_ids[i][k]][2] == v2) {
                             if (!found_t1) {
diff --git a/lib/nikfemm/src/magnetostatic/mesh.cpp b/lib/nikfemm/src/magnetostatic/mesh.cpp
index a8b1f06..5f3f0c2 100644
--- a/lib/nikfemm/src/magnetostatic/mesh.cpp
+++ b/lib/nikfemm/src/magnetostatic/mesh.cpp
@@ -12,21 +12,20 @@ namespace nikfemm {
         auto start = std::chrono::high_resolution_clock::now();
 
         // COMPUTE FEM WEIGHTS
-        auto adjelems_ids = std::vector<std::array<uint32_t, 18>>(data.numberofpoints);
-        auto adjelems_props = std::vector<std::array<const MagnetostaticProp*, 18>>(data.numberofpoints);
-        auto adjelems_count = std::vector<uint8_t>(data.numberofpoints, 0);
+        auto adjelems_ids = std::vector<std::vector<uint32_t>>(data.numberofpoints);
+        auto adjelems_props = std::vector<std::vector<const MagnetostaticProp*>>(data.numberofpoints);
 
         for (uint32_t i = 0; i < data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = data.trianglelist[i][j];
-                adjelems_ids[myid][adjelems_count[myid]] = i;
-                adjelems_props[myid][adjelems_count[myid]++] = drawing.getRegionPtrFromId(data.triangleattributelist[i]);
+                adjelems_ids[myid].push_back(i);
+                adjelems_props[myid].push_back(drawing.getRegionPtrFromId(data.triangleattributelist[i]));
             }
         }
 
         // surface integral
         for (uint32_t i = 0; i < data.numberofpoints; i++) {
-            for (uint8_t j = 0; j < adjelems_count[i]; j++) {
+            for (uint32_t j = 0; j < adjelems_ids[i].size(); j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 Elem myelem = data.trianglelist[adjelems_ids[i][j]];
diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 4128817..343dbd0 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -223,14 +223,13 @@ namespace nikfemm {
         // EGGSHELL WITH LAPLACE PROBLEM
 
         // COMPUTE FEM WEIGHTS
-        auto adjelems_ids = std::vector<std::array<uint32_t, 18>>(mesh.data.numberofpoints);
-        auto adjelems_count = std::vector<uint8_t>(mesh.data.numberofpoints, 0);
+        auto adjelems_ids = std::vector<std::vector<uint32_t>>(mesh.data.numberofpoints);
 
         nloginfo("computing adjelems_ids");
         for (uint32_t i = 0; i < mesh.data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = mesh.data.trianglelist[i][j];
-                adjelems_ids[myid][adjelems_count[myid]++] = i;
+                adjelems_ids[myid].push_back(i);
             }
         }
 
@@ -315,7 +314,6 @@ namespace nikfemm {
 
         return SurroundingRegionBlockIntegralAssets{
             adjelems_ids,
-            adjelems_count, 
             elem_field_errors, 
             min_err, 
             max_err, 
@@ -331,7 +329,6 @@ namespace nikfemm {
         
         auto [
             adjelems_ids, 
-            adjelems_count, 
             elem_field_errors, 
             min_err, 
             max_err, 
@@ -352,7 +349,7 @@ namespace nikfemm {
         nloginfo("building fem matrix");
         // surface integral
         for (uint32_t i = 0; i < mesh.data.numberofpoints; i++) {
-            for (uint8_t j = 0; j < adjelems_count[i]; j++) {
+            for (uint32_t j = 0; j < adjelems_ids[i].size(); j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 Elem myelem = mesh.data.trianglelist[adjelems_ids[i][j]];
@@ -496,7 +493,6 @@ namespace nikfemm {
         
         auto [
             adjelems_ids, 
-            adjelems_count, 
             elem_field_errors, 
             min_err, 
             max_err, 
@@ -514,7 +510,7 @@ namespace nikfemm {
         nloginfo("building fem matrix");
         // surface integral
         for (uint32_t i = 0; i < mesh.data.numberofpoints; i++) {
-            for (uint8_t j = 0; j < adjelems_count[i]; j++) {
+            for (uint32_t j = 0; j < adjelems_ids[i].size(); j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 Elem myelem = mesh.data.trianglelist[adjelems_ids[i][j]];
diff --git a/lib/nikfemm/src/magnetostatic/simulation.hpp b/lib/nikfemm/src/magnetostatic/simulation.hpp
index 75243f5..51c7875 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.hpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.hpp
@@ -19,8 +19,7 @@
 
 namespace nikfemm {
     struct SurroundingRegionBlockIntegralAssets {
-        std::vector<std::array<uint32_t, 18>> adjelems_ids;
-        std::vector<uint8_t> adjelems_count;
+        std::vector<std::vector<uint32_t>> adjelems_ids;
         std::vector<double> elem_field_errors;
         double min_err;
         double max_err;
-- 
2.43.0


From 4ae2d8d030a341a0559f11058f26f03aced4eb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:51 +0000
Subject: [PATCH 17/43] fix: room for any maximum triangle area in the mesher
 switches

---
 lib/nikfemm/src/mesh/mesh.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index caa133c..3d2ecb6 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -216,8 +216,8 @@ namespace nikfemm {
             i++;
         }
         // printf("----------------------\n");
-        char switches[42];
-        sprintf(switches, "pzq%dAQa%.17f", min_angle, max_triangle_area);
+        char switches[512];
+        snprintf(switches, sizeof(switches), "pzq%dAQa%.17f", min_angle, max_triangle_area);
         
 
         /* Make necessary initializations so that Triangle can return a */
-- 
2.43.0


From d30273341791f1e2bd6beb629ee1394aab6cfaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:42 +0000
Subject: [PATCH 18/43] fix: sign of the curl of a nodal field

---
 lib/nikfemm/src/mesh/mesh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 3d2ecb6..a71120e 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -405,7 +405,7 @@ namespace nikfemm {
             
             // printf("dx = %.17g dy = %.17g for elem (%.1f, %.1f, %.17g), (%.1f, %.1f, %.17g), (%.1f, %.1f, %.17g)\n", dx, dy, x1, y1, z1, x2, y2, z2, x3, y3, z3);
 
-            out[i] = Vector(-dy, dx);
+            out[i] = Vector(dy, -dx);
         }
 
         return out;
-- 
2.43.0


From 66cb67ad81344b0df8d285548b0dd5e91a7aafff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:32 +0000
Subject: [PATCH 19/43] fix: glue the exterior mesh on the circle vertices the
 interior mesh has

The exterior mesh put further vertices on the circle that the interior
mesh did not have (their triangles then referred to uninitialised
vertices), a coarse maximum area gave a circle of fewer than three
points or one cutting through the drawing, and the exterior was always
meshed with triangles of area 1 whatever the size of the drawing.
---
 lib/nikfemm/src/magnetostatic/simulation.cpp |  5 +++--
 lib/nikfemm/src/mesh/mesh.hpp                | 13 +++++++------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 343dbd0..ae0ef55 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -59,6 +59,7 @@ namespace nikfemm {
         Circle boundary_circle = Circle(Vector(0, 0), smallest_circle.radius * coeff);
         double circumferential_length = boundary_circle.circumference();
         uint32_t boundary_points = (uint32_t)((circumferential_length / sqrt((max_triangle_area * 4) / sqrt(3))) * 2);
+        boundary_points = std::max(boundary_points, (uint32_t)12);  // fewer would not enclose the drawing
         nloginfo("boundary points: %d", boundary_points);
         mesh.drawing.drawCircle(boundary_circle, boundary_points);
         // add region near the edge of the circle
@@ -73,9 +74,9 @@ namespace nikfemm {
             mesh.drawing.addRefiningPoints();
         }
 
-        mesh.mesh(max_triangle_area, min_angle);
+        mesh.mesh(max_triangle_area, min_angle, false);
         // mesh.plot();
-        mesh.addKelvinBoundaryConditions(boundary_points);
+        mesh.addKelvinBoundaryConditions(boundary_points, max_triangle_area);
         mesh.computeEpsilon();
         // mesh.plot();
         nloginfo("the mesh has %u nodes and %u elements", mesh.data.numberofpoints, mesh.data.numberoftriangles);
diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index a71120e..9a61a97 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -105,8 +105,8 @@ namespace nikfemm {
 
         ~Mesh();
 
-        void mesh(double max_triangle_area = 1.0, int min_angle = 33);
-        void addKelvinBoundaryConditions(uint32_t boundary_points);
+        void mesh(double max_triangle_area = 1.0, int min_angle = 33, bool split_boundary = true);
+        void addKelvinBoundaryConditions(uint32_t boundary_points, double max_triangle_area = 1.0);
         void kelvinTransformCentered();
         void computeEpsilon();
         std::vector<Vector> computeCurl(std::vector<double>& in) const;
@@ -170,7 +170,7 @@ namespace nikfemm {
     }
 
     template <typename Prop>
-    void Mesh<Prop>::mesh(double max_triangle_area, int min_angle) {
+    void Mesh<Prop>::mesh(double max_triangle_area, int min_angle, bool split_boundary) {
         triangulateio in;
 
         /* set up the input */
@@ -217,7 +217,7 @@ namespace nikfemm {
         }
         // printf("----------------------\n");
         char switches[512];
-        snprintf(switches, sizeof(switches), "pzq%dAQa%.17f", min_angle, max_triangle_area);
+        snprintf(switches, sizeof(switches), "pzq%dAQa%.17f%s", min_angle, max_triangle_area, split_boundary ? "" : "Y");
         
 
         /* Make necessary initializations so that Triangle can return a */
@@ -276,7 +276,7 @@ namespace nikfemm {
     }
 
     template <typename Prop>
-    void Mesh<Prop>::addKelvinBoundaryConditions(uint32_t boundary_points) {
+    void Mesh<Prop>::addKelvinBoundaryConditions(uint32_t boundary_points, double max_triangle_area) {
         // kelvin mesh = km
         // this mesh = tm
         // kelvin mesh boundary vertices = kmb
@@ -291,7 +291,8 @@ namespace nikfemm {
         // add region near the edge of the circle
         kelvin_mesh.drawing.drawRegion(Vector(0, 0), default_prop);
 
-        kelvin_mesh.mesh();
+        // the vertices on the circle are shared with this mesh, so no more may be added there
+        kelvin_mesh.mesh(max_triangle_area, 33, false);
         kelvin_mesh.center = Vector(0, 0);
         kelvin_mesh.radius = radius;
 
-- 
2.43.0


From d86e68639dc78d32d73894a530635f02fe80f05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:27 +0000
Subject: [PATCH 20/43] fix: leave triangles in the notches of a non-convex
 shape out of its area

---
 lib/nikfemm/src/mesh/mesh.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 9a61a97..63722d5 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -498,7 +498,7 @@ namespace nikfemm {
             Vector p2 = data.pointlist[data.trianglelist[i][1]];
             Vector p3 = data.pointlist[data.trianglelist[i][2]];
 
-            if (integration_region.contains(p1) && integration_region.contains(p2) && integration_region.contains(p3)) {
+            if (integration_region.contains(p1) && integration_region.contains(p2) && integration_region.contains(p3) && integration_region.contains((p1 + p2 + p3) / 3)) {
                 area += Vector::area(p1, p2, p3);
             }
         }
@@ -524,7 +524,7 @@ namespace nikfemm {
             Vector p2 = data.pointlist[data.trianglelist[i][1]];
             Vector p3 = data.pointlist[data.trianglelist[i][2]];
 
-            if (integration_region.contains(p1) && integration_region.contains(p2) && integration_region.contains(p3)) {
+            if (integration_region.contains(p1) && integration_region.contains(p2) && integration_region.contains(p3) && integration_region.contains((p1 + p2 + p3) / 3)) {
                 double triangle_area = Vector::area(p1, p2, p3);
                 area += triangle_area;
                 barycenter += ((p1 + p2 + p3) / 3) * triangle_area;
@@ -545,7 +545,7 @@ namespace nikfemm {
             Vector p2 = data.pointlist[data.trianglelist[i][1]];
             Vector p3 = data.pointlist[data.trianglelist[i][2]];
 
-            if (integration_region.contains(p1) && integration_region.contains(p2) && integration_region.contains(p3)) {
+            if (integration_region.contains(p1) && integration_region.contains(p2) && integration_region.contains(p3) && integration_region.contains((p1 + p2 + p3) / 3)) {
                 double triangle_area = Vector::area(p1, p2, p3);
                 Vector triangle_barycenter = (p1 + p2 + p3) / 3;
                 Vector r = triangle_barycenter - center;
-- 
2.43.0


From fd82ec170933c46a9a62eb8e1791207a311ed48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:57 +0000
Subject: [PATCH 21/43] fix: barycentre and moment of inertia in the
 coordinates of the drawing

---
 lib/nikfemm/src/mesh/mesh.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 63722d5..a92125a 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -531,7 +531,8 @@ namespace nikfemm {
             }
         }
 
-        return barycenter / area;
+        // back from mesh coordinates to drawing coordinates
+        return barycenter / area + center;
     }
 
     template <typename Prop>
@@ -548,7 +549,7 @@ namespace nikfemm {
             if (integration_region.contains(p1) && integration_region.contains(p2) && integration_region.contains(p3) && integration_region.contains((p1 + p2 + p3) / 3)) {
                 double triangle_area = Vector::area(p1, p2, p3);
                 Vector triangle_barycenter = (p1 + p2 + p3) / 3;
-                Vector r = triangle_barycenter - center;
+                Vector r = triangle_barycenter + this->center - center;
                 moment += triangle_area * r.normSquared();
             }
         }
-- 
2.43.0


From 7f40f7113a10fe58c40863c2a312c78991650301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:19 +0000
Subject: [PATCH 22/43] fix: count the triangles whose corners lie on a slanted
 side in the area of a shape

---
 lib/nikfemm/src/mesh/mesh.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index a92125a..3371e9d 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -498,7 +498,7 @@ namespace nikfemm {
             Vector p2 = data.pointlist[data.trianglelist[i][1]];
             Vector p3 = data.pointlist[data.trianglelist[i][2]];
 
-            if (integration_region.contains(p1) && integration_region.contains(p2) && integration_region.contains(p3) && integration_region.contains((p1 + p2 + p3) / 3)) {
+            if (integration_region.contains(p1, true, EPSILON) && integration_region.contains(p2, true, EPSILON) && integration_region.contains(p3, true, EPSILON) && integration_region.contains((p1 + p2 + p3) / 3)) {
                 area += Vector::area(p1, p2, p3);
             }
         }
@@ -524,7 +524,7 @@ namespace nikfemm {
             Vector p2 = data.pointlist[data.trianglelist[i][1]];
             Vector p3 = data.pointlist[data.trianglelist[i][2]];
 
-            if (integration_region.contains(p1) && integration_region.contains(p2) && integration_region.contains(p3) && integration_region.contains((p1 + p2 + p3) / 3)) {
+            if (integration_region.contains(p1, true, EPSILON) && integration_region.contains(p2, true, EPSILON) && integration_region.contains(p3, true, EPSILON) && integration_region.contains((p1 + p2 + p3) / 3)) {
                 double triangle_area = Vector::area(p1, p2, p3);
                 area += triangle_area;
                 barycenter += ((p1 + p2 + p3) / 3) * triangle_area;
@@ -546,7 +546,7 @@ namespace nikfemm {
             Vector p2 = data.pointlist[data.trianglelist[i][1]];
             Vector p3 = data.pointlist[data.trianglelist[i][2]];
 
-            if (integration_region.contains(p1) && integration_region.contains(p2) && integration_region.contains(p3) && integration_region.contains((p1 + p2 + p3) / 3)) {
+            if (integration_region.contains(p1, true, EPSILON) && integration_region.contains(p2, true, EPSILON) && integration_region.contains(p3, true, EPSILON) && integration_region.contains((p1 + p2 + p3) / 3)) {
                 double triangle_area = Vector::area(p1, p2, p3);
                 Vector triangle_barycenter = (p1 + p2 + p3) / 3;
                 Vector r = triangle_barycenter + this->center - center;
-- 
2.43.0


From db51c7e5ba4752bbb5fa0747cd1cef61ef8e37b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:21 +0000
Subject: [PATCH 23/43] fix: cotangent weights counted twice

---
 lib/nikfemm/src/current_density/mesh.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/nikfemm/src/current_density/mesh.cpp b/lib/nikfemm/src/current_density/mesh.cpp
index d54e00a..954f378 100644
--- a/lib/nikfemm/src/current_density/mesh.cpp
+++ b/lib/nikfemm/src/current_density/mesh.cpp
@@ -1,3 +1,5 @@
+#include <algorithm>
+
 #include "mesh.hpp"
 
 namespace nikfemm {
@@ -116,6 +118,12 @@ namespace nikfemm {
             }
         }
 
+        // an interior edge belongs to two triangles: keep each adjacent vertex once
+        for (auto& ids : adjverts_ids) {
+            std::sort(ids.begin(), ids.end());
+            ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
+        }
+
         // COMPUTE FEM WEIGHTS
         for (uint32_t i = 0; i < data.numberofpoints; i++) {
             // for each vertex we compute the cotangent weights
-- 
2.43.0


From 4ba382f7a64fdc9c9a5f8d9470325953d19ecd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:21 +0000
Subject: [PATCH 24/43] fix: conductance of an interconnection, and of several
 between the same nodes

---
 .../src/current_density/multilayer_simulation.cpp     | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/nikfemm/src/current_density/multilayer_simulation.cpp b/lib/nikfemm/src/current_density/multilayer_simulation.cpp
index f76d258..a73b6fb 100644
--- a/lib/nikfemm/src/current_density/multilayer_simulation.cpp
+++ b/lib/nikfemm/src/current_density/multilayer_simulation.cpp
@@ -221,15 +221,18 @@ namespace nikfemm {
             uint64_t m2 = interconnection.node2_id + offsets[interconnection.mesh2_id];
             double R = interconnection.R;
 
+            // both ends on the same node: no current flows
+            if (m1 == m2) continue;
+
             // 1.
-            merged_system.A(m1, m1) += 2/R;
-            merged_system.A(m2, m2) += 2/R;
+            merged_system.A(m1, m1) += 1/R;
+            merged_system.A(m2, m2) += 1/R;
 
             // 2.
             if (m1 >= m2) {
-                merged_system.A(m2, m1) = -2/R;
+                merged_system.A(m2, m1) -= 1/R;
             } else {
-                merged_system.A(m1, m2) = -2/R;
+                merged_system.A(m1, m2) -= 1/R;
             }
         }
 
-- 
2.43.0


From ac69bac1e03c644f5035492a13e1f5c4502c881f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:23 +0000
Subject: [PATCH 25/43] fix: force and torque in the region that immediately
 surrounds the shape

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 37 +++++---------------
 1 file changed, 9 insertions(+), 28 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index ae0ef55..384848a 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -181,36 +181,17 @@ namespace nikfemm {
                 polygons_that_contain_integration_region.push_back(polygon);
             }
         }
-        // if there is more than one polygon that contains the integration region then we have to keep
-        // removing polygons that aren't contained by any other polygon that contains the integration region
-        // until we are left with one polygon
-        int count = 0;
-        while (polygons_that_contain_integration_region.size() > 1) {
-            for (auto polygon : polygons_that_contain_integration_region) {
-                bool is_outermost_polygon = true;
-                for (auto other_polygon : polygons_that_contain_integration_region) {
-                    if (polygon != other_polygon && polygon.contains(other_polygon)) {
-                        is_outermost_polygon = false;
-                        break;
-                    }
-                }
-                if (is_outermost_polygon) {
-                    // remove polygon from polygons_that_contain_integration_region
-                    polygons_that_contain_integration_region.erase(
-                        std::remove(polygons_that_contain_integration_region.begin(),
-                                    polygons_that_contain_integration_region.end(),
-                                    polygon),
-                        polygons_that_contain_integration_region.end());
-                }
-            }
-            count++;
-            if (count > 100) {
-                nexit("error: could not find outermost polygon");
-            }
+        if (polygons_that_contain_integration_region.empty()) {
+            nexit("error: no region surrounds the integration region");
         }
 
-        // the boundary region is the polygon that is left
-        boundary_region = *polygons_that_contain_integration_region.begin();
+        // the boundary region is the one that does not contain any of the others
+        boundary_region = polygons_that_contain_integration_region[0];
+        for (auto polygon : polygons_that_contain_integration_region) {
+            if (boundary_region != polygon && boundary_region.contains(polygon)) {
+                boundary_region = polygon;
+            }
+        }
 
         // find the holes in the boundary region (every polygon that is contained by the boundary region but isn't contained by the integration region)
         for (auto polygon : mesh.drawing.polygons) {
-- 
2.43.0


From 2e345feb5376b27e1577d6e915b7aa688f10dc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:23 +0000
Subject: [PATCH 26/43] fix: fixed vertices of the force and torque weighting
 problem, whatever their order

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 80 ++++++++++----------
 1 file changed, 38 insertions(+), 42 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 384848a..eef6577 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -387,33 +387,31 @@ namespace nikfemm {
         // std::vector<double> test(mesh.data.numberofpoints, 0);
         // we have to set a 1 dirichlet boundary condition for all the vertices inside the integration region
 
-        uint32_t val = 0;
-        for (auto& [id, value] : coo.elems) {
-            uint32_t col = id >> 32;
-            uint32_t row = id & 0xFFFFFFFF;
-
-            bool col_in_zero_region = !vertex_inside_boundary_region[col] || vertex_inside_boundary_region_hole[col];
-            bool col_in_one_region = vertex_inside_integration_region_with_boundary[col];
+        std::vector<bool> fixed(mesh.data.numberofpoints);
+        for (uint32_t i = 0; i < mesh.data.numberofpoints; i++) {
+            bool in_zero_region = !vertex_inside_boundary_region[i] || vertex_inside_boundary_region_hole[i];
+            bool in_one_region = vertex_inside_integration_region_with_boundary[i];
+            fixed[i] = in_zero_region || in_one_region;
+            b[i] = in_one_region && !in_zero_region ? 1 : 0;
+        }
 
-            double old_value = value;
+        for (auto& [id, value] : coo.elems) {
+            // the matrix is symmetric and only its upper triangle is stored: either index may be a fixed vertex
+            uint32_t row = id >> 32;
+            uint32_t col = id & 0xFFFFFFFF;
 
-            if (col_in_zero_region) {
-                if (row == col) {
+            if (row == col) {
+                if (fixed[row]) {
                     value = 1;
-                    b[row] = 0;
-                } else {
-                    value = 0;
                 }
-            } else if (col_in_one_region) {
-                if (row == col) {
-                    value = 1;
-                    b[row] = 1;
-                } else {
-                    value = 0;
-                    b[row] -= old_value;
+            } else if (fixed[row] || fixed[col]) {
+                if (!fixed[row]) {
+                    b[row] -= value * b[col];
+                } else if (!fixed[col]) {
+                    b[col] -= value * b[row];
                 }
+                value = 0;
             }
-            val++;
         }
 
         MatCSRSymmetric Ai(coo);
@@ -551,33 +549,31 @@ namespace nikfemm {
         // std::vector<double> test(mesh.data.numberofpoints, 0);
         // we have to set a 1 dirichlet boundary condition for all the vertices inside the integration region
 
-        uint32_t val = 0;
-        for (auto& [id, value] : coo.elems) {
-            uint32_t col = id >> 32;
-            uint32_t row = id & 0xFFFFFFFF;
-
-            bool col_in_zero_region = !vertex_inside_boundary_region[col] || vertex_inside_boundary_region_hole[col];
-            bool col_in_one_region = vertex_inside_integration_region_with_boundary[col];
+        std::vector<bool> fixed(mesh.data.numberofpoints);
+        for (uint32_t i = 0; i < mesh.data.numberofpoints; i++) {
+            bool in_zero_region = !vertex_inside_boundary_region[i] || vertex_inside_boundary_region_hole[i];
+            bool in_one_region = vertex_inside_integration_region_with_boundary[i];
+            fixed[i] = in_zero_region || in_one_region;
+            b[i] = in_one_region && !in_zero_region ? 1 : 0;
+        }
 
-            double old_value = value;
+        for (auto& [id, value] : coo.elems) {
+            // the matrix is symmetric and only its upper triangle is stored: either index may be a fixed vertex
+            uint32_t row = id >> 32;
+            uint32_t col = id & 0xFFFFFFFF;
 
-            if (col_in_zero_region) {
-                if (row == col) {
+            if (row == col) {
+                if (fixed[row]) {
                     value = 1;
-                    b[row] = 0;
-                } else {
-                    value = 0;
                 }
-            } else if (col_in_one_region) {
-                if (row == col) {
-                    value = 1;
-                    b[row] = 1;
-                } else {
-                    value = 0;
-                    b[row] -= old_value;
+            } else if (fixed[row] || fixed[col]) {
+                if (!fixed[row]) {
+                    b[row] -= value * b[col];
+                } else if (!fixed[col]) {
+                    b[col] -= value * b[row];
                 }
+                value = 0;
             }
-            val++;
         }
 
         MatCSRSymmetric Ai(coo);
-- 
2.43.0


From 40d3b08ebcdde1d1d2334c654c1403079e301bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:23 +0000
Subject: [PATCH 27/43] fix: the weighting function of force and torque
 vanishes on the outline of the surrounding region

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 28 +++++++++++++-------
 lib/nikfemm/src/magnetostatic/simulation.hpp |  1 +
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index eef6577..3996c3b 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -274,6 +274,7 @@ namespace nikfemm {
         std::vector<bool> vertex_inside_integration_region_with_boundary(mesh.data.numberofpoints);
         std::vector<bool> vertex_inside_boundary_region(mesh.data.numberofpoints);
         std::vector<bool> vertex_inside_boundary_region_hole(mesh.data.numberofpoints);
+        std::vector<bool> vertex_in_zero_region(mesh.data.numberofpoints);
 
         for (uint32_t i = 0; i < mesh.data.numberofpoints; i++) {
             Vector mypoint = mesh.data.pointlist[i];
@@ -281,6 +282,13 @@ namespace nikfemm {
             bool inside_integration_region = integration_region.contains(mypoint, false, mesh.epsilon);
             bool inside_boundary_region = boundary_region.contains(mypoint, true, mesh.epsilon);
             bool inside_boundary_region_hole = false;
+            // the outlines of the boundary region and of its holes belong to the zero region
+            bool in_zero_region = !boundary_region.contains(mypoint, false, mesh.epsilon);
+            for (auto& hole : boundary_region_holes) {
+                if (hole.contains(mypoint, true, mesh.epsilon)) {
+                    in_zero_region = true;
+                }
+            }
             for (auto& hole : boundary_region_holes) {
                 if (hole.contains(mypoint, false, mesh.epsilon)) {
                     inside_boundary_region_hole = true;
@@ -292,6 +300,7 @@ namespace nikfemm {
             vertex_inside_integration_region_with_boundary[i] = inside_integration_region_with_boundary;
             vertex_inside_boundary_region[i] = inside_boundary_region;
             vertex_inside_boundary_region_hole[i] = inside_boundary_region_hole;
+            vertex_in_zero_region[i] = in_zero_region && !inside_integration_region_with_boundary;
         }
 
         return SurroundingRegionBlockIntegralAssets{
@@ -302,7 +311,8 @@ namespace nikfemm {
             vertex_inside_integration_region,
             vertex_inside_integration_region_with_boundary,
             vertex_inside_boundary_region,
-            vertex_inside_boundary_region_hole
+            vertex_inside_boundary_region_hole,
+            vertex_in_zero_region
         };
     }
 
@@ -317,7 +327,8 @@ namespace nikfemm {
             vertex_inside_integration_region,
             vertex_inside_integration_region_with_boundary,
             vertex_inside_boundary_region,
-            vertex_inside_boundary_region_hole
+            vertex_inside_boundary_region_hole,
+            vertex_in_zero_region
         ] = assets;
 
         auto coo = MatCOOSymmetric<double>(mesh.data.numberofpoints);
@@ -389,10 +400,9 @@ namespace nikfemm {
 
         std::vector<bool> fixed(mesh.data.numberofpoints);
         for (uint32_t i = 0; i < mesh.data.numberofpoints; i++) {
-            bool in_zero_region = !vertex_inside_boundary_region[i] || vertex_inside_boundary_region_hole[i];
             bool in_one_region = vertex_inside_integration_region_with_boundary[i];
-            fixed[i] = in_zero_region || in_one_region;
-            b[i] = in_one_region && !in_zero_region ? 1 : 0;
+            fixed[i] = vertex_in_zero_region[i] || in_one_region;
+            b[i] = in_one_region && !vertex_in_zero_region[i] ? 1 : 0;
         }
 
         for (auto& [id, value] : coo.elems) {
@@ -479,7 +489,8 @@ namespace nikfemm {
             vertex_inside_integration_region,
             vertex_inside_integration_region_with_boundary,
             vertex_inside_boundary_region,
-            vertex_inside_boundary_region_hole
+            vertex_inside_boundary_region_hole,
+            vertex_in_zero_region
         ] = assets;
 
         auto coo = MatCOOSymmetric<double>(mesh.data.numberofpoints);
@@ -551,10 +562,9 @@ namespace nikfemm {
 
         std::vector<bool> fixed(mesh.data.numberofpoints);
         for (uint32_t i = 0; i < mesh.data.numberofpoints; i++) {
-            bool in_zero_region = !vertex_inside_boundary_region[i] || vertex_inside_boundary_region_hole[i];
             bool in_one_region = vertex_inside_integration_region_with_boundary[i];
-            fixed[i] = in_zero_region || in_one_region;
-            b[i] = in_one_region && !in_zero_region ? 1 : 0;
+            fixed[i] = vertex_in_zero_region[i] || in_one_region;
+            b[i] = in_one_region && !vertex_in_zero_region[i] ? 1 : 0;
         }
 
         for (auto& [id, value] : coo.elems) {
diff --git a/lib/nikfemm/src/magnetostatic/simulation.hpp b/lib/nikfemm/src/magnetostatic/simulation.hpp
index 51c7875..9d13d25 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.hpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.hpp
@@ -27,6 +27,7 @@ namespace nikfemm {
         std::vector<bool> vertex_inside_integration_region_with_boundary;
         std::vector<bool> vertex_inside_boundary_region;
         std::vector<bool> vertex_inside_boundary_region_hole;
+        std::vector<bool> vertex_in_zero_region;
     };
 
     struct StressTensor {
-- 
2.43.0


From 4e4546f4456ad880c583e189cafddd12a96a01c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:24 +0000
Subject: [PATCH 28/43] fix: centre of the torque given in drawing coordinates

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 3996c3b..7b98225 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -480,6 +480,9 @@ namespace nikfemm {
 
     double MagnetostaticSimulation::computeTorqueIntegral(std::vector<Vector> B, SurroundingRegionBlockIntegralAssets assets, Vector p, Vector center) {
         auto start = std::chrono::high_resolution_clock::now();
+
+        // from drawing coordinates to mesh coordinates
+        center -= mesh.center;
         
         auto [
             adjelems_ids, 
-- 
2.43.0


From 843141433a357621eb54adca52b868a2eba688c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:24 +0000
Subject: [PATCH 29/43] fix: force and torque where the field is zero

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 7b98225..cdd4e01 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -411,7 +411,8 @@ namespace nikfemm {
             uint32_t col = id & 0xFFFFFFFF;
 
             if (row == col) {
-                if (fixed[row]) {
+                // where there is no field any value will do
+                if (fixed[row] || value == 0) {
                     value = 1;
                 }
             } else if (fixed[row] || fixed[col]) {
@@ -576,7 +577,8 @@ namespace nikfemm {
             uint32_t col = id & 0xFFFFFFFF;
 
             if (row == col) {
-                if (fixed[row]) {
+                // where there is no field any value will do
+                if (fixed[row] || value == 0) {
                     value = 1;
                 }
             } else if (fixed[row] || fixed[col]) {
-- 
2.43.0


From 8b818de9e984181751b2c5f44a272535e117e2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:24 +0000
Subject: [PATCH 30/43] fix: weights of the elements independent of the
 strength of the field

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index cdd4e01..0782c6b 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -257,7 +257,7 @@ namespace nikfemm {
                 Vector Bp = B[adjid1 == i ? adjid2 : adjid1];
                 err += (n ^ (Bp - B[i])) * len;
             }
-            elem_field_errors[i] = err;
+            elem_field_errors[i] = fabs(err);
         }
 
         nloginfo("computing median field error");
@@ -381,7 +381,7 @@ namespace nikfemm {
 
                 double err = elem_field_errors[adjelems_ids[i][j]];
                 
-                double Wi = limit(map(sqrt(fabs(err)), min_err, max_err, 1, 1000), 1, 1000);
+                double Wi = min_err < max_err ? limit(map(sqrt(err), sqrt(min_err), sqrt(max_err), 1, 1000), 1, 1000) : 1;
                 // elem_field_weights[adjelems_ids[i][j]] = Wi;
                 
                 if (v1 >= i) coo(i, v1) += area * Wi * (K1 * b1 + K2 * c1) * (K1 * b1 + K2 * c1);
@@ -547,7 +547,7 @@ namespace nikfemm {
 
                 double err = elem_field_errors[adjelems_ids[i][j]];
                 
-                double Wi = limit(map(sqrt(fabs(err)), min_err, max_err, 1, 1000), 1, 1000);
+                double Wi = min_err < max_err ? limit(map(sqrt(err), sqrt(min_err), sqrt(max_err), 1, 1000), 1, 1000) : 1;
                 // elem_field_weights[adjelems_ids[i][j]] = Wi;
                 
                 if (v1 >= i) coo(i, v1) += area * Wi * (K1 * b1 + K2 * c1) * (K1 * b1 + K2 * c1);
-- 
2.43.0


From e5640e8438dcde15f35cafb227b966cf0e26cb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:02 +0000
Subject: [PATCH 31/43] fix: surface currents of magnets once per outline edge,
 half to each end node

---
 lib/nikfemm/src/magnetostatic/mesh.cpp | 126 +------------------------
 1 file changed, 3 insertions(+), 123 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/mesh.cpp b/lib/nikfemm/src/magnetostatic/mesh.cpp
index 5f3f0c2..ddc64f9 100644
--- a/lib/nikfemm/src/magnetostatic/mesh.cpp
+++ b/lib/nikfemm/src/magnetostatic/mesh.cpp
@@ -63,130 +63,10 @@ namespace nikfemm {
 
                 // set the b vector
                 system.b[i] += (double_area * adjelems_props[i][j]->J) / 6;
-            }
-        }
-
-        // line integral
-        // in this section we find all the edges where there is a surface current (i.e. the edges where the M vector changes from element to element)
-        // to do this first of all we find all the segments in the drawing that are subject to a surface current and their outward normal
-        struct SurfaceCurrentSegment {
-            Vector p1, p2; // the two points that define the segment
-            double Jm; // surface current density on the segment (M x n) (pointing normal to the simulation plane)
-        };
-
-        // first we have to find the polygons that are magnets
-        // if the polygon contains a region that is a magnet and it does not contain any other polygon that contains the same region then it is a magnet
-        std::map<uint32_t, std::vector<Polygon>> polygons_that_contain_magnet_region;
-        for (auto region :drawing.regions) {
-            if (drawing.region_map[region.second].M != Vector(0, 0)) {
-                for (auto polygon : drawing.polygons) {
-                    if (polygon.contains(region.first)) {
-                        polygons_that_contain_magnet_region[region.second].push_back(polygon);
-                    }
-                }
-            }
-        }
-
-        struct Magnet {
-            Polygon polygon;
-            Vector M;
-            std::vector<SurfaceCurrentSegment> segments;
-        };
-
-        std::vector<Magnet> magnets;
-        for (auto region_poly_array : polygons_that_contain_magnet_region) {
-            if (region_poly_array.second.size() == 1) {
-                // this is a magnet
-                for (auto point : region_poly_array.second[0].points) {
-                    magnets.push_back({region_poly_array.second[0], drawing.region_map[region_poly_array.first].M, {}});
-                }
-            } else {
-                // this array contains a magnet and other polygons that contain the polygon that is a magnet
-                // we need to find the polygon that does not contain any other polygon that contains the same region
-                for (auto polygon : region_poly_array.second) {
-                    bool is_magnet = true;
-                    for (auto other_polygon : region_poly_array.second) {
-                        if (polygon != other_polygon && polygon.contains(other_polygon)) {
-                            is_magnet = false;
-                            break;
-                        }
-                    }
-                    if (is_magnet) {
-                        magnets.push_back({polygon, drawing.region_map[region_poly_array.first].M, {}});
-                    }
-                }
-            }
-        }
-
-        // now we have to find the segments that are subject to a surface current and their outward normal
-        for (auto &magnet : magnets) {
-            for (uint32_t i = 0; i < magnet.polygon.points.size(); i++) {
-                uint32_t j = (i + 1) % magnet.polygon.points.size();
-                Vector p1 = magnet.polygon.points[i];
-                Vector p2 = magnet.polygon.points[j];
-                Vector n = (p2 - p1).normal().normalize();
-                // we need the outward normal
-                Vector test = Vector::midPoint(p1, p2) + (n * epsilon * 0.1);  // 0.1 just to make sure that we get no false negatives
-                if (magnet.polygon.contains(test)) {
-                    n = n * -1;
-                }
-                // draw arrow from the middle of p1 and p2 in the direction of n
-                Vector mid = Vector::midPoint(p1, p2);
-                double Jm = magnet.M ^ n;
-                magnet.segments.push_back({p1, p2, Jm});
-            }
-        }
-
-        // now we have to find the edges that are subject to a surface current
-        // i.e. the edges that lie on a segment that is subject to a surface current
-        // edges should be unique
 
-        // we need an unique list of edges
-        struct Edge {
-            uint32_t v1, v2;
-        };
-
-        struct EdgeHash {
-            static uint64_t edge_unique_hash(uint32_t v1, uint32_t v2) {
-                return (uint64_t)v1 << 32 | (uint64_t)v2;
-            }
-            std::size_t operator()(const Edge& edge) const {
-                return edge_unique_hash(edge.v1, edge.v2) * (edge.v1 > edge.v2) + edge_unique_hash(edge.v2, edge.v1) * (edge.v1 <= edge.v2);
-            }
-        };
-
-        struct EdgeEqual {
-            bool operator()(const Edge& edge1, const Edge& edge2) const {
-                return (edge1.v1 == edge2.v1 && edge1.v2 == edge2.v2) || (edge1.v1 == edge2.v2 && edge1.v2 == edge2.v1);
-            }
-        };
-
-        std::unordered_set<Edge, EdgeHash, EdgeEqual> edges;
-        edges.reserve((data.numberofpoints - 2) * 3);
-
-        for (uint32_t i = 0; i < data.numberoftriangles; i++) {
-            edges.insert({(uint32_t)data.trianglelist[i][0], (uint32_t)data.trianglelist[i][1]});
-            edges.insert({(uint32_t)data.trianglelist[i][1], (uint32_t)data.trianglelist[i][2]});
-            edges.insert({(uint32_t)data.trianglelist[i][2], (uint32_t)data.trianglelist[i][0]});
-        }
-
-        nloginfo("number of edges: %d, predicted number of edges: %d", edges.size(), (data.numberofpoints - 2) * 3);
-        
-
-        for (auto edge : edges) {
-            Vector p1 = data.pointlist[edge.v1];
-            Vector p2 = data.pointlist[edge.v2];
-            for (auto magnet : magnets) {
-                for (auto segment : magnet.segments) {
-                    double dist1 = Segment::pointSegmentDistance(p1, segment.p1, segment.p2);
-                    double dist2 = Segment::pointSegmentDistance(p2, segment.p1, segment.p2);
-                    if (dist1 < epsilon * 0.1 && dist2 < epsilon * 0.1) {
-                        // this edge is subject to a surface current
-                        double length = Vector::distance(p1, p2);
-                        system.b[edge.v1] += length * segment.Jm;
-                        system.b[edge.v2] += length * segment.Jm;
-                    }
-                }
+                // magnets: the surface current M x n on the outline of the magnetised area, half of it to each end of an edge
+                // summed edge by edge over the triangles the edges inside of the area cancel
+                system.b[i] += (double_area * (adjelems_props[i][j]->M ^ Vector(b1, c1))) / 2;
             }
         }
 
-- 
2.43.0


From 7d79d6534a648190137a65a35705ac333be2e863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:23 +0000
Subject: [PATCH 32/43] fix: keep the translation of an earlier generation in
 the centre of the mesh

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 0782c6b..0a8ed50 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -51,10 +51,11 @@ namespace nikfemm {
         }
         double coeff = 1.5;  // make the circle [coeff] times the size of the smallest circle
         // set simulation offset and boundary radius
-        mesh.center = smallest_circle.center;
+        // the drawing may have been translated by an earlier generation
+        mesh.center += smallest_circle.center;
         mesh.radius = smallest_circle.radius * coeff;
         // translate everything to the origin
-        mesh.drawing.translate(-mesh.center);
+        mesh.drawing.translate(-smallest_circle.center);
         // make circle double the size of the smallest circle
         Circle boundary_circle = Circle(Vector(0, 0), smallest_circle.radius * coeff);
         double circumferential_length = boundary_circle.circumference();
-- 
2.43.0


From dbac38e5d3d3089a562638dc8b8ac23a1bd63962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:16 +0000
Subject: [PATCH 33/43] fix: convergence of the nonlinear solver measured with
 the permeabilities of the field

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 0a8ed50..8d91fe4 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -141,11 +141,14 @@ namespace nikfemm {
                 B = mesh.computeCurl(A);
                 // mesh.Bplot(B);
 
-                // check if the solution is correct
-                MagnetostaticSimulation::updateMu(B, props, mu, residual, i);
-                FemMat.evaluate(mu);
+                // check if the solution is correct, with the permeabilities that belong to the field
+                std::vector<double> field_mu(B.size());
+                for (uint32_t j = 0; j < B.size(); j++) {
+                    field_mu[j] = props[j]->getMu(B[j].norm());
+                }
+                FemMat.evaluate(field_mu);
                 for (uint32_t i = 0; i < system.b.size(); i++) {
-                    b[i] = system.b[i].evaluate(mu);
+                    b[i] = system.b[i].evaluate(field_mu);
                 }
                 mult(r, FemMat, A);
                 sub(r, b, r);
@@ -156,6 +159,13 @@ namespace nikfemm {
                 }
                 // nloginfo("%.17g, %.17g; ", K, residual);
                 nloginfo("nonlinear iteration %d, residual: %.17g", i, residual);
+
+                // damped permeabilities for the next iteration
+                MagnetostaticSimulation::updateMu(B, props, mu, residual, i);
+                FemMat.evaluate(mu);
+                for (uint32_t j = 0; j < system.b.size(); j++) {
+                    b[j] = system.b[j].evaluate(mu);
+                }
                 // print mu
                 // nloginfo("%f,", residual);
                 fflush(stdout);
-- 
2.43.0


From 585a1d32908099371e70097486190d0b5045c158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:09 +0000
Subject: [PATCH 34/43] fix: damping of the nonlinear solver relative to the
 sources

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 8d91fe4..55ed7de 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -160,8 +160,8 @@ namespace nikfemm {
                 // nloginfo("%.17g, %.17g; ", K, residual);
                 nloginfo("nonlinear iteration %d, residual: %.17g", i, residual);
 
-                // damped permeabilities for the next iteration
-                MagnetostaticSimulation::updateMu(B, props, mu, residual, i);
+                // damped permeabilities for the next iteration: the damping goes with the residual relative to the sources
+                MagnetostaticSimulation::updateMu(B, props, mu, std::min(residual / norm(b), 1.), i);
                 FemMat.evaluate(mu);
                 for (uint32_t j = 0; j < system.b.size(); j++) {
                     b[j] = system.b[j].evaluate(mu);
-- 
2.43.0


From 4da131d970a56ab731252db874723b87a0aac48d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:34:15 +0000
Subject: [PATCH 35/43] fix: draw_region of the Python interface refused whole
 numbers, which all other numeric arguments may be

---
 python/nikfemm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index 4c193f2..b100b56 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -443,7 +443,7 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawRegion(nikfemm_M
             PyErr_SetString(PyExc_TypeError, "drawRegion must have the first argument of type (double, double)");
             return NULL;
         }
-        if (!PyFloat_Check(PyTuple_GetItem(args, 1))) {
+        if (!PyFloat_Check(PyTuple_GetItem(args, 1)) && !PyLong_Check(PyTuple_GetItem(args, 1))) {
             PyErr_SetString(PyExc_TypeError, "drawRegion must have the second argument of type double");
             return NULL;
         }
-- 
2.43.0


From 20727b16966f8f39caf5732c1e7497489dc669bd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:34:15 +0000
Subject: [PATCH 36/43] fix: a list of fewer than two coordinates ended the
 interpreter

---
 python/nikfemm.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index b100b56..568489c 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -269,7 +269,7 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_setVoltage(nikfemm_M
             PyErr_SetString(PyExc_TypeError, "setVoltage must have the first argument of type System");
             return NULL;
         }
-        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 1), &PyList_Type)) {
+        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 1), &PyList_Type) || PyList_Size(PyTuple_GetItem(args, 1)) != 2) {
             PyErr_SetString(PyExc_TypeError, "setVoltage must have the second argument of type [double, double]");
             return NULL;
         }
@@ -323,11 +323,11 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_add_interconnection(
         PyErr_SetString(PyExc_TypeError, "add_interconnection must have 5 arguments: [double, double], [double, double], uint64_t, uint64_t, double");
         return NULL;
     } else {
-        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 0), &PyList_Type)) {
+        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 0), &PyList_Type) || PyList_Size(PyTuple_GetItem(args, 0)) != 2) {
             PyErr_SetString(PyExc_TypeError, "add_interconnection must have the first argument of type [double, double] or [int, int]");
             return NULL;
         }
-        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 1), &PyList_Type)) {
+        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 1), &PyList_Type) || PyList_Size(PyTuple_GetItem(args, 1)) != 2) {
             PyErr_SetString(PyExc_TypeError, "add_interconnection must have the second argument of type [double, double] or [int, int]");
             return NULL;
         }
@@ -391,11 +391,11 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawRectangle(nikfem
         PyErr_SetString(PyExc_TypeError, "drawRectangle must have 3 arguments: (double, double), (double, double), uint64_t");
         return NULL;
     } else {
-        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 0), &PyList_Type)) {
+        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 0), &PyList_Type) || PyList_Size(PyTuple_GetItem(args, 0)) != 2) {
             PyErr_SetString(PyExc_TypeError, "drawRectangle must have the first argument of type (double, double)");
             return NULL;
         }
-        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 1), &PyList_Type)) {
+        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 1), &PyList_Type) || PyList_Size(PyTuple_GetItem(args, 1)) != 2) {
             PyErr_SetString(PyExc_TypeError, "drawRectangle must have the second argument of type (double, double)");
             return NULL;
         }
@@ -439,7 +439,7 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawRegion(nikfemm_M
         PyErr_SetString(PyExc_TypeError, "drawRegion must have 3 arguments: (double, double), double, uint64_t");
         return NULL;
     } else {
-        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 0), &PyList_Type)) {
+        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 0), &PyList_Type) || PyList_Size(PyTuple_GetItem(args, 0)) != 2) {
             PyErr_SetString(PyExc_TypeError, "drawRegion must have the first argument of type (double, double)");
             return NULL;
         }
-- 
2.43.0


From 0422a56502d55b25b0b6271ccf93667a9e4f5b20 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:34:15 +0000
Subject: [PATCH 37/43] fix: layers that do not exist were accepted by the
 Python interface and memory outside of the layers was used

---
 python/nikfemm.cpp | 43 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index 568489c..867737a 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -41,6 +41,19 @@ typedef struct {
     nikfemm::MultiLayerCurrentDensitySimulation* simulation;
 } nikfemm_MultiLayerCurrentDensitySimulation;
 
+// a layer of the simulation; sets an exception and returns false if there is no such layer
+static bool nikfemm_getLayer(nikfemm_MultiLayerCurrentDensitySimulation* self, PyObject* arg, uint64_t* layer_id) {
+    *layer_id = PyLong_AsUnsignedLongLong(arg);
+    if (PyErr_Occurred()) {
+        return false;
+    }
+    if (*layer_id >= self->simulation->meshes.size()) {
+        PyErr_SetString(PyExc_IndexError, "no such layer");
+        return false;
+    }
+    return true;
+}
+
 static void nikfemm_MultiLayerCurrentDensitySimulation_dealloc(nikfemm_MultiLayerCurrentDensitySimulation* self) {
     delete self->simulation;
     Py_TYPE(self)->tp_free((PyObject*)self);
@@ -307,7 +320,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_setVoltage(nikfemm_M
         PyErr_SetString(PyExc_TypeError, "setVoltage must have the third argument of type double");
         return NULL;
     }
-    uint64_t layer_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 3));
+    uint64_t layer_id;
+    if (!nikfemm_getLayer(self, PyTuple_GetItem(args, 3), &layer_id)) {
+        return NULL;
+    }
 
     self->simulation->setVoltage(*system, p, V, layer_id);
 
@@ -364,8 +380,14 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_add_interconnection(
     // for each item if it is a long convert it to double, if it is a double use it
     nikfemm::Vector p1 = nikfemm::Vector(coords[0][0], coords[0][1]);
     nikfemm::Vector p2 = nikfemm::Vector(coords[1][0], coords[1][1]);
-    uint64_t layer1_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 2));
-    uint64_t layer2_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 3));
+    uint64_t layer1_id;
+    if (!nikfemm_getLayer(self, PyTuple_GetItem(args, 2), &layer1_id)) {
+        return NULL;
+    }
+    uint64_t layer2_id;
+    if (!nikfemm_getLayer(self, PyTuple_GetItem(args, 3), &layer2_id)) {
+        return NULL;
+    }
     double R;
     if (PyFloat_Check(PyTuple_GetItem(args, 4))) {
         R = PyFloat_AsDouble(PyTuple_GetItem(args, 4));
@@ -423,7 +445,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawRectangle(nikfem
     }
     nikfemm::Vector p1 = nikfemm::Vector(coords[0][0], coords[0][1]);
     nikfemm::Vector p2 = nikfemm::Vector(coords[1][0], coords[1][1]);
-    uint64_t layer_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 2));
+    uint64_t layer_id;
+    if (!nikfemm_getLayer(self, PyTuple_GetItem(args, 2), &layer_id)) {
+        return NULL;
+    }
 
     // draw rectangle
     self->simulation->meshes[layer_id].drawing.drawRectangle(p1, p2);
@@ -469,7 +494,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawRegion(nikfemm_M
     }
     nikfemm::Vector p = nikfemm::Vector(coords[0], coords[1]);
     double material = PyFloat_AsDouble(PyTuple_GetItem(args, 1));
-    uint64_t layer_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 2));
+    uint64_t layer_id;
+    if (!nikfemm_getLayer(self, PyTuple_GetItem(args, 2), &layer_id)) {
+        return NULL;
+    }
 
     // draw region
     self->simulation->meshes[layer_id].drawing.drawRegion(p, {material});
@@ -522,7 +550,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawPolygon(nikfemm_
         }
         points.push_back(nikfemm::Vector(coords[0], coords[1]));
     }
-    uint64_t layer_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 1));
+    uint64_t layer_id;
+    if (!nikfemm_getLayer(self, PyTuple_GetItem(args, 1), &layer_id)) {
+        return NULL;
+    }
 
     // draw polygon
     self->simulation->meshes[layer_id].drawing.drawPolygon(points);
-- 
2.43.0


From e96dd939537b3c37f27f1a7309caef5808d41901 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:34:15 +0000
Subject: [PATCH 38/43] fix: a System that was not generated ended the
 interpreter

---
 python/nikfemm.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index 867737a..5fe1147 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -210,6 +210,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_solve(nikfemm_MultiL
     }
 
     nikfemm::System<double>* system = ((nikfemm_System*)PyTuple_GetItem(args, 0))->system;
+    if (system == NULL) {
+        PyErr_SetString(PyExc_ValueError, "the System was not generated by generate_system");
+        return NULL;
+    }
     std::vector<double> V = self->simulation->solve(*system);
     std::vector<double> P = self->simulation->computePowerDensity(V);
 
@@ -297,6 +301,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_setVoltage(nikfemm_M
     }
 
     nikfemm::System<double>* system = ((nikfemm_System*)PyTuple_GetItem(args, 0))->system;
+    if (system == NULL) {
+        PyErr_SetString(PyExc_ValueError, "the System was not generated by generate_system");
+        return NULL;
+    }
     double coords[2];
     for (int i = 0; i < 2; i++) {
         PyObject* item = PyList_GetItem(PyTuple_GetItem(args, 1), i);
-- 
2.43.0


From 7782a7b14c95a9d0f148e675cfddebc073733776 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:34:15 +0000
Subject: [PATCH 39/43] fix: exceptions of the library ended the interpreter

---
 python/nikfemm.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index 5fe1147..b8ef5e8 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -571,14 +571,25 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawPolygon(nikfemm_
     Py_RETURN_NONE;
 }
 
+// what the library throws becomes an exception of the interpreter
+template <PyObject* (*method)(nikfemm_MultiLayerCurrentDensitySimulation*, PyObject*, PyObject*)>
+static PyObject* nikfemm_guarded(nikfemm_MultiLayerCurrentDensitySimulation* self, PyObject* args) {
+    try {
+        return method(self, args, NULL);
+    } catch (const std::exception& e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return NULL;
+    }
+}
+
 static PyMethodDef nikfemm_MultiLayerCurrentDensitySimulation_methods[] = {
-    {"generate_system", (PyCFunction)nikfemm_MultiLayerCurrentDensitySimulation_generateSystem, METH_VARARGS, "Generate system of linear equations for current density"},
-    {"solve", (PyCFunction)nikfemm_MultiLayerCurrentDensitySimulation_solve, METH_VARARGS, "Solve system of linear equations for current density"},
-    {"set_voltage", (PyCFunction)nikfemm_MultiLayerCurrentDensitySimulation_setVoltage, METH_VARARGS, "Set voltage on a node"},
-    {"add_interconnection", (PyCFunction)nikfemm_MultiLayerCurrentDensitySimulation_add_interconnection, METH_VARARGS, "Add interconnection between two points in two layers with a resistance"},
-    {"draw_rectangle", (PyCFunction)nikfemm_MultiLayerCurrentDensitySimulation_drawRectangle, METH_VARARGS, "Draw a rectangle on a layer"},
-    {"draw_region", (PyCFunction)nikfemm_MultiLayerCurrentDensitySimulation_drawRegion, METH_VARARGS, "Draw a region on a layer"},
-    {"draw_polygon", (PyCFunction)nikfemm_MultiLayerCurrentDensitySimulation_drawPolygon, METH_VARARGS, "Draw a polygon on a layer"},
+    {"generate_system", (PyCFunction)nikfemm_guarded<nikfemm_MultiLayerCurrentDensitySimulation_generateSystem>, METH_VARARGS, "Generate system of linear equations for current density"},
+    {"solve", (PyCFunction)nikfemm_guarded<nikfemm_MultiLayerCurrentDensitySimulation_solve>, METH_VARARGS, "Solve system of linear equations for current density"},
+    {"set_voltage", (PyCFunction)nikfemm_guarded<nikfemm_MultiLayerCurrentDensitySimulation_setVoltage>, METH_VARARGS, "Set voltage on a node"},
+    {"add_interconnection", (PyCFunction)nikfemm_guarded<nikfemm_MultiLayerCurrentDensitySimulation_add_interconnection>, METH_VARARGS, "Add interconnection between two points in two layers with a resistance"},
+    {"draw_rectangle", (PyCFunction)nikfemm_guarded<nikfemm_MultiLayerCurrentDensitySimulation_drawRectangle>, METH_VARARGS, "Draw a rectangle on a layer"},
+    {"draw_region", (PyCFunction)nikfemm_guarded<nikfemm_MultiLayerCurrentDensitySimulation_drawRegion>, METH_VARARGS, "Draw a region on a layer"},
+    {"draw_polygon", (PyCFunction)nikfemm_guarded<nikfemm_MultiLayerCurrentDensitySimulation_drawPolygon>, METH_VARARGS, "Draw a polygon on a layer"},
     {NULL} /* Sentinel */
 };
 
-- 
2.43.0


From bd4f0bca04093a0cfd8a5cc359d5d2717ab7d6dc Mon Sep 17 00:00:00 2001
From: verif <v@l>
Date: Thu, 19 Nov 2026 04:36:32 +0000
Subject: [PATCH 40/43] fix: meshing a drawing without regions used attributes
 that do not exist

---
 lib/nikfemm/src/mesh/mesh.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 3371e9d..4d1aa31 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -171,6 +171,10 @@ namespace nikfemm {
 
     template <typename Prop>
     void Mesh<Prop>::mesh(double max_triangle_area, int min_angle, bool split_boundary) {
+        if (drawing.regions.empty()) {
+            nexit("ERROR: the drawing has no regions");
+        }
+
         triangulateio in;
 
         /* set up the input */
-- 
2.43.0


From 3162427e5148e4beabb619fa245be54c1925a3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:12 +0000
Subject: [PATCH 41/43] fix: magnet refinement measures its spacing once, not
 again among the points it has just added

refineMeshAroundMagnets() took the clearance of the drawing anew for every
side. The points added along one side lie a tenth of it away, so each side
was refined about nine times finer than the one before: two unit squares
did not finish.
---
 lib/nikfemm/src/magnetostatic/mesh.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/mesh.cpp b/lib/nikfemm/src/magnetostatic/mesh.cpp
index ddc64f9..f191937 100644
--- a/lib/nikfemm/src/magnetostatic/mesh.cpp
+++ b/lib/nikfemm/src/magnetostatic/mesh.cpp
@@ -151,13 +151,14 @@ namespace nikfemm {
             }
         }
         nloginfo("Found %lu magnets", magnets.size());
+        // the points added below would make it smaller
+        double multiplier = 10;
+        double epsilon = drawing.getCurrentEpsilon();
         for (auto polygon : magnets) {
             for (uint32_t i = 0; i < polygon.points.size(); i++) {
                 Vector p1 = polygon.points[i];
                 Vector p2 = polygon.points[(i + 1) % polygon.points.size()];
                 
-                double multiplier = 10;
-                double epsilon = drawing.getCurrentEpsilon();
                 uint32_t n_points = Vector::distance(p1, p2) / (epsilon / multiplier);
                 // multiply by 1.1 to make sure that the points are far enough to not trigger conformity checks
                 // Vector normal = Vector::normal(p1, p2).versor() * (drawing.epsilon / multiplier) * 1.1;
-- 
2.43.0


From d94d10a33951a3f12aacc8726df783c8b1967c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:21 +0000
Subject: [PATCH 42/43] fix: the circle of three points lost the pair that
 decides it to rounding

---
 lib/nikfemm/src/geometry/circle.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/geometry/circle.cpp b/lib/nikfemm/src/geometry/circle.cpp
index 6de0206..ff0cdd1 100644
--- a/lib/nikfemm/src/geometry/circle.cpp
+++ b/lib/nikfemm/src/geometry/circle.cpp
@@ -44,7 +44,10 @@ namespace nikfemm {
             for (int j = i + 1; j < 3; j++) {
     
                 Circle c = getCircleFromPoints(points[i], points[j]);
-                if (c.containsPoints(points)) {
+                // the pair is on the border, where rounding may put it outside
+                double away = Vector::distance(c.center, points[3 - i - j]);
+                if (away <= c.radius * (1 + 1e-12)) {
+                    c.radius = std::max(c.radius, away);
                     return c;
                 }
             }
-- 
2.43.0


From 0350cf89380224940fcd5f3886a1b842bc401cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:38 +0000
Subject: [PATCH 43/43] fix: points added around magnets fell on the
 neighbouring sides, only their corners were kept clear

---
 lib/nikfemm/src/magnetostatic/mesh.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/mesh.cpp b/lib/nikfemm/src/magnetostatic/mesh.cpp
index f191937..f4fd901 100644
--- a/lib/nikfemm/src/magnetostatic/mesh.cpp
+++ b/lib/nikfemm/src/magnetostatic/mesh.cpp
@@ -185,8 +185,7 @@ namespace nikfemm {
                                     // check if the point is at least drawing.epsilon away from the edge
                                     Vector p3 = other_polygon.points[l];
                                     Vector p4 = other_polygon.points[(l + 1) % other_polygon.points.size()];
-                                    if (Vector::distance(mypoints[k], p3) < epsilon / multiplier ||
-                                        Vector::distance(mypoints[k], p4) < epsilon / multiplier) {
+                                    if (Segment::pointSegmentDistance(mypoints[k], p3, p4) < epsilon / multiplier) {
                                         mypoints_ok[k] = false;
                                         break;
                                     }
-- 
2.43.0

