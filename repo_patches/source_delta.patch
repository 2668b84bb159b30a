From b5bb36d33bc072f69d6f9539f91f7bf2d5b304cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:23 +0000
Subject: [PATCH 01/13] fix: distance from a point to a segment of zero length
 was NaN

---
 lib/nikfemm/src/geometry/segment.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/geometry/segment.cpp b/lib/nikfemm/src/geometry/segment.cpp
index 50ec3de..22eb985 100644
--- a/lib/nikfemm/src/geometry/segment.cpp
+++ b/lib/nikfemm/src/geometry/segment.cpp
@@ -84,7 +84,12 @@ namespace nikfemm {
         return Vector::distance(p, projection);
         */
         // return pointSegmentDistance(p, Segment(p1, p2));
-        double param = ((p - p1) * (p2 - p1)) / Vector::distanceSquared(p1, p2);
+        double length_squared = Vector::distanceSquared(p1, p2);
+        if (length_squared == 0) {
+            // the segment is a single point
+            return Vector::distance(p, p1);
+        }
+        double param = ((p - p1) * (p2 - p1)) / length_squared;
         if (param < 0) {
             return Vector::distance(p, p1);
         }
-- 
2.43.0


From 3a8a8e656fa27259821a890cd3c8750dca452336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:23 +0000
Subject: [PATCH 02/13] fix: a segment of zero length was reported to intersect
 segments far from it

---
 lib/nikfemm/src/geometry/segment.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/nikfemm/src/geometry/segment.cpp b/lib/nikfemm/src/geometry/segment.cpp
index 22eb985..6987d8b 100644
--- a/lib/nikfemm/src/geometry/segment.cpp
+++ b/lib/nikfemm/src/geometry/segment.cpp
@@ -107,6 +107,11 @@ namespace nikfemm {
 
     bool Segment::segmentsIntersect(Vector s1p1, Vector s1p2, Vector s2p1, Vector s2p2) {
         double epsilon = 1e-100;
+        if (s1p1.x == s1p2.x && s1p1.y == s1p2.y) {
+            // a single point has no line of its own: measure it against the other segment
+            std::swap(s1p1, s2p1);
+            std::swap(s1p2, s2p2);
+        }
         double c_area = area(s1p1, s1p2, s2p1);
         double d_area = area(s1p1, s1p2, s2p2);
         if (std::abs(c_area) < epsilon) {
-- 
2.43.0


From 2a4a93c3aa0fd63658191a55889a642ae3d35a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:23 +0000
Subject: [PATCH 03/13] fix: enclosing circle did not contain its points when
 they were not centred on the origin

---
 lib/nikfemm/src/geometry/circle.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/nikfemm/src/geometry/circle.cpp b/lib/nikfemm/src/geometry/circle.cpp
index de327e3..236ae37 100644
--- a/lib/nikfemm/src/geometry/circle.cpp
+++ b/lib/nikfemm/src/geometry/circle.cpp
@@ -87,16 +87,18 @@ namespace nikfemm {
     }
 
     Circle Circle::getEnclosingCircle(std::vector<Vector> points) {
-        double maxmod = 0;
         Vector center = {0, 0};
         for (auto p : points) {
-            double mod = p.norm();
-            if (mod > maxmod) {
-                maxmod = mod;
-            }
             center += p;
         }
         center /= points.size();
-        return Circle(center, maxmod);
+        double radius = 0;
+        for (auto p : points) {
+            double dist = Vector::distance(center, p);
+            if (dist > radius) {
+                radius = dist;
+            }
+        }
+        return Circle(center, radius);
     }
 }
\ No newline at end of file
-- 
2.43.0


From 99e00267a976f1f9a822c6b95ec2c63ca07ee4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:23 +0000
Subject: [PATCH 04/13] fix: computeCurl returned the curl with the wrong sign

---
 lib/nikfemm/src/mesh/mesh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index caa133c..0b98c7e 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -405,7 +405,7 @@ namespace nikfemm {
             
             // printf("dx = %.17g dy = %.17g for elem (%.1f, %.1f, %.17g), (%.1f, %.1f, %.17g), (%.1f, %.1f, %.17g)\n", dx, dy, x1, y1, z1, x2, y2, z2, x3, y3, z3);
 
-            out[i] = Vector(-dy, dx);
+            out[i] = Vector(dy, -dx);
         }
 
         return out;
-- 
2.43.0


From 5d8de1e09d83effef27af0702ded1389d9767e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:23 +0000
Subject: [PATCH 05/13] fix: getMu read past the end of the B-H curve for
 fields in its last segment

---
 lib/nikfemm/src/magnetostatic/properties.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/magnetostatic/properties.cpp b/lib/nikfemm/src/magnetostatic/properties.cpp
index 05d8734..7cace5b 100644
--- a/lib/nikfemm/src/magnetostatic/properties.cpp
+++ b/lib/nikfemm/src/magnetostatic/properties.cpp
@@ -43,7 +43,8 @@ namespace nikfemm {
             // printf("B is larger than the largest B in the curve, returning mu %.17g\n", m);
             return m;
         } else {
-            // forward difference
+            // forward difference, on the last segment when lower_bound is the last point of the curve
+            if (std::next(it) == bh_curve.end()) --it;
             double B1 = it->B;
             double H1 = it->H;
             double B2 = (++it)->B;
-- 
2.43.0


From d0df09946a10fee2c6b9c404aba15197b72214e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:50 +0000
Subject: [PATCH 06/13] fix: report collinear segments that overlap up to a
 common end point

1e-100 vanishes next to any coordinate of ordinary size, so the strict
comparisons excluded the end points and overlapping collinear segments that
share one were missed when the first segment runs towards smaller coordinates.
---
 lib/nikfemm/src/geometry/segment.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/nikfemm/src/geometry/segment.cpp b/lib/nikfemm/src/geometry/segment.cpp
index 6987d8b..f94119f 100644
--- a/lib/nikfemm/src/geometry/segment.cpp
+++ b/lib/nikfemm/src/geometry/segment.cpp
@@ -116,11 +116,11 @@ namespace nikfemm {
         double d_area = area(s1p1, s1p2, s2p2);
         if (std::abs(c_area) < epsilon) {
             if (std::abs(s2p1.x-s1p1.x) < epsilon) {
-                if (std::min(s1p1.y,s1p2.y)-epsilon < s2p1.y && s2p1.y < std::max(s1p1.y,s1p2.y)+epsilon) {
+                if (std::min(s1p1.y,s1p2.y)-epsilon <= s2p1.y && s2p1.y <= std::max(s1p1.y,s1p2.y)+epsilon) {
                     return true;
                 }
             } else {
-                if (std::min(s1p1.x,s1p2.x)-epsilon < s2p1.x && s2p1.x < std::max(s1p1.x,s1p2.x)+epsilon) {
+                if (std::min(s1p1.x,s1p2.x)-epsilon <= s2p1.x && s2p1.x <= std::max(s1p1.x,s1p2.x)+epsilon) {
                     return true;
                 }
             }
@@ -130,11 +130,11 @@ namespace nikfemm {
         }
         if (std::abs(d_area) < epsilon) {
             if (std::abs(s2p2.x-s1p1.x) < epsilon) {
-                if (std::min(s1p1.y,s1p2.y)-epsilon < s2p2.y && s2p2.y < std::max(s1p1.y,s1p2.y)+epsilon) {
+                if (std::min(s1p1.y,s1p2.y)-epsilon <= s2p2.y && s2p2.y <= std::max(s1p1.y,s1p2.y)+epsilon) {
                     return true;
                 }
             } else {
-                if (std::min(s1p1.x,s1p2.x)-epsilon < s2p2.x && s2p2.x < std::max(s1p1.x,s1p2.x)+epsilon) {
+                if (std::min(s1p1.x,s1p2.x)-epsilon <= s2p2.x && s2p2.x <= std::max(s1p1.x,s1p2.x)+epsilon) {
                     return true;
                 }
             }
-- 
2.43.0


From c3f9307a0bd3d5dc16e55a2aa55871241b02d853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:23 +0000
Subject: [PATCH 07/13] fix: drawSegment skipped the crossing test for segments
 whose ends lie outside each other's bounding box

---
 lib/nikfemm/src/drawing/drawing.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index e53bdbc..c1d86b9 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -236,7 +236,10 @@ namespace nikfemm {
                 continue;
             }
             // before checking for intersection, check if the segments have overlapping bounding boxes to avoid unnecessary intersection checks
-            if (!(Segment::pointInSegmentBB(p1, points[s.p1], points[s.p2]) || Segment::pointInSegmentBB(p2, points[s.p1], points[s.p2]))) {
+            Vector s1 = points[s.p1];
+            Vector s2 = points[s.p2];
+            if (std::max(p1.x, p2.x) < std::min(s1.x, s2.x) || std::max(s1.x, s2.x) < std::min(p1.x, p2.x) ||
+                std::max(p1.y, p2.y) < std::min(s1.y, s2.y) || std::max(s1.y, s2.y) < std::min(p1.y, p2.y)) {
                 continue;
             }
             // check for intersection
-- 
2.43.0


From 54805b54a8ee9754ad04161bda25c22203e57e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:07 +0000
Subject: [PATCH 08/13] fix: count a node at the origin among the three
 farthest nodes

---
 lib/nikfemm/src/magnetostatic/mesh.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/mesh.cpp b/lib/nikfemm/src/magnetostatic/mesh.cpp
index a8b1f06..fab0110 100644
--- a/lib/nikfemm/src/magnetostatic/mesh.cpp
+++ b/lib/nikfemm/src/magnetostatic/mesh.cpp
@@ -203,9 +203,9 @@ namespace nikfemm {
         uint32_t p1 = 0;
         uint32_t p2 = 0;
         uint32_t p3 = 0;
-        double d1 = 0;
-        double d2 = 0;
-        double d3 = 0;
+        double d1 = -1;
+        double d2 = -1;
+        double d3 = -1;
         for (uint32_t i = 0; i < data.numberofpoints; i++) {
             double dist = Vector::distance(data.pointlist[i], Vector(0, 0));
             if (dist > d1) {
-- 
2.43.0


From b4b60618f1326875adccc351258ff015c0f44936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:57 +0000
Subject: [PATCH 09/13] fix: report barycentre and inertia in the coordinates
 of the drawing, not of the recentred mesh

---
 lib/nikfemm/src/mesh/mesh.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 0b98c7e..b715d99 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -530,7 +530,7 @@ namespace nikfemm {
             }
         }
 
-        return barycenter / area;
+        return barycenter / area + center;
     }
 
     template <typename Prop>
@@ -547,7 +547,7 @@ namespace nikfemm {
             if (integration_region.contains(p1) && integration_region.contains(p2) && integration_region.contains(p3)) {
                 double triangle_area = Vector::area(p1, p2, p3);
                 Vector triangle_barycenter = (p1 + p2 + p3) / 3;
-                Vector r = triangle_barycenter - center;
+                Vector r = triangle_barycenter + this->center - center;
                 moment += triangle_area * r.normSquared();
             }
         }
-- 
2.43.0


From dc515725d48d8b77275d73ec8cadf6c103cc16a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:39 +0000
Subject: [PATCH 10/13] fix: the Jacobi-preconditioned solver divided 0 by 0
 when started at the solution

---
 lib/nikfemm/src/algebra/solvers.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/nikfemm/src/algebra/solvers.cpp b/lib/nikfemm/src/algebra/solvers.cpp
index ecf0bcc..fa626a5 100644
--- a/lib/nikfemm/src/algebra/solvers.cpp
+++ b/lib/nikfemm/src/algebra/solvers.cpp
@@ -131,6 +131,10 @@ namespace nikfemm {
         std::vector<double> Ap(b.size());
         double rTzold;
         double squareError = squareSum(r);
+        if (squareError < maxError * maxError) {
+            nloginfo("converged after 0 iterations");
+            return;
+        }
         for (uint32_t i = 0; i < maxIterations; i++) {
             mult(Ap, A, p);
             double alpha = dot(r, z) / dot(p, Ap);
-- 
2.43.0


From 1df2b4ebeb517a744140298c1b5e84c05df95895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:54 +0000
Subject: [PATCH 11/13] fix: conduction assembly no longer overruns its 18-slot
 adjacency arrays at nodes shared by more triangles

---
 lib/nikfemm/src/current_density/mesh.cpp | 33 +++++++++++-------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/lib/nikfemm/src/current_density/mesh.cpp b/lib/nikfemm/src/current_density/mesh.cpp
index b9de0d6..d54e00a 100644
--- a/lib/nikfemm/src/current_density/mesh.cpp
+++ b/lib/nikfemm/src/current_density/mesh.cpp
@@ -11,25 +11,24 @@ namespace nikfemm {
         auto start = std::chrono::high_resolution_clock::now();
 
         // COMPUTE FEM WEIGHTS
-        auto adjelems_ids = std::vector<std::array<uint32_t, 18>>(data.numberofpoints);
-        auto adjelems_props = std::vector<std::array<const CurrentDensityProp*, 18>>(data.numberofpoints);
-        auto adjelems_count = std::vector<uint8_t>(data.numberofpoints, 0);
+        auto adjelems_ids = std::vector<std::vector<uint32_t>>(data.numberofpoints);
+        auto adjelems_props = std::vector<std::vector<const CurrentDensityProp*>>(data.numberofpoints);
 
         for (uint32_t i = 0; i < data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = data.trianglelist[i][j];
-                adjelems_ids[myid][adjelems_count[myid]] = i;
-                adjelems_props[myid][adjelems_count[myid]++] = drawing.getRegionPtrFromId(data.triangleattributelist[i]);
+                adjelems_ids[myid].push_back(i);
+                adjelems_props[myid].push_back(drawing.getRegionPtrFromId(data.triangleattributelist[i]));
             }
         }
 
         // surface integral
         for (uint32_t i = 0; i < data.numberofpoints; i++) {
-            if (adjelems_count[i] == 0) {
+            if (adjelems_ids[i].empty()) {
                 nlogerror("vertex %d has no adjacent elements", i);
                 nexit("error: vertex has no adjacent elements");
             }
-            for (uint8_t j = 0; j < adjelems_count[i]; j++) {
+            for (uint32_t j = 0; j < adjelems_ids[i].size(); j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 Elem myelem = data.trianglelist[adjelems_ids[i][j]];
@@ -96,26 +95,24 @@ namespace nikfemm {
 
         auto start = std::chrono::high_resolution_clock::now();
 
-        auto adjelems_ids = std::vector<std::array<uint32_t, 18>>(data.numberofpoints);
-        auto adjelems_props = std::vector<std::array<const CurrentDensityProp*, 18>>(data.numberofpoints);
-        auto adjelems_count = std::vector<uint8_t>(data.numberofpoints, 0);
+        auto adjelems_ids = std::vector<std::vector<uint32_t>>(data.numberofpoints);
+        auto adjelems_props = std::vector<std::vector<const CurrentDensityProp*>>(data.numberofpoints);
 
         for (uint32_t i = 0; i < data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = data.trianglelist[i][j];
-                adjelems_ids[myid][adjelems_count[myid]] = i;
-                adjelems_props[myid][adjelems_count[myid]++] = drawing.getRegionPtrFromId(data.triangleattributelist[i]);
+                adjelems_ids[myid].push_back(i);
+                adjelems_props[myid].push_back(drawing.getRegionPtrFromId(data.triangleattributelist[i]));
             }
         }
 
-        auto adjverts_ids = std::vector<std::array<uint32_t, 18>>(data.numberofpoints);
-        auto adjverts_count = std::vector<uint8_t>(data.numberofpoints, 0);
+        auto adjverts_ids = std::vector<std::vector<uint32_t>>(data.numberofpoints);
 
         for (uint32_t i = 0; i < data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = data.trianglelist[i][j];
-                adjverts_ids[myid][adjverts_count[myid]++] = data.trianglelist[i][(j + 1) % 3];
-                adjverts_ids[myid][adjverts_count[myid]++] = data.trianglelist[i][(j + 2) % 3];
+                adjverts_ids[myid].push_back(data.trianglelist[i][(j + 1) % 3]);
+                adjverts_ids[myid].push_back(data.trianglelist[i][(j + 2) % 3]);
             }
         }
 
@@ -125,7 +122,7 @@ namespace nikfemm {
             // to do this we iterate over all adjacent vertices and for each we try to find the two adjacent triangles
             // the two adjacent triangles are the ones that both contain the current vertex and the adjacent vertex
             double sum = 0;
-            for (uint8_t j = 0; j < adjverts_count[i]; j++) {
+            for (uint32_t j = 0; j < adjverts_ids[i].size(); j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 v2 = adjverts_ids[i][j];
@@ -133,7 +130,7 @@ namespace nikfemm {
                 // find the two triangles that contain the current vertex and the adjacent vertex
                 uint32_t t1 = 0, t2 = 0;
                 bool found_t1 = false, found_t2 = false;
-                for (uint8_t k = 0; k < adjelems_count[i]; k++) {
+                for (uint32_t k = 0; k < adjelems_ids[i].size(); k++) {
                     if (data.trianglelist[adjelems_ids[i][k]][0] == v1 || data.trianglelist[adjelems_ids[i][k]][1] == v1 || data.trianglelist[adjelems_ids[i][k]][2] == v1) {
                         if (data.trianglelist[adjelems_ids[i][k]][0] == v2 || data.trianglelist[adjelems_ids[i][k]][1] == v2 || data.trianglelist[adjelems_ids[i][k]][2] == v2) {
                             if (!found_t1) {
-- 
2.43.0


From f5e9d0eb207598a847bcef0982662b6580196681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:54 +0000
Subject: [PATCH 12/13] fix: magnetostatic assembly no longer overruns its
 18-slot adjacency arrays at nodes shared by more triangles

---
 lib/nikfemm/src/magnetostatic/mesh.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/mesh.cpp b/lib/nikfemm/src/magnetostatic/mesh.cpp
index fab0110..3720883 100644
--- a/lib/nikfemm/src/magnetostatic/mesh.cpp
+++ b/lib/nikfemm/src/magnetostatic/mesh.cpp
@@ -12,21 +12,20 @@ namespace nikfemm {
         auto start = std::chrono::high_resolution_clock::now();
 
         // COMPUTE FEM WEIGHTS
-        auto adjelems_ids = std::vector<std::array<uint32_t, 18>>(data.numberofpoints);
-        auto adjelems_props = std::vector<std::array<const MagnetostaticProp*, 18>>(data.numberofpoints);
-        auto adjelems_count = std::vector<uint8_t>(data.numberofpoints, 0);
+        auto adjelems_ids = std::vector<std::vector<uint32_t>>(data.numberofpoints);
+        auto adjelems_props = std::vector<std::vector<const MagnetostaticProp*>>(data.numberofpoints);
 
         for (uint32_t i = 0; i < data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = data.trianglelist[i][j];
-                adjelems_ids[myid][adjelems_count[myid]] = i;
-                adjelems_props[myid][adjelems_count[myid]++] = drawing.getRegionPtrFromId(data.triangleattributelist[i]);
+                adjelems_ids[myid].push_back(i);
+                adjelems_props[myid].push_back(drawing.getRegionPtrFromId(data.triangleattributelist[i]));
             }
         }
 
         // surface integral
         for (uint32_t i = 0; i < data.numberofpoints; i++) {
-            for (uint8_t j = 0; j < adjelems_count[i]; j++) {
+            for (uint32_t j = 0; j < adjelems_ids[i].size(); j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 Elem myelem = data.trianglelist[adjelems_ids[i][j]];
-- 
2.43.0


From 80d8a5b223b36db82a4ee00ce05059fa0043744f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:08 +0000
Subject: [PATCH 13/13] fix: interconnections were stamped with twice their
 conductance and parallel ones overwrote each other

---
 .../current_density/multilayer_simulation.cpp   | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/nikfemm/src/current_density/multilayer_simulation.cpp b/lib/nikfemm/src/current_density/multilayer_simulation.cpp
index f76d258..b9914fe 100644
--- a/lib/nikfemm/src/current_density/multilayer_simulation.cpp
+++ b/lib/nikfemm/src/current_density/multilayer_simulation.cpp
@@ -221,15 +221,20 @@ namespace nikfemm {
             uint64_t m2 = interconnection.node2_id + offsets[interconnection.mesh2_id];
             double R = interconnection.R;
 
+            // an interconnection between a node and itself carries no current
+            if (m1 == m2) {
+                continue;
+            }
+
             // 1.
-            merged_system.A(m1, m1) += 2/R;
-            merged_system.A(m2, m2) += 2/R;
+            merged_system.A(m1, m1) += 1/R;
+            merged_system.A(m2, m2) += 1/R;
 
-            // 2.
-            if (m1 >= m2) {
-                merged_system.A(m2, m1) = -2/R;
+            // 2. parallel interconnections add up
+            if (m1 > m2) {
+                merged_system.A(m2, m1) -= 1/R;
             } else {
-                merged_system.A(m1, m2) = -2/R;
+                merged_system.A(m1, m2) -= 1/R;
             }
         }
 
-- 
2.43.0

