From a80219bee1a364aa74e990356608b9ca6c471369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 001/117] fix: distance between almost identical or antipodal
 locations is never undefined

---
 src/api/kdtree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/kdtree.cpp b/src/api/kdtree.cpp
index fe287f8..42f343c 100644
--- a/src/api/kdtree.cpp
+++ b/src/api/kdtree.cpp
@@ -127,6 +127,8 @@ float gridpp::KDTree::calc_distance(float lat1, float lon1, float lat2, float lo
         double ratio = cos(lat1r)*cos(lon1r)*cos(lat2r)*cos(lon2r)
                        + cos(lat1r)*sin(lon1r)*cos(lat2r)*sin(lon2r)
                        + sin(lat1r)*sin(lat2r);
+        // Rounding can bring the ratio outside the domain of acos for (almost) identical or antipodal points
+        ratio = std::max(-1.0, std::min(1.0, ratio));
         double dist = acos(ratio)*radiusEarth;
         return (float) dist;
     }
-- 
2.43.0


From 7bfc2ac785f12bfce86c0339b0cc0b33c61dd178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 002/117] fix: subsets of points keep the coordinate type

---
 src/api/points.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/points.cpp b/src/api/points.cpp
index 711018a..1177feb 100644
--- a/src/api/points.cpp
+++ b/src/api/points.cpp
@@ -104,7 +104,7 @@ gridpp::Points gridpp::Points::get_in_domain(const gridpp::Grid& grid) const {
         elevs.push_back(mElevs[indices[s]]);
         lafs.push_back(mLafs[indices[s]]);
     }
-    const gridpp::Points new_points(lats, lons, elevs, lafs);
+    const gridpp::Points new_points(lats, lons, elevs, lafs, get_coordinate_type());
     return new_points;
 }
 gridpp::Points& gridpp::Points::operator=(gridpp::Points other) {
@@ -146,5 +146,5 @@ gridpp::Points gridpp::Points::subset(const ivec& indices) const {
         elevs[i] = mElevs[index];
         lafs[i] = mLafs[index];
     }
-    return gridpp::Points(lats, lons, elevs, lafs);
+    return gridpp::Points(lats, lons, elevs, lafs, get_coordinate_type());
 }
-- 
2.43.0


From a5484dc9ffd73228d720b072ebb9d20780a67794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 003/117] fix: Points::subset refuses negative indices

---
 src/api/points.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/points.cpp b/src/api/points.cpp
index 1177feb..4731704 100644
--- a/src/api/points.cpp
+++ b/src/api/points.cpp
@@ -136,9 +136,9 @@ gridpp::Points gridpp::Points::subset(const ivec& indices) const {
     vec lafs(N);
     for(int i = 0; i < N; i++) {
         int index = indices[i];
-        if(index >= mLats.size()) {
+        if(index < 0 || index >= mLats.size()) {
             std::stringstream ss;
-            ss << "Index " << index << " exceeds number of points " << mLats.size();
+            ss << "Index " << index << " is outside the range of the " << mLats.size() << " points";
             throw std::invalid_argument(ss.str());
         }
         lats[i] = mLats[index];
-- 
2.43.0


From bd5019ed3aebeef310c0b1b1e9e6d0cdd510af2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 004/117] fix: Cartesian points use the same x and y as grids
 and point sets

---
 src/api/point.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/point.cpp b/src/api/point.cpp
index c632690..35bbd0b 100644
--- a/src/api/point.cpp
+++ b/src/api/point.cpp
@@ -16,8 +16,8 @@ gridpp::Point::Point(float lat, float lon, float elev, float laf, CoordinateType
         gridpp::convert_coordinates(lat, lon, type, this->x, this->y, this->z);
     }
     else {
-        this->x = lat;
-        this->y = lon;
+        this->x = lon;
+        this->y = lat;
         this->z = 0;
     }
 }
-- 
2.43.0


From d74a7ad469c897c5462e9dcdb5ec1e165ff265b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 005/117] fix: box lookup works for Cartesian grids

---
 src/api/grid.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/api/grid.cpp b/src/api/grid.cpp
index 58b0185..d4db501 100644
--- a/src/api/grid.cpp
+++ b/src/api/grid.cpp
@@ -194,11 +194,12 @@ bool gridpp::Grid::get_box(float lat, float lon, int& Y1, int& X1, int& Y2, int&
         else if(X == nX - 1 && xdir == 1)
             continue;
         // std::cout << "Iteration " << it << " " << ydir << " " << xdir << std::endl;
-        Point A(mLats[Y][X], mLons[Y][X]);
-        Point B(mLats[Y + ydir][X], mLons[Y + ydir][X]);
-        Point C(mLats[Y + ydir][X + xdir], mLons[Y + ydir][X + xdir]);
-        Point D(mLats[Y][X + xdir], mLons[Y][X + xdir]);
-        Point curr(lat, lon);
+        CoordinateType type = get_coordinate_type();
+        Point A(mLats[Y][X], mLons[Y][X], MV, MV, type);
+        Point B(mLats[Y + ydir][X], mLons[Y + ydir][X], MV, MV, type);
+        Point C(mLats[Y + ydir][X + xdir], mLons[Y + ydir][X + xdir], MV, MV, type);
+        Point D(mLats[Y][X + xdir], mLons[Y][X + xdir], MV, MV, type);
+        Point curr(lat, lon, MV, MV, type);
         // std::cout << A.lat << "," << B.lat << "," << C.lat << "," << D.lat << "," << curr.lat << std::endl;
         // std::cout << A.lon << "," << B.lon << "," << C.lon << "," << D.lon << "," << curr.lon << std::endl;
         bool inrectangle = point_in_rectangle(A, B, C, D, curr);
-- 
2.43.0


From 0b29051035ff87b9e0815eb8146b5e46d7fe5070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 006/117] fix: points created from a tree have metadata for
 every point

---
 src/api/points.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/api/points.cpp b/src/api/points.cpp
index 4731704..bae6059 100644
--- a/src/api/points.cpp
+++ b/src/api/points.cpp
@@ -35,6 +35,15 @@ gridpp::Points::Points(KDTree tree, vec elevs, vec lafs) {
     mTree = tree;
     mLats = tree.get_lats();
     mLons = tree.get_lons();
+    int N = mLats.size();
+    if(mElevs.size() == 0)
+        mElevs.resize(N, gridpp::MV);
+    if(mLafs.size() == 0)
+        mLafs.resize(N, gridpp::MV);
+    if(mElevs.size() != N)
+        throw std::invalid_argument("'elevs' must either be size 0 or the same size at lats/lons");
+    if(mLafs.size() != N)
+        throw std::invalid_argument("'lafs' must either be size 0 or the same size at lats/lons");
 }
 
 int gridpp::Points::get_num_neighbours(float lat, float lon, float radius, bool include_match) const {
-- 
2.43.0


From 0b18bdadcc07482266edf94164ddde428c8f7998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 007/117] fix: copies of Cartesian point sets stay Cartesian

---
 src/api/points.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/points.cpp b/src/api/points.cpp
index bae6059..83ac7c8 100644
--- a/src/api/points.cpp
+++ b/src/api/points.cpp
@@ -129,7 +129,7 @@ gridpp::Points::Points(const gridpp::Points& other) {
     mLons = other.mLons;
     mElevs = other.mElevs;
     mLafs = other.mLafs;
-    mTree = KDTree(mLats, mLons, mTree.get_coordinate_type());
+    mTree = KDTree(mLats, mLons, other.mTree.get_coordinate_type());
 }
 CoordinateType gridpp::Points::get_coordinate_type() const {
     return mTree.get_coordinate_type();
-- 
2.43.0


From fb81e287a1425dbd48f98f96ac026c5d4b441223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 008/117] fix: bilinear interpolation in rotated and distorted
 grid cells

---
 src/api/bilinear.cpp | 146 ++++++++++---------------------------------
 1 file changed, 33 insertions(+), 113 deletions(-)

diff --git a/src/api/bilinear.cpp b/src/api/bilinear.cpp
index 6dc9202..36b924b 100644
--- a/src/api/bilinear.cpp
+++ b/src/api/bilinear.cpp
@@ -19,8 +19,6 @@ namespace {
     // Compute s,t when the points form a parallelogram
     bool calcParallelogram(float x, float y, float X1, float X2, float X3, float X4, float Y1, float Y2, float Y3, float Y4, float &t, float &s);
 
-    // Check that value is within -tol and 1+tol
-    bool is_within_range(float value);
     // Compute s,t when the points do not form a parallelogram
     bool calcGeneral(float x, float y, float x0, float x1, float x2, float x3, float y0, float y1, float y2, float y3, float &t, float &s);
 }
@@ -152,120 +150,41 @@ namespace {
         t = det * ((x - X1) * (-C) + (y - Y1) * (A));
         return true;
     }
-    bool is_within_range(float value) {
-        float tol = 0.01;
-        return value >= -tol && value < 1 + tol;
-    }
-
     bool calcGeneral(float x, float y, float x0, float x1, float x2, float x3, float y0, float y1, float y2, float y3, float &t, float &s) {
         // std::cout << "Method general" << std::endl;
-        double a = -x0 + x2;
-        double b = -x0 + x1;
-        double c = x0 - x1 - x2 + x3;
-        double d = x - x0;
-        double e = -y0 + y2;
-        double f = -y0 + y1;
-        double g = y0 - y1 - y2 + y3;
-        double h = y - y0;
-        double alpha=gridpp::MV, beta=gridpp::MV;
-        double Y1 = y1;
-        double Y2 = y3;
-        double Y3 = y0;
-        double Y4 = y2;
-        double X1 = x1;
-        double X2 = x3;
-        double X3 = x0;
-        double X4 = x2;
-        double X31 = X3 - X1;
-        double X21 = X2 - X1;
-        double Y42 = Y4 - Y2;
-        double Y21 = Y2 - Y1;
-        double Y31 = Y3 - Y1;
-        double Y43 = Y4 - Y3;
-        double X42 = X4 - X2;
-        double X43 = X4 - X3;
-        double tol = 0.001;
-        /*
-        std::cout << "a " << a << std::endl;
-        std::cout << "b " << b << std::endl;
-        std::cout << "c " << c << std::endl;
-        std::cout << "d " << d << std::endl;
-        std::cout << "e " << e << std::endl;
-        std::cout << "f " << f << std::endl;
-        std::cout << "g " << g << std::endl;
-        std::cout << "h " << h << std::endl;
-  */
-        if(2 * c * e - 2 * a * g != 0 && 2 * c * f - 2 * b * g != 0) {
-            // Quadratic equation has two solutions
-            alpha = -(b * e - a * f + d * g - c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h, 2)))/(2 * c * e - 2 * a * g);
-            beta  = (b * e - a * f - d * g + c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)))/(2 * c * f - 2 * b * g);
-            /*
-            std::cout << "alpha " << alpha << " beta " << beta << std::endl;
-            std::cout << "sqrt " << sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)) << std::endl;
-            std::cout << "first part " << b * e - a * f + d * g - c * h << std::endl;
-            std::cout << "second part " << b * e - a * f - d * g + c * h << std::endl;
-            */
-            if(!is_within_range(alpha))
-                alpha = -(b * e - a * f + d * g - c * h - sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h, 2)))/(2 * c * e - 2 * a * g);
-            if(!is_within_range(beta))
-                beta  = (b * e - a * f - d * g + c * h - sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)))/(2 * c * f - 2 * b * g);
-            if(!is_within_range(alpha) || !is_within_range(beta)) {
-            }
-            /*
-            std::cout << std::setprecision(10) << "alpha " << alpha << " beta " << beta << std::endl;
-            std::cout << std::setprecision(10) << x << std::endl;
-            std::cout << std::setprecision(10) << y << std::endl;
-            std::cout << std::setprecision(10) << x0 << std::endl;
-            std::cout << std::setprecision(10) << x1 << std::endl;
-            std::cout << std::setprecision(10) << x2 << std::endl;
-            std::cout << std::setprecision(10) << x3 << std::endl;
-            std::cout << std::setprecision(10) << y0 << std::endl;
-            std::cout << std::setprecision(10) << y1 << std::endl;
-            std::cout << std::setprecision(10) << y2 << std::endl;
-            std::cout << std::setprecision(10) << y3 << std::endl;
-  */
-            assert(is_within_range(alpha));
-            assert(is_within_range(beta));
-        }
-        else if(2 * c * f - 2 * b * g == 0) {
-            // std::cout << "Need to diagnose t" << std::endl;
-            alpha = -(b * e - a * f + d * g - c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h, 2)))/(2 * c * e - 2 * a * g);
-            if(!is_within_range(alpha))
-                alpha = -(b * e - a * f + d * g - c * h - sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h, 2)))/(2 * c * e - 2 * a * g);
-            float s = alpha;
-            float t;
-            if(Y3 + Y43 * s - Y1 - Y21 * s == 0) {
-                assert(X3 + X43 * s - X1 - X21 * s != 0);
-                t = (x - X1 - X21 * s) / (X3 + X43 * s - X1 - X21 * s);
-            }
-            else {
-                t = (y - Y1 - Y21 * s) / (Y3 + Y43 * s - Y1 - Y21 * s);
-            }
-            beta = 1 - t;
-            assert(is_within_range(alpha));
-            assert(is_within_range(beta));
-        }
-        else if(2 * c * e - 2 * a * g == 0) {
-            // std::cout << "Need to diagnose s" << std::endl;
-            beta  = (b * e - a * f - d * g + c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)))/(2 * c * f - 2 * b * g);
-            if(!is_within_range(beta))
-                beta  = (b * e - a * f - d * g + c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)))/(2 * c * f - 2 * b * g);
-            float t =  1 - beta;
-            float s;
-            if(Y2 + Y42 * t - Y1 - Y31 * t == 0) {
-                assert(X2 + X42 * t - X1 - X31 * t != 0);
-                s = (x - X1 - X31 * t) / (X2 + X42 * t - X1 - X31 * t);
-            }
-            else {
-                s = (y - Y1 - Y31 * t) / (Y2 + Y42 * t - Y1 - Y31 * t);
+        // Solve p = p0 + alpha * e + beta * f + alpha * beta * g for alpha and beta, where h = p - p0
+        double ex = (double) x2 - x0, ey = (double) y2 - y0;
+        double fx = (double) x1 - x0, fy = (double) y1 - y0;
+        double gx = (double) x0 - x1 - x2 + x3, gy = (double) y0 - y1 - y2 + y3;
+        double hx = (double) x - x0, hy = (double) y - y0;
+
+        // Eliminating alpha gives the quadratic equation k2 * beta^2 + k1 * beta + k0 = 0. Avoid subtracting
+        // numbers of similar size when computing its roots, since k2 is very small when the cell is almost a
+        // parallelogram.
+        double k2 = gx * fy - gy * fx;
+        double k1 = ex * fy - ey * fx + hx * gy - hy * gx;
+        double k0 = hx * ey - hy * ex;
+        double disc = std::max(0.0, k1 * k1 - 4 * k0 * k2);
+        double q = -0.5 * (k1 + (k1 < 0 ? -sqrt(disc) : sqrt(disc)));
+        double alpha = gridpp::MV, beta = gridpp::MV;
+        double roots[2] = {k0 / q, q / k2};
+        // Use the root that is inside the cell, or the one closest to it
+        double min_excess = 0.01;
+        for(int i = 0; i < 2; i++) {
+            double curr_beta = roots[i];
+            double dx = ex + curr_beta * gx;
+            double dy = ey + curr_beta * gy;
+            double curr_alpha = fabs(dx) > fabs(dy) ? (hx - curr_beta * fx) / dx : (hy - curr_beta * fy) / dy;
+            double excess = std::max(fabs(curr_alpha - 0.5), fabs(curr_beta - 0.5)) - 0.5;
+            if(excess < min_excess) {
+                min_excess = std::max(0.0, excess);
+                alpha = curr_alpha;
+                beta = curr_beta;
             }
-            alpha = s;
-            assert(is_within_range(alpha));
-            assert(is_within_range(beta));
         }
         s = alpha;
         t = 1 - beta;
-        return true;
+        return gridpp::is_valid(s) && gridpp::is_valid(t);
     }
     float bilinear(float x, float y, float x0, float x1, float x2, float x3, float y0, float y1, float y2, float y3, float v0, float v1, float v2, float v3) {
        float Y1 = y1;
@@ -286,9 +205,10 @@ namespace {
 
        float s = gridpp::MV, t = gridpp::MV;
        bool rectangularGrid = (X1 == X3 && X2 == X4 && Y1 == Y2 && Y3 == Y4);
-       // TODO: Why are the tolerances so high?
-       bool verticalParallel = fabs((X3 - X1)*(Y4 - Y2) - (X4 - X2)*(Y3 - Y1)) <= 1e-4;
-       bool horizontalParallel = fabs((X2 - X1)*(Y4 - Y3) - (X4 - X3)*(Y2 - Y1)) <= 1e-4;
+       // The tolerance is relative to the size of the grid cell
+       float tol = 1e-4 * fabs((X2 - X1)*(Y3 - Y1) - (X3 - X1)*(Y2 - Y1));
+       bool verticalParallel = fabs((X3 - X1)*(Y4 - Y2) - (X4 - X2)*(Y3 - Y1)) <= tol;
+       bool horizontalParallel = fabs((X2 - X1)*(Y4 - Y3) - (X4 - X3)*(Y2 - Y1)) <= tol;
 
        // std::cout << rectangularGrid << " " << fabs((X3 - X1)*(Y4 - Y2) - (X4 - X2)*(Y3 - Y1)) << " " << fabs((X2 - X1)*(Y4 - Y3) - (X4 - X3)*(Y2 - Y1)) << std::endl;
 
-- 
2.43.0


From f0a6b910852add20ac2d7cb53918984e6fe6073a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 009/117] fix: full_gradient_debug without elevation or
 land-fraction gradient

---
 src/api/gradient.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/gradient.cpp b/src/api/gradient.cpp
index e66c138..34065c0 100644
--- a/src/api/gradient.cpp
+++ b/src/api/gradient.cpp
@@ -321,9 +321,9 @@ vec3 gridpp::full_gradient_debug(const Grid& igrid, const Grid& ogrid, const vec
         for(int x = 0; x < nX; x++){
             //Collect output and input LAF and elevations
             float olaf = olafs[y][x];
-            float ilaf = dlafs[y][x];
+            float ilaf = dlafs.size() > 0 ? dlafs[y][x] : gridpp::MV;
             float oelev = oelevs[y][x];
-            float ielev = delevs[y][x];
+            float ielev = delevs.size() > 0 ? delevs[y][x] : gridpp::MV;
 
             //Calculate LAF and elevation difference between output and input
             float laf_diff = olaf - ilaf;
-- 
2.43.0


From 23f62e2d98d7b8b9ddb5b81cc082e89dc0c79527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 010/117] fix: quantile level is private to each thread in
 neighbourhood_quantile_fast

---
 src/api/neighbourhood.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index 4d61131..75a1118 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -362,11 +362,10 @@ vec2 gridpp::neighbourhood_quantile_fast(const vec2& input, const vec2& quantile
     if(is_fixed_quantile)
         fixed_quantile = quantile[0][0];
 
-    float curr_quantile = gridpp::MV;
-
     #pragma omp parallel for
     for(int y = 0; y < nY; y++) {
         for(int x = 0; x < nX; x++) {
+            float curr_quantile = gridpp::MV;
             if(is_fixed_quantile)
                 curr_quantile = fixed_quantile;
             else
@@ -478,11 +477,10 @@ vec2 gridpp::neighbourhood_quantile_fast(const vec3& input, const vec2& quantile
     if(is_fixed_quantile)
         fixed_quantile = quantile[0][0];
 
-    float curr_quantile = gridpp::MV;
-
     #pragma omp parallel for
     for(int y = 0; y < nY; y++) {
         for(int x = 0; x < nX; x++) {
+            float curr_quantile = gridpp::MV;
             if(is_fixed_quantile)
                 curr_quantile = fixed_quantile;
             else
-- 
2.43.0


From dfb15812f070181fce37abf6f45340b1972b67b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 011/117] fix: neighbourhood standard deviation and variance of
 fields with a large mean

---
 src/api/neighbourhood.cpp | 43 +++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index 75a1118..500b2fe 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -209,27 +209,40 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
         }
     }
     else if(statistic == gridpp::Std || statistic == gridpp::Variance) {
-        vec2 mean = gridpp::neighbourhood(input, halfwidth, gridpp::Mean);
-        vec2 input2(nY);
+        // VAR(X) = VAR(X-K). Use the mean of the field as K to avoid losing precision when the variance is
+        // small compared to the mean (see calc_statistic)
+        double total = 0;
+        int count = 0;
         for(int y = 0; y < nY; y++) {
-            input2[y].resize(input[y].size(), 0);
             for(int x = 0; x < nX; x++) {
-                input2[y][x] = input[y][x] * input[y][x];
+                if(gridpp::is_valid(input[y][x])) {
+                    total += input[y][x];
+                    count++;
+                }
             }
         }
-        vec2 mean2 = gridpp::neighbourhood(input2, halfwidth, gridpp::Mean);
-        if(statistic == gridpp::Std) {
-            for(int y = 0; y < nY; y++) {
-                for(int x = 0; x < nX; x++) {
-                    output[y][x] = sqrt(mean2[y][x] - mean[y][x] * mean[y][x]);
-                }
+        float K = count > 0 ? total / count : 0;
+        vec2 input1(nY);
+        vec2 input2(nY);
+        for(int y = 0; y < nY; y++) {
+            input1[y].resize(nX, 0);
+            input2[y].resize(nX, 0);
+            for(int x = 0; x < nX; x++) {
+                input1[y][x] = input[y][x] - K;
+                input2[y][x] = input1[y][x] * input1[y][x];
             }
         }
-        else {
-            for(int y = 0; y < nY; y++) {
-                for(int x = 0; x < nX; x++) {
-                    output[y][x] = mean2[y][x] - mean[y][x] * mean[y][x];
-                }
+        vec2 mean = gridpp::neighbourhood(input1, halfwidth, gridpp::Mean);
+        vec2 mean2 = gridpp::neighbourhood(input2, halfwidth, gridpp::Mean);
+        for(int y = 0; y < nY; y++) {
+            for(int x = 0; x < nX; x++) {
+                if(!gridpp::is_valid(mean[y][x]))
+                    continue;
+                float variance = mean2[y][x] - mean[y][x] * mean[y][x];
+                // Rounding can make the variance slightly negative
+                if(variance < 0)
+                    variance = 0;
+                output[y][x] = statistic == gridpp::Std ? sqrt(variance) : variance;
             }
         }
     }
-- 
2.43.0


From a475f705f58787dea426e3366c342b0ad3fba89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 012/117] fix: ensemble neighbourhood statistics use all
 members in the window

---
 src/api/neighbourhood.cpp | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index 500b2fe..2e58823 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -10,20 +10,46 @@ namespace {
     vec3 vec2_to_vec3(const vec2& input);
 }
 vec2 gridpp::neighbourhood(const vec3& input, int halfwidth, gridpp::Statistic statistic) {
+    if(halfwidth < 0)
+        throw std::invalid_argument("Half width must be > 0");
+    if(statistic == gridpp::Quantile)
+        throw std::invalid_argument("Use neighbourhood_quantile for computing neighbourhood quantiles");
+    if(input.size() == 0 || input[0].size() == 0 || input[0][0].size() == 0)
+        return vec2();
     vec2 flat(input.size());
     int Y = input.size();
     int X = input[0].size();
-    int E = input[0][0].size();
     for(int y = 0; y < Y; y++) {
         flat[y].resize(X, 0);
     }
+    bool is_separable = statistic == gridpp::Sum || statistic == gridpp::Min || statistic == gridpp::Max;
+    if(is_separable) {
+        for(int y = 0; y < Y; y++) {
+            for(int x = 0; x < X; x++) {
+                flat[y][x] = gridpp::calc_statistic(input[y][x], statistic);
+            }
+        }
+        return neighbourhood(flat, halfwidth, statistic);
+    }
+    if(statistic != gridpp::Mean && statistic != gridpp::Count)
+        return gridpp::neighbourhood_brute_force(input, halfwidth, statistic);
+
+    // The number of valid members can vary from gridpoint to gridpoint
     for(int y = 0; y < Y; y++) {
         for(int x = 0; x < X; x++) {
-            flat[y][x] = gridpp::calc_statistic(input[y][x], statistic);
+            flat[y][x] = gridpp::calc_statistic(input[y][x], gridpp::Count);
         }
     }
-    vec2 results = neighbourhood(flat, halfwidth, statistic);
-    return results;
+    vec2 output = neighbourhood(flat, halfwidth, gridpp::Sum);
+    if(statistic == gridpp::Mean) {
+        vec2 sums = gridpp::neighbourhood(input, halfwidth, gridpp::Sum);
+        for(int y = 0; y < Y; y++) {
+            for(int x = 0; x < X; x++) {
+                output[y][x] = gridpp::is_valid(sums[y][x]) ? sums[y][x] / output[y][x] : gridpp::MV;
+            }
+        }
+    }
+    return output;
 }
 vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic statistic) {
     if(halfwidth < 0)
-- 
2.43.0


From 44bf1f9dcab7d84cb67e2714e81c5282fbe1a54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 013/117] fix: window does not read in front of the array for
 windows that start at the first element

---
 src/api/window.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/api/window.cpp b/src/api/window.cpp
index d72305f..def9894 100644
--- a/src/api/window.cpp
+++ b/src/api/window.cpp
@@ -68,6 +68,7 @@ vec2 gridpp::window(const vec2& array,
                     end = std::min(nX - 1, x + length / 2);
                 }
 
+                float count_before = start > 0 ? counts[start - 1] : 0;
                 if(start - 1 >= 0) {
                     if(counts[end] - counts[start-1] != 0) {
                         output[y][x] = values[end] - values[start - 1];
@@ -80,16 +81,16 @@ vec2 gridpp::window(const vec2& array,
                 }
 
                 if(statistic == gridpp::Count) {
-                    output[y][x] = counts[end] - counts[start - 1];
+                    output[y][x] = counts[end] - count_before;
                 }
                 else {
                     if(statistic == gridpp::Mean) {
                         if(counts[end] != 0) {
-                            output[y][x] = output[y][x] / (counts[end] - counts[start-1]);
+                            output[y][x] = output[y][x] / (counts[end] - count_before);
                         }
                     }
                     if(keep_missing) {
-                        if(counts[end] - counts[start - 1] < (end - (start - 1 ))) {
+                        if(counts[end] - count_before < (end - (start - 1 ))) {
                             output[y][x] = gridpp::MV;
                         }
                     }
-- 
2.43.0


From 7a201698cc5dc78118ffd1506c15a5b0e003542f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 014/117] fix: window sums and means do not lose precision with
 the length of the array

---
 src/api/window.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/api/window.cpp b/src/api/window.cpp
index def9894..bd8fa88 100644
--- a/src/api/window.cpp
+++ b/src/api/window.cpp
@@ -31,7 +31,8 @@ vec2 gridpp::window(const vec2& array,
     for(int y = 0; y < array.size(); y++) {
         // Use the accumulation/deaccumulation trick for Mean and Sum
         if (statistic == gridpp::Mean || statistic == gridpp::Sum || statistic == gridpp::Count) {
-            vec values = vec(array[y].size(), 0);
+            // Accumulated values can be much larger than each value
+            dvec values = dvec(array[y].size(), 0);
             vec counts = vec(array[y].size(), 0);
 
             for(int x = 0; x < array[y].size(); x++) {
-- 
2.43.0


From 5012acda1707bfff6bbd8552e3c6249eef86b029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 015/117] fix: threads share the work when gridding to points

---
 src/api/gridding.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/gridding.cpp b/src/api/gridding.cpp
index e7692c1..79d23c4 100644
--- a/src/api/gridding.cpp
+++ b/src/api/gridding.cpp
@@ -46,7 +46,7 @@ vec gridpp::gridding(const Points& opoints, const Points& ipoints, const vec& va
     vec lons = opoints.get_lons();
     vec output(N, gridpp::MV);
 
-    #pragma omp parallel
+    #pragma omp parallel for
     for(int n = 0; n < N; n++) {
         ivec I = ipoints.get_neighbours(lats[n], lons[n], radius);
         if(min_num <= 0 || I.size() >= min_num) {
@@ -120,7 +120,7 @@ vec gridpp::gridding_nearest(const Points& opoints, const Points& ipoints, const
 
     vec output(N, gridpp::MV);
 
-    #pragma omp parallel
+    #pragma omp parallel for
     for(int n = 0; n < N; n++) {
         if(temp[n].size() > 0) {
             if(min_num <= 0 || temp[n].size() >= min_num)
-- 
2.43.0


From 2f0d1f07776f30ee6e45ab7a2bbfd8df773f0c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 016/117] fix: SOAR, TOAR and Cressman correlations for
 negative elevation and land differences

---
 src/api/structure.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/api/structure.cpp b/src/api/structure.cpp
index 6d05272..12af04c 100644
--- a/src/api/structure.cpp
+++ b/src/api/structure.cpp
@@ -38,6 +38,7 @@ float gridpp::StructureFunction::cressman_rho(float dist, float length) const {
         return 1;
     if(!gridpp::is_valid(dist))
         return 0;
+    dist = std::fabs(dist);
     if(dist >= length)
         return 0;
     return (length * length - dist * dist) / (length * length + dist * dist);
@@ -49,7 +50,7 @@ float gridpp::StructureFunction::soar_rho(float dist, float length) const {
         return 1;
     if(!gridpp::is_valid(dist))
         return 0;
-    float v = dist / length;
+    float v = std::fabs(dist) / length;
     return (1 + v) * exp(-v);
 }
 /* third order autoregressive function */
@@ -59,7 +60,7 @@ float gridpp::StructureFunction::toar_rho(float dist, float length) const {
         return 1;
     if(!gridpp::is_valid(dist))
         return 0;
-    float v = dist / length;
+    float v = std::fabs(dist) / length;
     return (1 + v + (v * v) / 3) * exp(-v);
 }
 /* powerlaw function */
-- 
2.43.0


From 63d2d4d0b10d9c930734a854191f571dd1c64903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:52 +0000
Subject: [PATCH 017/117] fix: SOAR and TOAR are truncated at the requested
 distance

---
 src/api/structure.cpp | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/api/structure.cpp b/src/api/structure.cpp
index 12af04c..5674cf5 100644
--- a/src/api/structure.cpp
+++ b/src/api/structure.cpp
@@ -453,10 +453,17 @@ float gridpp::SoarStructure::localization_distance(const Point& p) const {
     }
 }
 float gridpp::SoarStructure::localization_distance(float h) const {
-// To find an approximate analytical solution for the inverse of the function y=(1+x)exp(-x) when y is between 0 and 1, we can follow a similar approach used in approximations for transcendental functions. 
-// valid when m_min_rho is close to 0, for instance for m_min_rho=0.0013 we get 8.53
-    float log_min_rho = log(m_min_rho);
-    return ( -log_min_rho + log( -log_min_rho)) * h;
+    // Solve (1+x) * exp(-x) = m_min_rho for x using Newton's method on the logarithm, which
+    // converges from the right since the function is convex
+    double L = std::max(0.0, -log((double) m_min_rho));
+    double x = L + sqrt(2 * L);
+    for(int i = 0; i < 20 && x > 0; i++) {
+        double dx = (x - log(1 + x) - L) * (1 + x) / x;
+        x -= dx;
+        if(fabs(dx) <= 1e-6 * x)
+            break;
+    }
+    return x * h;
 }
 //-----------------------------------------------------------------------------
 /** End SOAR */
@@ -603,11 +610,18 @@ float gridpp::ToarStructure::localization_distance(const Point& p) const {
     }
 }
 float gridpp::ToarStructure::localization_distance(float h) const {
-// To find an approximate analytical solution for the inverse of the function y=(1+x+1/3*x^2)exp(-x) when y is between 0 and 1, we can follow a similar approach used in approximations for transcendental functions. 
-// valid when m_min_rho is close to 0, for instance for m_min_rho=0.0013 we get 9.487
-    float log_min_rho = log(m_min_rho);
-    float log_log_min_rho = log( -log(m_min_rho));
-    return ( -log_min_rho + log_log_min_rho + 0.5 * log_log_min_rho ) * h;
+    // Solve (1+x+x^2/3) * exp(-x) = m_min_rho for x using Newton's method on the logarithm, which
+    // converges from the right since the function is convex
+    double L = std::max(0.0, -log((double) m_min_rho));
+    double x = L + sqrt(6 * L);
+    for(int i = 0; i < 20 && x > 0; i++) {
+        double p = 1 + x + x * x / 3;
+        double dx = (x - log(p) - L) * 3 * p / (x + x * x);
+        x -= dx;
+        if(fabs(dx) <= 1e-6 * x)
+            break;
+    }
+    return x * h;
 }
 //-----------------------------------------------------------------------------
 /** End TOAR */
-- 
2.43.0


From 7755dd6b4a7a99c84078ca44489bcf7d5ae4a78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 018/117] fix: hmax without a horizontal length scale

---
 src/api/structure.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/api/structure.cpp b/src/api/structure.cpp
index 5674cf5..b6a2831 100644
--- a/src/api/structure.cpp
+++ b/src/api/structure.cpp
@@ -152,7 +152,7 @@ gridpp::BarnesStructure::BarnesStructure(float h, float v, float w, float hmax)
     if(!gridpp::is_valid(w) || w < 0)
         throw std::invalid_argument("w must be >= 0");
 
-    if(gridpp::is_valid(hmax))
+    if(gridpp::is_valid(hmax) && h > 0)
         m_min_rho = exp(pow(hmax / h, 2)/-2);
     else
         m_min_rho = default_min_rho;
@@ -326,7 +326,7 @@ gridpp::SoarStructure::SoarStructure(float h, float v, float w, float hmax) :
     if(!gridpp::is_valid(w) || w < 0)
         throw std::invalid_argument("w must be >= 0");
 
-    if(gridpp::is_valid(hmax))
+    if(gridpp::is_valid(hmax) && h > 0)
         m_min_rho = (1 + hmax / h) * exp(-hmax / h);
     else
         m_min_rho = default_min_rho;
@@ -483,7 +483,7 @@ gridpp::ToarStructure::ToarStructure(float h, float v, float w, float hmax) :
     if(!gridpp::is_valid(w) || w < 0)
         throw std::invalid_argument("w must be >= 0");
 
-    if(gridpp::is_valid(hmax))
+    if(gridpp::is_valid(hmax) && h > 0)
         m_min_rho = (1 + hmax / h + pow(hmax / h, 2)/3) * exp(-hmax / h);
     else
         m_min_rho = default_min_rho;
@@ -641,7 +641,7 @@ gridpp::PowerlawStructure::PowerlawStructure(float h, float v, float w, float hm
     if(!gridpp::is_valid(w) || w < 0)
         throw std::invalid_argument("w must be >= 0");
 
-    if(gridpp::is_valid(hmax))
+    if(gridpp::is_valid(hmax) && h > 0)
         m_min_rho = 1 / (1 + 0.5 * pow(hmax / h, 2));
     else
         m_min_rho = default_min_rho;
@@ -788,7 +788,7 @@ gridpp::LinearStructure::LinearStructure(float h, float v, float w, float hmax)
     if(!gridpp::is_valid(w) || w < 0)
         throw std::invalid_argument("w must be >= 0");
 
-    if(gridpp::is_valid(hmax))
+    if(gridpp::is_valid(hmax) && h > 0)
         m_min_rho = default_min_rho;
     else
         m_min_rho = default_min_rho;
-- 
2.43.0


From 1f1ea998d16fdea87ac6c90e1baac8bcde83dba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 019/117] fix: analysis variance of optimal interpolation
 without observations

---
 src/api/oi.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/api/oi.cpp b/src/api/oi.cpp
index ffa656c..d0c0453 100644
--- a/src/api/oi.cpp
+++ b/src/api/oi.cpp
@@ -186,8 +186,10 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
     }
     int nY = background.size();
     int nS = points.size();
-    if(nS == 0)
+    if(nS == 0) {
+        analysis_variance = bvariance;
         return background;
+    }
 
     vec pratios(nS);
     for(int s = 0; s < nS; s++) {
-- 
2.43.0


From 31182c05a36bf2979dac1e22ec7f29d664ac3f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 020/117] fix: optimal interpolation does not abort on
 coinciding perfect observations

---
 src/api/oi.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/api/oi.cpp b/src/api/oi.cpp
index d0c0453..91d059b 100644
--- a/src/api/oi.cpp
+++ b/src/api/oi.cpp
@@ -314,7 +314,11 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
                 lP(i, j) = corr[j];
             }
         }
-        mattype lGSR = lG * arma::inv(lP + lR);
+        // The matrix is singular when, for example, two perfect observations coincide
+        mattype lPRinv;
+        if(!arma::inv(lPRinv, lP + lR) && !arma::pinv(lPRinv, lP + lR))
+            continue;
+        mattype lGSR = lG * lPRinv;
         vectype dx = lGSR * (lObs - lY);
         float increment = dx[0];
         if(!allow_extrapolation) {
-- 
2.43.0


From bb6c9b4c384ea8d9177654c7b96ef7c962f8cb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 021/117] fix: no extrapolation when the largest or smallest
 innovation is zero

---
 src/api/oi.cpp            |  4 ++--
 src/api/oi_ensi.cpp       |  4 ++--
 src/api/oi_ensi_multi.cpp | 12 ++++++------
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/api/oi.cpp b/src/api/oi.cpp
index 91d059b..149758d 100644
--- a/src/api/oi.cpp
+++ b/src/api/oi.cpp
@@ -325,13 +325,13 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
             float maxInc = arma::max(lObs - lY);
             float minInc = arma::min(lObs - lY);
 
-            if(maxInc > 0 && increment > maxInc) {
+            if(maxInc >= 0 && increment > maxInc) {
                increment = maxInc;
             }
             else if(maxInc < 0 && increment > 0) {
                increment = maxInc;
             }
-            else if(minInc < 0 && increment < minInc) {
+            else if(minInc <= 0 && increment < minInc) {
                increment = minInc;
             }
             else if(minInc > 0 && increment < 0) {
diff --git a/src/api/oi_ensi.cpp b/src/api/oi_ensi.cpp
index 4766d72..07e54f8 100644
--- a/src/api/oi_ensi.cpp
+++ b/src/api/oi_ensi.cpp
@@ -534,13 +534,13 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
                 if(y == mY) {
                     std::cout << "Analysis increment: " << memberIncrement << " " << ensMean << " " << currIncrement << " " << X(e) << std::endl;
                 }
-                if(maxInc > 0 && memberIncrement > maxInc) {
+                if(maxInc >= 0 && memberIncrement > maxInc) {
                     currIncrement = maxInc + X(e);
                 }
                 else if(maxInc < 0 && memberIncrement > 0) {
                     currIncrement = 0 + X(e);
                 }
-                else if(minInc < 0 && memberIncrement < minInc) {
+                else if(minInc <= 0 && memberIncrement < minInc) {
                     currIncrement = minInc + X(e);
                 }
                 else if(minInc > 0 && memberIncrement < 0) {
diff --git a/src/api/oi_ensi_multi.cpp b/src/api/oi_ensi_multi.cpp
index 5339d4d..c82cd4e 100644
--- a/src/api/oi_ensi_multi.cpp
+++ b/src/api/oi_ensi_multi.cpp
@@ -588,14 +588,14 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
                 float increment = dx[e];
                 float maxInc = maxIncEns[e];
                 float minInc = minIncEns[e];
-                if(maxInc > 0 && increment > maxInc) {
+                if(maxInc >= 0 && increment > maxInc) {
                    increment = maxInc;
                 }
                 else if(maxInc < 0 && increment > 0) {
 /*                   increment = maxInc; */
                    increment = 0;
                 }
-                else if(minInc < 0 && increment < minInc) {
+                else if(minInc <= 0 && increment < minInc) {
                    increment = minInc;
                 }
                 else if(minInc > 0 && increment < 0) {
@@ -831,14 +831,14 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Points& bpoint
                 float increment = dx[e];
                 float maxInc = maxIncEns[e];
                 float minInc = minIncEns[e];
-                if(maxInc > 0 && increment > maxInc) {
+                if(maxInc >= 0 && increment > maxInc) {
                    increment = maxInc;
                 }
                 else if(maxInc < 0 && increment > 0) {
 /*                   increment = maxInc; */
                    increment = 0; 
                 }
-                else if(minInc < 0 && increment < minInc) {
+                else if(minInc <= 0 && increment < minInc) {
                    increment = minInc;
                 }
                 else if(minInc > 0 && increment < 0) {
@@ -1277,13 +1277,13 @@ vec2 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Points& bpoints
                 if(y == mY) {
                     std::cout << "Analysis increment: " << memberIncrement << " " << ensMean << " " << currIncrement << " " << X(e) << std::endl;
                 }
-                if(maxInc > 0 && memberIncrement > maxInc) {
+                if(maxInc >= 0 && memberIncrement > maxInc) {
                     currIncrement = maxInc + X(e);
                 }
                 else if(maxInc < 0 && memberIncrement > 0) {
                     currIncrement = 0 + X(e);
                 }
-                else if(minInc < 0 && memberIncrement < minInc) {
+                else if(minInc <= 0 && memberIncrement < minInc) {
                     currIncrement = minInc + X(e);
                 }
                 else if(minInc > 0 && memberIncrement < 0) {
-- 
2.43.0


From a199ff9f5320e0b4d8b4e6df997a5b2cfba2d0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 022/117] fix: limit ensemble increments by the innovations of
 the same member

---
 src/api/oi_ensi.cpp       | 4 ++--
 src/api/oi_ensi_multi.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/api/oi_ensi.cpp b/src/api/oi_ensi.cpp
index 07e54f8..48f6e19 100644
--- a/src/api/oi_ensi.cpp
+++ b/src/api/oi_ensi.cpp
@@ -520,8 +520,8 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
             if(!allow_extrapolation) {
                 // Don't allow a final increment that is larger than any increment
                 // at station points
-                float maxInc = arma::max(lObs - (lY[e] + lYhat));
-                float minInc = arma::min(lObs - (lY[e] + lYhat));
+                float maxInc = arma::max(lObs - (lY.col(e) + lYhat));
+                float minInc = arma::min(lObs - (lY.col(e) + lYhat));
                 if(y == mY) {
                     std::cout << "Increments: " << maxInc << " " << minInc << " " << currIncrement << std::endl;
                 }
diff --git a/src/api/oi_ensi_multi.cpp b/src/api/oi_ensi_multi.cpp
index c82cd4e..f524175 100644
--- a/src/api/oi_ensi_multi.cpp
+++ b/src/api/oi_ensi_multi.cpp
@@ -1263,8 +1263,8 @@ vec2 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Points& bpoints
             if(!allow_extrapolation) {
                 // Don't allow a final increment that is larger than any increment
                 // at station points
-                float maxInc = arma::max(lObs - (lY[e] + lYhat));
-                float minInc = arma::min(lObs - (lY[e] + lYhat));
+                float maxInc = arma::max(lObs - (lY.col(e) + lYhat));
+                float minInc = arma::min(lObs - (lY.col(e) + lYhat));
                 if(y == mY) {
                     std::cout << "Increments: " << maxInc << " " << minInc << " " << currIncrement << std::endl;
                 }
-- 
2.43.0


From 5136cfb234e7299a5cb5367704412d44753a2b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 023/117] fix: ensemble analyses with more observations than
 output points

---
 src/api/oi_ensi_multi.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/api/oi_ensi_multi.cpp b/src/api/oi_ensi_multi.cpp
index f524175..0c2957a 100644
--- a/src/api/oi_ensi_multi.cpp
+++ b/src/api/oi_ensi_multi.cpp
@@ -418,8 +418,8 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
     if(nValidEns == 0)
         return background;
 
-    // gZ_R(nY, nValidEns): used to compute ensemble-based background correlations i) between yth gridpoint and observations ii) among observations
-    vec2 gZ_R = gridpp::init_vec2(nY, nValidEns); // useful to compute dynamical correlations
+    // gZ_R(nS, nValidEns): used to compute ensemble-based background correlations i) between yth gridpoint and observations ii) among observations
+    vec2 gZ_R = gridpp::init_vec2(nS, nValidEns); // useful to compute dynamical correlations
     for(int i = 0; i < nS; i++) {
         vec pbackgroundValid_R(nValidEns);
         for(int e = 0; e < nValidEns; e++) {
@@ -953,8 +953,8 @@ vec2 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Points& bpoints
         return background;
 
     // Compute Y
-    vec2 gY = gridpp::init_vec2(nY, nValidEns);
-    vec2 gY_corr = gridpp::init_vec2(nY, nValidEns);
+    vec2 gY = gridpp::init_vec2(nS, nValidEns);
+    vec2 gY_corr = gridpp::init_vec2(nS, nValidEns);
     vec gYhat(nS);
     float const_fact = 1 / sqrt(nValidEns-1);
     for(int i = 0; i < nS; i++) {
-- 
2.43.0


From 79eb0c76d3327ca488edc9743771d262c03de06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 024/117] fix: innovations of ensembles where some members are
 missing

---
 src/api/oi_ensi_multi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/oi_ensi_multi.cpp b/src/api/oi_ensi_multi.cpp
index 0c2957a..33969a9 100644
--- a/src/api/oi_ensi_multi.cpp
+++ b/src/api/oi_ensi_multi.cpp
@@ -554,7 +554,7 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
             for(int e = 0; e < nValidEns; e++) {
                 lZ_R(i, e) = gZ_R[index][e];
                 int ei = validEns[e];
-                lInnov(i, ei) = pobs[index][ei] - pbackground[index][ei];
+                lInnov(i, e) = pobs[index][ei] - pbackground[index][ei];
             }
             // compute lLoc2D
             Point p1 = point_vec[index];
@@ -803,7 +803,7 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Points& bpoint
             // compute lInnov
             for(int e = 0; e < nValidEns; e++) {
                 int ei = validEns[e];
-                lInnov(i, ei) = pobs[index][ei] - pbackground[index][ei];
+                lInnov(i, e) = pobs[index][ei] - pbackground[index][ei];
             }
             // compute lCorr2D
             Point p1 = point_vec[index];
-- 
2.43.0


From b137c392081b8c2e3eb995ab7cef502319deffb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 025/117] fix: perturbed observations that are missing for some
 members are not used

---
 src/api/oi_ensi_multi.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/api/oi_ensi_multi.cpp b/src/api/oi_ensi_multi.cpp
index 33969a9..39eb49a 100644
--- a/src/api/oi_ensi_multi.cpp
+++ b/src/api/oi_ensi_multi.cpp
@@ -477,7 +477,11 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
         vec rhos = structure.corr_background(p1, p2); 
         for(int i = 0; i < lLocIndices0.size(); i++) {
             int index = lLocIndices0[i];
-            if(gridpp::is_valid(pobs[index][0])) {
+            // The observation must be valid for all members that are used
+            bool is_valid = true;
+            for(int e = 0; e < nValidEns; e++)
+                is_valid = is_valid && gridpp::is_valid(pobs[index][validEns[e]]);
+            if(is_valid) {
                 if(rhos[i] > 0) {
                     lRhos0.push_back(std::pair<float,int>(rhos[i], i));
                 }
@@ -742,7 +746,11 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Points& bpoint
         vec rhos = structure.corr_background(p1, p2);
         for(int i = 0; i < lLocIndices0.size(); i++) {
             int index = lLocIndices0[i];
-            if(gridpp::is_valid(pobs[index][0])) {
+            // The observation must be valid for all members that are used
+            bool is_valid = true;
+            for(int e = 0; e < nValidEns; e++)
+                is_valid = is_valid && gridpp::is_valid(pobs[index][validEns[e]]);
+            if(is_valid) {
                 if(rhos[i] > 0) {
                     lRhos0.push_back(std::pair<float,int>(rhos[i], i));
                 }
-- 
2.43.0


From b59ee337ece4f752c19b6a536667a9342bedbc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:16 +0000
Subject: [PATCH 026/117] fix: ensemble optimal interpolation ignores
 observations without background and members that are not used

---
 src/api/oi_ensi.cpp | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/api/oi_ensi.cpp b/src/api/oi_ensi.cpp
index 48f6e19..d6569a7 100644
--- a/src/api/oi_ensi.cpp
+++ b/src/api/oi_ensi.cpp
@@ -163,11 +163,33 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
     vec pelevs = points.get_elevs();
     vec plafs = points.get_lafs();
 
+    // Calculate number of valid members
+    int nValidEns = 0;
+    ivec validEns;
+    for(int e = 0; e < nEns; e++) {
+        int numInvalid = 0;
+        for(int y = 0; y < nY; y++) {
+            float value = background[y][e];
+            if(!gridpp::is_valid(value))
+                numInvalid++;
+        }
+        if(numInvalid == 0) {
+            validEns.push_back(e);
+            nValidEns++;
+        }
+    }
+
     // Compute Y
     vec2 gY = pbackground;
     vec gYhat(nS);
     for(int i = 0; i < nS; i++) {
-        float mean = gridpp::calc_statistic(gY[i], gridpp::Mean);
+        // The observation cannot be used if the background is missing for any of the valid members
+        vec gYValid(nValidEns);
+        for(int e = 0; e < nValidEns; e++)
+            gYValid[e] = gY[i][validEns[e]];
+        float mean = gridpp::MV;
+        if(gridpp::calc_statistic(gYValid, gridpp::Count) == nValidEns)
+            mean = gridpp::calc_statistic(gYValid, gridpp::Mean);
         for(int e = 0; e < nEns; e++) {
             float value = gY[i][e];
             if(gridpp::is_valid(value) && gridpp::is_valid(mean)) {
@@ -184,22 +206,6 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
         point_vec.push_back(points.get_point(i));
     }
 
-    // Calculate number of valid members
-    int nValidEns = 0;
-    ivec validEns;
-    for(int e = 0; e < nEns; e++) {
-        int numInvalid = 0;
-        for(int y = 0; y < nY; y++) {
-            float value = background[y][e];
-            if(!gridpp::is_valid(value))
-                numInvalid++;
-        }
-        if(numInvalid == 0) {
-            validEns.push_back(e);
-            nValidEns++;
-        }
-    }
-
     // This causes segmentation fault when building the gridpp pypi package
     // 1) Tested removing num_condition_warning and num_real_part_warning from the parallel loop
     //    but it doesnt seem to help
@@ -232,7 +238,7 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
         vec rhos = structure.corr_background(p1, p2);
         for(int i = 0; i < lLocIndices0.size(); i++) {
             int index = lLocIndices0[i];
-            if(gridpp::is_valid(pobs[index])) {
+            if(gridpp::is_valid(pobs[index]) && gridpp::is_valid(gYhat[index])) {
                 if(rhos[i] > 0) {
                     lRhos0.push_back(std::pair<float,int>(rhos[i], i));
                 }
-- 
2.43.0


From 0340b59a1376969398e7e2a4ad080d7f32d72f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:21 +0000
Subject: [PATCH 027/117] fix: Box-Cox back-transformation with negative
 parameter

---
 src/api/transform.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/api/transform.cpp b/src/api/transform.cpp
index d455d2e..525a3fa 100644
--- a/src/api/transform.cpp
+++ b/src/api/transform.cpp
@@ -114,8 +114,10 @@ float gridpp::BoxCox::backward(float value) const {
    if(mThreshold == 0)
       rValue = exp(value);
    else {
-      if(value < -1.0 / mThreshold) {
-         value = -1.0 / mThreshold;
+      // The transformed values are bounded below (above, if the parameter is negative)
+      float bound = -1.0 / mThreshold;
+      if((mThreshold > 0 && value < bound) || (mThreshold < 0 && value > bound)) {
+         value = bound;
       }
       rValue = pow(1 + mThreshold * value, 1 / mThreshold);
    }
-- 
2.43.0


From 40eafa2506743ec09eaa9ed97cba6af1c2a51a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:09 +0000
Subject: [PATCH 028/117] fix: precision and range of the Gamma transform in
 the upper tail

---
 src/api/transform.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/api/transform.cpp b/src/api/transform.cpp
index 525a3fa..47f769e 100644
--- a/src/api/transform.cpp
+++ b/src/api/transform.cpp
@@ -168,16 +168,23 @@ gridpp::Gamma::Gamma(float shape, float scale, float tolerance) : m_gamma_dist(1
 float gridpp::Gamma::forward(float value) const {
     if(!gridpp::is_valid(value))
         return gridpp::MV;
-    float cdf = boost::math::cdf(m_gamma_dist, value + m_tolerance);
-    float result = boost::math::quantile(m_norm_dist, cdf);
-    return result;
+    // Use probabilities of exceedance in the upper tail, since probabilities close to 1 lose precision
+    double cdf = boost::math::cdf(m_gamma_dist, value + m_tolerance);
+    if(cdf > 0.5) {
+        double exceedance = boost::math::cdf(boost::math::complement(m_gamma_dist, value + m_tolerance));
+        return boost::math::quantile(boost::math::complement(m_norm_dist, exceedance));
+    }
+    return boost::math::quantile(m_norm_dist, cdf);
 }
 float gridpp::Gamma::backward(float value) const {
     if(!gridpp::is_valid(value))
         return gridpp::MV;
-   float cdf = boost::math::cdf(m_norm_dist, value);
-   float result = boost::math::quantile(m_gamma_dist, cdf) - m_tolerance;
-   return result;
+   if(value > 0) {
+       double exceedance = boost::math::cdf(boost::math::complement(m_norm_dist, value));
+       return boost::math::quantile(boost::math::complement(m_gamma_dist, exceedance)) - m_tolerance;
+   }
+   double cdf = boost::math::cdf(m_norm_dist, value);
+   return boost::math::quantile(m_gamma_dist, cdf) - m_tolerance;
 }
 float gridpp::Identity::forward(float value) const {
     return value;
-- 
2.43.0


From b2655cc11d44d9e485eb360768934666a9fb1e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:15 +0000
Subject: [PATCH 029/117] fix: quantiles of quantile_mapping_curve are those of
 the sorted data

---
 src/api/quantile_mapping.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/quantile_mapping.cpp b/src/api/quantile_mapping.cpp
index a47b863..96240d0 100644
--- a/src/api/quantile_mapping.cpp
+++ b/src/api/quantile_mapping.cpp
@@ -38,8 +38,8 @@ vec gridpp::quantile_mapping_curve(const vec& ref, const vec& fcst, vec& output_
         vec output_ref(N);
         for(int i = 0; i < N; i++) {
             int index = quantiles[i] * (S - 1);
-            output_fcst[i] = fcst[index];
-            output_ref[i] = ref[index];
+            output_fcst[i] = fcst_sort[index];
+            output_ref[i] = ref_sort[index];
         }
         return output_ref;
     }
-- 
2.43.0


From 1c04e35c40dc5412ca30881d5a3e2faabb915e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 030/117] fix: quantile_mapping_curve ignores pairs with
 missing values

---
 src/api/quantile_mapping.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/api/quantile_mapping.cpp b/src/api/quantile_mapping.cpp
index 96240d0..383c3b7 100644
--- a/src/api/quantile_mapping.cpp
+++ b/src/api/quantile_mapping.cpp
@@ -13,19 +13,25 @@ vec gridpp::quantile_mapping_curve(const vec& ref, const vec& fcst, vec& output_
                 throw std::invalid_argument("Quantiles must be >= 0 and <= 1");
         }
     }
-    output_fcst.clear();
-    if(ref.size() == 0) {
-        output_fcst = fcst;
-        return ref;
+    // Remove pairs with missing values
+    vec ref_sort;
+    vec fcst_sort;
+    ref_sort.reserve(ref.size());
+    fcst_sort.reserve(fcst.size());
+    for(int i = 0; i < ref.size(); i++) {
+        if(gridpp::is_valid(ref[i]) && gridpp::is_valid(fcst[i])) {
+            ref_sort.push_back(ref[i]);
+            fcst_sort.push_back(fcst[i]);
+        }
     }
-    else if(ref.size() == 1) {
-        output_fcst = fcst;
-        return ref;
+
+    output_fcst.clear();
+    if(ref_sort.size() <= 1) {
+        output_fcst = fcst_sort;
+        return ref_sort;
     }
 
-    vec ref_sort = ref;
     std::sort(ref_sort.begin(), ref_sort.end());
-    vec fcst_sort = fcst;
     std::sort(fcst_sort.begin(), fcst_sort.end());
     int N = quantiles.size();
     int S = fcst_sort.size();
-- 
2.43.0


From cfcb883f4b1aacaad1a9fdaf0def4b90d300d853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 031/117] fix: calc_score ignores pairs with a missing forecast
 and checks the sizes

---
 src/api/metric_optimizer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/api/metric_optimizer.cpp b/src/api/metric_optimizer.cpp
index 79babd5..7ea54dd 100644
--- a/src/api/metric_optimizer.cpp
+++ b/src/api/metric_optimizer.cpp
@@ -127,6 +127,9 @@ vec gridpp::metric_optimizer_curve(const vec& ref, const vec& fcst, const vec& t
 }
 
 float gridpp::get_optimal_threshold(const vec& ref, const vec& fcst, float threshold, gridpp::Metric metric) {
+    if(ref.size() != fcst.size())
+        throw std::invalid_argument("ref and fcst not the same size");
+
     /*  For large vectors, the expense comes at 1) finding the starting point and 2) finding the
      *  optimal point.
      */
@@ -186,9 +189,14 @@ float gridpp::calc_score(const vec& ref, const vec& fcst, float threshold, gridp
     return calc_score(ref, fcst, threshold, threshold, metric);
 }
 float gridpp::calc_score(const vec& ref, const vec& fcst, float threshold, float fthreshold, gridpp::Metric metric) {
+    if(ref.size() != fcst.size())
+        throw std::invalid_argument("ref and fcst not the same size");
+
     float a = 0, b = 0, c = 0, d = 0;
     int N = fcst.size();
     for(int t = 0; t < N; t++) {
+        if(!gridpp::is_valid(fcst[t]) || !gridpp::is_valid(ref[t]))
+            continue;
         if(fcst[t] > fthreshold) {
             if(ref[t] > threshold)
                 a++;
-- 
2.43.0


From 9ea1bc18cdff268f8516872e74fccf8766ab8f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:22 +0000
Subject: [PATCH 032/117] fix: get_optimal_threshold never returns a threshold
 that is worse than one it has tried

---
 src/api/metric_optimizer.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/api/metric_optimizer.cpp b/src/api/metric_optimizer.cpp
index 7ea54dd..22f3737 100644
--- a/src/api/metric_optimizer.cpp
+++ b/src/api/metric_optimizer.cpp
@@ -153,7 +153,7 @@ float gridpp::get_optimal_threshold(const vec& ref, const vec& fcst, float thres
         float curr_x = data.min + (data.max - data.min) / (B - 1) * b;
         float curr_value = func(curr_x);
         // std::cout << curr_x << " " << curr_value << " " << min_index << " " << min_value << std::endl;
-        if(curr_value < min_value) {
+        if(curr_value < min_value || (gridpp::is_valid(curr_value) && !gridpp::is_valid(min_value))) {
             min_index = b;
             min_value = curr_value;
         }
@@ -163,6 +163,11 @@ float gridpp::get_optimal_threshold(const vec& ref, const vec& fcst, float thres
     // std::cout << "MIN: " << data.min << " " << "MAX: " << data.max << std::endl;
     // std::cout << "MIN: " << bins[left_index] << " " << "MAX: " << bins[right_index] << std::endl;
     std::pair<double, double> r = brent_find_minima<Score_func, double>(func, bins[left_index], bins[right_index], bits);
+    // The score is not a smooth function, so the search may end up in a local minimum
+    if(gridpp::is_valid(min_value) && !(r.second <= min_value)) {
+        r.first = bins[min_index];
+        r.second = min_value;
+    }
     float x = r.first;
     float score = - r.second;
     if(!gridpp::is_valid(score))
-- 
2.43.0


From e54cd74f565f3a22acba83f6c965e4480f04c553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:26 +0000
Subject: [PATCH 033/117] fix: invalid values in sea_level_pressure arrays do
 not terminate the process

---
 src/api/pressure.cpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/api/pressure.cpp b/src/api/pressure.cpp
index a48e1d8..1365a46 100644
--- a/src/api/pressure.cpp
+++ b/src/api/pressure.cpp
@@ -25,19 +25,23 @@ vec gridpp::pressure(const vec& ielev, const vec& oelev, const vec& ipressure, c
     return values;
 }
 
+namespace {
+    // Throws an exception if the values are missing or unphysical
+    void check_sea_level_pressure_arguments(float ps, float altitude, float temperature, float rh, float dewpoint) {
+        if ( !gridpp::is_valid(altitude) ) {
+            throw std::runtime_error("sea_level_pressure: altitude is NAN");
+        } else if ( !gridpp::is_valid(temperature) ){
+            throw std::runtime_error("sea_level_pressure: temperature is NAN");
+        } else if ( ps < 0. || temperature < 0. || rh < 0. || rh > 1. || dewpoint < 0. ){
+            throw std::runtime_error("sea_level_pressure: unphysical values in input");
+        }
+    }
+}
+
 float gridpp::sea_level_pressure(float ps, float altitude, float temperature, float rh, float dewpoint) {
     // For altitude it is assumed geopotential meters is close to meters.
     // Following https://library.wmo.int/doc_num.php?explnum_id=10616
-
-    if ( !gridpp::is_valid(altitude) ) {
-        throw std::runtime_error("sea_level_pressure: altitude is NAN");
-    } else if ( !gridpp::is_valid(temperature) ){
-        throw std::runtime_error("sea_level_pressure: temperature is NAN");
-    } else if ( ps < 0. || temperature < 0. || rh < 0. || rh > 1. || dewpoint < 0. ){
-        throw std::runtime_error("sea_level_pressure: unphysical values in input");
-    }
-    
-    
+    check_sea_level_pressure_arguments(ps, altitude, temperature, rh, dewpoint);
 
     float T = temperature - 273.15;
     float Ts = 273.15 + T;
@@ -84,6 +88,11 @@ vec gridpp::sea_level_pressure(const vec& ps, const vec& altitude, const vec&  t
     if(altitude.size() != N || temperature.size() != N || rh.size() != N || dewpoint.size() != N)
         throw std::invalid_argument("slp: Input arguments must be of the same size");
 
+    // Exceptions cannot leave a parallel region
+    for(int i = 0; i < N; i++) {
+        check_sea_level_pressure_arguments(ps[i], altitude[i], temperature[i], rh[i], dewpoint[i]);
+    }
+
     vec values(N);
     #pragma omp parallel for
     for(int i = 0; i < N; i++) {
-- 
2.43.0


From a07e711ea75abf43124e2234b0da6b08b3ba35b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:27 +0000
Subject: [PATCH 034/117] fix: wet-bulb temperature does not exceed the
 temperature close to saturation

---
 src/api/humidity.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/humidity.cpp b/src/api/humidity.cpp
index 1857565..9852fdf 100644
--- a/src/api/humidity.cpp
+++ b/src/api/humidity.cpp
@@ -95,6 +95,9 @@ float gridpp::wetbulb(float temperature, float pressure, float relative_humidity
    if(gridpp::is_valid(temperatureC) && gridpp::is_valid(pressure) && gridpp::is_valid(relative_humidity)) {
       float e  = (relative_humidity)*0.611*exp((17.63*temperatureC)/(temperatureC+243.04));
       float Td = (116.9 + 243.04*log(e))/(16.78-log(e));
+      // The formula gives dew points slightly above the temperature close to saturation
+      if(Td > temperatureC)
+         Td = temperatureC;
       float gamma = 0.00066 * pressure/1000;
       float delta = (4098*e)/pow(Td+243.04,2);
       if(gamma + delta == 0)
-- 
2.43.0


From b98b7b9e974c301c5aade10001e4aa1bb6ec242b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 035/117] fix: gradients are not defined without range in the
 base, and keep precision when the range is small

---
 src/api/calc_gradient.cpp | 76 +++++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 39 deletions(-)

diff --git a/src/api/calc_gradient.cpp b/src/api/calc_gradient.cpp
index 2961d09..fee00b8 100644
--- a/src/api/calc_gradient.cpp
+++ b/src/api/calc_gradient.cpp
@@ -62,7 +62,8 @@ vec2 gridpp::calc_gradient(const vec2& base, const vec2& values, GradientType gr
                     output[y][x] = default_gradient;
                 }
 
-                else if(abs(current_max - current_min) <= min_range){
+                else if(current_max == current_min || current_max - current_min <= min_range){
+                    // The gradient is not defined when there is no range
                     output[y][x] = default_gradient;
                 }
                 else{
@@ -74,51 +75,48 @@ vec2 gridpp::calc_gradient(const vec2& base, const vec2& values, GradientType gr
         }
     }
     else if(gradientType == LinearRegression){
-        // Compute neighbourhood means for different moments. Ensure we only use base and values
-        // where both of them are defined
-        vec2 base0 = gridpp::init_vec2(nY, nX, gridpp::MV);
-        vec2 values0 = gridpp::init_vec2(nY, nX, gridpp::MV);
-        vec2 base_x_base = gridpp::init_vec2(nY, nX, gridpp::MV);
-        vec2 base_x_values = gridpp::init_vec2(nY, nX, gridpp::MV);
-        vec2 is_valid = gridpp::init_vec2(nY, nX, 0);
-
         #pragma omp parallel for collapse(2)
         for(int y = 0; y < nY; y++){
             for(int x = 0; x < nX; x++){
-                if(gridpp::is_valid(base[y][x]) && gridpp::is_valid(values[y][x])) {
-                    base_x_base[y][x] = pow(base[y][x], 2);
-                    base_x_values[y][x] = base[y][x] * values[y][x];
-                    is_valid[y][x] = 1;
-                    base0[y][x] = base[y][x];
-                    values0[y][x] = values[y][x];
-                }
-            }
-        }
+                int y0 = std::max(0, y - halfwidth);
+                int y1 = std::min(nY - 1, y + halfwidth);
+                int x0 = std::max(0, x - halfwidth);
+                int x1 = std::min(nX - 1, x + halfwidth);
 
-        vec2 meanX = gridpp::neighbourhood(base0, halfwidth, gridpp::Mean);
-        vec2 meanY = gridpp::neighbourhood(values0, halfwidth, gridpp::Mean);
-
-        vec2 meanXX = gridpp::neighbourhood(base_x_base, halfwidth, gridpp::Mean);
-        vec2 meanXY = gridpp::neighbourhood(base_x_values, halfwidth, gridpp::Mean);
-        vec2 count = gridpp::neighbourhood(is_valid, halfwidth, gridpp::Sum);
-
-        #pragma omp parallel for collapse(2)
-        for(int y = 0; y < nY; y++){
-            for(int x = 0; x < nX; x++){
+                // Only use base and values where both of them are defined. The moments are computed
+                // relative to the mean in the neighbourhood, since the range of the base can be
+                // small compared to its mean.
+                int count = 0;
+                double meanX = 0;
+                double meanY = 0;
+                for(int yy = y0; yy <= y1; yy++){
+                    for(int xx = x0; xx <= x1; xx++){
+                        if(gridpp::is_valid(base[yy][xx]) && gridpp::is_valid(values[yy][xx])) {
+                            meanX += base[yy][xx];
+                            meanY += values[yy][xx];
+                            count++;
+                        }
+                    }
+                }
                 output[y][x] = default_gradient;
-                if(count[y][x] >= num_min && gridpp::is_valid(meanXX[y][x]) && gridpp::is_valid(meanXY[y][x]) && gridpp::is_valid(meanX[y][x]) && meanXX[y][x] - meanX[y][x] * meanX[y][x] != 0) {
-                    bool valid_range = true;
-                    if(gridpp::is_valid(min_range)) {
-                        // Use the STD as a measure of range, since this is more efficient
-                        float range = sqrt(meanXX[y][x] - meanX[y][x] * meanX[y][x]);
-                        if(!gridpp::is_valid(range))
-                            valid_range = false;
-                        else if(range < min_range)
-                            valid_range = false;
+                if(count == 0 || count < num_min)
+                    continue;
+                meanX /= count;
+                meanY /= count;
+
+                double varX = 0;
+                double covXY = 0;
+                for(int yy = y0; yy <= y1; yy++){
+                    for(int xx = x0; xx <= x1; xx++){
+                        if(gridpp::is_valid(base[yy][xx]) && gridpp::is_valid(values[yy][xx])) {
+                            varX += (base[yy][xx] - meanX) * (base[yy][xx] - meanX);
+                            covXY += (base[yy][xx] - meanX) * (values[yy][xx] - meanY);
+                        }
                     }
-                    if(valid_range)
-                        output[y][x] = (meanXY[y][x] - meanX[y][x] * meanY[y][x]) / (meanXX[y][x] - meanX[y][x] * meanX[y][x]);
                 }
+                // Use the STD as a measure of range
+                if(varX > 0 && (!gridpp::is_valid(min_range) || sqrt(varX / count) >= min_range))
+                    output[y][x] = covXY / varX;
             }
         }
     }
-- 
2.43.0


From 0e9eb30b9c85be3c60e56fe666b96bcc82ed2373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 036/117] fix: smart neighbours without any gridpoint within
 the localization distance

---
 src/api/smart.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/api/smart.cpp b/src/api/smart.cpp
index 6f5c0c9..8012729 100644
--- a/src/api/smart.cpp
+++ b/src/api/smart.cpp
@@ -10,6 +10,11 @@ namespace {
     };
 }
 vec2 gridpp::smart(const Grid& igrid, const Grid& ogrid, const vec2& ivalues, int num, const gridpp::StructureFunction& structure) {
+    if(!gridpp::compatible_size(igrid, ivalues))
+        throw std::invalid_argument("Grid size is not the same as values");
+    if(num <= 0)
+        throw std::invalid_argument("num must be greater than 0");
+
     vec2 ilats = igrid.get_lats();
     vec2 ilons = igrid.get_lons();
     vec2 ielevs = igrid.get_elevs();
@@ -45,7 +50,6 @@ vec2 gridpp::smart(const Grid& igrid, const Grid& ogrid, const vec2& ivalues, in
                 rhos.push_back(std::pair<float,int>(rho, s));
             }
             std::sort(rhos.begin(), rhos.end(), ::sort_pair_first<float,int>());
-            assert(rhos[0].first <= rhos[rhos.size()-1].first);
             float sum = 0;
             int count = 0;
             for(int s = 0; s < std::min(num, int(indices.size())); s++) {
-- 
2.43.0


From 861e0175810a91a179a8e2f207dfc8bbe1ce2230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 037/117] fix: neighbourhood_search checks the size of
 apply_array of any size and accepts empty fields

---
 src/api/neighbourhood_search.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/api/neighbourhood_search.cpp b/src/api/neighbourhood_search.cpp
index 6d86893..7ad68f3 100644
--- a/src/api/neighbourhood_search.cpp
+++ b/src/api/neighbourhood_search.cpp
@@ -13,13 +13,19 @@ vec2 gridpp::neighbourhood_search(const vec2& array, const vec2& search_array, i
     if(halfwidth < 0) {
         throw std::invalid_argument("halfwidth must be positive");
     }
-    if(search_array.size() != array.size() || search_array[0].size() != array[0].size()) {
+    if(!gridpp::compatible_size(array, search_array)) {
 
         throw std::invalid_argument("search_array must either be the same size as array");
     }
-    if(apply_array.size() > 1 && (apply_array.size() != array.size() || apply_array[0].size() != array[0].size())) {
+    bool valid_apply_array = apply_array.size() == 0 || apply_array.size() == array.size();
+    for(int y = 0; y < apply_array.size() && valid_apply_array; y++) {
+        valid_apply_array = apply_array[y].size() == array[y].size();
+    }
+    if(!valid_apply_array) {
         throw std::invalid_argument("apply_array must either be empty or same size as array");
     }
+    if(array.size() == 0)
+        return vec2();
 
     vec2 output = gridpp::init_vec2(array.size(), array[0].size());
     bool use_apply_array = apply_array.size() > 0;
-- 
2.43.0


From 9567402b97b51ba11f8132588c73496410a6f863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 038/117] fix: local_distribution_correction keeps the
 background without weighted observations and checks its arguments

---
 src/api/local_distribution_correction.cpp | 31 ++++++++++++++++++-----
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/api/local_distribution_correction.cpp b/src/api/local_distribution_correction.cpp
index d0fabf1..6744b35 100644
--- a/src/api/local_distribution_correction.cpp
+++ b/src/api/local_distribution_correction.cpp
@@ -40,6 +40,23 @@ vec2 gridpp::local_distribution_correction(const Grid& bgrid,
         float max_quantile,
         int min_points) {
 
+    if(background.size() == 0 || !gridpp::compatible_size(bgrid, background))
+        throw std::invalid_argument("Grid size is not the same as background");
+    if(pobs.size() != pbackground.size()) {
+        std::stringstream ss;
+        ss << "pobs (" << pobs.size() << " times) is not the same size as pbackground (" << pbackground.size() << " times)";
+        throw std::invalid_argument(ss.str());
+    }
+    for(int t = 0; t < pobs.size(); t++) {
+        if(pobs[t].size() < points.size() || pbackground[t].size() < points.size()) {
+            std::stringstream ss;
+            ss << "pobs (" << pobs[t].size() << ") and pbackground (" << pbackground[t].size() << ") must have a value for each of the " << points.size() << " points";
+            throw std::invalid_argument(ss.str());
+        }
+    }
+    if(!(min_quantile >= 0 && min_quantile <= max_quantile && max_quantile <= 1))
+        throw std::invalid_argument("min_quantile and max_quantile must be on the interval [0, 1], with min_quantile <= max_quantile");
+
     int nY = background.size();
     int nX = background[0].size();
     int nT = pobs.size();
@@ -47,12 +64,6 @@ vec2 gridpp::local_distribution_correction(const Grid& bgrid,
     vec2 blons = bgrid.get_lons();
     vec2 output(nY);
 
-    if (pobs.size() != pbackground.size()) {
-        std::stringstream ss;
-        ss << "pobs (" << pobs.size() << "," << pobs[0].size() << ") is not the same size as pbackground (" << pbackground.size() << "," << pbackground[0].size() << ")";
-        throw std::invalid_argument(ss.str());
-    }
-
     bool weighted = true;
     float alpha = 0.01;
     bool debug = false;
@@ -111,7 +122,7 @@ vec2 gridpp::local_distribution_correction(const Grid& bgrid,
                 }
             }
 
-            if (count >= min_points) {
+            if (count > 0 && count >= min_points) {
                 // Create a calibration curve of ref,fcst, so that we can adjust the current
                 // background value
                 std::sort(ref_rho.begin(), ref_rho.end(), ::sort_pair_first<float, float>());
@@ -120,6 +131,9 @@ vec2 gridpp::local_distribution_correction(const Grid& bgrid,
                 // Remove the lowest and highest values
                 int d0 = (int) count * min_quantile;
                 int d1 = (int) count * max_quantile;
+                if(d1 <= d0)
+                    // There are no values left to create a curve from
+                    continue;
                 ref_rho = std::vector<std::pair<float, float> >(ref_rho.begin() + d0, ref_rho.begin() + d1);
                 fcst_rho = std::vector<std::pair<float, float> >(fcst_rho.begin() + d0, fcst_rho.begin() + d1);
 
@@ -141,6 +155,9 @@ vec2 gridpp::local_distribution_correction(const Grid& bgrid,
                 }
                 float sum_ref_quantile = ref_quantiles[new_count - 1];
                 float sum_fcst_quantile = fcst_quantiles[new_count - 1];
+                if(!(sum_ref_quantile > 0 && sum_fcst_quantile > 0))
+                    // None of the values have any weight
+                    continue;
                 if(debug && x == x_debug && y == y_debug) {
                     for(int q = 0; q < new_count; q++) {
                         std::cout << " " << q << " " << ref[q] << " " << fcst[q] << std::endl;
-- 
2.43.0


From 0395a64fee365c7b9c3d0589eed61c44123a9aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 039/117] fix: no shared counters in the parallel loops of the
 neighbourhood functions

---
 src/api/neighbourhood.cpp | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index 2e58823..ee65c00 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -61,7 +61,6 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
 
     double s_time = gridpp::clock();
     bool fast = true;
-    int count_stat = 0;
     int nY = input.size();
     int nX = input[0].size();
     vec2 output(nY);
@@ -200,7 +199,6 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
                         }
                     }
                     values[i][j] = gridpp::calc_statistic(neighbourhood, statistic);
-                    count_stat += neighbourhood.size();
                 }
             }
             else {
@@ -214,7 +212,6 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
                         count++;
                     }
                     slivers[j] = gridpp::calc_statistic(sliver, statistic);
-                    count_stat += sliver.size();
                 }
                 for(int j = 0; j < nX; j++) {
                     vec curr;
@@ -223,7 +220,6 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
                         curr.push_back(slivers[jj]);
                     }
                     values[i][j] = gridpp::calc_statistic(curr, statistic);
-                    count_stat += curr.size();
                 }
             }
         }
@@ -597,7 +593,6 @@ namespace {
         if(input.size() == 0 || input[0].size() == 0)
             return vec2();
 
-        int count_stat = 0;
         int nY = input.size();
         if(nY == 0)
             return vec2(0);
@@ -633,7 +628,6 @@ namespace {
                     output[y][x] = gridpp::calc_quantile(neighbourhood, quantile);
                 else
                     output[y][x] = gridpp::calc_statistic(neighbourhood, statistic);
-                count_stat += neighbourhood.size();
             }
         }
         return output;
@@ -644,7 +638,6 @@ namespace {
         if(input.size() == 0 || input[0].size() == 0 || input[0][0].size() == 0)
             return vec2();
 
-        int count_stat = 0;
         int nY = input.size();
         if(nY == 0)
             return vec2();
@@ -684,7 +677,6 @@ namespace {
                     output[i][j] = gridpp::calc_quantile(neighbourhood, quantile);
                 else
                     output[i][j] = gridpp::calc_statistic(neighbourhood, statistic);
-                count_stat += neighbourhood.size();
             }
         }
         return output;
-- 
2.43.0


From a022b9033509c55d1e2a4226b98b117b985c2f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 040/117] fix: compatible_size checks every row and layer, and
 fields without rows

---
 src/api/util.cpp | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/api/util.cpp b/src/api/util.cpp
index 0ca5020..3b3cb32 100644
--- a/src/api/util.cpp
+++ b/src/api/util.cpp
@@ -424,14 +424,38 @@ vec gridpp::interpolate(const vec& x, const vec& iX, const vec& iY) {
     }
     return y;
 }
+namespace {
+    // Are there Y rows, which all have X values? Rows are irrelevant if there is nothing in them.
+    bool has_size(const vec2& v, int Y, int X) {
+        if(X == 0 && v.size() == 0)
+            return true;
+        if(v.size() != Y)
+            return false;
+        for(int y = 0; y < Y; y++) {
+            if(v[y].size() != X)
+                return false;
+        }
+        return true;
+    }
+}
 bool gridpp::compatible_size(const Grid& grid, const vec2& v) {
-    return v.size() == 0 || (grid.size()[0] == v.size() && grid.size()[1] == v[0].size());
+    ivec size = grid.size();
+    return ::has_size(v, size[0], size[1]);
 }
 bool gridpp::compatible_size(const Grid& grid, const vec3& v) {
-    return v.size() == 0 || (v[0].size() == 0 || (grid.size()[0] == v[0].size() && grid.size()[1] == v[0][0].size()));
+    ivec size = grid.size();
+    for(int t = 0; t < v.size(); t++) {
+        if(!::has_size(v[t], size[0], size[1]))
+            return false;
+    }
+    return true;
 }
 bool gridpp::compatible_size(const Points& points, const vec2& v) {
-    return v.size() == 0 || points.size() == v[0].size();
+    for(int t = 0; t < v.size(); t++) {
+        if(points.size() != v[t].size())
+            return false;
+    }
+    return true;
 }
 bool gridpp::compatible_size(const Points& points, const vec& v) {
     return points.size() == v.size();
@@ -446,17 +470,12 @@ bool gridpp::compatible_size(const vec2& a, const vec2& b) {
     return true;
 }
 bool gridpp::compatible_size(const vec2& a, const vec3& b) {
-    // No y
-    if(a.size() == 0 && b.size() == 0)
-        return true;
     if(a.size() != b.size())
         return false;
-
-    // No x
-    if(a[0].size() == 0 && b[0].size() == 0)
-        return true;
-    if(a[0].size() != b[0].size())
-        return false;
+    for(int y = 0; y < a.size(); y++) {
+        if(a[y].size() != b[y].size())
+            return false;
+    }
     return true;
 }
 bool gridpp::compatible_size(const vec3& a, const vec3& b) {
-- 
2.43.0


From cf5386aae80103e8f2e8d81f9852b4bf3a0767fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 041/117] fix: grids check the lengths of all rows, and
 searches in empty sets find nothing

---
 src/api/grid.cpp   | 12 +++++++++---
 src/api/kdtree.cpp |  9 +++++++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/api/grid.cpp b/src/api/grid.cpp
index d4db501..f551267 100644
--- a/src/api/grid.cpp
+++ b/src/api/grid.cpp
@@ -10,10 +10,16 @@ gridpp::Grid::Grid() {
     mX = 0;
 }
 gridpp::Grid::Grid(vec2 lats, vec2 lons, vec2 elevs, vec2 lafs, CoordinateType type) {
+    if(!gridpp::compatible_size(lats, lons))
+        throw std::invalid_argument("Cannot create grid with unequal lat and lon sizes");
+    for(int i = 0; i < lats.size(); i++) {
+        if(lats[i].size() != lats[0].size())
+            throw std::invalid_argument("Cannot create grid with rows of different lengths");
+    }
     if(lats.size() == 0) {
         vec lats;
         vec lons;
-        mTree = KDTree(lats, lons);
+        mTree = KDTree(lats, lons, type);
         mX = 0;
         return;
     }
@@ -38,14 +44,14 @@ gridpp::Grid::Grid(vec2 lats, vec2 lons, vec2 elevs, vec2 lafs, CoordinateType t
     KDTree test = KDTree(lats0, lons0, type);
     mTree = test;
 
-    if(mElevs.size() != lats.size() || mElevs[0].size() != lats[0].size()) {
+    if(!gridpp::compatible_size(mElevs, mLats)) {
         mElevs.clear();
         mElevs.resize(lats.size());
         for(int i = 0; i < lats.size(); i++) {
             mElevs[i].resize(lats[0].size(), gridpp::MV);
         }
     }
-    if(mLafs.size() != lats.size() || mLafs[0].size() != lats[0].size()) {
+    if(!gridpp::compatible_size(mLafs, mLats)) {
         mLafs.clear();
         mLafs.resize(lats.size());
         for(int i = 0; i < lats.size(); i++) {
diff --git a/src/api/kdtree.cpp b/src/api/kdtree.cpp
index 42f343c..b3f26ad 100644
--- a/src/api/kdtree.cpp
+++ b/src/api/kdtree.cpp
@@ -83,6 +83,8 @@ ivec gridpp::KDTree::get_closest_neighbours(float lat, float lon, int num, bool
     float x, y, z;
     gridpp::convert_coordinates(lat, lon, mType, x, y, z);
     point p(x, y, z);
+    if(num <= 0)
+        return ivec();
 
     std::vector<value> results;
     if(!include_match) {
@@ -95,14 +97,17 @@ ivec gridpp::KDTree::get_closest_neighbours(float lat, float lon, int num, bool
     int num_found = results.size();
 
     ivec ret;
-    ret.reserve(num);
+    ret.reserve(num_found);
     for(int i = 0; i < num_found; i++) {
         ret.push_back(results[i].second);
     }
     return ret;
 }
 int gridpp::KDTree::get_nearest_neighbour(float lat, float lon, bool include_match) const {
-    return get_closest_neighbours(lat, lon, 1, include_match)[0];
+    ivec indices = get_closest_neighbours(lat, lon, 1, include_match);
+    if(indices.size() == 0)
+        return -1;
+    return indices[0];
 }
 float gridpp::KDTree::calc_distance(float lat1, float lon1, float lat2, float lon2, CoordinateType type) {
     if(type == gridpp::Cartesian) {
-- 
2.43.0


From 280d9db0bc0d46955e56d19f8b0933f82f9155e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 042/117] fix: nearest, count and smart refuse different
 coordinate types and accept empty output grids

---
 src/api/count.cpp   |  8 ++++++++
 src/api/nearest.cpp | 26 +++++++++++++++++++++-----
 src/api/smart.cpp   |  2 ++
 3 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/api/count.cpp b/src/api/count.cpp
index 7a7bd11..cc7a799 100644
--- a/src/api/count.cpp
+++ b/src/api/count.cpp
@@ -4,6 +4,8 @@
 using namespace gridpp;
 
 vec gridpp::count(const Grid& grid, const Points& points, float radius) {
+    if(grid.get_coordinate_type() != points.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     int size = points.size();
     vec output(size);
     vec olats = points.get_lats();
@@ -17,6 +19,8 @@ vec gridpp::count(const Grid& grid, const Points& points, float radius) {
 }
 
 vec2 gridpp::count(const Grid& igrid, const Grid& ogrid, float radius) {
+    if(igrid.get_coordinate_type() != ogrid.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     ivec size = ogrid.size();
     vec2 output(size[0]);
     vec2 olats = ogrid.get_lats();
@@ -35,6 +39,8 @@ vec2 gridpp::count(const Grid& igrid, const Grid& ogrid, float radius) {
 }
 
 vec2 gridpp::count(const Points& points, const Grid& grid, float radius) {
+    if(points.get_coordinate_type() != grid.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     ivec size = grid.size();
     vec2 output(size[0]);
     vec2 olats = grid.get_lats();
@@ -53,6 +59,8 @@ vec2 gridpp::count(const Points& points, const Grid& grid, float radius) {
 }
 
 vec gridpp::count(const Points& ipoints, const Points& opoints, float radius) {
+    if(ipoints.get_coordinate_type() != opoints.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     int size = opoints.size();
     vec output(size);
     vec olats = opoints.get_lats();
diff --git a/src/api/nearest.cpp b/src/api/nearest.cpp
index 77e1bea..003476c 100644
--- a/src/api/nearest.cpp
+++ b/src/api/nearest.cpp
@@ -5,13 +5,15 @@
 using namespace gridpp;
 
 vec2 gridpp::nearest(const Grid& igrid, const Grid& ogrid, const vec2& ivalues) {
+    if(igrid.get_coordinate_type() != ogrid.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::compatible_size(igrid, ivalues))
         throw std::invalid_argument("Grid size is not the same as values");
     vec2 iOutputLats = ogrid.get_lats();
     vec2 iOutputLons = ogrid.get_lons();
 
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
 
     vec2 output = gridpp::init_vec2(nLat, nLon, gridpp::MV);
     if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
@@ -30,6 +32,8 @@ vec2 gridpp::nearest(const Grid& igrid, const Grid& ogrid, const vec2& ivalues)
     return output;
 }
 vec3 gridpp::nearest(const Grid& igrid, const Grid& ogrid, const vec3& ivalues) {
+    if(igrid.get_coordinate_type() != ogrid.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::compatible_size(igrid, ivalues))
         throw std::invalid_argument("Grid size is not the same as values");
     vec2 iOutputLats = ogrid.get_lats();
@@ -37,7 +41,7 @@ vec3 gridpp::nearest(const Grid& igrid, const Grid& ogrid, const vec3& ivalues)
 
     int nTime = ivalues.size();
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
 ;
     vec3 output = gridpp::init_vec3(nTime, nLat, nLon, gridpp::MV);
     if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
@@ -71,13 +75,15 @@ vec3 gridpp::nearest(const Grid& igrid, const Grid& ogrid, const vec3& ivalues)
 }
 
 vec2 gridpp::nearest(const Points& ipoints, const Grid& ogrid, const vec& ivalues) {
+    if(ipoints.get_coordinate_type() != ogrid.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     if(ipoints.size() != ivalues.size())
         throw std::invalid_argument("Points size is not the same as values");
     vec2 iOutputLats = ogrid.get_lats();
     vec2 iOutputLons = ogrid.get_lons();
 
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
 
     vec2 output = gridpp::init_vec2(nLat, nLon, gridpp::MV);
     if(ipoints.size() == 0)
@@ -93,6 +99,8 @@ vec2 gridpp::nearest(const Points& ipoints, const Grid& ogrid, const vec& ivalue
     return output;
 }
 vec3 gridpp::nearest(const Points& ipoints, const Grid& ogrid, const vec2& ivalues) {
+    if(ipoints.get_coordinate_type() != ogrid.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::compatible_size(ipoints, ivalues)) {
         std::stringstream ss;
         ss << "Input points (" << ipoints.size() << ") and values (" << ivalues.size() << ") size mismatch";
@@ -103,7 +111,7 @@ vec3 gridpp::nearest(const Points& ipoints, const Grid& ogrid, const vec2& ivalu
 
     int nTime = ivalues.size();
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
 
     vec3 output = gridpp::init_vec3(nTime, nLat, nLon, gridpp::MV);
     if(ipoints.size() == 0)
@@ -122,6 +130,8 @@ vec3 gridpp::nearest(const Points& ipoints, const Grid& ogrid, const vec2& ivalu
 }
 
 vec gridpp::nearest(const Grid& igrid, const Points& opoints, const vec2& ivalues) {
+    if(igrid.get_coordinate_type() != opoints.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::compatible_size(igrid, ivalues))
         throw std::invalid_argument("Grid size is not the same as values");
     vec iOutputLats = opoints.get_lats();
@@ -143,6 +153,8 @@ vec gridpp::nearest(const Grid& igrid, const Points& opoints, const vec2& ivalue
     return output;
 }
 vec2 gridpp::nearest(const Grid& igrid, const Points& opoints, const vec3& ivalues) {
+    if(igrid.get_coordinate_type() != opoints.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::compatible_size(igrid, ivalues))
        throw std::invalid_argument("Grid size is not the same as values");
     vec iOutputLats = opoints.get_lats();
@@ -175,6 +187,8 @@ vec2 gridpp::nearest(const Grid& igrid, const Points& opoints, const vec3& ivalu
     return output;
 }
 vec gridpp::nearest(const Points& ipoints, const Points& opoints, const vec& ivalues) {
+    if(ipoints.get_coordinate_type() != opoints.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     if(ipoints.size() != ivalues.size())
         throw std::invalid_argument("Points size is not the same as values");
     vec iOutputLats = opoints.get_lats();
@@ -196,9 +210,11 @@ vec gridpp::nearest(const Points& ipoints, const Points& opoints, const vec& iva
     return output;
 }
 vec2 gridpp::nearest(const Points& ipoints, const Points& opoints, const vec2& ivalues) {
+    if(ipoints.get_coordinate_type() != opoints.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::compatible_size(ipoints, ivalues)) {
         std::stringstream ss;
-        ss << "Input points (" << ipoints.size() << ") and values (" << ivalues[0].size() << ") size mismatch";
+        ss << "Input points (" << ipoints.size() << ") and values (" << ivalues.size() << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
     vec iOutputLats = opoints.get_lats();
diff --git a/src/api/smart.cpp b/src/api/smart.cpp
index 8012729..94b0aa4 100644
--- a/src/api/smart.cpp
+++ b/src/api/smart.cpp
@@ -10,6 +10,8 @@ namespace {
     };
 }
 vec2 gridpp::smart(const Grid& igrid, const Grid& ogrid, const vec2& ivalues, int num, const gridpp::StructureFunction& structure) {
+    if(igrid.get_coordinate_type() != ogrid.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::compatible_size(igrid, ivalues))
         throw std::invalid_argument("Grid size is not the same as values");
     if(num <= 0)
-- 
2.43.0


From e82551a1fcb3f70b675eda623f948d52df925e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 043/117] fix: bilinear reports problems from its parallel
 loops, refuses different coordinate types and accepts empty output grids

---
 src/api/bilinear.cpp | 75 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 64 insertions(+), 11 deletions(-)

diff --git a/src/api/bilinear.cpp b/src/api/bilinear.cpp
index 36b924b..0165ee5 100644
--- a/src/api/bilinear.cpp
+++ b/src/api/bilinear.cpp
@@ -23,6 +23,8 @@ namespace {
     bool calcGeneral(float x, float y, float x0, float x1, float x2, float x3, float y0, float y1, float y2, float y3, float &t, float &s);
 }
 vec2 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec2& ivalues) {
+    if(igrid.get_coordinate_type() != ogrid.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::compatible_size(igrid, ivalues))
         throw std::invalid_argument("Grid size is not the same as values");
     vec2 iOutputLats = ogrid.get_lats();
@@ -31,12 +33,15 @@ vec2 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec2& ivalues)
     vec2 iInputLons = igrid.get_lons();
 
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
 
     vec2 output = gridpp::init_vec2(nLat, nLon, gridpp::MV);
     if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
         return output;
 
+    // Exceptions cannot leave the parallel region
+    std::string error;
+
     // Algorithm from here:
     #pragma omp parallel for collapse(2)
     for(int i = 0; i < nLat; i++) {
@@ -45,12 +50,22 @@ vec2 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec2& ivalues)
             // and then figure out what side of this point the other there points are.
             float lat = iOutputLats[i][j];
             float lon = iOutputLons[i][j];
-            output[i][j] = ::calc(igrid, iInputLats, iInputLons, ivalues, lat, lon);
+            try {
+                output[i][j] = ::calc(igrid, iInputLats, iInputLons, ivalues, lat, lon);
+            }
+            catch(const std::runtime_error& e) {
+                #pragma omp critical(gridpp_bilinear)
+                error = e.what();
+            }
         }
     }
+    if(error != "")
+        throw std::runtime_error(error);
     return output;
 }
 vec3 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec3& ivalues) {
+    if(igrid.get_coordinate_type() != ogrid.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::compatible_size(igrid, ivalues))
        throw std::invalid_argument("Grid size is not the same as values");
     vec2 iOutputLats = ogrid.get_lats();
@@ -60,27 +75,40 @@ vec3 gridpp::bilinear(const Grid& igrid, const Grid& ogrid, const vec3& ivalues)
 
     int nTime = ivalues.size();
     int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
+    int nLon = nLat > 0 ? iOutputLats[0].size() : 0;
 
     vec3 output = gridpp::init_vec3(nTime, nLat, nLon, gridpp::MV);
     if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
         return output;
 
+    // Exceptions cannot leave the parallel region
+    std::string error;
+
     // To reuse nearest neighbour information across time, we can't call calc on each timestep
     #pragma omp parallel for collapse(2)
     for(int i = 0; i < nLat; i++) {
         for(int j = 0; j < nLon; j++) {
             float lat = iOutputLats[i][j];
             float lon = iOutputLons[i][j];
-            vec temp = ::calc(igrid, iInputLats, iInputLons, ivalues, lat, lon);
-            for(int t = 0; t < nTime; t++)
-                output[t][i][j] = temp[t];
+            try {
+                vec temp = ::calc(igrid, iInputLats, iInputLons, ivalues, lat, lon);
+                for(int t = 0; t < nTime; t++)
+                    output[t][i][j] = temp[t];
+            }
+            catch(const std::runtime_error& e) {
+                #pragma omp critical(gridpp_bilinear)
+                error = e.what();
+            }
         }
     }
+    if(error != "")
+        throw std::runtime_error(error);
     return output;
 }
 
 vec gridpp::bilinear(const Grid& igrid, const Points& opoints, const vec2& ivalues) {
+    if(igrid.get_coordinate_type() != opoints.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::compatible_size(igrid, ivalues))
         throw std::invalid_argument("Grid size is not the same as values");
     vec iOutputLats = opoints.get_lats();
@@ -94,6 +122,9 @@ vec gridpp::bilinear(const Grid& igrid, const Points& opoints, const vec2& ivalu
     if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
         return output;
 
+    // Exceptions cannot leave the parallel region
+    std::string error;
+
     // Algorithm from here:
     #pragma omp parallel for
     for(int i = 0; i < nPoints; i++) {
@@ -101,11 +132,21 @@ vec gridpp::bilinear(const Grid& igrid, const Points& opoints, const vec2& ivalu
         // and then figure out what side of this point the other there points are.
         float lat = iOutputLats[i];
         float lon = iOutputLons[i];
-        output[i] = ::calc(igrid, iInputLats, iInputLons, ivalues, lat, lon);
+        try {
+            output[i] = ::calc(igrid, iInputLats, iInputLons, ivalues, lat, lon);
+        }
+        catch(const std::runtime_error& e) {
+            #pragma omp critical(gridpp_bilinear)
+            error = e.what();
+        }
     }
+    if(error != "")
+        throw std::runtime_error(error);
     return output;
 }
 vec2 gridpp::bilinear(const Grid& igrid, const Points& opoints, const vec3& ivalues) {
+    if(igrid.get_coordinate_type() != opoints.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::compatible_size(igrid, ivalues))
        throw std::invalid_argument("Grid size is not the same as values");
     vec iOutputLats = opoints.get_lats();
@@ -120,15 +161,26 @@ vec2 gridpp::bilinear(const Grid& igrid, const Points& opoints, const vec3& ival
     if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
         return output;
 
+    // Exceptions cannot leave the parallel region
+    std::string error;
+
     #pragma omp parallel for
     for(int i = 0; i < nPoints; i++) {
         float lat = iOutputLats[i];
         float lon = iOutputLons[i];
-        vec temp = ::calc(igrid, iInputLats, iInputLons, ivalues, lat, lon);
-        for(int t = 0; t < nTime; t++) {
-            output[t][i] = temp[t];
+        try {
+            vec temp = ::calc(igrid, iInputLats, iInputLons, ivalues, lat, lon);
+            for(int t = 0; t < nTime; t++) {
+                output[t][i] = temp[t];
+            }
+        }
+        catch(const std::runtime_error& e) {
+            #pragma omp critical(gridpp_bilinear)
+            error = e.what();
         }
     }
+    if(error != "")
+        throw std::runtime_error(error);
     return output;
 }
 
@@ -144,7 +196,8 @@ namespace {
         float B = X31;
         float C = Y21;
         float D = Y31;
-        assert(A * D != B * C);
+        if(A * D == B * C)
+            return false;
         float det = 1 / (A * D - B * C);
         s = det * ((x - X1) * (D) + (y - Y1) * (-B));
         t = det * ((x - X1) * (-C) + (y - Y1) * (A));
-- 
2.43.0


From c623ea57f1712a9b178de496a0209456837bda6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 044/117] fix: full_gradient checks all sizes with exceptions

---
 src/api/gradient.cpp | 49 ++++++++++++++++++--------------------------
 1 file changed, 20 insertions(+), 29 deletions(-)

diff --git a/src/api/gradient.cpp b/src/api/gradient.cpp
index 34065c0..28514eb 100644
--- a/src/api/gradient.cpp
+++ b/src/api/gradient.cpp
@@ -2,22 +2,24 @@
 
 using namespace gridpp;
 
+namespace {
+    // The gradients are optional
+    template<class T> void check_sizes(const Grid& igrid, const T& ivalues, const T& elev_gradient, const T& laf_gradient) {
+        if(!gridpp::compatible_size(igrid, ivalues))
+            throw std::invalid_argument("Values is the wrong size");
+        if(laf_gradient.size() > 0 && !gridpp::compatible_size(laf_gradient, ivalues))
+            throw std::invalid_argument("Laf gradient is the wrong size");
+        if(elev_gradient.size() > 0 && !gridpp::compatible_size(elev_gradient, ivalues))
+            throw std::invalid_argument("Elevation gradient is the wrong size");
+    }
+}
+
 vec2 gridpp::full_gradient(const Grid& igrid, const Grid& ogrid, const vec2& ivalues,  const vec2& elev_gradient, const vec2& laf_gradient, Downscaler downscaler) {
     // Sizes;
     int nY = ogrid.size()[0];
     int nX = ogrid.size()[1];
 
-    if(ivalues.size() != igrid.size()[0] || ivalues[0].size() != igrid.size()[1])
-        throw std::invalid_argument("Values is the wrong size");
-
-    if(laf_gradient.size() > 0)
-        if(laf_gradient.size() != igrid.size()[0] || laf_gradient[0].size() != igrid.size()[1])
-
-            throw std::invalid_argument("Laf gradient is the wrong size");
-
-    if(elev_gradient.size() > 0)
-        if(elev_gradient.size() != igrid.size()[0] || elev_gradient[0].size() != igrid.size()[1])
-            throw std::invalid_argument("Elevation gradient is the wrong size");
+    ::check_sizes(igrid, ivalues, elev_gradient, laf_gradient);
 
     vec2 oelevs = ogrid.get_elevs();
     vec2 olafs = ogrid.get_lafs();
@@ -85,6 +87,8 @@ vec2 gridpp::full_gradient(const Grid& igrid, const Grid& ogrid, const vec2& iva
 }
 
 vec3 gridpp::full_gradient(const Grid& igrid, const Grid& ogrid, const vec3& ivalues, const vec3& elev_gradient, const vec3& laf_gradient, Downscaler downscaler) {
+    ::check_sizes(igrid, ivalues, elev_gradient, laf_gradient);
+
     // Sizes;
     int nY = ogrid.size()[0];
     int nX = ogrid.size()[1];
@@ -100,14 +104,12 @@ vec3 gridpp::full_gradient(const Grid& igrid, const Grid& ogrid, const vec3& iva
         fields.push_back(ivalues[t]);
     }
     if(elev_gradient.size() != 0) {
-        assert(gridpp::compatible_size(elev_gradient, ivalues));
         for(int t = 0; t < nTime; t++) {
             fields.push_back(elev_gradient[t]);
         }
         fields.push_back(igrid.get_elevs());
     }
     if(laf_gradient.size() != 0) {
-        assert(gridpp::compatible_size(laf_gradient, ivalues));
         for(int t = 0; t < nTime; t++) {
             fields.push_back(laf_gradient[t]);
         }
@@ -174,6 +176,8 @@ vec3 gridpp::full_gradient(const Grid& igrid, const Grid& ogrid, const vec3& iva
 }
 
 vec gridpp::full_gradient(const Grid& igrid, const Points& opoints, const vec2& ivalues, const vec2& elev_gradient, const vec2& laf_gradient, Downscaler downscaler) {
+    ::check_sizes(igrid, ivalues, elev_gradient, laf_gradient);
+
     vec olafs = opoints.get_lafs();
     vec oelevs = opoints.get_elevs();
 
@@ -183,16 +187,12 @@ vec gridpp::full_gradient(const Grid& igrid, const Points& opoints, const vec2&
     vec delev_gradient;
     vec delevs;
     if(elev_gradient.size() != 0) {
-        assert(elev_gradient.size() == ivalues.size());
-        assert(elev_gradient[0].size() == ivalues[0].size());
         delev_gradient = gridpp::downscaling(igrid, opoints, elev_gradient, downscaler);
         delevs = gridpp::downscaling(igrid, opoints, igrid.get_elevs(), downscaler);
     }
     vec dlaf_gradient;
     vec dlafs;
     if(laf_gradient.size() != 0) {
-        assert(laf_gradient.size() == ivalues.size());
-        assert(laf_gradient[0].size() == ivalues[0].size());
         dlaf_gradient = gridpp::downscaling(igrid, opoints, laf_gradient, downscaler);
         dlafs = gridpp::downscaling(igrid, opoints, igrid.get_lafs(), downscaler);
     }
@@ -225,6 +225,8 @@ vec gridpp::full_gradient(const Grid& igrid, const Points& opoints, const vec2&
 }
 
 vec2 gridpp::full_gradient(const Grid& igrid, const Points& opoints, const vec3& ivalues, const vec3& elev_gradient, const vec3& laf_gradient, Downscaler downscaler) {
+    ::check_sizes(igrid, ivalues, elev_gradient, laf_gradient);
+
     vec olafs = opoints.get_lafs();
     vec oelevs = opoints.get_elevs();
 
@@ -278,18 +280,7 @@ vec3 gridpp::full_gradient_debug(const Grid& igrid, const Grid& ogrid, const vec
     int nY = ogrid.size()[0];
     int nX = ogrid.size()[1];
 
-    /*
-    if(ivalues.size() != nY || ivalues[0].size() != nX)
-        throw std::invalid_argument("Values is the wrong size");
-
-    if(laf_gradient.size() > 0)
-        if(laf_gradient.size() != nY || laf_gradient[0].size() != nX)
-            throw std::invalid_argument("Laf gradient is the wrong size");
-
-    if(elev_gradient.size() > 0)
-        if(elev_gradient.size() != nY || elev_gradient[0].size() != nX)
-            throw std::invalid_argument("Elevation gradient is the wrong size");
-    */
+    ::check_sizes(igrid, ivalues, elev_gradient, laf_gradient);
 
     //Inputs
     vec2 ielevs = igrid.get_elevs();
-- 
2.43.0


From 0b57f0a0fb75079456a69d9b06af2f70aa84f608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 045/117] fix: threshold downscaling checks sizes, coordinate
 types and options before its parallel loops

---
 src/api/downscale_probability.cpp             | 24 ++++++++++++-----
 .../mask_threshold_downscale_consensus.cpp    | 26 ++++++++++++++-----
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/src/api/downscale_probability.cpp b/src/api/downscale_probability.cpp
index fcfdb8e..903dbab 100644
--- a/src/api/downscale_probability.cpp
+++ b/src/api/downscale_probability.cpp
@@ -5,16 +5,28 @@
 using namespace gridpp;
 
 vec2 gridpp::downscale_probability(const Grid& igrid, const Grid& ogrid, const vec3& ivalues, const vec2& threshold, const ComparisonOperator& comparison_operator) {
+    if(igrid.get_coordinate_type() != ogrid.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
+    if(!gridpp::compatible_size(igrid.get_lats(), ivalues))
+        throw std::invalid_argument("Grid size is not the same as values");
+    if(!gridpp::compatible_size(ogrid, threshold))
+        throw std::invalid_argument("Output grid size is not the same as threshold");
     vec2 iOutputLats = ogrid.get_lats();
     vec2 iOutputLons = ogrid.get_lons();
 
-    int nLat = iOutputLats.size();
-    int nLon = iOutputLats[0].size();
-    int nEns = ivalues[0][0].size();
+    int nLat = ogrid.size()[0];
+    int nLon = ogrid.size()[1];
 
-    vec2 output(nLat);
-    for(int i = 0; i < nLat; i++)
-        output[i].resize(nLon);
+    vec2 output = gridpp::init_vec2(nLat, nLon, gridpp::MV);
+    if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
+        return output;
+    int nEns = ivalues[0][0].size();
+    for(int y = 0; y < ivalues.size(); y++) {
+        for(int x = 0; x < ivalues[y].size(); x++) {
+            if(ivalues[y][x].size() != nEns)
+                throw std::invalid_argument("All gridpoints must have the same number of ensemble members");
+        }
+    }
 
     #pragma omp parallel for collapse(2)
     for(int i = 0; i < nLat; i++) {
diff --git a/src/api/mask_threshold_downscale_consensus.cpp b/src/api/mask_threshold_downscale_consensus.cpp
index 86e8ca2..a1cbe69 100644
--- a/src/api/mask_threshold_downscale_consensus.cpp
+++ b/src/api/mask_threshold_downscale_consensus.cpp
@@ -17,16 +17,29 @@ vec2 gridpp::mask_threshold_downscale_quantile(const Grid& igrid, const Grid& og
 
 namespace {
     vec2 mask_threshold_downscale(const Grid& igrid, const Grid& ogrid, const vec3& ivalues_true, const vec3& ivalues_false, const vec3& threshold_values, const vec2& threshold, const ComparisonOperator& comparison_operator, const Statistic& statistic, const float quantile) {
+        if(igrid.get_coordinate_type() != ogrid.get_coordinate_type())
+            throw std::invalid_argument("Incompatible coordinate types");
+        if(!gridpp::compatible_size(igrid.get_lats(), ivalues_true))
+            throw std::invalid_argument("Grid size is not the same as values");
+        if(!gridpp::compatible_size(ivalues_true, ivalues_false))
+            throw std::invalid_argument("The true and false values are not the same size");
+        if(!gridpp::compatible_size(ivalues_true, threshold_values))
+            throw std::invalid_argument("The threshold values are not the same size as the true and false values");
+        if(!gridpp::compatible_size(ogrid, threshold))
+            throw std::invalid_argument("Output grid size is not the same as threshold");
+        if(statistic == gridpp::Unknown)
+            throw std::invalid_argument("Unknown statistic");
+        if(statistic == gridpp::Quantile && (quantile < 0 || quantile > 1))
+            throw std::invalid_argument("Quantile must be between 0 and 1 inclusive");
         vec2 iOutputLats = ogrid.get_lats();
         vec2 iOutputLons = ogrid.get_lons();
 
-        int nLat = iOutputLats.size();
-        int nLon = iOutputLats[0].size();
-        int nEns = ivalues_true[0][0].size();
+        int nLat = ogrid.size()[0];
+        int nLon = ogrid.size()[1];
 
-        vec2 output(nLat);
-        for(int i = 0; i < nLat; i++)
-            output[i].resize(nLon);
+        vec2 output = gridpp::init_vec2(nLat, nLon, gridpp::MV);
+        if(igrid.size()[0] == 0 || igrid.size()[1] == 0)
+            return output;
 
         #pragma omp parallel for collapse(2)
         for(int i = 0; i < nLat; i++) {
@@ -35,6 +48,7 @@ namespace {
                 int I = indices[0];
                 int J = indices[1];
                 int count = 0;
+                int nEns = ivalues_true[I][J].size();
                 vec masked_ivalues(nEns, gridpp::MV);
                 for(int k = 0; k < nEns; k++) {
                     if (gridpp::is_valid(threshold_values[I][J][k] )) {
-- 
2.43.0


From b12670bdbff9493504bc34a2871e24583f7f1d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 046/117] fix: neighbourhood functions refuse unsupported
 statistics and quantiles before their parallel loops, and accept empty fields

---
 src/api/neighbourhood.cpp       | 18 ++++++++++++++++--
 src/api/neighbourhood_score.cpp |  2 +-
 src/api/util.cpp                | 13 ++++++++++---
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index ee65c00..e88dab8 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -14,6 +14,8 @@ vec2 gridpp::neighbourhood(const vec3& input, int halfwidth, gridpp::Statistic s
         throw std::invalid_argument("Half width must be > 0");
     if(statistic == gridpp::Quantile)
         throw std::invalid_argument("Use neighbourhood_quantile for computing neighbourhood quantiles");
+    // Refuse unsupported statistics here, since exceptions cannot leave the parallel loops
+    gridpp::calc_statistic(vec(), statistic);
     if(input.size() == 0 || input[0].size() == 0 || input[0][0].size() == 0)
         return vec2();
     vec2 flat(input.size());
@@ -56,6 +58,8 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
         throw std::invalid_argument("Half width must be > 0");
     if(statistic == gridpp::Quantile)
         throw std::invalid_argument("Use neighbourhood_quantile for computing neighbourhood quantiles");
+    // Refuse unsupported statistics here, since exceptions cannot leave the parallel loops
+    gridpp::calc_statistic(vec(), statistic);
     if(input.size() == 0 || input[0].size() == 0)
         return vec2();
 
@@ -344,7 +348,7 @@ vec2 gridpp::neighbourhood_quantile_fast(const vec2& input, const vec2& quantile
     int nY = input.size();
     int nX = input[0].size();
 
-    if(!(quantile.size() == 1 && quantile[0].size() == 1) && !(quantile.size() == nY && quantile[0].size() == nX))
+    if(!(quantile.size() == 1 && quantile[0].size() == 1) && !gridpp::compatible_size(quantile, input))
         throw std::invalid_argument("Quantile must be the same size as input, or size (1, 1)");
 
     for(int y = 0; y < quantile.size(); y++) {
@@ -459,7 +463,7 @@ vec2 gridpp::neighbourhood_quantile_fast(const vec3& input, const vec2& quantile
     int nX = input[0].size();
     int nE = input[0][0].size();
 
-    if(!(quantile.size() == 1 && quantile[0].size() == 1) && !(quantile.size() == nY && quantile[0].size() == nX))
+    if(!(quantile.size() == 1 && quantile[0].size() == 1) && !gridpp::compatible_size(quantile, input))
         throw std::invalid_argument("Quantile must have the same Y, X size as input, or have size (1, 1)");
 
     for(int y = 0; y < quantile.size(); y++) {
@@ -590,6 +594,11 @@ namespace {
     vec2 neighbourhood_brute_force(const vec2& input, int halfwidth, gridpp::Statistic statistic, float quantile) {
         if(halfwidth < 0)
             throw std::invalid_argument("Half width must be > 0");
+        // Refuse unsupported statistics and quantiles here, since exceptions cannot leave the parallel loop
+        if(statistic == gridpp::Quantile)
+            gridpp::calc_quantile(vec(), quantile);
+        else
+            gridpp::calc_statistic(vec(), statistic);
         if(input.size() == 0 || input[0].size() == 0)
             return vec2();
 
@@ -635,6 +644,11 @@ namespace {
     vec2 neighbourhood_brute_force(const vec3& input, int halfwidth, gridpp::Statistic statistic, float quantile) {
         if(halfwidth < 0)
             throw std::invalid_argument("Half width must be > 0");
+        // Refuse unsupported statistics and quantiles here, since exceptions cannot leave the parallel loop
+        if(statistic == gridpp::Quantile)
+            gridpp::calc_quantile(vec(), quantile);
+        else
+            gridpp::calc_statistic(vec(), statistic);
         if(input.size() == 0 || input[0].size() == 0 || input[0][0].size() == 0)
             return vec2();
 
diff --git a/src/api/neighbourhood_score.cpp b/src/api/neighbourhood_score.cpp
index 652ab5d..8a8e7c2 100644
--- a/src/api/neighbourhood_score.cpp
+++ b/src/api/neighbourhood_score.cpp
@@ -14,7 +14,7 @@ vec2 gridpp::neighbourhood_score(const Grid& grid, const Points& points, const v
     }
 
     int nY = fcst.size();
-    int nX = fcst[0].size();
+    int nX = nY > 0 ? fcst[0].size() : 0;
 
     vec2 a = gridpp::init_vec2(nY, nX, 0);
     vec2 b = gridpp::init_vec2(nY, nX, 0);
diff --git a/src/api/util.cpp b/src/api/util.cpp
index 3b3cb32..7dedb1e 100644
--- a/src/api/util.cpp
+++ b/src/api/util.cpp
@@ -259,18 +259,25 @@ double gridpp::clock() {
     return sec + msec/1e6;
 }
 vec gridpp::calc_even_quantiles(const vec& values, int num) {
+    if(num < 0)
+        throw std::invalid_argument("num must be >= 0");
     vec quantiles;
-    int size = values.size();
+    vec sorted;
+    sorted.reserve(values.size());
+    for(int i = 0; i < values.size(); i++) {
+        if(gridpp::is_valid(values[i]))
+            sorted.push_back(values[i]);
+    }
+    int size = sorted.size();
     if(num == 0 || size == 0)
         return quantiles;
 
-    vec sorted = values;
     std::sort(sorted.begin(), sorted.end());
 
     // Asking for more quantiles than we have data points
     if(num >= size) {
         // Find the unique values
-        quantiles.reserve(num);
+        quantiles.reserve(size);
         quantiles.push_back(sorted[0]);
         for(int i = 1; i < size; i++) {
             if(sorted[i] != sorted[i-1])
-- 
2.43.0


From 2fab6a660d3aa76e35367b59adcc6f434d4041fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 047/117] fix: gridding refuses unsupported statistics and
 different coordinate types, and accepts empty grids

---
 src/api/gridding.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/api/gridding.cpp b/src/api/gridding.cpp
index 79d23c4..c940055 100644
--- a/src/api/gridding.cpp
+++ b/src/api/gridding.cpp
@@ -4,12 +4,16 @@
 using namespace gridpp;
 
 vec2 gridpp::gridding(const Grid& grid, const Points& points, const vec& values, float radius, int min_num, gridpp::Statistic statistic) {
+    if(grid.get_coordinate_type() != points.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::compatible_size(points, values))
         throw std::invalid_argument("Points size is not the same as values");
     if(!gridpp::is_valid(radius) || radius < 0)
         throw std::invalid_argument("radius must be >= 0");
     if(!gridpp::is_valid(min_num) || min_num < 0)
         throw std::invalid_argument("min_num must be >= 0");
+    // Refuse unsupported statistics here, since exceptions cannot leave the parallel loop
+    gridpp::calc_statistic(vec(), statistic);
 
     int Y = grid.size()[0];
     int X = grid.size()[1];
@@ -34,12 +38,16 @@ vec2 gridpp::gridding(const Grid& grid, const Points& points, const vec& values,
     return output;
 }
 vec gridpp::gridding(const Points& opoints, const Points& ipoints, const vec& values, float radius, int min_num, gridpp::Statistic statistic) {
+    if(opoints.get_coordinate_type() != ipoints.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::compatible_size(ipoints, values))
         throw std::invalid_argument("Points size is not the same as values");
     if(!gridpp::is_valid(radius) || radius < 0)
         throw std::invalid_argument("radius must be >= 0");
     if(!gridpp::is_valid(min_num) || min_num < 0)
         throw std::invalid_argument("min_num must be >= 0");
+    // Refuse unsupported statistics here, since exceptions cannot leave the parallel loop
+    gridpp::calc_statistic(vec(), statistic);
 
     int N = opoints.size();
     vec lats = opoints.get_lats();
@@ -61,15 +69,21 @@ vec gridpp::gridding(const Points& opoints, const Points& ipoints, const vec& va
 }
 
 vec2 gridpp::gridding_nearest(const Grid& grid, const Points& ipoints, const vec& values, int min_num, gridpp::Statistic statistic) {
+    if(grid.get_coordinate_type() != ipoints.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::compatible_size(ipoints, values))
         throw std::invalid_argument("Points size is not the same as values");
     if(!gridpp::is_valid(min_num) || min_num < 0)
         throw std::invalid_argument("min_num must be >= 0");
+    // Refuse unsupported statistics here, since exceptions cannot leave the parallel loop
+    gridpp::calc_statistic(vec(), statistic);
 
     int Y = grid.size()[0];
     int X = grid.size()[1];
     vec lats = ipoints.get_lats();
     vec lons = ipoints.get_lons();
+    if(Y == 0 || X == 0)
+        return gridpp::init_vec2(Y, X, gridpp::MV);
     vec3 temp(Y);
     for(int y = 0; y < Y; y++) {
         temp[y].resize(X);
@@ -99,14 +113,20 @@ vec2 gridpp::gridding_nearest(const Grid& grid, const Points& ipoints, const vec
     return output;
 }
 vec gridpp::gridding_nearest(const Points& opoints, const Points& ipoints, const vec& values, int min_num, gridpp::Statistic statistic) {
+    if(opoints.get_coordinate_type() != ipoints.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     if(!gridpp::compatible_size(ipoints, values))
         throw std::invalid_argument("Points size is not the same as values");
     if(!gridpp::is_valid(min_num) || min_num < 0)
         throw std::invalid_argument("min_num must be >= 0");
+    // Refuse unsupported statistics here, since exceptions cannot leave the parallel loop
+    gridpp::calc_statistic(vec(), statistic);
 
     int N = opoints.size();
     vec lats = ipoints.get_lats();
     vec lons = ipoints.get_lons();
+    if(N == 0)
+        return vec();
     vec2 temp(N);
 
     int S = values.size();
-- 
2.43.0


From c5580280c4722a73ef13664377afa3c761864d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 048/117] fix: doping and fill accept empty grids and refuse
 different coordinate types

---
 src/api/doping.cpp | 6 ++++++
 src/api/fill.cpp   | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/api/doping.cpp b/src/api/doping.cpp
index ef7b4ea..49976b1 100644
--- a/src/api/doping.cpp
+++ b/src/api/doping.cpp
@@ -5,6 +5,8 @@ using namespace gridpp;
 vec2 gridpp::doping_square(const Grid& igrid, const vec2& background, const Points& points, const vec& observations, const ivec& halfwidth, float max_elev_diff) {
     if(!gridpp::compatible_size(igrid, background))
         throw std::invalid_argument("Grid size is not the same as observations");
+    if(igrid.get_coordinate_type() != points.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     if(points.size() != observations.size())
         throw std::invalid_argument("Points size is not the same as observations size");
     if(points.size() != halfwidth.size())
@@ -31,6 +33,8 @@ vec2 gridpp::doping_square(const Grid& igrid, const vec2& background, const Poin
     bool check_elev = gridpp::is_valid(max_elev_diff);
     for(int i = 0; i < N; i++) {
         ivec index = igrid.get_nearest_neighbour(lats[i], lons[i]);
+        if(index.size() == 0)
+            continue;
         float curr = observations[i];
         for(int yy = std::max(0, index[0] - halfwidth[i]); yy <= std::min(Y - 1, index[0] + halfwidth[i]); yy++) {
             for(int xx = std::max(0, index[1] - halfwidth[i]); xx <= std::min(X - 1, index[1] + halfwidth[i]); xx++) {
@@ -50,6 +54,8 @@ vec2 gridpp::doping_square(const Grid& igrid, const vec2& background, const Poin
 vec2 gridpp::doping_circle(const Grid& igrid, const vec2& background, const Points& points, const vec& observations, const vec& radii, float max_elev_diff) {
     if(!gridpp::compatible_size(igrid, background))
         throw std::invalid_argument("Grid size is not the same as observations");
+    if(igrid.get_coordinate_type() != points.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     if(points.size() != observations.size())
         throw std::invalid_argument("Points size is not the same as observations size");
     if(points.size() != radii.size())
diff --git a/src/api/fill.cpp b/src/api/fill.cpp
index 4b9ab1c..4283d2e 100644
--- a/src/api/fill.cpp
+++ b/src/api/fill.cpp
@@ -6,6 +6,8 @@ using namespace gridpp;
 vec2 gridpp::fill(const Grid& igrid, const vec2& input, const Points& points, const vec& radii, float value, bool outside) {
     if(!gridpp::compatible_size(igrid, input))
         throw std::invalid_argument("Grid size is not the same as values");
+    if(igrid.get_coordinate_type() != points.get_coordinate_type())
+        throw std::invalid_argument("Incompatible coordinate types");
     if(points.size() != radii.size())
         throw std::invalid_argument("Points size is not the same as radii size");
     for(int i = 0; i < radii.size(); i++) {
@@ -42,7 +44,13 @@ vec2 gridpp::fill(const Grid& igrid, const vec2& input, const Points& points, co
 
 vec2 gridpp::fill_missing(const vec2& values) {
     int Y = values.size();
+    if(Y == 0)
+        return vec2();
     int X = values[0].size();
+    for(int y = 0; y < Y; y++) {
+        if(values[y].size() != X)
+            throw std::invalid_argument("All rows must have the same length");
+    }
     vec2 results_y(Y);
     vec2 results_x(Y);
     int count_y = 0;
-- 
2.43.0


From afca4d9d020907b10e9a356b2e19e778ec94b697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 049/117] fix: calibration curves check policies before their
 parallel loops, and accept empty curves and missing end values

---
 src/api/curve.cpp | 26 ++++++++++++++++++++++++--
 src/api/util.cpp  |  3 +++
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/api/curve.cpp b/src/api/curve.cpp
index 1f0ba26..d3976a1 100644
--- a/src/api/curve.cpp
+++ b/src/api/curve.cpp
@@ -3,6 +3,17 @@
 
 using namespace gridpp;
 
+namespace {
+    // Check this outside of parallel loops, since exceptions cannot leave them
+    void check_policies(gridpp::Extrapolation policy_below, gridpp::Extrapolation policy_above) {
+        for(int i = 0; i < 2; i++) {
+            gridpp::Extrapolation policy = i == 0 ? policy_below : policy_above;
+            if(policy != gridpp::OneToOne && policy != gridpp::MeanSlope && policy != gridpp::NearestSlope && policy != gridpp::Zero && policy != gridpp::Unchanged)
+                throw std::invalid_argument("Unknown extrapolation policy");
+        }
+    }
+}
+
 float gridpp::apply_curve(float input, const vec& curve_ref, const vec& curve_fcst, gridpp::Extrapolation policy_below, gridpp::Extrapolation policy_above) {
     if(curve_ref.size() != curve_fcst.size())
         throw std::invalid_argument("curve_ref and curve_fcst must be the same size");
@@ -82,6 +93,8 @@ vec gridpp::apply_curve(const vec& fcst, const vec& curve_ref, const vec& curve_
     if(curve_ref.size() == 0 || curve_ref.size() == 0)
         throw std::invalid_argument("curve_ref and curve_fcst cannot have size 0");
 
+    ::check_policies(policy_below, policy_above);
+
     int N = fcst.size();
     vec output(N, gridpp::MV);
 
@@ -114,9 +127,16 @@ vec2 gridpp::apply_curve(const vec2& fcst, const vec3& curve_ref, const vec3& cu
         throw std::invalid_argument("Fcst and curve_ref dimension sizes mismatch");
     if(!gridpp::compatible_size(fcst, curve_fcst))
         throw std::invalid_argument("Fcst and curve_fcst dimension sizes mismatch");
+    for(int y = 0; y < curve_ref.size(); y++) {
+        for(int x = 0; x < curve_ref[y].size(); x++) {
+            if(curve_ref[y][x].size() == 0)
+                throw std::invalid_argument("curve_ref and curve_fcst cannot have size 0");
+        }
+    }
+    ::check_policies(policy_below, policy_above);
 
     int nY = fcst.size();
-    int nX = fcst[0].size();
+    int nX = nY > 0 ? fcst[0].size() : 0;
     vec2 output(nY);
     for(int y = 0; y < nY; y++) {
         output[y].resize(nX, gridpp::MV);
@@ -160,6 +180,9 @@ vec gridpp::monotonize_curve(vec curve_ref, vec curve_fcst, vec& output_fcst) {
         }
     }
     N = curve_ref.size();
+    output_fcst.clear();
+    if(N == 0)
+        return vec();
     ivec new_indices;
     new_indices.reserve(N);
 
@@ -239,7 +262,6 @@ vec gridpp::monotonize_curve(vec curve_ref, vec curve_fcst, vec& output_fcst) {
 
     vec output_ref(2);
     output_ref.resize(new_indices.size());
-    output_fcst.clear();
     output_fcst.resize(new_indices.size());
     for(int i = 0; i < new_indices.size(); i++) {
         assert(curve_fcst.size() > new_indices[i]);
diff --git a/src/api/util.cpp b/src/api/util.cpp
index 7dedb1e..a260b96 100644
--- a/src/api/util.cpp
+++ b/src/api/util.cpp
@@ -397,6 +397,9 @@ float gridpp::interpolate(float x, const vec& iX, const vec& iY) {
 
     int i0   = get_lower_index(x, iX);
     int i1   = get_upper_index(x, iX);
+    // No bracketing values, because values at the ends are missing
+    if(i0 < 0 || i0 >= iX.size() || i1 < 0 || i1 >= iX.size())
+        return gridpp::MV;
     float x0 = iX[i0];
     float x1 = iX[i1];
     float y0 = iY[i0];
-- 
2.43.0


From 6386a7bd440145ebbc63b4a32cd310870663f9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 050/117] fix: optimal thresholds skip missing forecasts
 instead of counting them out of bounds

---
 src/api/metric_optimizer.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/api/metric_optimizer.cpp b/src/api/metric_optimizer.cpp
index 22f3737..6f43c32 100644
--- a/src/api/metric_optimizer.cpp
+++ b/src/api/metric_optimizer.cpp
@@ -33,6 +33,8 @@ namespace {
                 min = gridpp::MV;
                 max = gridpp::MV;
                 for(int i = 0; i < N; i++) {
+                    if(!gridpp::is_valid(fcst[i]))
+                        continue;
                     if(!gridpp::is_valid(min) || fcst[i] < min) {
                         min = fcst[i];
                     }
@@ -139,6 +141,8 @@ float gridpp::get_optimal_threshold(const vec& ref, const vec& fcst, float thres
     // int bits = std::numeric_limits<double>::digits;
     int bits = 32;
     Data data(ref, fcst, threshold, metric);
+    if(!gridpp::is_valid(data.min))
+        return gridpp::MV;
     Score_func func(data);
 
     /* Compute values at even intervals, to find where to start optimization search */
@@ -149,8 +153,8 @@ float gridpp::get_optimal_threshold(const vec& ref, const vec& fcst, float thres
     float min_value = func(data.min);
     bins[0] = data.min;
     for(int b = 1; b < B; b++) {
-        bins[b] = data.min + (data.max - data.min) / (B - 1) * b;
-        float curr_x = data.min + (data.max - data.min) / (B - 1) * b;
+        bins[b] = data.min + (double(data.max) - data.min) / (B - 1) * b;
+        float curr_x = bins[b];
         float curr_value = func(curr_x);
         // std::cout << curr_x << " " << curr_value << " " << min_index << " " << min_value << std::endl;
         if(curr_value < min_value || (gridpp::is_valid(curr_value) && !gridpp::is_valid(min_value))) {
-- 
2.43.0


From 9ee3f7b8d39e4b1050dc963495e80690e52bf2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 051/117] fix: window and gamma_inv report unsupported
 arguments outside their parallel loops

---
 src/api/distribution.cpp | 18 +++++++++++++++---
 src/api/window.cpp       |  3 +++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/api/distribution.cpp b/src/api/distribution.cpp
index 4c3ce93..44555b5 100644
--- a/src/api/distribution.cpp
+++ b/src/api/distribution.cpp
@@ -4,6 +4,8 @@ using namespace gridpp;
 
 vec gridpp::gamma_inv(const vec& levels, const vec& shape, const vec& scale) {
     int N = shape.size();
+    if(levels.size() != N || scale.size() != N)
+        throw std::invalid_argument("levels, shape, and scale must be the same size");
     for(int i = 0; i < N; i++) {
         if(levels[i] < 0 || levels[i] > 1 || !gridpp::is_valid(levels[i])) {
             std::stringstream ss;
@@ -23,11 +25,21 @@ vec gridpp::gamma_inv(const vec& levels, const vec& shape, const vec& scale) {
     }
     vec results(N);
 
+    // Exceptions cannot leave the parallel region
+    std::string error;
     #pragma omp parallel for
     for(int i = 0; i < N; i++) {
-        boost::math::gamma_distribution<> m_gamma_dist(shape[i], scale[i]);
-        float value = boost::math::quantile(m_gamma_dist, levels[i]);
-        results[i] = value;
+        try {
+            boost::math::gamma_distribution<> m_gamma_dist(shape[i], scale[i]);
+            float value = boost::math::quantile(m_gamma_dist, levels[i]);
+            results[i] = value;
+        }
+        catch(const std::exception& e) {
+            #pragma omp critical(gridpp_gamma_inv)
+            error = e.what();
+        }
     }
+    if(error != "")
+        throw std::runtime_error(error);
     return results;
 }
diff --git a/src/api/window.cpp b/src/api/window.cpp
index bd8fa88..0f963c6 100644
--- a/src/api/window.cpp
+++ b/src/api/window.cpp
@@ -27,6 +27,9 @@ vec2 gridpp::window(const vec2& array,
         throw std::invalid_argument("Length variable must be an odd number");
     }
 
+    // Refuse unsupported statistics here, since exceptions cannot leave the parallel loop
+    gridpp::calc_statistic(vec(), statistic);
+
     #pragma omp parallel for
     for(int y = 0; y < array.size(); y++) {
         // Use the accumulation/deaccumulation trick for Mean and Sum
-- 
2.43.0


From 9b57c5f3dea31bd8dc80cdb999f60ce67ad99bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 052/117] fix: optimal interpolation checks the sizes of all
 its arrays, with all their rows and members

---
 src/api/oi.cpp            |  27 ++++--
 src/api/oi_ensi.cpp       |  61 ++++++++----
 src/api/oi_ensi_multi.cpp | 194 +++++++++++++++++---------------------
 3 files changed, 150 insertions(+), 132 deletions(-)

diff --git a/src/api/oi.cpp b/src/api/oi.cpp
index 149758d..ec30d2b 100644
--- a/src/api/oi.cpp
+++ b/src/api/oi.cpp
@@ -41,9 +41,9 @@ vec2 gridpp::optimal_interpolation(const gridpp::Grid& bgrid,
     if(bgrid.get_coordinate_type() != points.get_coordinate_type()) {
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
-    if(background.size() != bgrid.size()[0] || background[0].size() != bgrid.size()[1]) {
+    if(!gridpp::compatible_size(bgrid, background)) {
         std::stringstream ss;
-        ss << "input field (" << background.size() << "," << background[0].size() << ") is not the same size as the grid (" << bgrid.size()[0] << "," << bgrid.size()[1] << ")";
+        ss << "Input field is not the same size as the grid (" << bgrid.size()[0] << "," << bgrid.size()[1] << ")";
         throw std::invalid_argument(ss.str());
     }
     if(pobs.size() != points.size()) {
@@ -63,7 +63,7 @@ vec2 gridpp::optimal_interpolation(const gridpp::Grid& bgrid,
     }
 
     int nY = background.size();
-    int nX = background[0].size();
+    int nX = bgrid.size()[1];
 
     gridpp::Points bpoints = bgrid.to_points();
     vec background1(nY * nX);
@@ -119,6 +119,11 @@ vec gridpp::optimal_interpolation(const gridpp::Points& bpoints,
         ss << "Ratios (" << pratios.size() << ") and points (" << points.size() << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
+    if(pbackground.size() != points.size()) {
+        std::stringstream ss;
+        ss << "Background (" << pbackground.size() << ") and points (" << points.size() << ") size mismatch";
+        throw std::invalid_argument(ss.str());
+    }
 
     vec obs_variance(pratios.size());
     vec bvariance_at_points(pratios.size());
@@ -175,6 +180,11 @@ vec gridpp::optimal_interpolation_full(const gridpp::Points& bpoints,
         ss << "Obs variance (" << obs_variance.size() << ") and points (" << points.size() << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
+    if(pbackground.size() != points.size()) {
+        std::stringstream ss;
+        ss << "Background (" << pbackground.size() << ") and points (" << points.size() << ") size mismatch";
+        throw std::invalid_argument(ss.str());
+    }
     if(bvariance_at_points.size() != points.size()) {
         std::stringstream ss;
         ss << "Background variance (" << bvariance_at_points.size() << ") and points (" << points.size() << ") size mismatch";
@@ -365,9 +375,14 @@ vec2 gridpp::optimal_interpolation_full(const gridpp::Grid& bgrid,
     if(bgrid.get_coordinate_type() != points.get_coordinate_type()) {
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
-    if(background.size() != bgrid.size()[0] || background[0].size() != bgrid.size()[1]) {
+    if(!gridpp::compatible_size(bgrid, background)) {
+        std::stringstream ss;
+        ss << "Input field is not the same size as the grid (" << bgrid.size()[0] << "," << bgrid.size()[1] << ")";
+        throw std::invalid_argument(ss.str());
+    }
+    if(!gridpp::compatible_size(bgrid, bvariance)) {
         std::stringstream ss;
-        ss << "input field (" << bgrid.size()[0] << "," << bgrid.size()[1] << ") is not the same size as the grid (" << background.size() << "," << background[0].size() << ")";
+        ss << "Input bvariance is not the same size as the grid (" << bgrid.size()[0] << "," << bgrid.size()[1] << ")";
         throw std::invalid_argument(ss.str());
     }
     if(obs.size() != points.size()) {
@@ -387,7 +402,7 @@ vec2 gridpp::optimal_interpolation_full(const gridpp::Grid& bgrid,
     }
 
     int nY = background.size();
-    int nX = background[0].size();
+    int nX = bgrid.size()[1];
 
     gridpp::Points bpoints = bgrid.to_points();
     vec background1(nY * nX);
diff --git a/src/api/oi_ensi.cpp b/src/api/oi_ensi.cpp
index d6569a7..539f9b7 100644
--- a/src/api/oi_ensi.cpp
+++ b/src/api/oi_ensi.cpp
@@ -20,6 +20,38 @@ namespace {
             return left.first < right.first;
         };
     };
+
+    // Check that an ensemble has the right number of locations, and the same number of members in all of them
+    void check_ensemble_size(const vec2& field, int nS, int nE, std::string name) {
+        bool ok = field.size() == nS;
+        for(int s = 0; ok && s < nS; s++)
+            ok = field[s].size() == nE;
+        if(!ok) {
+            std::stringstream ss;
+            ss << "Input " << name << " is not of size (" << nS << "," << nE << ")";
+            throw std::invalid_argument(ss.str());
+        }
+    }
+    void check_ensemble_size(const vec3& field, int nY, int nX, int nE, std::string name) {
+        bool ok = field.size() == nY;
+        for(int y = 0; ok && y < nY; y++) {
+            ok = field[y].size() == nX;
+            for(int x = 0; ok && x < nX; x++)
+                ok = field[y][x].size() == nE;
+        }
+        if(!ok) {
+            std::stringstream ss;
+            ss << "Input " << name << " is not of size (" << nY << "," << nX << "," << nE << ")";
+            throw std::invalid_argument(ss.str());
+        }
+    }
+    // Number of ensemble members
+    int get_ensemble_size(const vec2& field) {
+        return field.empty() ? 0 : field[0].size();
+    }
+    int get_ensemble_size(const vec3& field) {
+        return field.empty() ? 0 : get_ensemble_size(field[0]);
+    }
 }
 
 template<class Matrix>
@@ -46,13 +78,10 @@ vec3 gridpp::optimal_interpolation_ensi(const gridpp::Grid& bgrid,
         throw std::invalid_argument("max_points must be >= 0");
 
     int nS = points.size();
-    if(nS == 0)
-        return background;
-
     int nY = bgrid.size()[0];
     int nX = bgrid.size()[1];
 
-    if(nY == 0 || nX == 0) {
+    if(nS > 0 && (nY == 0 || nX == 0)) {
         std::stringstream ss;
         ss << "Grid size (" << nY << "," << nX << ") cannot be zero";
         throw std::invalid_argument(ss.str());
@@ -61,12 +90,8 @@ vec3 gridpp::optimal_interpolation_ensi(const gridpp::Grid& bgrid,
     if(bgrid.get_coordinate_type() != points.get_coordinate_type()) {
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
-    if(background.size() != nY || background[0].size() != nX) {
-        std::stringstream ss;
-        ss << "Input field (" << background.size() << "," << background[0].size() << ") is not the same size as the grid (" << nY << "," << nX << ")";
-        throw std::invalid_argument(ss.str());
-    }
-    int nE = background[0][0].size();
+    int nE = get_ensemble_size(background);
+    check_ensemble_size(background, nY, nX, nE, "background");
 
     if(pobs.size() != points.size()) {
         std::stringstream ss;
@@ -80,11 +105,10 @@ vec3 gridpp::optimal_interpolation_ensi(const gridpp::Grid& bgrid,
     }
 
     // Check ensemble size is consistent
-    if(nE != pbackground[0].size()) {
-        std::stringstream ss;
-        ss << "Ensemble members in gridded background (" << nE << ") is not the same as in the point background (" << pbackground[0].size() << ")";
-        throw std::invalid_argument(ss.str());
-    }
+    check_ensemble_size(pbackground, nS, nE, "pbackground");
+
+    if(nS == 0)
+        return background;
 
     gridpp::Points bpoints = bgrid.to_points();
     vec2 background1 = gridpp::init_vec2(nY * nX, nE);
@@ -131,10 +155,12 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
         throw std::invalid_argument("Observations and points exception mismatch");
     if(psigmas.size() != points.size())
         throw std::invalid_argument("Sigmas and points size mismatch");
-    if(pbackground.size() != points.size())
-        throw std::invalid_argument("Background and points size mismatch");
 
     int nS = points.size();
+    int nEns = get_ensemble_size(background);
+    check_ensemble_size(background, bpoints.size(), nEns, "background");
+    if(bpoints.size() > 0)
+        check_ensemble_size(pbackground, nS, nEns, "pbackground");
     if(nS == 0)
         return background;
 
@@ -145,7 +171,6 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
     bool diagnose = false;
 
     int nY = background.size();
-    int nEns = background[0].size();
 
     // Prepare output matrix
     vec2 output = background;
diff --git a/src/api/oi_ensi_multi.cpp b/src/api/oi_ensi_multi.cpp
index 39eb49a..4b4f90e 100644
--- a/src/api/oi_ensi_multi.cpp
+++ b/src/api/oi_ensi_multi.cpp
@@ -20,6 +20,38 @@ namespace {
             return left.first < right.first;
         };
     };
+
+    // Check that an ensemble has the right number of locations, and the same number of members in all of them
+    void check_ensemble_size(const vec2& field, int nS, int nE, std::string name) {
+        bool ok = field.size() == nS;
+        for(int s = 0; ok && s < nS; s++)
+            ok = field[s].size() == nE;
+        if(!ok) {
+            std::stringstream ss;
+            ss << "Input " << name << " is not of size (" << nS << "," << nE << ")";
+            throw std::invalid_argument(ss.str());
+        }
+    }
+    void check_ensemble_size(const vec3& field, int nY, int nX, int nE, std::string name) {
+        bool ok = field.size() == nY;
+        for(int y = 0; ok && y < nY; y++) {
+            ok = field[y].size() == nX;
+            for(int x = 0; ok && x < nX; x++)
+                ok = field[y][x].size() == nE;
+        }
+        if(!ok) {
+            std::stringstream ss;
+            ss << "Input " << name << " is not of size (" << nY << "," << nX << "," << nE << ")";
+            throw std::invalid_argument(ss.str());
+        }
+    }
+    // Number of ensemble members
+    int get_ensemble_size(const vec2& field) {
+        return field.empty() ? 0 : field[0].size();
+    }
+    int get_ensemble_size(const vec3& field) {
+        return field.empty() ? 0 : get_ensemble_size(field[0]);
+    }
 }
 
 template<class Matrix>
@@ -50,13 +82,10 @@ vec3 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Grid& bgrid,
         throw std::invalid_argument("max_points must be >= 0");
 
     int nS = points.size();
-    if(nS == 0)
-        return background;
-
     int nY = bgrid.size()[0];
     int nX = bgrid.size()[1];
 
-    if(nY == 0 || nX == 0) {
+    if(nS > 0 && (nY == 0 || nX == 0)) {
         std::stringstream ss;
         ss << "Grid size (" << nY << "," << nX << ") cannot be zero";
         throw std::invalid_argument(ss.str());
@@ -66,42 +95,25 @@ vec3 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Grid& bgrid,
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
     // Check ensembles have consistent sizes
-    int nE = background[0][0].size();
-    if(background.size() != nY || background[0].size() != nX) {
-        std::stringstream ss;
-        ss << "Input background field (" << background.size() << "," << background[0].size() << "," << background[0][0].size() << ") is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
-        throw std::invalid_argument(ss.str());
-    }
-    if(background_corr.size() != nY || background_corr[0].size() != nX || background_corr[0][0].size() != nE) {
+    int nE = get_ensemble_size(background);
+    check_ensemble_size(background, nY, nX, nE, "background");
+    check_ensemble_size(background_corr, nY, nX, nE, "background_corr");
+    if(!gridpp::compatible_size(bgrid, bratios)) {
         std::stringstream ss;
-        ss << "Input background_corr field (" << background_corr.size() << "," << background_corr[0].size() << "," << background_corr[0][0].size() << ") is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
-        throw std::invalid_argument(ss.str());
-    }
-    if(bratios.size() != nY || bratios[0].size() != nX) {
-        std::stringstream ss;
-        ss << "Input bratios field (" << bratios.size() << "," << bratios[0].size() << ") is not the same size as the grid (" << nY << "," << nX << ")";
-        throw std::invalid_argument(ss.str());
-    }
-    if(pbackground.size() != nS || pbackground[0].size() != nE) {
-        std::stringstream ss;
-        ss << "Input pbackground field at observation location (" << pbackground.size() << "," << pbackground[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
-        throw std::invalid_argument(ss.str());
-    }
-    if(pbackground_corr.size() != nS || pbackground_corr[0].size() != nE) {
-        std::stringstream ss;
-        ss << "Input pbackground_corr field at observation location (" << pbackground_corr.size() << "," << pbackground_corr[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
-        throw std::invalid_argument(ss.str());
-    }
-    if(pobs.size() != nS || pobs[0].size() != nE) {
-        std::stringstream ss;
-        ss << "Observations (" << pobs.size() << "," << pobs[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
+        ss << "Input bratios field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
+    check_ensemble_size(pbackground, nS, nE, "pbackground");
+    check_ensemble_size(pbackground_corr, nS, nE, "pbackground_corr");
+    check_ensemble_size(pobs, nS, nE, "pobs");
     if(pratios.size() != nS) {
         std::stringstream ss;
         ss << "Ratios (" << pratios.size() << ") and points (" << nS << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
+
+    if(nS == 0)
+        return background;
  
     gridpp::Points bpoints = bgrid.to_points();
     vec2 background1 = gridpp::init_vec2(nY * nX, nE);
@@ -151,13 +163,10 @@ vec3 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Grid& bgrid,
         throw std::invalid_argument("max_points must be >= 0");
 
     int nS = points.size();
-    if(nS == 0)
-        return background;
-
     int nY = bgrid.size()[0];
     int nX = bgrid.size()[1];
 
-    if(nY == 0 || nX == 0) {
+    if(nS > 0 && (nY == 0 || nX == 0)) {
         std::stringstream ss;
         ss << "Grid size (" << nY << "," << nX << ") cannot be zero";
         throw std::invalid_argument(ss.str());
@@ -167,32 +176,23 @@ vec3 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Grid& bgrid,
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
     // Check ensembles have consistent sizes
-    int nE = background[0][0].size();
-    if(background.size() != nY || background[0].size() != nX) {
-        std::stringstream ss;
-        ss << "Input background field (" << background.size() << "," << background[0].size() << "," << background[0][0].size() << ") is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
-        throw std::invalid_argument(ss.str());
-    }
-    if(bratios.size() != nY || bratios[0].size() != nX) {
+    int nE = get_ensemble_size(background);
+    check_ensemble_size(background, nY, nX, nE, "background");
+    if(!gridpp::compatible_size(bgrid, bratios)) {
         std::stringstream ss;
-        ss << "Input bratios field (" << bratios.size() << "," << bratios[0].size() << ") is not the same size as the grid (" << nY << "," << nX << ")";
-        throw std::invalid_argument(ss.str());
-    }
-    if(pbackground.size() != nS || pbackground[0].size() != nE) {
-        std::stringstream ss;
-        ss << "Input pbackground field at observation location (" << pbackground.size() << "," << pbackground[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
-        throw std::invalid_argument(ss.str());
-    }
-    if(pobs.size() != nS || pobs[0].size() != nE) {
-        std::stringstream ss;
-        ss << "Observations (" << pobs.size() << "," << pobs[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
+        ss << "Input bratios field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
+    check_ensemble_size(pbackground, nS, nE, "pbackground");
+    check_ensemble_size(pobs, nS, nE, "pobs");
     if(pratios.size() != nS) {
         std::stringstream ss;
         ss << "Ratios (" << pratios.size() << ") and points (" << nS << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
+
+    if(nS == 0)
+        return background;
  
     gridpp::Points bpoints = bgrid.to_points();
     vec2 background1 = gridpp::init_vec2(nY * nX, nE);
@@ -242,13 +242,10 @@ vec3 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Grid& bgrid,
         throw std::invalid_argument("max_points must be >= 0");
 
     int nS = points.size();
-    if(nS == 0)
-        return background;
-
     int nY = bgrid.size()[0];
     int nX = bgrid.size()[1];
 
-    if(nY == 0 || nX == 0) {
+    if(nS > 0 && (nY == 0 || nX == 0)) {
         std::stringstream ss;
         ss << "Grid size (" << nY << "," << nX << ") cannot be zero";
         throw std::invalid_argument(ss.str());
@@ -258,32 +255,16 @@ vec3 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Grid& bgrid,
         throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     }
     // Check ensembles have consistent sizes
-    int nE = background[0][0].size();
-    if(background.size() != nY || background[0].size() != nX) {
-        std::stringstream ss;
-        ss << "Input background field (" << background.size() << "," << background[0].size() << "," << background[0][0].size() << ") is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
-        throw std::invalid_argument(ss.str());
-    }
-    if(background_corr.size() != nY || background_corr[0].size() != nX || background_corr[0][0].size() != nE) {
-        std::stringstream ss;
-        ss << "Input background_corr field (" << background_corr.size() << "," << background_corr[0].size() << "," << background_corr[0][0].size() << ") is not the same size as the grid (" << nY << "," << nX << "," << nE << ")";
-        throw std::invalid_argument(ss.str());
-    }
-    if(bratios.size() != nY || bratios[0].size() != nX) {
+    int nE = get_ensemble_size(background);
+    check_ensemble_size(background, nY, nX, nE, "background");
+    check_ensemble_size(background_corr, nY, nX, nE, "background_corr");
+    if(!gridpp::compatible_size(bgrid, bratios)) {
         std::stringstream ss;
-        ss << "Input bratios field (" << bratios.size() << "," << bratios[0].size() << ") is not the same size as the grid (" << nY << "," << nX << ")";
-        throw std::invalid_argument(ss.str());
-    }
-    if(pbackground.size() != nS || pbackground[0].size() != nE) {
-        std::stringstream ss;
-        ss << "Input pbackground field at observation location (" << pbackground.size() << "," << pbackground[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
-        throw std::invalid_argument(ss.str());
-    }
-    if(pbackground_corr.size() != nS || pbackground_corr[0].size() != nE) {
-        std::stringstream ss;
-        ss << "Input pbackground_corr field at observation location (" << pbackground_corr.size() << "," << pbackground_corr[0].size() << ") and points (" << nS << "," << nE << ") size mismatch";
+        ss << "Input bratios field is not the same size as the grid (" << nY << "," << nX << ")";
         throw std::invalid_argument(ss.str());
     }
+    check_ensemble_size(pbackground, nS, nE, "pbackground");
+    check_ensemble_size(pbackground_corr, nS, nE, "pbackground_corr");
     if(pobs.size() != nS) {
         std::stringstream ss;
         ss << "Observations (" << pobs.size() << ") and points (" << nS << ") size mismatch";
@@ -294,6 +275,9 @@ vec3 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Grid& bgrid,
         ss << "Ratios (" << pratios.size() << ") and points (" << nS << ") size mismatch";
         throw std::invalid_argument(ss.str());
     }
+
+    if(nS == 0)
+        return background;
  
     gridpp::Points bpoints = bgrid.to_points();
     vec2 background1 = gridpp::init_vec2(nY * nX, nE);
@@ -343,23 +327,21 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
     if(bpoints.get_coordinate_type() != points.get_coordinate_type()) {
         throw std::invalid_argument("Both background and observations points must be of same coorindate type (lat/lon or x/y)");
     }
-    if(background.size() != bpoints.size())
-        throw std::invalid_argument("Input background field is not the same size as the grid");
-    if(background_corr.size() != bpoints.size())
-        throw std::invalid_argument("Input background_corr field is not the same size as the grid");
     if(bratios.size() != bpoints.size())
         throw std::invalid_argument("Bratios and grid size mismatch");
-    if(pobs.size() != points.size())
-        throw std::invalid_argument("Observations and points exception mismatch");
     if(pratios.size() != points.size())
         throw std::invalid_argument("Pratios and points size mismatch");
-    if(pbackground.size() != points.size())
-        throw std::invalid_argument("Background and points size mismatch");
-    if(pbackground_corr.size() != points.size())
-        throw std::invalid_argument("Background_corr and points size mismatch");
 
     float default_min_std = 0.0013;
     int nS = points.size();
+    int nEns = get_ensemble_size(background);
+    check_ensemble_size(background, bpoints.size(), nEns, "background");
+    check_ensemble_size(background_corr, bpoints.size(), nEns, "background_corr");
+    if(bpoints.size() > 0) {
+        check_ensemble_size(pobs, nS, nEns, "pobs");
+        check_ensemble_size(pbackground, nS, nEns, "pbackground");
+        check_ensemble_size(pbackground_corr, nS, nEns, "pbackground_corr");
+    }
     if(nS == 0)
         return background;
 
@@ -367,7 +349,6 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
     bool diagnose = false;
 
     int nY = background.size();
-    int nEns = background[0].size();
 
     // Prepare output matrix
     float missing_value = -99999.999;
@@ -646,18 +627,18 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Points& bpoint
     if(bpoints.get_coordinate_type() != points.get_coordinate_type()) {
         throw std::invalid_argument("Both background and observations points must be of same coorindate type (lat/lon or x/y)");
     }
-    if(background.size() != bpoints.size())
-        throw std::invalid_argument("Input background field is not the same size as the grid");
     if(bratios.size() != bpoints.size())
         throw std::invalid_argument("Bratios and grid size mismatch");
-    if(pobs.size() != points.size())
-        throw std::invalid_argument("Observations and points exception mismatch");
     if(pratios.size() != points.size())
         throw std::invalid_argument("Pratios and points size mismatch");
-    if(pbackground.size() != points.size())
-        throw std::invalid_argument("Background and points size mismatch");
 
     int nS = points.size();
+    int nEns = get_ensemble_size(background);
+    check_ensemble_size(background, bpoints.size(), nEns, "background");
+    if(bpoints.size() > 0) {
+        check_ensemble_size(pobs, nS, nEns, "pobs");
+        check_ensemble_size(pbackground, nS, nEns, "pbackground");
+    }
     if(nS == 0)
         return background;
 
@@ -665,7 +646,6 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Points& bpoint
     bool diagnose = false;
 
     int nY = background.size();
-    int nEns = background[0].size();
 
     // Prepare output matrix
     float missing_value = -99999.999;
@@ -884,23 +864,22 @@ vec2 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Points& bpoints
     if(bpoints.get_coordinate_type() != points.get_coordinate_type()) {
         throw std::invalid_argument("Both background and observations points must be of same coorindate type (lat/lon or x/y)");
     }
-    if(background.size() != bpoints.size())
-        throw std::invalid_argument("Input field is not the same size as the grid");
-    if(background_corr.size() != bpoints.size())
-        throw std::invalid_argument("Input background_corr field is not the same size as the grid");
     if(bratios.size() != bpoints.size())
         throw std::invalid_argument("Bratios and grid size mismatch");
     if(pobs.size() != points.size())
         throw std::invalid_argument("Observations and points exception mismatch");
     if(pratios.size() != points.size())
         throw std::invalid_argument("Pratios and points size mismatch");
-    if(pbackground.size() != points.size())
-        throw std::invalid_argument("Background and points size mismatch");
-    if(pbackground_corr.size() != points.size())
-        throw std::invalid_argument("Background_corr and points size mismatch");
 
     float default_min_std = 0.0013;
     int nS = points.size();
+    int nEns = get_ensemble_size(background);
+    check_ensemble_size(background, bpoints.size(), nEns, "background");
+    check_ensemble_size(background_corr, bpoints.size(), nEns, "background_corr");
+    if(bpoints.size() > 0) {
+        check_ensemble_size(pbackground, nS, nEns, "pbackground");
+        check_ensemble_size(pbackground_corr, nS, nEns, "pbackground_corr");
+    }
     if(nS == 0)
         return background;
 
@@ -908,7 +887,6 @@ vec2 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Points& bpoints
     bool diagnose = false;
 
     int nY = background.size();
-    int nEns = background[0].size();
 
     // Prepare output matrix
     vec2 output = background;
-- 
2.43.0


From e2bdb9b4b19abe530ab2eb14be3cd09cc98ec24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:46 +0000
Subject: [PATCH 053/117] fix: structure functions check all rows of their
 fields, and refuse empty grids

---
 src/api/structure.cpp | 70 +++++++++++++++++++++----------------------
 1 file changed, 35 insertions(+), 35 deletions(-)

diff --git a/src/api/structure.cpp b/src/api/structure.cpp
index b6a2831..300344f 100644
--- a/src/api/structure.cpp
+++ b/src/api/structure.cpp
@@ -177,10 +177,10 @@ gridpp::BarnesStructure::BarnesStructure(Grid grid, vec2 h, vec2 v, vec2 w, floa
     }
     else {
         m_is_spatial = true;
-        if(grid.size()[0] != h.size() || grid.size()[0] != v.size() || grid.size()[0] != w.size())
-            throw std::invalid_argument("Grid size not the same as scale size");
-        if(grid.size()[1] != h[0].size() || grid.size()[1] != v[0].size() || grid.size()[1] != w[0].size())
+        if(!gridpp::compatible_size(grid, h) || !gridpp::compatible_size(grid, v) || !gridpp::compatible_size(grid, w))
             throw std::invalid_argument("Grid size not the same as scale size");
+        if(grid.size()[0] == 0 || grid.size()[1] == 0)
+            throw std::invalid_argument("Grid cannot be empty");
     }
 }
 float gridpp::BarnesStructure::corr(const Point& p1, const Point& p2) const {
@@ -189,9 +189,9 @@ float gridpp::BarnesStructure::corr(const Point& p1, const Point& p2) const {
     if(m_is_spatial) {
         // This part is slower because of the nearest neighbour lookup
         ivec I = m_grid.get_nearest_neighbour(p1.lat, p1.lon);
-        if(I[0] > mH.size())
+        if(I.size() != 2 || I[0] >= mH.size())
             throw std::runtime_error("Invalid I[0]");
-        if(I[1] > mH[I[0]].size())
+        if(I[1] >= mH[I[0]].size())
             throw std::runtime_error("Invalid I[1]");
 
         float h = mH[I[0]][I[1]];
@@ -233,9 +233,9 @@ vec gridpp::BarnesStructure::corr(const Point& p1, const std::vector<Point>& p2)
     vec output(p2.size());
     if(m_is_spatial) {
         ivec I = m_grid.get_nearest_neighbour(p1.lat, p1.lon);
-        if(I[0] > mH.size())
+        if(I.size() != 2 || I[0] >= mH.size())
             throw std::runtime_error("Invalid I[0]");
-        if(I[1] > mH[I[0]].size())
+        if(I[1] >= mH[I[0]].size())
             throw std::runtime_error("Invalid I[1]");
 
         float h = mH[I[0]][I[1]];
@@ -351,10 +351,10 @@ gridpp::SoarStructure::SoarStructure(Grid grid, vec2 h, vec2 v, vec2 w, float mi
     }
     else {
         m_is_spatial = true;
-        if(grid.size()[0] != h.size() || grid.size()[0] != v.size() || grid.size()[0] != w.size())
-            throw std::invalid_argument("Grid size not the same as scale size");
-        if(grid.size()[1] != h[0].size() || grid.size()[1] != v[0].size() || grid.size()[1] != w[0].size())
+        if(!gridpp::compatible_size(grid, h) || !gridpp::compatible_size(grid, v) || !gridpp::compatible_size(grid, w))
             throw std::invalid_argument("Grid size not the same as scale size");
+        if(grid.size()[0] == 0 || grid.size()[1] == 0)
+            throw std::invalid_argument("Grid cannot be empty");
     }
 }
 float gridpp::SoarStructure::corr(const Point& p1, const Point& p2) const {
@@ -363,9 +363,9 @@ float gridpp::SoarStructure::corr(const Point& p1, const Point& p2) const {
     if(m_is_spatial) {
         // This part is slower because of the nearest neighbour lookup
         ivec I = m_grid.get_nearest_neighbour(p1.lat, p1.lon);
-        if(I[0] > mH.size())
+        if(I.size() != 2 || I[0] >= mH.size())
             throw std::runtime_error("Invalid I[0]");
-        if(I[1] > mH[I[0]].size())
+        if(I[1] >= mH[I[0]].size())
             throw std::runtime_error("Invalid I[1]");
 
         float h = mH[I[0]][I[1]];
@@ -407,9 +407,9 @@ vec gridpp::SoarStructure::corr(const Point& p1, const std::vector<Point>& p2) c
     vec output(p2.size());
     if(m_is_spatial) {
         ivec I = m_grid.get_nearest_neighbour(p1.lat, p1.lon);
-        if(I[0] > mH.size())
+        if(I.size() != 2 || I[0] >= mH.size())
             throw std::runtime_error("Invalid I[0]");
-        if(I[1] > mH[I[0]].size())
+        if(I[1] >= mH[I[0]].size())
             throw std::runtime_error("Invalid I[1]");
 
         float h = mH[I[0]][I[1]];
@@ -508,10 +508,10 @@ gridpp::ToarStructure::ToarStructure(Grid grid, vec2 h, vec2 v, vec2 w, float mi
     }
     else {
         m_is_spatial = true;
-        if(grid.size()[0] != h.size() || grid.size()[0] != v.size() || grid.size()[0] != w.size())
-            throw std::invalid_argument("Grid size not the same as scale size");
-        if(grid.size()[1] != h[0].size() || grid.size()[1] != v[0].size() || grid.size()[1] != w[0].size())
+        if(!gridpp::compatible_size(grid, h) || !gridpp::compatible_size(grid, v) || !gridpp::compatible_size(grid, w))
             throw std::invalid_argument("Grid size not the same as scale size");
+        if(grid.size()[0] == 0 || grid.size()[1] == 0)
+            throw std::invalid_argument("Grid cannot be empty");
     }
 }
 float gridpp::ToarStructure::corr(const Point& p1, const Point& p2) const {
@@ -520,9 +520,9 @@ float gridpp::ToarStructure::corr(const Point& p1, const Point& p2) const {
     if(m_is_spatial) {
         // This part is slower because of the nearest neighbour lookup
         ivec I = m_grid.get_nearest_neighbour(p1.lat, p1.lon);
-        if(I[0] > mH.size())
+        if(I.size() != 2 || I[0] >= mH.size())
             throw std::runtime_error("Invalid I[0]");
-        if(I[1] > mH[I[0]].size())
+        if(I[1] >= mH[I[0]].size())
             throw std::runtime_error("Invalid I[1]");
 
         float h = mH[I[0]][I[1]];
@@ -564,9 +564,9 @@ vec gridpp::ToarStructure::corr(const Point& p1, const std::vector<Point>& p2) c
     vec output(p2.size());
     if(m_is_spatial) {
         ivec I = m_grid.get_nearest_neighbour(p1.lat, p1.lon);
-        if(I[0] > mH.size())
+        if(I.size() != 2 || I[0] >= mH.size())
             throw std::runtime_error("Invalid I[0]");
-        if(I[1] > mH[I[0]].size())
+        if(I[1] >= mH[I[0]].size())
             throw std::runtime_error("Invalid I[1]");
 
         float h = mH[I[0]][I[1]];
@@ -666,10 +666,10 @@ gridpp::PowerlawStructure::PowerlawStructure(Grid grid, vec2 h, vec2 v, vec2 w,
     }
     else {
         m_is_spatial = true;
-        if(grid.size()[0] != h.size() || grid.size()[0] != v.size() || grid.size()[0] != w.size())
-            throw std::invalid_argument("Grid size not the same as scale size");
-        if(grid.size()[1] != h[0].size() || grid.size()[1] != v[0].size() || grid.size()[1] != w[0].size())
+        if(!gridpp::compatible_size(grid, h) || !gridpp::compatible_size(grid, v) || !gridpp::compatible_size(grid, w))
             throw std::invalid_argument("Grid size not the same as scale size");
+        if(grid.size()[0] == 0 || grid.size()[1] == 0)
+            throw std::invalid_argument("Grid cannot be empty");
     }
 }
 float gridpp::PowerlawStructure::corr(const Point& p1, const Point& p2) const {
@@ -678,9 +678,9 @@ float gridpp::PowerlawStructure::corr(const Point& p1, const Point& p2) const {
     if(m_is_spatial) {
         // This part is slower because of the nearest neighbour lookup
         ivec I = m_grid.get_nearest_neighbour(p1.lat, p1.lon);
-        if(I[0] > mH.size())
+        if(I.size() != 2 || I[0] >= mH.size())
             throw std::runtime_error("Invalid I[0]");
-        if(I[1] > mH[I[0]].size())
+        if(I[1] >= mH[I[0]].size())
             throw std::runtime_error("Invalid I[1]");
 
         float h = mH[I[0]][I[1]];
@@ -722,9 +722,9 @@ vec gridpp::PowerlawStructure::corr(const Point& p1, const std::vector<Point>& p
     vec output(p2.size());
     if(m_is_spatial) {
         ivec I = m_grid.get_nearest_neighbour(p1.lat, p1.lon);
-        if(I[0] > mH.size())
+        if(I.size() != 2 || I[0] >= mH.size())
             throw std::runtime_error("Invalid I[0]");
-        if(I[1] > mH[I[0]].size())
+        if(I[1] >= mH[I[0]].size())
             throw std::runtime_error("Invalid I[1]");
 
         float h = mH[I[0]][I[1]];
@@ -813,10 +813,10 @@ gridpp::LinearStructure::LinearStructure(Grid grid, vec2 h, vec2 v, vec2 w, floa
     }
     else {
         m_is_spatial = true;
-        if(grid.size()[0] != h.size() || grid.size()[0] != v.size() || grid.size()[0] != w.size())
-            throw std::invalid_argument("Grid size not the same as scale size");
-        if(grid.size()[1] != h[0].size() || grid.size()[1] != v[0].size() || grid.size()[1] != w[0].size())
+        if(!gridpp::compatible_size(grid, h) || !gridpp::compatible_size(grid, v) || !gridpp::compatible_size(grid, w))
             throw std::invalid_argument("Grid size not the same as scale size");
+        if(grid.size()[0] == 0 || grid.size()[1] == 0)
+            throw std::invalid_argument("Grid cannot be empty");
     }
 }
 float gridpp::LinearStructure::corr(const Point& p1, const Point& p2) const {
@@ -825,9 +825,9 @@ float gridpp::LinearStructure::corr(const Point& p1, const Point& p2) const {
     if(m_is_spatial) {
         // This part is slower because of the nearest neighbour lookup
         ivec I = m_grid.get_nearest_neighbour(p1.lat, p1.lon);
-        if(I[0] > mH.size())
+        if(I.size() != 2 || I[0] >= mH.size())
             throw std::runtime_error("Invalid I[0]");
-        if(I[1] > mH[I[0]].size())
+        if(I[1] >= mH[I[0]].size())
             throw std::runtime_error("Invalid I[1]");
 
         float h = mH[I[0]][I[1]];
@@ -869,9 +869,9 @@ vec gridpp::LinearStructure::corr(const Point& p1, const std::vector<Point>& p2)
     vec output(p2.size());
     if(m_is_spatial) {
         ivec I = m_grid.get_nearest_neighbour(p1.lat, p1.lon);
-        if(I[0] > mH.size())
+        if(I.size() != 2 || I[0] >= mH.size())
             throw std::runtime_error("Invalid I[0]");
-        if(I[1] > mH[I[0]].size())
+        if(I[1] >= mH[I[0]].size())
             throw std::runtime_error("Invalid I[1]");
 
         float h = mH[I[0]][I[1]];
-- 
2.43.0


From 73109a590cff177cea12926359ef83878e5f1f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:46 +0000
Subject: [PATCH 054/117] fix: local_distribution_correction refuses different
 coordinate types

---
 src/api/local_distribution_correction.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/local_distribution_correction.cpp b/src/api/local_distribution_correction.cpp
index 6744b35..a6c153f 100644
--- a/src/api/local_distribution_correction.cpp
+++ b/src/api/local_distribution_correction.cpp
@@ -40,6 +40,8 @@ vec2 gridpp::local_distribution_correction(const Grid& bgrid,
         float max_quantile,
         int min_points) {
 
+    if(bgrid.get_coordinate_type() != points.get_coordinate_type())
+        throw std::invalid_argument("Both background grid and observations points must be of same coordinate type (lat/lon or x/y)");
     if(background.size() == 0 || !gridpp::compatible_size(bgrid, background))
         throw std::invalid_argument("Grid size is not the same as background");
     if(pobs.size() != pbackground.size()) {
-- 
2.43.0


From ff7eb58fe590a8d4c37a6dcce46b048a23a3077f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 055/117] fix: ensemble optimal interpolation checks the
 observation ensembles of empty sets of background points

---
 src/api/oi_ensi.cpp       |  3 +--
 src/api/oi_ensi_multi.cpp | 23 ++++++++++-------------
 2 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/api/oi_ensi.cpp b/src/api/oi_ensi.cpp
index 539f9b7..49f661b 100644
--- a/src/api/oi_ensi.cpp
+++ b/src/api/oi_ensi.cpp
@@ -159,8 +159,7 @@ vec2 gridpp::optimal_interpolation_ensi(const gridpp::Points& bpoints,
     int nS = points.size();
     int nEns = get_ensemble_size(background);
     check_ensemble_size(background, bpoints.size(), nEns, "background");
-    if(bpoints.size() > 0)
-        check_ensemble_size(pbackground, nS, nEns, "pbackground");
+    check_ensemble_size(pbackground, nS, bpoints.size() > 0 ? nEns : get_ensemble_size(pbackground), "pbackground");
     if(nS == 0)
         return background;
 
diff --git a/src/api/oi_ensi_multi.cpp b/src/api/oi_ensi_multi.cpp
index 4b4f90e..4298e3c 100644
--- a/src/api/oi_ensi_multi.cpp
+++ b/src/api/oi_ensi_multi.cpp
@@ -337,11 +337,10 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebe(const gridpp::Points& bpoints,
     int nEns = get_ensemble_size(background);
     check_ensemble_size(background, bpoints.size(), nEns, "background");
     check_ensemble_size(background_corr, bpoints.size(), nEns, "background_corr");
-    if(bpoints.size() > 0) {
-        check_ensemble_size(pobs, nS, nEns, "pobs");
-        check_ensemble_size(pbackground, nS, nEns, "pbackground");
-        check_ensemble_size(pbackground_corr, nS, nEns, "pbackground_corr");
-    }
+    int nPEns = bpoints.size() > 0 ? nEns : get_ensemble_size(pbackground);
+    check_ensemble_size(pobs, nS, nPEns, "pobs");
+    check_ensemble_size(pbackground, nS, nPEns, "pbackground");
+    check_ensemble_size(pbackground_corr, nS, nPEns, "pbackground_corr");
     if(nS == 0)
         return background;
 
@@ -635,10 +634,9 @@ vec2 gridpp::optimal_interpolation_ensi_multi_ebesc(const gridpp::Points& bpoint
     int nS = points.size();
     int nEns = get_ensemble_size(background);
     check_ensemble_size(background, bpoints.size(), nEns, "background");
-    if(bpoints.size() > 0) {
-        check_ensemble_size(pobs, nS, nEns, "pobs");
-        check_ensemble_size(pbackground, nS, nEns, "pbackground");
-    }
+    int nPEns = bpoints.size() > 0 ? nEns : get_ensemble_size(pbackground);
+    check_ensemble_size(pobs, nS, nPEns, "pobs");
+    check_ensemble_size(pbackground, nS, nPEns, "pbackground");
     if(nS == 0)
         return background;
 
@@ -876,10 +874,9 @@ vec2 gridpp::optimal_interpolation_ensi_multi_utem(const gridpp::Points& bpoints
     int nEns = get_ensemble_size(background);
     check_ensemble_size(background, bpoints.size(), nEns, "background");
     check_ensemble_size(background_corr, bpoints.size(), nEns, "background_corr");
-    if(bpoints.size() > 0) {
-        check_ensemble_size(pbackground, nS, nEns, "pbackground");
-        check_ensemble_size(pbackground_corr, nS, nEns, "pbackground_corr");
-    }
+    int nPEns = bpoints.size() > 0 ? nEns : get_ensemble_size(pbackground);
+    check_ensemble_size(pbackground, nS, nPEns, "pbackground");
+    check_ensemble_size(pbackground_corr, nS, nPEns, "pbackground_corr");
     if(nS == 0)
         return background;
 
-- 
2.43.0


From d580d1c9d15338a0758230aad3a2d7c410216e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:31 +0000
Subject: [PATCH 056/117] fix: lookups of indices have a defined result when
 there is no such value

---
 src/api/util.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/api/util.cpp b/src/api/util.cpp
index a260b96..59f7411 100644
--- a/src/api/util.cpp
+++ b/src/api/util.cpp
@@ -344,7 +344,7 @@ vec gridpp::calc_even_quantiles(const vec& values, int num) {
 
 }
 int gridpp::get_lower_index(float iX, const vec& iValues) {
-    int index = gridpp::MV;
+    int index = -1;  // There is no such value
     for(int i = 0; i < (int) iValues.size(); i++) {
         float currValue = iValues[i];
         if(gridpp::is_valid(currValue)) {
@@ -363,7 +363,7 @@ int gridpp::get_lower_index(float iX, const vec& iValues) {
     return index;
 }
 int gridpp::get_upper_index(float iX, const vec& iValues) {
-    int index = gridpp::MV;
+    int index = -1;  // There is no such value
     for(int i = iValues.size()-1; i >= 0; i--) {
         float currValue = iValues[i];
         if(gridpp::is_valid(currValue)) {
@@ -398,7 +398,7 @@ float gridpp::interpolate(float x, const vec& iX, const vec& iY) {
     int i0   = get_lower_index(x, iX);
     int i1   = get_upper_index(x, iX);
     // No bracketing values, because values at the ends are missing
-    if(i0 < 0 || i0 >= iX.size() || i1 < 0 || i1 >= iX.size())
+    if(i0 < 0 || i1 < 0)
         return gridpp::MV;
     float x0 = iX[i0];
     float x1 = iX[i1];
-- 
2.43.0


From 4d05d4dd8764741d8ecfb0b1e7319654dcc55df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:28 +0000
Subject: [PATCH 057/117] fix: threshold downscaling and neighbourhood_score
 refuse unknown operators, statistics and metrics before their parallel loops

---
 src/api/downscale_probability.cpp              | 2 ++
 src/api/mask_threshold_downscale_consensus.cpp | 7 +++++--
 src/api/neighbourhood_score.cpp                | 2 ++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/api/downscale_probability.cpp b/src/api/downscale_probability.cpp
index 903dbab..ff5abee 100644
--- a/src/api/downscale_probability.cpp
+++ b/src/api/downscale_probability.cpp
@@ -11,6 +11,8 @@ vec2 gridpp::downscale_probability(const Grid& igrid, const Grid& ogrid, const v
         throw std::invalid_argument("Grid size is not the same as values");
     if(!gridpp::compatible_size(ogrid, threshold))
         throw std::invalid_argument("Output grid size is not the same as threshold");
+    if(comparison_operator != gridpp::Leq && comparison_operator != gridpp::Lt && comparison_operator != gridpp::Geq && comparison_operator != gridpp::Gt)
+        throw std::invalid_argument("Unknown comparison operator");
     vec2 iOutputLats = ogrid.get_lats();
     vec2 iOutputLons = ogrid.get_lons();
 
diff --git a/src/api/mask_threshold_downscale_consensus.cpp b/src/api/mask_threshold_downscale_consensus.cpp
index a1cbe69..49cb642 100644
--- a/src/api/mask_threshold_downscale_consensus.cpp
+++ b/src/api/mask_threshold_downscale_consensus.cpp
@@ -27,8 +27,11 @@ namespace {
             throw std::invalid_argument("The threshold values are not the same size as the true and false values");
         if(!gridpp::compatible_size(ogrid, threshold))
             throw std::invalid_argument("Output grid size is not the same as threshold");
-        if(statistic == gridpp::Unknown)
-            throw std::invalid_argument("Unknown statistic");
+        // Refuse unsupported statistics here, since exceptions cannot leave the parallel loop
+        if(statistic != gridpp::Quantile)
+            gridpp::calc_statistic(vec(), statistic);
+        if(comparison_operator != gridpp::Leq && comparison_operator != gridpp::Lt && comparison_operator != gridpp::Geq && comparison_operator != gridpp::Gt)
+            throw std::invalid_argument("Unknown comparison operator");
         if(statistic == gridpp::Quantile && (quantile < 0 || quantile > 1))
             throw std::invalid_argument("Quantile must be between 0 and 1 inclusive");
         vec2 iOutputLats = ogrid.get_lats();
diff --git a/src/api/neighbourhood_score.cpp b/src/api/neighbourhood_score.cpp
index 8a8e7c2..5715b2c 100644
--- a/src/api/neighbourhood_score.cpp
+++ b/src/api/neighbourhood_score.cpp
@@ -12,6 +12,8 @@ vec2 gridpp::neighbourhood_score(const Grid& grid, const Points& points, const v
     if(half_width <= 0) {
         throw std::invalid_argument("half_width must be greater than 0");
     }
+    // Refuse unknown metrics here, since exceptions cannot leave the parallel loop
+    gridpp::calc_score(1, 1, 1, 1, metric);
 
     int nY = fcst.size();
     int nX = nY > 0 ? fcst[0].size() : 0;
-- 
2.43.0


From 54cc54d8b625946687e7f7154e56074ec59bb4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:51 +0000
Subject: [PATCH 058/117] fix: Python wrapper does not delete vectors it does
 not own, and reports inputs it cannot convert

---
 swig/vector.i | 105 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 72 insertions(+), 33 deletions(-)

diff --git a/swig/vector.i b/swig/vector.i
index 585d9de..90784af 100644
--- a/swig/vector.i
+++ b/swig/vector.i
@@ -46,22 +46,27 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 1, 1, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                INVALID_DIMENSIONS_ERROR(1, DTYPE);
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            INVALID_DIMENSIONS_ERROR(1, DTYPE);
         py_array = (PyArrayObject*) py_obj;
         DTYPE *arg = (DTYPE*) array_data(py_array);
         int size = array_size($input, 0);
         $1 = std::vector<DTYPE>(arg, arg+size);
     }
     else {
-        ptr = new std::vector<DTYPE>();
         int test = swig::asptr($input, &ptr);
         if(ptr == NULL || !SWIG_IsOK(test)) {
+            ptr = NULL;
             INVALID_DIMENSIONS_ERROR(1, DTYPE);
         }
         $1 = *ptr;
+        // Only a vector that was created by the conversion is ours to delete
+        if(!SWIG_IsNewObj(test))
+            ptr = NULL;
     }
 }
 
@@ -76,10 +81,12 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 1, 1, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                INVALID_DIMENSIONS_ERROR(1, DTYPE);
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            INVALID_DIMENSIONS_ERROR(1, DTYPE);
         py_array = (PyArrayObject*) py_obj;
         DTYPE *arg = (DTYPE*) array_data(py_array);
         int size = array_size($input, 0);
@@ -87,12 +94,15 @@ namespace std {
         $1 = &temp;
     }
     else {
-        ptr = new std::vector<DTYPE>();
         int test = swig::asptr($input, &ptr);
         if(ptr == NULL || !SWIG_IsOK(test)) {
+            ptr = NULL;
             INVALID_DIMENSIONS_ERROR(1, DTYPE);
         }
         $1 = ptr;
+        // Only a vector that was created by the conversion is ours to delete
+        if(!SWIG_IsNewObj(test))
+            ptr = NULL;
     }
 }
 
@@ -108,10 +118,12 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 1, 1, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                INVALID_DIMENSIONS_ERROR(1, DTYPE);
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            INVALID_DIMENSIONS_ERROR(1, DTYPE);
         py_array = (PyArrayObject*) py_obj;
         DTYPE *arg = (DTYPE*) array_data(py_array);
         int size = array_size($input, 0);
@@ -119,12 +131,15 @@ namespace std {
         $1 = &temp;
     }
     else {
-        ptr = new std::vector<DTYPE>();
         int test = swig::asptr($input, &ptr);
         if(ptr == NULL || !SWIG_IsOK(test)) {
+            ptr = NULL;
             INVALID_DIMENSIONS_ERROR(1, DTYPE);
         }
         $1 = ptr;
+        // Only a vector that was created by the conversion is ours to delete
+        if(!SWIG_IsNewObj(test))
+            ptr = NULL;
     }
 }
 
@@ -204,10 +219,12 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 2, 2, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                INVALID_DIMENSIONS_ERROR(2, DTYPE);
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            INVALID_DIMENSIONS_ERROR(2, DTYPE);
         py_array = (PyArrayObject*) py_obj;
         DTYPE *arg = (DTYPE*) array_data(py_array);
         int s0 = array_size($input, 0);
@@ -219,12 +236,15 @@ namespace std {
         $1 = temp;
     }
     else {
-        ptr = new std::vector<std::vector<DTYPE> >();
         int test = swig::asptr($input, &ptr);
         if(ptr == NULL || !SWIG_IsOK(test)) {
+            ptr = NULL;
             INVALID_DIMENSIONS_ERROR(2, DTYPE);
         }
         $1 = *ptr;
+        // Only a vector that was created by the conversion is ours to delete
+        if(!SWIG_IsNewObj(test))
+            ptr = NULL;
     }
 }
 
@@ -240,12 +260,13 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 2, 2, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                INVALID_DIMENSIONS_ERROR(2, DTYPE);
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            INVALID_DIMENSIONS_ERROR(2, DTYPE);
         py_array = (PyArrayObject*) py_obj;
-        assert(py_array != NULL);
         DTYPE *arg = (DTYPE*) array_data(py_array);
         int s0 = array_size($input, 0);
         int s1 = array_size($input, 1);
@@ -256,13 +277,15 @@ namespace std {
         $1 = &temp;
     }
     else {
-        ptr = new std::vector<std::vector<DTYPE> >();
-        swig::asptr($input, &ptr);
         int test = swig::asptr($input, &ptr);
         if(ptr == NULL || !SWIG_IsOK(test)) {
+            ptr = NULL;
             INVALID_DIMENSIONS_ERROR(2, DTYPE);
         }
         $1 = ptr;
+        // Only a vector that was created by the conversion is ours to delete
+        if(!SWIG_IsNewObj(test))
+            ptr = NULL;
     }
 }
 /* Same as the const version above */
@@ -278,12 +301,13 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 2, 2, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                INVALID_DIMENSIONS_ERROR(2, DTYPE);
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            INVALID_DIMENSIONS_ERROR(2, DTYPE);
         py_array = (PyArrayObject*) py_obj;
-        assert(py_array != NULL);
         DTYPE *arg = (DTYPE*) array_data(py_array);
         int s0 = array_size($input, 0);
         int s1 = array_size($input, 1);
@@ -294,13 +318,15 @@ namespace std {
         $1 = &temp;
     }
     else {
-        ptr = new std::vector<std::vector<DTYPE> >();
-        swig::asptr($input, &ptr);
         int test = swig::asptr($input, &ptr);
         if(ptr == NULL || !SWIG_IsOK(test)) {
+            ptr = NULL;
             INVALID_DIMENSIONS_ERROR(2, DTYPE);
         }
         $1 = ptr;
+        // Only a vector that was created by the conversion is ours to delete
+        if(!SWIG_IsNewObj(test))
+            ptr = NULL;
     }
 }
 
@@ -371,10 +397,12 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 3, 3, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                INVALID_DIMENSIONS_ERROR(3, DTYPE);
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            INVALID_DIMENSIONS_ERROR(3, DTYPE);
         py_array = (PyArrayObject*) py_obj;
         DTYPE *arg = (DTYPE*) array_data(py_array);
         int s0 = array_size($input, 0);
@@ -390,12 +418,15 @@ namespace std {
         $1 = temp;
     }
     else {
-        ptr = new std::vector<std::vector<std::vector<DTYPE> > >();
         int test = swig::asptr($input, &ptr);
         if(ptr == NULL || !SWIG_IsOK(test)) {
+            ptr = NULL;
             INVALID_DIMENSIONS_ERROR(3, DTYPE);
         }
         $1 = *ptr;
+        // Only a vector that was created by the conversion is ours to delete
+        if(!SWIG_IsNewObj(test))
+            ptr = NULL;
     }
 }
 
@@ -411,12 +442,13 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 3, 3, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                INVALID_DIMENSIONS_ERROR(3, DTYPE);
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            INVALID_DIMENSIONS_ERROR(3, DTYPE);
         py_array = (PyArrayObject*) py_obj;
-        assert(py_array != NULL);
         DTYPE *arg = (DTYPE*) array_data(py_array);
         int s0 = array_size($input, 0);
         int s1 = array_size($input, 1);
@@ -431,12 +463,15 @@ namespace std {
         $1 = &temp;
     }
     else {
-        ptr = new std::vector<std::vector<std::vector<DTYPE> > >();
         int test = swig::asptr($input, &ptr);
         if(ptr == NULL || !SWIG_IsOK(test)) {
+            ptr = NULL;
             INVALID_DIMENSIONS_ERROR(3, DTYPE);
         }
         $1 = ptr;
+        // Only a vector that was created by the conversion is ours to delete
+        if(!SWIG_IsNewObj(test))
+            ptr = NULL;
     }
 }
 
@@ -453,12 +488,13 @@ namespace std {
         }
         else {
             py_obj0 = PyArray_FROMANY($input, array_type($input), 3, 3, NPY_ARRAY_DEFAULT);
-            assert(py_obj0 != NULL);
+            if(py_obj0 == NULL)
+                INVALID_DIMENSIONS_ERROR(3, DTYPE);
             py_obj = PyArray_CastToType((PyArrayObject*) py_obj0, PyArray_DescrFromType(NPY_DTYPE), 0);
         }
-        assert(py_obj != NULL);
+        if(py_obj == NULL)
+            INVALID_DIMENSIONS_ERROR(3, DTYPE);
         py_array = (PyArrayObject*) py_obj;
-        assert(py_array != NULL);
         DTYPE *arg = (DTYPE*) array_data(py_array);
         int s0 = array_size($input, 0);
         int s1 = array_size($input, 1);
@@ -473,12 +509,15 @@ namespace std {
         $1 = &temp;
     }
     else {
-        ptr = new std::vector<std::vector<std::vector<DTYPE> > >();
         int test = swig::asptr($input, &ptr);
         if(ptr == NULL || !SWIG_IsOK(test)) {
+            ptr = NULL;
             INVALID_DIMENSIONS_ERROR(3, DTYPE);
         }
         $1 = ptr;
+        // Only a vector that was created by the conversion is ours to delete
+        if(!SWIG_IsNewObj(test))
+            ptr = NULL;
     }
 }
 
-- 
2.43.0


From 0be7d34de414a6ccfc364f4d391006e5256ab50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:51 +0000
Subject: [PATCH 059/117] fix: Python wrapper refuses to convert vectors with
 rows of different lengths to arrays

---
 swig/vector.i | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/swig/vector.i b/swig/vector.i
index 90784af..844c621 100644
--- a/swig/vector.i
+++ b/swig/vector.i
@@ -1,8 +1,28 @@
 %include "typemaps.i"
 %{
 #define SWIG_FILE_WITH_INIT
+#include <vector>
 
 #define INVALID_DIMENSIONS_ERROR(N, DTYPE) SWIG_exception(SWIG_TypeError, "Could not convert input to " #N "D array of type '" #DTYPE "'");
+#define NOT_RECTANGULAR_ERROR(N) SWIG_exception(SWIG_ValueError, "Could not convert output to a " #N "D array, since its rows do not have the same length");
+
+// Only rectangular vectors can be converted to arrays
+template<class T> bool is_rectangular(const std::vector<std::vector<T> >& input) {
+    for(size_t i = 0; i < input.size(); i++) {
+        if(input[i].size() != input[0].size())
+            return false;
+    }
+    return true;
+}
+template<class T> bool is_rectangular(const std::vector<std::vector<std::vector<T> > >& input) {
+    for(size_t i = 0; i < input.size(); i++) {
+        if(input[i].size() != input[0].size() || !is_rectangular(input[i]))
+            return false;
+        if(input[i].size() > 0 && input[i][0].size() != input[0][0].size())
+            return false;
+    }
+    return true;
+}
 #if 0
     #include <iostream>
     #define PRINT_DEBUG(message) std::cout << message << std::endl;
@@ -340,6 +360,8 @@ namespace std {
 %typemap(argout) std::vector<std::vector<DTYPE> >& OUTPUT (PyObject* py_obj=NULL){
     PRINT_DEBUG("Typemap(argout) std::vector<std::vector<DTYPE> >& OUTPUT");
     const std::vector<std::vector<DTYPE> >& temp = *$1;
+    if(!is_rectangular(temp))
+        NOT_RECTANGULAR_ERROR(2);
     int s0 = temp.size();
     int s1 = 0;
     if(s0 != 0)
@@ -358,6 +380,8 @@ namespace std {
 %typemap(out) std::vector<std::vector<DTYPE> > {
     PRINT_DEBUG("Typemap(out) std::vector<std::vector<DTYPE> >");
     const std::vector<std::vector<DTYPE> >& temp = $1;
+    if(!is_rectangular(temp))
+        NOT_RECTANGULAR_ERROR(2);
     int s0 = temp.size();
     int s1 = 0;
     if(s0 != 0)
@@ -531,6 +555,8 @@ namespace std {
 %typemap(argout) std::vector<std::vector<std::vector<DTYPE> > > OUTPUT (PyObject* py_obj=NULL){
     PRINT_DEBUG("Typemap(argout) std::vector<std::vector<std::vector<DTYPE> > >");
     const std::vector<std::vector<std::vector<DTYPE> > >& temp = $1;
+    if(!is_rectangular(temp))
+        NOT_RECTANGULAR_ERROR(3);
     int s0 = temp.size();
     int s1 = 0;
     if(s0 != 0)
@@ -554,6 +580,8 @@ namespace std {
 %typemap(out) std::vector<std::vector<std::vector<DTYPE> > > {
     PRINT_DEBUG("Typemap(out) std::vector<std::vector<std::vector<DTYPE> > >");
     const std::vector<std::vector<std::vector<DTYPE> > >& temp = $1;
+    if(!is_rectangular(temp))
+        NOT_RECTANGULAR_ERROR(3);
     int s0 = temp.size();
     int s1 = 0;
     if(s0 != 0)
-- 
2.43.0


From f2f917a33c201de55327aef36a6706524ad05fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:59 +0000
Subject: [PATCH 060/117] fix: get_statistic knows the variance

---
 src/api/gridpp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/gridpp.cpp b/src/api/gridpp.cpp
index fee9882..64111b5 100644
--- a/src/api/gridpp.cpp
+++ b/src/api/gridpp.cpp
@@ -28,6 +28,9 @@ gridpp::Statistic gridpp::get_statistic(std::string name) {
     else if(name == "std") {
         type = gridpp::Std;
     }
+    else if(name == "variance") {
+        type = gridpp::Variance;
+    }
     else if(name == "sum") {
         type = gridpp::Sum;
     }
-- 
2.43.0


From 16b8aef58465d72c6b1fab49abd98da3c0aa8f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:59 +0000
Subject: [PATCH 061/117] fix: convert_coordinates checks the lengths of its
 arrays

---
 src/api/util.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/util.cpp b/src/api/util.cpp
index 59f7411..294fae1 100644
--- a/src/api/util.cpp
+++ b/src/api/util.cpp
@@ -610,6 +610,8 @@ bool gridpp::point_in_rectangle(const Point& A, const Point& B, const Point& C,
 }
 
 bool gridpp::convert_coordinates(const vec& lats, const vec& lons, CoordinateType type, vec& x_coords, vec& y_coords, vec& z_coords) {
+    if(lats.size() != lons.size())
+        throw std::invalid_argument("Latitudes and longitudes have different lengths");
     int N = lats.size();
     x_coords.resize(N);
     y_coords.resize(N);
-- 
2.43.0


From 0b223b0dc9c618b318d279b39e1359e4bf647e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:05 +0000
Subject: [PATCH 062/117] fix: functions on fields refuse rows of different
 lengths

---
 src/api/calc_gradient.cpp        |  4 ++++
 src/api/neighbourhood.cpp        | 26 ++++++++++++++++++++++++++
 src/api/neighbourhood_search.cpp |  4 ++++
 src/api/util.cpp                 |  4 ++++
 src/api/window.cpp               |  4 ++++
 5 files changed, 42 insertions(+)

diff --git a/src/api/calc_gradient.cpp b/src/api/calc_gradient.cpp
index fee00b8..fb81442 100644
--- a/src/api/calc_gradient.cpp
+++ b/src/api/calc_gradient.cpp
@@ -19,6 +19,10 @@ vec2 gridpp::calc_gradient(const vec2& base, const vec2& values, GradientType gr
 
     int nY = base.size();
     int nX = base[0].size();
+    for(int y = 0; y < nY; y++) {
+        if(base[y].size() != nX)
+            throw std::invalid_argument("All rows must have the same length");
+    }
 
     vec2 output = gridpp::init_vec2(nY, nX, default_gradient);
 
diff --git a/src/api/neighbourhood.cpp b/src/api/neighbourhood.cpp
index e88dab8..e033144 100644
--- a/src/api/neighbourhood.cpp
+++ b/src/api/neighbourhood.cpp
@@ -8,6 +8,8 @@ namespace {
     vec2 neighbourhood_brute_force(const vec2& input, int halfwidth, gridpp::Statistic statistic, float quantile);
     vec2 neighbourhood_brute_force(const vec3& input, int halfwidth, gridpp::Statistic statistic, float quantile);
     vec3 vec2_to_vec3(const vec2& input);
+    void check_rectangular(const vec2& input);
+    void check_rectangular(const vec3& input);
 }
 vec2 gridpp::neighbourhood(const vec3& input, int halfwidth, gridpp::Statistic statistic) {
     if(halfwidth < 0)
@@ -16,6 +18,7 @@ vec2 gridpp::neighbourhood(const vec3& input, int halfwidth, gridpp::Statistic s
         throw std::invalid_argument("Use neighbourhood_quantile for computing neighbourhood quantiles");
     // Refuse unsupported statistics here, since exceptions cannot leave the parallel loops
     gridpp::calc_statistic(vec(), statistic);
+    ::check_rectangular(input);
     if(input.size() == 0 || input[0].size() == 0 || input[0][0].size() == 0)
         return vec2();
     vec2 flat(input.size());
@@ -60,6 +63,7 @@ vec2 gridpp::neighbourhood(const vec2& input, int halfwidth, gridpp::Statistic s
         throw std::invalid_argument("Use neighbourhood_quantile for computing neighbourhood quantiles");
     // Refuse unsupported statistics here, since exceptions cannot leave the parallel loops
     gridpp::calc_statistic(vec(), statistic);
+    ::check_rectangular(input);
     if(input.size() == 0 || input[0].size() == 0)
         return vec2();
 
@@ -283,6 +287,7 @@ vec gridpp::get_neighbourhood_thresholds(const vec2& input, int num_thresholds)
     if(num_thresholds <= 0)
         throw std::invalid_argument("num_thresholds must be > 0");
 
+    ::check_rectangular(input);
     if(input.size() == 0 || input[0].size() == 0)
         return vec();
 
@@ -308,6 +313,7 @@ vec gridpp::get_neighbourhood_thresholds(const vec3& input, int num_thresholds)
     if(num_thresholds <= 0)
         throw std::invalid_argument("num_thresholds must be > 0");
 
+    ::check_rectangular(input);
     if(input.size() == 0 || input[0].size() == 0 || input[0][0].size() == 0)
         return vec();
     int Y = input.size();
@@ -342,6 +348,7 @@ vec2 gridpp::neighbourhood_quantile_fast(const vec2& input, const vec2& quantile
     if(halfwidth < 0)
         throw std::invalid_argument("Half width must be > 0");
 
+    ::check_rectangular(input);
     if(input.size() == 0 || input[0].size() == 0)
         return vec2();
 
@@ -456,6 +463,7 @@ vec2 gridpp::neighbourhood_quantile_fast(const vec3& input, const vec2& quantile
     if(halfwidth < 0)
         throw std::invalid_argument("Half width must be > 0");
 
+    ::check_rectangular(input);
     if(input.size() == 0 || input[0].size() == 0 || input[0][0].size() == 0)
         return vec2();
     double s_time = gridpp::clock();
@@ -599,6 +607,7 @@ namespace {
             gridpp::calc_quantile(vec(), quantile);
         else
             gridpp::calc_statistic(vec(), statistic);
+        ::check_rectangular(input);
         if(input.size() == 0 || input[0].size() == 0)
             return vec2();
 
@@ -649,6 +658,7 @@ namespace {
             gridpp::calc_quantile(vec(), quantile);
         else
             gridpp::calc_statistic(vec(), statistic);
+        ::check_rectangular(input);
         if(input.size() == 0 || input[0].size() == 0 || input[0][0].size() == 0)
             return vec2();
 
@@ -695,6 +705,22 @@ namespace {
         }
         return output;
     }
+    void check_rectangular(const vec2& input) {
+        for(int y = 0; y < input.size(); y++) {
+            if(input[y].size() != input[0].size())
+                throw std::invalid_argument("All rows must have the same length");
+        }
+    }
+    void check_rectangular(const vec3& input) {
+        for(int y = 0; y < input.size(); y++) {
+            if(input[y].size() != input[0].size())
+                throw std::invalid_argument("All rows must have the same length");
+            for(int x = 0; x < input[y].size(); x++) {
+                if(input[y][x].size() != input[0][0].size())
+                    throw std::invalid_argument("All gridpoints must have the same number of members");
+            }
+        }
+    }
     vec3 vec2_to_vec3(const vec2& input) {
         if(input.size() == 0 || input[0].size() == 0)
             return vec3();
diff --git a/src/api/neighbourhood_search.cpp b/src/api/neighbourhood_search.cpp
index 7ad68f3..0e060fe 100644
--- a/src/api/neighbourhood_search.cpp
+++ b/src/api/neighbourhood_search.cpp
@@ -24,6 +24,10 @@ vec2 gridpp::neighbourhood_search(const vec2& array, const vec2& search_array, i
     if(!valid_apply_array) {
         throw std::invalid_argument("apply_array must either be empty or same size as array");
     }
+    for(int y = 0; y < array.size(); y++) {
+        if(array[y].size() != array[0].size())
+            throw std::invalid_argument("All rows must have the same length");
+    }
     if(array.size() == 0)
         return vec2();
 
diff --git a/src/api/util.cpp b/src/api/util.cpp
index 294fae1..53a699d 100644
--- a/src/api/util.cpp
+++ b/src/api/util.cpp
@@ -191,6 +191,10 @@ vec2 gridpp::calc_quantile(const vec3& array, const vec2& quantile) {
     if(Y == 0)
         return vec2();
     int X = array[0].size();
+    for(int y = 0; y < Y; y++) {
+        if(array[y].size() != X)
+            throw std::invalid_argument("All rows must have the same length");
+    }
     if(X == 0)
         return vec2();
     int T = array[0][0].size();
diff --git a/src/api/window.cpp b/src/api/window.cpp
index 0f963c6..9ff9ff2 100644
--- a/src/api/window.cpp
+++ b/src/api/window.cpp
@@ -17,6 +17,10 @@ vec2 gridpp::window(const vec2& array,
     }
 
     int nX = array[0].size();
+    for(int y = 0; y < nY; y++) {
+        if(array[y].size() != nX)
+            throw std::invalid_argument("All rows must have the same length");
+    }
     if(nX == 0) {
         return gridpp::init_vec2(nY, 0);
     }
-- 
2.43.0


From 2a18f17a50f800379c35f8109a123c818de7b00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:34 +0000
Subject: [PATCH 063/117] fix: let the option max set a variable's maximum

---
 src/client/Variable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Variable.cpp b/src/client/Variable.cpp
index 4de36d6..7529106 100644
--- a/src/client/Variable.cpp
+++ b/src/client/Variable.cpp
@@ -91,7 +91,7 @@ void Variable::add(const Options& iOptions) {
       mMin = min;
    }
    float max;
-   if(iOptions.getValue("min", max)) {
+   if(iOptions.getValue("max", max)) {
       mMax = max;
    }
 }
-- 
2.43.0


From 71112d4cdc8420ef1fe0dfd3d0312d746ff2ee6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:34 +0000
Subject: [PATCH 064/117] fix: dates and times of unix times before 1970

---
 src/client/Util.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client/Util.cpp b/src/client/Util.cpp
index 5d62b79..fa26615 100644
--- a/src/client/Util.cpp
+++ b/src/client/Util.cpp
@@ -163,13 +163,15 @@ std::string Util::gridppVersion() {
 }
 int Util::getDate(time_t iUnixTime) {
    boost::gregorian::date epoch(1970,1,1);
-   boost::gregorian::date_duration diff(iUnixTime/86400);
+   // Round down, also for times before 1970
+   boost::gregorian::date_duration diff((iUnixTime - (iUnixTime % 86400 + 86400) % 86400)/86400);
    boost::gregorian::date newDate = epoch + diff;
 
    return newDate.year() * 10000 + newDate.month() * 100 + newDate.day();
 }
 int Util::getTime(time_t iUnixTime) {
-   int numSeconds = iUnixTime % 86400;
+   // Seconds since midnight, also for times before 1970
+   int numSeconds = (iUnixTime % 86400 + 86400) % 86400;
    int hh = numSeconds / 3600;
    int mm = (numSeconds / 60) % 60;
    int ss = numSeconds % 60;
-- 
2.43.0


From 2bb26709550533b9e50611309f6e960e71bf530c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:34 +0000
Subject: [PATCH 065/117] fix: distance between almost identical locations

---
 src/client/Util.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/Util.cpp b/src/client/Util.cpp
index fa26615..75b2e84 100644
--- a/src/client/Util.cpp
+++ b/src/client/Util.cpp
@@ -132,6 +132,8 @@ float Util::getDistance(float lat1, float lon1, float lat2, float lon2, bool app
       double ratio = cos(lat1r)*cos(lon1r)*cos(lat2r)*cos(lon2r)
                    + cos(lat1r)*sin(lon1r)*cos(lat2r)*sin(lon2r)
                    + sin(lat1r)*sin(lat2r);
+      // Rounding errors can give values outside the domain of acos
+      ratio = std::max(-1.0, std::min(1.0, ratio));
       double dist = acos(ratio)*radiusEarth;
       return (float) dist;
    }
-- 
2.43.0


From 50e3baf061dc1d8b27b6b789c03f5c9638d8b486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:34 +0000
Subject: [PATCH 066/117] fix: inverse logit of large values

---
 src/client/Util.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/Util.cpp b/src/client/Util.cpp
index 75b2e84..7146ef1 100644
--- a/src/client/Util.cpp
+++ b/src/client/Util.cpp
@@ -270,7 +270,8 @@ float Util::logit(float p) {
 float Util::invLogit(float x) {
    if(!Util::isValid(x))
       return Util::MV;
-   return exp(x)/(exp(x)+1);
+   // This form does not overflow for large x
+   return 1/(1+exp(-x));
 }
 
 bool Util::hasChar(std::string iString, char iChar) {
-- 
2.43.0


From d35a2708b04cc52774a04d4069c51a61c7dbd1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:34 +0000
Subject: [PATCH 067/117] fix: give a missing inverse for matrices that are
 nearly singular

---
 src/client/Util.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/client/Util.cpp b/src/client/Util.cpp
index 7146ef1..1a40beb 100644
--- a/src/client/Util.cpp
+++ b/src/client/Util.cpp
@@ -493,8 +493,22 @@ vec2 Util::inverse(const vec2 iMatrix) {
    // create a permutation matrix for the LU-factorization
    pmatrix pm(matrix.size1());
 
-   // perform LU-factorization
-   int res = lu_factorize(matrix,pm);
+   int res = 1;
+   try {
+      // perform LU-factorization
+      res = lu_factorize(matrix,pm);
+
+      // Initialize to identity matrix
+      inverseMatrix.assign(identity_matrix<float>(matrix.size1()));
+
+      // Compute the inverse
+      if(res == 0)
+         lu_substitute(matrix, pm, inverseMatrix);
+   }
+   catch(const std::exception&) {
+      // Boost's consistency checks failed, because the matrix is too close to singular
+      res = 1;
+   }
 
    if( res != 0 ) {
       Util::warning("Could not compute inverse, unstable.");
@@ -507,12 +521,6 @@ vec2 Util::inverse(const vec2 iMatrix) {
       return matrixVec;
    }
 
-   // Initialize to identity matrix
-   inverseMatrix.assign(identity_matrix<float>(matrix.size1()));
-
-   // Compute the inverse
-   lu_substitute(matrix, pm, inverseMatrix);
-
    // Convert to vec2
    vec2 inverseVec;
    inverseVec.resize(N);
-- 
2.43.0


From 1ead18cc63ccc4f347299f27642564d859f2e495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:37 +0000
Subject: [PATCH 068/117] fix: inverse logit of large values keeps the digits
 of other values

---
 src/client/Util.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/client/Util.cpp b/src/client/Util.cpp
index 1a40beb..f0a8832 100644
--- a/src/client/Util.cpp
+++ b/src/client/Util.cpp
@@ -270,8 +270,9 @@ float Util::logit(float p) {
 float Util::invLogit(float x) {
    if(!Util::isValid(x))
       return Util::MV;
-   // This form does not overflow for large x
-   return 1/(1+exp(-x));
+   // exp(x) overflows for large x
+   float odds = exp(x);
+   return std::isinf(odds) ? 1 : odds/(odds+1);
 }
 
 bool Util::hasChar(std::string iString, char iChar) {
-- 
2.43.0


From 993403be10565678ce1403219e6717a0527db728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:09 +0000
Subject: [PATCH 069/117] fix: nearest neighbour search of the client near the
 poles and the date line

---
 src/client/KDTree.cpp | 33 ++++++++++++++++++++++++++++++++-
 src/client/KDTree.h   |  7 +++++++
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/src/client/KDTree.cpp b/src/client/KDTree.cpp
index 36fd406..6f00bff 100644
--- a/src/client/KDTree.cpp
+++ b/src/client/KDTree.cpp
@@ -1,6 +1,7 @@
 #include "KDTree.h"
 
 #include <limits>
+#include <math.h>
 
 KDTree::KDTree() : mRoot(NULL) {
 }
@@ -76,6 +77,13 @@ void KDTree::subTree(indexdVec& iLonLat,
 
    size_t len = to - from + 1;
 
+   root->minLon = iLonLat[from].lon;
+   root->maxLon = iLonLat[from].lon;
+   for(size_t i = from; i <= to; ++i) {
+      root->minLon = std::min(root->minLon, iLonLat[i].lon);
+      root->maxLon = std::max(root->maxLon, iLonLat[i].lon);
+   }
+
    if(len == 1) {
       root->lon = iLonLat[from].lon;
       root->lat = iLonLat[from].lat;
@@ -127,6 +135,27 @@ const KDTree::TreeNode* KDTree::firstGuess(const unode& root, const float lon, c
    return root.get();
 }
 
+float KDTree::minDistance(const TreeNode& root, const float lon, const float lat) {
+   // Angle (in degrees) to the nearest meridian in the subtree, allowing for the date line
+   double angle = 180;
+   for(int k = -2; k <= 2; ++k) {
+      double curr = lon + 360 * k;
+      if(curr >= root.minLon && curr <= root.maxLon)
+         return 0;
+      angle = std::min(angle, std::min(fabs(curr - root.minLon), fabs(curr - root.maxLon)));
+   }
+   double dist;
+   if(angle >= 90) {
+      // The pole is the closest point on the meridian
+      dist = (90 - fabs(lat)) / 180 * M_PI * Util::radiusEarth;
+   }
+   else {
+      dist = asin(cos(lat / 180 * M_PI) * sin(angle / 180 * M_PI)) * Util::radiusEarth;
+   }
+   // Allow for rounding errors in Util::getDistance
+   return std::max(0.0, dist - 10);
+}
+
 const KDTree::queryRes KDTree::nearestNeighbour(const unode& root, const float lon, const float lat, const float oldBest) {
 
    const TreeNode * nearLeaf = firstGuess(root, lon, lat);
@@ -147,7 +176,9 @@ const KDTree::queryRes KDTree::nearestNeighbour(const unode& root, const float l
 
       bool cross;
       if(currentLeaf->xsection) {
-         cross = Util::getDistance(lat, lon, lat, currentLeaf->lon) < currBest;
+         // Which subtree has not been searched?
+         const TreeNode* other = currentLeaf->left.get() == nearLeaf ? currentLeaf->right.get() : currentLeaf->left.get();
+         cross = other != NULL && minDistance(*other, lon, lat) < currBest;
       } else {
          cross = Util::getDistance(lat, lon, currentLeaf->lat, lon) < currBest;
       }
diff --git a/src/client/KDTree.h b/src/client/KDTree.h
index 1e76fd9..1729ccd 100644
--- a/src/client/KDTree.h
+++ b/src/client/KDTree.h
@@ -24,6 +24,9 @@ class KDTree {
          bool xsection;
          float lon;
          float lat;
+         // Range of longitudes in this subtree
+         float minLon;
+         float maxLon;
          size_t ipos;
          size_t jpos;
 
@@ -37,6 +40,8 @@ class KDTree {
             xsection(other.xsection),
             lon(other.lon),
             lat(other.lat),
+            minLon(other.minLon),
+            maxLon(other.maxLon),
             ipos(other.ipos),
             jpos(other.jpos),
             left(NULL),
@@ -81,6 +86,8 @@ class KDTree {
 
 
       static const queryRes nearestNeighbour(const unode& root, const float lon, const float lat, const float oldBest);
+      //! A distance that is no greater than the distance to any point in the subtree
+      static float minDistance(const TreeNode& root, const float lon, const float lat);
       static const TreeNode* firstGuess(const unode& root, const float lon, const float lat);
       static void subTree(indexdVec& iLonLat,
                           const size_t from,
-- 
2.43.0


From e52ffa0d5aecfe5c0ed0d487b88665981413b5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:09 +0000
Subject: [PATCH 070/117] fix: limits, missing values, and rounding in the
 gradient downscaler

---
 src/client/Downscaler/Gradient.cpp | 50 ++++++++++++++++++------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/src/client/Downscaler/Gradient.cpp b/src/client/Downscaler/Gradient.cpp
index f708cee..67c5ebf 100644
--- a/src/client/Downscaler/Gradient.cpp
+++ b/src/client/Downscaler/Gradient.cpp
@@ -8,6 +8,8 @@ DownscalerGradient::DownscalerGradient(const Variable& iInputVariable, const Var
       mElevRadius(3),
       mMinElevGradient(Util::MV),
       mMaxElevGradient(Util::MV),
+      mMinLafGradient(Util::MV),
+      mMaxLafGradient(Util::MV),
       mLogTransform(false),
       mConstantElevGradient(Util::MV),
       mDefaultElevGradient(0),
@@ -109,6 +111,13 @@ void DownscalerGradient::downscaleCore(const File& iInput, File& iOutput) const
          for(int j = 0; j < nLon; j++) {
             int Icenter = nearestI[i][j];
             int Jcenter = nearestJ[i][j];
+            if(!Util::isValid(Icenter) || !Util::isValid(Jcenter)) {
+               // The output point has no position
+               for(int e = 0; e < nEns; e++) {
+                  ofield(i,j,e) = Util::MV;
+               }
+               continue;
+            }
             assert(Icenter < ielevs.size());
             assert(Jcenter < ielevs[Icenter].size());
             for(int e = 0; e < nEns; e++) {
@@ -197,7 +206,7 @@ void DownscalerGradient::downscaleCore(const File& iInput, File& iOutput) const
                            if(Util::isValid(curr)) {
                               if(!Util::isValid(min) || curr < min)
                                  min = curr;
-                              else if(!Util::isValid(max) || curr > max)
+                              if(!Util::isValid(max) || curr > max)
                                  max = curr;
                            }
                         }
@@ -249,7 +258,7 @@ bool DownscalerGradient::calcBaseValues(const Field& iField, const vec2& iElevs,
       iLafMean = Util::MV;
    }
    else {
-      iLafMean = totalLaf / counter;
+      iLafMean = totalLaf / counterLaf;
    }
 
    return counter > 0;
@@ -285,13 +294,6 @@ float DownscalerGradient::calcLafGradient(int i, int j, int e, int Icenter, int
       value = minT + (maxT  - minT) / (maxLaf - minLaf) * (laf - minLaf)
       value = minT + gradient * dLaf
    */
-   // Compute the average temperature and LAF in a small radius
-   float minLaf = Util::MV;
-   float maxLaf = Util::MV;
-   float minElev = Util::MV;
-   float maxElev = Util::MV;
-   float minT = Util::MV;
-   float maxT = Util::MV;
    // std::vector<float> values(mSearchRadii.size(), Util::MV);
    float value = 0;
    int counter = 0;
@@ -300,16 +302,21 @@ float DownscalerGradient::calcLafGradient(int i, int j, int e, int Icenter, int
       int numSeaPoints = 0;
       int numPoints = 0;
       int searchRadius = mLafSearchRadii[r];
+      // Find the points with the smallest and largest LAF
+      float minLaf = Util::MV;
+      float maxLaf = Util::MV;
+      float minElev = Util::MV;
+      float maxElev = Util::MV;
+      float minT = Util::MV;
+      float maxT = Util::MV;
       for(int ii = std::max(0, Icenter-searchRadius); ii <= std::min(iField.getNumY()-1, Icenter+searchRadius); ii++) {
          for(int jj = std::max(0, Jcenter-searchRadius); jj <= std::min(iField.getNumX()-1, Jcenter+searchRadius); jj++) {
             float currLaf  = iLafs[ii][jj];
             float currElev = iElevs[ii][jj];
             float currValue = iField(ii,jj,e);
-            if(Util::isValid(currValue)) {
+            if(Util::isValid(currValue) && Util::isValid(currLaf)) {
                numSeaPoints += currLaf < 0.5;
                numPoints++;
-            }
-            if(Util::isValid(currValue) && Util::isValid(currLaf)) {
                if(!Util::isValid(minLaf) || currLaf < minLaf) {
                   minLaf = currLaf;
                   minElev = currElev;
@@ -376,6 +383,11 @@ float DownscalerGradient::calcLafGradient(int i, int j, int e, int Icenter, int
    }
    else {
       gradient = value / totalWeight;
+      // Check against minimum and maximum gradients
+      if(Util::isValid(mMinLafGradient) && gradient < mMinLafGradient)
+         gradient = mMinLafGradient;
+      if(Util::isValid(mMaxLafGradient) && gradient > mMaxLafGradient)
+         gradient = mMaxLafGradient;
    }
    return gradient;
 }
@@ -395,10 +407,10 @@ float DownscalerGradient::calcElevGradient(int i, int j, int e, int Icenter, int
          forecasts to go outside its domain (e.g. negative winds). If this occurs,
          the nearest neighbour is used.
       */
-      float meanXY  = 0; // elev*T
-      float meanX   = 0; // elev
-      float meanY   = 0; // T
-      float meanXX  = 0; // elev*elev
+      double meanXY  = 0; // elev*T
+      double meanX   = 0; // elev
+      double meanY   = 0; // T
+      double meanXX  = 0; // elev*elev
       int   counter = 0;
       float min = Util::MV;
       float max = Util::MV;
@@ -413,10 +425,10 @@ float DownscalerGradient::calcElevGradient(int i, int j, int e, int Icenter, int
                y = log(y);
             }
             if(Util::isValid(x) && Util::isValid(y) &&(!Util::isValid(currLaf) || currLaf >= mMinLafForElevGradient)) {
-               meanXY += x*y;
+               meanXY += (double) x*y;
                meanX  += x;
                meanY  += y;
-               meanXX += x*x;
+               meanXX += (double) x*x;
                counter++;
                // Found a new min
                if(!Util::isValid(min) || x < min)
@@ -437,7 +449,7 @@ float DownscalerGradient::calcElevGradient(int i, int j, int e, int Icenter, int
       // Use model gradient if:
       // 1) sufficient elevation difference in neighbourhood
       // 2) regression parameters are stable enough
-      if(counter >= mMinNumPoints && Util::isValid(elevDiff) && elevDiff >= mMinElevDiff && meanXX != meanX*meanX) {
+      if(counter >= mMinNumPoints && Util::isValid(elevDiff) && elevDiff >= mMinElevDiff) {
          // Estimate lapse rate
          meanXY /= counter;
          meanX  /= counter;
-- 
2.43.0


From 17770ae9745da5b2e46deeb5eda89d309f585d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:09 +0000
Subject: [PATCH 071/117] fix: bilinear downscaler on irregular, descending,
 and small grids

---
 src/client/Downscaler/Bilinear.cpp | 115 ++++++++++++-----------------
 1 file changed, 49 insertions(+), 66 deletions(-)

diff --git a/src/client/Downscaler/Bilinear.cpp b/src/client/Downscaler/Bilinear.cpp
index 152ac23..6420f24 100644
--- a/src/client/Downscaler/Bilinear.cpp
+++ b/src/client/Downscaler/Bilinear.cpp
@@ -125,7 +125,7 @@ vec2 DownscalerBilinear::downscaleVec(const vec2& iInput,
          else {
             // The point is outside the input domain. Revert to nearest neighbour
             // Util::warning("Point is outside domain, cannot bilinearly interpolate");
-            output[i][j] = iInput[I][J];
+            output[i][j] = Util::isValid(I) && Util::isValid(J) ? iInput[I][J] : Util::MV;
          }
       }
    }
@@ -181,7 +181,7 @@ void DownscalerBilinear::downscaleField(const Field& iInput, Field& iOutput,
             // The point is outside the input domain. Revert to nearest neighbour
             // Util::warning("Point is outside domain, cannot bilinearly interpolate");
             for(int ee = 0; ee < nEns; ee++) {
-               iOutput(i,j,ee) = iInput(I, J, ee);
+               iOutput(i,j,ee) = Util::isValid(I) && Util::isValid(J) ? iInput(I, J, ee) : Util::MV;
             }
          }
       }
@@ -191,11 +191,16 @@ void DownscalerBilinear::downscaleField(const Field& iInput, Field& iOutput,
 bool DownscalerBilinear::findCoords(float iLat, float iLon, const vec2& iLats, const vec2& iLons, int I, int J, int& I1, int& J1, int& I2, int& J2) {
    // Use the four points surrounding the lookup point. Use the nearest neighbour
    // and then figure out what side of this point the other there points are.
+   int nI = iLats.size();
+   int nJ = iLats[0].size();
+   // There are no surrounding points if the lookup point has no position, or on a grid with one row
+   // or column
+   if(!Util::isValid(I) || !Util::isValid(J) || nI < 2 || nJ < 2)
+      return false;
+
    // Find out if current lookup point is right/above the nearest neighbour
    bool isRight = iLon > iLons[I][J];
    bool isAbove = iLat > iLats[I][J];
-   int nI = iLats.size();
-   int nJ = iLats[0].size();
 
    assert(I < nI && I >= 0);
    assert(J < nJ && J >= 0);
@@ -225,12 +230,12 @@ bool DownscalerBilinear::findCoords(float iLat, float iLon, const vec2& iLats, c
    if(isRight && J == 0 && iLons[I][0] > iLons[I][1])
       return false;
    // x 3 2 1 0
-   if(!isRight && I == nJ-1 && iLons[I][J-1] > iLons[I][J])
+   if(!isRight && J == nJ-1 && iLons[I][J-1] > iLons[I][J])
       return false;
 
    // Are the lats/lons increating when the index increases?
-   bool Iinc = (I == 0) || (iLats[I][J] > iLats[I-1][J]);
-   bool Jinc = (J == 0) || (iLons[I][J] > iLons[I][J-1]);
+   bool Iinc = (I == 0) ? (iLats[1][J] > iLats[0][J]) : (iLats[I][J] > iLats[I-1][J]);
+   bool Jinc = (J == 0) ? (iLons[I][1] > iLons[I][0]) : (iLons[I][J] > iLons[I][J-1]);
 
    getI(I, isAbove, Iinc, I1, I2);
    getJ(J, isRight, Jinc, J1, J2);
@@ -312,7 +317,9 @@ bool DownscalerBilinear::findCoords(float iLat, float iLon, const vec2& iLats, c
       if(isRight && J == 0 && iLons[I][0] > iLons[I][1])
          return false;
       // x 3 2 1 0
-      if(!isRight && I == nJ-1 && iLons[I][J-1] > iLons[I][J])
+      if(!isRight && J == nJ-1 && iLons[I][J-1] > iLons[I][J])
+         return false;
+      if(I1 < 0 || I2 >= nI || J1 < 0 || J2 >= nJ)
          return false;
       x0 = iLons[I1][J1];
       x1 = iLons[I2][J1];
@@ -356,8 +363,10 @@ bool DownscalerBilinear::calcST(float x, float y, float x0, float x1, float x2,
    float X4 = x2;
 
    bool rectangularGrid = (X1 == X3 && X2 == X4 && Y1 == Y2 && Y3 == Y4);
-   bool verticalParallel = fabs((X3 - X1)*(Y4 - Y2) - (X4 - X2)*(Y3 - Y1)) <= 1e-6;
-   bool horizontalParallel = fabs((X2 - X1)*(Y4 - Y3) - (X4 - X3)*(Y2 - Y1)) <= 1e-6;
+   // The tolerance is relative to the size of the grid cell
+   float tol = 1e-4 * fabs((X2 - X1)*(Y3 - Y1) - (X3 - X1)*(Y2 - Y1));
+   bool verticalParallel = fabs((X3 - X1)*(Y4 - Y2) - (X4 - X2)*(Y3 - Y1)) <= tol;
+   bool horizontalParallel = fabs((X2 - X1)*(Y4 - Y3) - (X4 - X3)*(Y2 - Y1)) <= tol;
 
    // Compute s and t
    if(verticalParallel && horizontalParallel)
@@ -389,63 +398,35 @@ bool DownscalerBilinear::calcParallelogram(float x, float y, float X1, float X2,
 }
 
 bool DownscalerBilinear::calcGeneral(float x, float y, float x0, float x1, float x2, float x3, float y0, float y1, float y2, float y3, float &t, float &s) {
-   // std::cout << "Method general" << std::endl;
-   float a = -x0 + x2;
-   float b = -x0 + x1;
-   float c = x0 - x1 - x2 + x3;
-   float d = x - x0;
-   float e = -y0 + y2;
-   float f = -y0 + y1;
-   float g = y0 - y1 - y2 + y3;
-   float h = y - y0;
-   float alpha=Util::MV, beta=Util::MV;
-   float Y1 = y1;
-   float Y2 = y3;
-   float Y3 = y0;
-   float Y4 = y2;
-   float X1 = x1;
-   float X2 = x3;
-   float X3 = x0;
-   float X4 = x2;
-   float X31 = X3 - X1;
-   float X21 = X2 - X1;
-   float Y42 = Y4 - Y2;
-   float Y21 = Y2 - Y1;
-   float Y31 = Y3 - Y1;
-   float Y43 = Y4 - Y3;
-   float X42 = X4 - X2;
-   float X43 = X4 - X3;
-   if(2 * c * e - 2 * a * g != 0 && 2 * c * f - 2 * b * g != 0) {
-      alpha = -(b * e - a * f + d * g - c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h, 2)))/(2 * c * e - 2 * a * g);
-      beta  = (b * e - a * f - d * g + c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)))/(2 * c * f - 2 * b * g);
-   }
-   else if(2 * c * f - 2 * b * g == 0) {
-      // std::cout << "Need to diagnose t" << std::endl;
-      alpha = -(b * e - a * f + d * g - c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h, 2)))/(2 * c * e - 2 * a * g);
-      float s = alpha;
-      float t;
-      if(Y3 + Y43 * s - Y1 - Y21 * s == 0) {
-         assert(X3 + X43 * s - X1 - X21 * s != 0);
-         t = (x - X1 - X21 * s) / (X3 + X43 * s - X1 - X21 * s);
+   // Solve p = p0 + alpha * e + beta * f + alpha * beta * g for alpha and beta, where h = p - p0
+   double ex = (double) x2 - x0, ey = (double) y2 - y0;
+   double fx = (double) x1 - x0, fy = (double) y1 - y0;
+   double gx = (double) x0 - x1 - x2 + x3, gy = (double) y0 - y1 - y2 + y3;
+   double hx = (double) x - x0, hy = (double) y - y0;
+
+   // Eliminating alpha gives the quadratic equation k2 * beta^2 + k1 * beta + k0 = 0. Avoid subtracting
+   // numbers of similar size when computing its roots, since k2 is very small when the cell is almost a
+   // parallelogram.
+   double k2 = gx * fy - gy * fx;
+   double k1 = ex * fy - ey * fx + hx * gy - hy * gx;
+   double k0 = hx * ey - hy * ex;
+   double disc = std::max(0.0, k1 * k1 - 4 * k0 * k2);
+   double q = -0.5 * (k1 + (k1 < 0 ? -sqrt(disc) : sqrt(disc)));
+   double roots[2] = {k0 / q, q / k2};
+   double alpha = Util::MV, beta = Util::MV;
+   double minExcess = INFINITY;
+   for(int i = 0; i < 2; i++) {
+      // Use the root that is inside the cell, or the one closest to it
+      double currBeta = roots[i];
+      double dx = ex + currBeta * gx;
+      double dy = ey + currBeta * gy;
+      double currAlpha = fabs(dx) > fabs(dy) ? (hx - currBeta * fx) / dx : (hy - currBeta * fy) / dy;
+      double excess = std::max(fabs(currAlpha - 0.5), fabs(currBeta - 0.5)) - 0.5;
+      if(excess < minExcess) {
+         minExcess = std::max(0.0, excess);
+         alpha = currAlpha;
+         beta = currBeta;
       }
-      else {
-         t = (y - Y1 - Y21 * s) / (Y3 + Y43 * s - Y1 - Y21 * s);
-      }
-      beta = 1 - t;
-   }
-   else if(2 * c * e - 2 * a * g == 0) {
-      // std::cout << "Need to diagnose s" << std::endl;
-      beta  = (b * e - a * f - d * g + c * h + sqrt(-4 * (c * e - a * g) * (d * f - b * h) + pow(b * e - a * f + d * g - c * h,2)))/(2 * c * f - 2 * b * g);
-      float t =  1 - beta;
-      float s;
-      if(Y2 + Y42 * t - Y1 - Y31 * t == 0) {
-         assert(X2 + X42 * t - X1 - X31 * t != 0);
-         s = (x - X1 - X31 * t) / (X2 + X42 * t - X1 - X31 * t);
-      }
-      else {
-         s = (y - Y1 - Y31 * t) / (Y2 + Y42 * t - Y1 - Y31 * t);
-      }
-      alpha = s;
    }
    s = alpha;
    t = 1 - beta;
@@ -474,6 +455,7 @@ bool DownscalerBilinear::getI(int I, bool isAbove, bool Iinc, int& I1, int& I2)
          I2 = I + 1;
       }
    }
+   return true;
 }
 
 bool DownscalerBilinear::getJ(int J, bool isRight, bool Jinc, int& J1, int& J2) {
@@ -498,6 +480,7 @@ bool DownscalerBilinear::getJ(int J, bool isRight, bool Jinc, int& J1, int& J2)
          J2 = J + 1;
       }
    }
+   return true;
 }
 std::string DownscalerBilinear::description(bool full) {
    std::stringstream ss;
-- 
2.43.0


From a383394e849a17f25e8c892ee68cbc756b2548a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:09 +0000
Subject: [PATCH 072/117] fix: downscalers for output points without a position

---
 src/client/Downscaler/NearestNeighbour.cpp | 8 ++++----
 src/client/Downscaler/Pressure.cpp         | 7 +++++++
 src/client/Downscaler/Smart.cpp            | 4 ++++
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/client/Downscaler/NearestNeighbour.cpp b/src/client/Downscaler/NearestNeighbour.cpp
index 81a147c..0df22f5 100644
--- a/src/client/Downscaler/NearestNeighbour.cpp
+++ b/src/client/Downscaler/NearestNeighbour.cpp
@@ -92,15 +92,15 @@ vec2 DownscalerNearestNeighbour::downscaleVec(const vec2& iInput,
          assert(j < nearestJ[i].size());
          int I = nearestI[i][j];
          int J = nearestJ[i][j];
-         assert(I < iInput.size());
-         assert(J < iInput[I].size());
-         assert(I >= 0);
-         assert(J >= 0);
          assert(i < output.size());
          assert(j < output[i].size());
          assert(i >= 0);
          assert(j >= 0);
          if(Util::isValid(I) && Util::isValid(J)) {
+            assert(I < iInput.size());
+            assert(J < iInput[I].size());
+            assert(I >= 0);
+            assert(J >= 0);
             output[i][j] = iInput[I][J];
          }
          else
diff --git a/src/client/Downscaler/Pressure.cpp b/src/client/Downscaler/Pressure.cpp
index ae6d06f..48d8e36 100644
--- a/src/client/Downscaler/Pressure.cpp
+++ b/src/client/Downscaler/Pressure.cpp
@@ -35,6 +35,13 @@ void DownscalerPressure::downscaleCore(const File& iInput, File& iOutput) const
          for(int j = 0; j < nLon; j++) {
             int Icenter = nearestI[i][j];
             int Jcenter = nearestJ[i][j];
+            if(!Util::isValid(Icenter) || !Util::isValid(Jcenter)) {
+               // The output point has no position
+               for(int e = 0; e < nEns; e++) {
+                  ofield(i,j,e) = Util::MV;
+               }
+               continue;
+            }
             assert(Icenter < ielevs.size());
             assert(Jcenter < ielevs[Icenter].size());
             for(int e = 0; e < nEns; e++) {
diff --git a/src/client/Downscaler/Smart.cpp b/src/client/Downscaler/Smart.cpp
index 81a9b7c..4cbe07b 100644
--- a/src/client/Downscaler/Smart.cpp
+++ b/src/client/Downscaler/Smart.cpp
@@ -81,6 +81,10 @@ void DownscalerSmart::getSmartNeighbours(const File& iFrom, const File& iTo, vec
       for(int j = 0; j < nLon; j++) {
          int Ic = Icenter[i][j];
          int Jc = Jcenter[i][j];
+         if(!Util::isValid(Ic) || !Util::isValid(Jc)) {
+            // The output point has no position and therefore no neighbours
+            continue;
+         }
          float oelev = oelevs[i][j];
          float nnElev = ielevs[Ic][Jc];
          bool isWithinMinElev = Util::isValid(oelev) && Util::isValid(nnElev) && Util::isValid(mMinElevDiff) && 
-- 
2.43.0


From bd30f3bf3c38557f28121c68ff55866dacb62d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:09 +0000
Subject: [PATCH 073/117] fix: reading and writing of text parameter files

---
 src/client/ParameterFile/Text.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/client/ParameterFile/Text.cpp b/src/client/ParameterFile/Text.cpp
index 4c38636..9103fec 100644
--- a/src/client/ParameterFile/Text.cpp
+++ b/src/client/ParameterFile/Text.cpp
@@ -23,11 +23,10 @@ ParameterFileText::ParameterFileText(const Options& iOptions, bool iIsNew) : Par
    int latPos = Util::MV;
    int lonPos = Util::MV;
    int elevPos = Util::MV;
-   while(ifs.good()) {
-      char line[10000];
-      ifs.getline(line, 10000, '\n');
-      if(ifs.good() && line[0] != '#') {
-         header = std::string(line);
+   std::string line;
+   while(std::getline(ifs, line)) {
+      if(line[0] != '#') {
+         header = line;
          std::stringstream ss(header);
          if(columnNames.size() == 0) {
             int currCounter = 0;
@@ -102,7 +101,7 @@ ParameterFileText::ParameterFileText(const Options& iOptions, bool iIsNew) : Par
             }
             times.insert(time);
             Location location(Util::MV, Util::MV, Util::MV);
-            if(Util::isValid(lat) && Util::isValid(lon) && Util::isValid(elev)) {
+            if(Util::isValid(lat) && Util::isValid(lon)) {
                location = Location(lat, lon, elev);
             }
 
@@ -179,14 +178,17 @@ void ParameterFileText::write(const std::string& iFilename) const {
    }
 
    std::map<Location, std::vector<Parameters> >::const_iterator it;
+   // Write enough digits to get the same values when the file is read
+   ofs.precision(9);
    // Loop over times
    if(isLocationDependent())
-      ofs << "time lat lon elev" << std::endl;
+      ofs << "time lat lon elev";
    else
-      ofs << "time" << std::endl;
+      ofs << "time";
    for(int i = 0; i < getNumParameters(); i++) {
       ofs << " param" << i;
    }
+   ofs << std::endl;
    for(it = mParameters.begin(); it != mParameters.end(); it++) {
       // Loop over locations
       const Location& location = it->first;
@@ -200,7 +202,7 @@ void ParameterFileText::write(const std::string& iFilename) const {
             }
             // Loop over parameter values
             for(int i = 0; i < parameters.size(); i++) {
-               ofs << " " << parameters[i];
+               ofs << " " << (Util::isValid(parameters[i]) ? parameters[i] : Util::MV);
             }
             ofs << std::endl;
          }
@@ -211,7 +213,7 @@ void ParameterFileText::write(const std::string& iFilename) const {
 
 bool ParameterFileText::isLocationDependent() const {
    bool locationDependent = mParameters.size() > 1;
-   if(!locationDependent) {
+   if(mParameters.size() == 1) {
       Location location = mParameters.begin()->first;
       if(Util::isValid(location.lat()) && Util::isValid(location.lon()))
          locationDependent = true;
-- 
2.43.0


From b0483e4717af9f0f959e696339d20ee0d657385c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:09 +0000
Subject: [PATCH 074/117] fix: lookup of parameters

---
 src/client/ParameterFile/ParameterFile.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/client/ParameterFile/ParameterFile.cpp b/src/client/ParameterFile/ParameterFile.cpp
index 1d56324..98ae48b 100644
--- a/src/client/ParameterFile/ParameterFile.cpp
+++ b/src/client/ParameterFile/ParameterFile.cpp
@@ -21,6 +21,7 @@ ParameterFile::ParameterFile(const Options& iOptions, bool iIsNew) :
 void ParameterFile::recomputeTree() const {
    if(isLocationDependent()) {
       vec2 lats, lons;
+      mLocations.clear();
       LocationParameters::const_iterator it = mParameters.begin();
       for(it = mParameters.begin(); it != mParameters.end(); it++) {
          const Location loc = it->first;
@@ -75,12 +76,10 @@ Parameters ParameterFile::getParameters(int iTime) const {
    if(isLocationDependent()) {
       Util::error("Cannot retrieve location-independent parameters for a location-dependent file");
    }
-   // Find the right location to use
-   LocationParameters::const_iterator it;
-   if(mParameters.size() == 1) {
-      // One set of parameters for all locations
-       it = mParameters.begin();
-   }
+   if(mParameters.size() == 0)
+      return Parameters();
+   // One set of parameters for all locations
+   LocationParameters::const_iterator it = mParameters.begin();
 
    // Find the right time to use
    const std::vector<Parameters>& timeParameters = it->second;
@@ -189,6 +188,11 @@ bool ParameterFile::getNearestLocation(int iTime, const Location& iLocation, Loc
 }
 
 void ParameterFile::setParameters(Parameters iParameters, int iTime, const Location& iLocation) {
+   if(iTime < 0) {
+      std::stringstream ss;
+      ss << "Could not set parameters for time " << iTime;
+      Util::error(ss.str());
+   }
    setMaxTimeIndex(std::max(getMaxTimeIndex(), iTime));
    LocationParameters::const_iterator it = mParameters.find(iLocation);
    if(mParameters[iLocation].size() <= iTime) {
@@ -222,7 +226,7 @@ std::vector<int> ParameterFile::getTimes() const {
 
 bool ParameterFile::isLocationDependent() const {
    bool locationDependent = mParameters.size() > 1;
-   if(!locationDependent) {
+   if(mParameters.size() == 1) {
       Location location = mParameters.begin()->first;
       if(Util::isValid(location.lat()) && Util::isValid(location.lon()))
          locationDependent = true;
-- 
2.43.0


From 0b55a05cfa68daf9cb6b956c0b4f2c4347c4d465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:09 +0000
Subject: [PATCH 075/117] fix: reading and writing of netcdf parameter files

---
 src/client/ParameterFile/Netcdf.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/client/ParameterFile/Netcdf.cpp b/src/client/ParameterFile/Netcdf.cpp
index ac32be4..f8bc16e 100644
--- a/src/client/ParameterFile/Netcdf.cpp
+++ b/src/client/ParameterFile/Netcdf.cpp
@@ -165,7 +165,7 @@ ParameterFileNetcdf::ParameterFileNetcdf(const Options& iOptions, bool iIsNew) :
    std::stringstream ss0;
    ss0 << "Parameter sizes (lat, lon, time, coeff): " << nLat << " " << nLon << " " << nTime << " " << nCoeff;
    Util::info(ss0.str());
-   std::vector<int> indices(4, 0);
+   std::vector<int> indices(ndims, 0);
    for(int i = 0; i < lats.size(); i++) {
       indices[latDimIndex] = i;
       for(int j = 0; j < lats[i].size(); j++) {
@@ -298,8 +298,10 @@ void ParameterFileNetcdf::write() const {
    }
    int nCoeff = 0;
    for(int i = 0; i < times.size(); i++) {
-      Parameters par0 = getParameters(times[i], locations[0], false);
-      nCoeff = std::max(nCoeff, par0.size());
+      for(int k = 0; k < locations.size(); k++) {
+         Parameters par0 = getParameters(times[i], locations[k], false);
+         nCoeff = std::max(nCoeff, par0.size());
+      }
    }
 
    if(nCoeff == 0) {
@@ -312,9 +314,9 @@ void ParameterFileNetcdf::write() const {
 
    // Create dimensions
    int dTime = createDim(mFile, "time", nTime);
-   int dLon  = createDim(mFile, "lon", nLon);
-   int dLat  = createDim(mFile, "lat", nLat);
-   int dCoeff = createDim(mFile, "coeff", nCoeff);
+   int dLon  = createDim(mFile, mXDimName != "" ? mXDimName : "lon", nLon);
+   int dLat  = createDim(mFile, mYDimName != "" ? mYDimName : "lat", nLat);
+   int dCoeff = createDim(mFile, mDimName, nCoeff);
    int dims[4]  = {dTime, dLat, dLon, dCoeff};
    int var = Util::MV;
    int status = nc_def_var(mFile, mVarName.c_str(), NC_FLOAT, 4, dims, &var);
@@ -499,11 +501,11 @@ float* ParameterFileNetcdf::getNcFloats(int iFile, int iVar) {
    long size = NetcdfUtil::getTotalSize(iFile, iVar);
    assert(size > 0);
    float* values = new float[size];
-   int status = nc_get_var_float(iFile, iVar, values);
    char name[512];
-   status = nc_inq_varname(iFile, iVar, name);
+   int status = nc_inq_varname(iFile, iVar, name);
    handleNetcdfError(status, "could not get variable name");
 
+   status = nc_get_var_float(iFile, iVar, values);
    std::stringstream ss;
    ss <<  "could not retrieve values from variable '" << name << "'";
    handleNetcdfError(status, ss.str());
-- 
2.43.0


From a187f9f0984441932a55ca707cec179b81d1d0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:09 +0000
Subject: [PATCH 076/117] fix: close netcdf parameter files

---
 src/client/ParameterFile/ParameterFile.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/ParameterFile/ParameterFile.h b/src/client/ParameterFile/ParameterFile.h
index cf130d3..952a0a8 100644
--- a/src/client/ParameterFile/ParameterFile.h
+++ b/src/client/ParameterFile/ParameterFile.h
@@ -16,6 +16,7 @@
 class ParameterFile : public Scheme {
    public:
       ParameterFile(const Options& iOptions, bool iIsNew=false);
+      virtual ~ParameterFile() {};
 
       //! Get the parameter valid for specified forecast timestep. This is an index, not an hour.
       //! @param iAllowNearestNeighbour Use the nearest neighbour if the location isn't in the set
-- 
2.43.0


From e75133bba410ffed5ed230a10c9d23ad5568942b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:47 +0000
Subject: [PATCH 077/117] fix: reference time of netcdf files with a scalar
 time

---
 src/client/File/Netcdf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index f1f6af0..6bbe870 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -185,7 +185,7 @@ FileNetcdf::FileNetcdf(std::string iFilename, const Options& iOptions, bool iRea
          std::vector<double> times(1, time);
          setTimes(times);
       }
-      if(size > 0 && !Util::isValid(getReferenceTime())) {
+      if(getNumTime() > 0 && !Util::isValid(getReferenceTime())) {
          std::stringstream ss;
          ss << "File does not contain reference time, using the first timestep as the reference time";
          Util::warning(ss.str());
-- 
2.43.0


From f525c8d34014ee7601ac05b61a5831adbfc0b1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:47 +0000
Subject: [PATCH 078/117] fix: packed and missing values in netcdf files

---
 src/client/File/Netcdf.cpp | 77 ++++++++++++++++++++++++--------------
 src/client/File/Netcdf.h   |  7 ++--
 2 files changed, 52 insertions(+), 32 deletions(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index 6bbe870..d762838 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -289,12 +289,13 @@ FieldPtr FileNetcdf::getFieldCore(const Variable& iVariable, int iTime) const {
    for(int d = 0; d < dims.size(); d++) {
       size *= count[d];
    }
-   float* values = new float[size];
-   nc_get_vara_float(mFile, var, start, count, values);
+   double* values = new double[size];
+   int status = nc_get_vara_double(mFile, var, start, count, values);
+   handleNetcdfError(status, "could not read variable " + variableName);
 
-   float MV = getMissingValue(var);
-   float offset = getOffset(var);
-   float scale = getScale(var);
+   double MV = getMissingValue(var);
+   double offset = getOffset(var);
+   double scale = getScale(var);
 
    FieldPtr field = getEmptyField();
    std::vector<int> countVector(count, count + dims.size());
@@ -318,8 +319,8 @@ FieldPtr FileNetcdf::getFieldCore(const Variable& iVariable, int iTime) const {
             if(Util::isValid(xPos))
                indices[xPos] = x;
             int i = getIndex(countVector, indices);
-            float value = values[i];
-            if(Util::isValid(MV) && value == MV) {
+            double value = values[i];
+            if(value == MV || std::isnan(value)) {
                // Field has missing value indicator and the value is missing
                // Save values using our own internal missing value indicator
                value = Util::MV;
@@ -414,7 +415,6 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
          handleNetcdfError(status, "could not define variable '" + variableName + "'");
       }
       int var = getVar(variableName);
-      float MV = getMissingValue(var); // The output file's missing value indicator
 
       // Set the coordinate attribute based on the names of the lat lon variables
       std::stringstream ss;
@@ -438,9 +438,10 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
       std::string variableName = variable.name();
       assert(hasVariableCore(variable));
       int var = getVar(variableName);
-      float MV = getMissingValue(var); // The output file's missing value indicator
+      double MV = getMissingValue(var); // The output file's missing value indicator
+      bool isInteger = isIntegerType(var);
       size_t size = 1*1*mNEns*getNumY()*getNumX();
-      float* values = new float[size];
+      double* values = new double[size];
 
       std::vector<int> dims = getDims(var);
       size_t count[dims.size()];
@@ -475,8 +476,8 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
          if(Util::isValid(timePos))
             start[timePos] = t;
 
-         float offset = getOffset(var);
-         float scale = getScale(var);
+         double offset = getOffset(var);
+         double scale = getScale(var);
          FieldPtr field = getField(variable, t);
          if(field != NULL) { // TODO: Can't be null if coming from reference
             std::vector<int> countVector(count, count + dims.size());
@@ -502,19 +503,21 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
                         indices[xPos] = x;
                      int i = getIndex(countVector, indices);
                      float value = (*field)(y, x, e);
-                     if(Util::isValid(MV) && !Util::isValid(value)) {
-                        // Field has missing value indicator and the value is missing
+                     if(!Util::isValid(value)) {
+                        // The value is missing
                         // Save values using the file's missing indicator value
-                        value = MV;
+                        values[i] = MV;
                      }
                      else {
-                        value = (value - offset)/scale;
+                        values[i] = (value - offset)/scale;
+                        // The netcdf library truncates when converting to integers
+                        if(isInteger)
+                           values[i] = round(values[i]);
                      }
-                     values[i] = value;
                   }
                }
             }
-            int status = nc_put_vara_float(mFile, var, start, count, values);
+            int status = nc_put_vara_double(mFile, var, start, count, values);
             handleNetcdfError(status, "could not write variable " + variableName);
          }
       }
@@ -918,13 +921,29 @@ std::vector<int> FileNetcdf::getDims(int iVar) const {
    }
    return dims;
 }
-float FileNetcdf::getMissingValue(int iVar) const {
-   float fillValue;
-   int status = nc_get_att_float(mFile, iVar, "_FillValue", &fillValue);
-   if(status != NC_NOERR)
-      fillValue  = NC_FILL_FLOAT;
+double FileNetcdf::getMissingValue(int iVar) const {
+   double fillValue;
+   int status = nc_get_att_double(mFile, iVar, "_FillValue", &fillValue);
+   if(status != NC_NOERR) {
+      // Use the default of the variable's type
+      nc_type type = NC_NAT;
+      nc_inq_vartype(mFile, iVar, &type);
+      if(type == NC_SHORT)
+         fillValue = NC_FILL_SHORT;
+      else if(type == NC_INT)
+         fillValue = NC_FILL_INT;
+      else if(type == NC_INT64)
+         fillValue = NC_FILL_INT64;
+      else
+         fillValue = NC_FILL_FLOAT;
+   }
    return fillValue;
 }
+bool FileNetcdf::isIntegerType(int iVar) const {
+   nc_type type = NC_NAT;
+   nc_inq_vartype(mFile, iVar, &type);
+   return type != NC_NAT && type != NC_CHAR && type != NC_FLOAT && type != NC_DOUBLE;
+}
 void FileNetcdf::setMissingValue(int iVar, float iValue) const {
    // TODO: Mysterious errors can occur if the existing file was written
    // using an older HDF5 implementation, and the variable has 8 or more
@@ -938,16 +957,16 @@ void FileNetcdf::setMissingValue(int iVar, float iValue) const {
    }
 }
 
-float FileNetcdf::getScale(int iVar) const {
-   float scale;
-   int status = nc_get_att_float(mFile, iVar, "scale_factor", &scale);
+double FileNetcdf::getScale(int iVar) const {
+   double scale;
+   int status = nc_get_att_double(mFile, iVar, "scale_factor", &scale);
    if(status != NC_NOERR)
       scale  = 1;
    return scale;
 }
-float FileNetcdf::getOffset(int iVar) const {
-   float offset;
-   int status = nc_get_att_float(mFile, iVar, "add_offset", &offset);
+double FileNetcdf::getOffset(int iVar) const {
+   double offset;
+   int status = nc_get_att_double(mFile, iVar, "add_offset", &offset);
    if(status != NC_NOERR)
       offset  = 0;
    return offset;
diff --git a/src/client/File/Netcdf.h b/src/client/File/Netcdf.h
index dc37d73..3b72e3b 100644
--- a/src/client/File/Netcdf.h
+++ b/src/client/File/Netcdf.h
@@ -46,8 +46,8 @@ class FileNetcdf : public File {
       std::string name() const {return "netcdf";};
 
    protected:
-      float getScale(int iVar) const;
-      float getOffset(int iVar) const;
+      double getScale(int iVar) const;
+      double getOffset(int iVar) const;
       void writeCore(std::vector<Variable> iVariables, std::string iMessage="");
       FieldPtr getFieldCore(const Variable& iVariable, int iTime) const;
       bool hasVariableCore(const Variable& iVariable) const;
@@ -89,7 +89,8 @@ class FileNetcdf : public File {
       void startDefineMode() const;
       void startDataMode() const;
       mutable bool mInDataMode;
-      float getMissingValue(int iVar) const;
+      double getMissingValue(int iVar) const;
+      bool isIntegerType(int iVar) const;
       void  setMissingValue(int iVar, float iValue) const;
       //! Convert linear index 'i' to vector 'iInidices'. 'iCount' specifies the size of the data
       //! Using row-major ordering (last index varies fastest)
-- 
2.43.0


From 700b9be1c5c2673a87fff399b00e9bbab919781a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:47 +0000
Subject: [PATCH 079/117] fix: write netcdf variables to the level they are
 read from

---
 src/client/File/Netcdf.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index d762838..caaba2a 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -449,6 +449,7 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
       int yPos = Util::MV;
       int xPos = Util::MV;
       int timePos = Util::MV;
+      std::vector<size_t> levels(dims.size(), 0);
       for(int d = 0; d < dims.size(); d++) {
          int dim = dims[d];
          count[d] = 1;
@@ -467,12 +468,16 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
             count[d] = getDimSize(dim);
             xPos = d;
          }
+         else if(Util::isValid(variable.level()) && getDimSize(dim) > 1) {
+            // Write to the same level that is read from
+            levels[d] = variable.level();
+         }
       }
 
       for(int t = 0; t < getNumTime(); t++) {
          size_t start[dims.size()];
          for(int d = 0; d < dims.size(); d++)
-            start[d] = 0;
+            start[d] = levels[d];
          if(Util::isValid(timePos))
             start[timePos] = t;
 
-- 
2.43.0


From 12de27b947f061a1459c89f1c77b879f2c0c4899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:47 +0000
Subject: [PATCH 080/117] fix: write times to the time variable of the netcdf
 file

---
 src/client/File/Netcdf.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index caaba2a..bee4c1f 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -1133,10 +1133,9 @@ std::string FileNetcdf::getGlobalAttribute(std::string iName) {
 }
 
 void FileNetcdf::defineTimes() {
-   if(!hasVar("time")) {
+   if(!Util::isValid(mTimeVar)) {
       if(Util::isValid(mTimeDim)) {
-         int id;
-         int status = nc_def_var(mFile, "time", NC_DOUBLE, 1, &mTimeDim, &id);
+         int status = nc_def_var(mFile, "time", NC_DOUBLE, 1, &mTimeDim, &mTimeVar);
          handleNetcdfError(status, "creating time variable");
       }
       else {
@@ -1146,10 +1145,9 @@ void FileNetcdf::defineTimes() {
          handleNetcdfError(status, "creating time variable");
       }
    }
-   int vTime = getVar("time");
-   setAttribute(vTime, "long_name", "time");
-   setAttribute(vTime, "standard_name", "time");
-   setAttribute(vTime, "units", "seconds since 1970-01-01 00:00:00 +00:00");
+   setAttribute(mTimeVar, "long_name", "time");
+   setAttribute(mTimeVar, "standard_name", "time");
+   setAttribute(mTimeVar, "units", "seconds since 1970-01-01 00:00:00 +00:00");
 }
 void FileNetcdf::defineEns() {
    if(!Util::isValid(mEnsDim) && mNEns > 1) {
@@ -1172,7 +1170,6 @@ void FileNetcdf::writeTimes() {
       if(!Util::isValid(times[i]))
          times[i] = NC_FILL_FLOAT;
    }
-   int vTime = getVar("time");
    double timesArr[getNumTime()];
    for(int t = 0; t < getNumTime(); t++) {
       timesArr[t] = times[t];
@@ -1180,7 +1177,7 @@ void FileNetcdf::writeTimes() {
 
    size_t start = 0;
    size_t count = getNumTime();
-   int status = nc_put_vara_double(mFile, vTime, &start, &count, timesArr);
+   int status = nc_put_vara_double(mFile, mTimeVar, &start, &count, timesArr);
    handleNetcdfError(status, "could not write times");
 }
 void FileNetcdf::defineReferenceTime() {
-- 
2.43.0


From 6a9f3f9a49792676680fe46f30d8f543be683f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:47 +0000
Subject: [PATCH 081/117] fix: do not overwrite altitudes in netcdf files

---
 src/client/File/Netcdf.cpp | 12 ++++++++----
 src/client/File/Netcdf.h   |  1 +
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index bee4c1f..e7663e5 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -136,6 +136,8 @@ FileNetcdf::FileNetcdf(std::string iFilename, const Options& iOptions, bool iRea
       Util::warning("No altitude field available in " + getFilename());
    }
 
+   mFileElevs = getElevs();
+
    if(hasVar(lafVar)) {
       int land_area_fraction = getVar(lafVar);
       mLandFractions = getLatLonVariable(land_area_fraction);
@@ -367,7 +369,7 @@ FieldPtr FileNetcdf::getFieldCore(const Variable& iVariable, int iTime) const {
 void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessage) {
    startDefineMode();
 
-   // check if altitudes are valid
+   // check if altitudes are valid and not already in the file
    bool isAltitudeValid = false;
    vec2 elevs = getElevs();
    for(int i = 0; i < elevs.size(); i++) {
@@ -375,6 +377,7 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
          isAltitudeValid = isAltitudeValid || Util::isValid(elevs[i][j]);
       }
    }
+   bool doWriteAltitude = isAltitudeValid && (!hasVar("altitude") || elevs != mFileElevs);
    if(isAltitudeValid && !hasVar("altitude")) {
       defineAltitude();
    }
@@ -430,8 +433,9 @@ void FileNetcdf::writeCore(std::vector<Variable> iVariables, std::string iMessag
 
    writeTimes();
    writeReferenceTime();
-   if(isAltitudeValid) {
+   if(doWriteAltitude) {
       writeAltitude();
+      mFileElevs = elevs;
    }
    for(int v = 0; v < iVariables.size(); v++) {
       Variable variable = iVariables[v];
@@ -760,7 +764,7 @@ void FileNetcdf::writeAltitude() const {
    int numDims = getNumDims(vElev);
    int numHorizontalDims = Util::isValid(mYDim) + Util::isValid(mXDim);
 
-   if(numDims != numHorizontalDims) {
+   if(numDims < numHorizontalDims) {
       std::stringstream ss;
       ss << "Altitude variable has " << numDims << " dimension. However, the file has "
          << numHorizontalDims << " horizontal dimensions. Cannot write altitude.";
@@ -804,7 +808,7 @@ void FileNetcdf::writeAltitude() const {
    for(int i = 0; i < getNumY(); i++) {
       for(int j = 0; j < getNumX(); j++) {
          float elev = elevs[i][j];
-         if(Util::isValid(MV) && !Util::isValid(elev))
+         if(!Util::isValid(elev))
             elev = MV;
          // Latitude dimension is ordered first
          if(indexY < indexX) {
diff --git a/src/client/File/Netcdf.h b/src/client/File/Netcdf.h
index 3b72e3b..cca2ed5 100644
--- a/src/client/File/Netcdf.h
+++ b/src/client/File/Netcdf.h
@@ -63,6 +63,7 @@ class FileNetcdf : public File {
       int mLatVar;
       int mLonVar;
       int mElevVar;
+      vec2 mFileElevs;  // Altitudes as stored in the file
       int mLafVar;
       int mTimeVar;
       std::string mEnsDimName;
-- 
2.43.0


From 13084900183720accaca630f445f359c1a27473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:47 +0000
Subject: [PATCH 082/117] fix: missing altitudes in netcdf files

---
 src/client/File/Netcdf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index e7663e5..53db956 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -1263,6 +1263,8 @@ vec2 FileNetcdf::getLatLonVariable(int iVar) const {
                value = values[j];
             else
                value = values[i];
+            if(value == MV || std::isnan(value))
+               value = Util::MV;
             grid[i][j] = value;
          }
       }
@@ -1309,7 +1311,7 @@ vec2 FileNetcdf::getLatLonVariable(int iVar) const {
                index = j*numY + i;
             }
             float value = values[index];
-            if(values[index] == MV)
+            if(value == MV || std::isnan(value))
                value = Util::MV;
             grid[i][j] = value;
             assert(index < numX*numY);
-- 
2.43.0


From de0015fef436ef2aa4be7422fd2f0876e17573aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:08 +0000
Subject: [PATCH 083/117] fix: netcdf attributes that are strings or not text

---
 src/client/File/Netcdf.cpp | 52 ++++++++++++++++++++------------------
 src/client/File/Netcdf.h   |  1 +
 2 files changed, 29 insertions(+), 24 deletions(-)

diff --git a/src/client/File/Netcdf.cpp b/src/client/File/Netcdf.cpp
index 53db956..ff07ce8 100644
--- a/src/client/File/Netcdf.cpp
+++ b/src/client/File/Netcdf.cpp
@@ -1034,11 +1034,7 @@ void FileNetcdf::appendGlobalAttribute(std::string iName, std::string iValue) {
          Util::warning(ss0.str());
       }
       else {
-         char value[len+1];
-         status = nc_get_att_text(mFile, NC_GLOBAL, iName.c_str(), value);
-         handleNetcdfError(status, "could not append global attribute");
-         value[len] = '\0';
-         ss << value << "\n";
+         ss << getAttributeText(NC_GLOBAL, iName) << "\n";
       }
       ss << iValue;
       setGlobalAttribute(iName, ss.str());
@@ -1064,11 +1060,7 @@ void FileNetcdf::prependGlobalAttribute(std::string iName, std::string iValue) {
          Util::warning(ss0.str());
       }
       else {
-         char value[len+1];
-         status = nc_get_att_text(mFile, NC_GLOBAL, iName.c_str(), value);
-         handleNetcdfError(status, "could not get attribute when prepending a new value");
-         value[len] = '\0';
-         ss << "\n" << value;
+         ss << "\n" << getAttributeText(NC_GLOBAL, iName);
       }
       setGlobalAttribute(iName, ss.str());
    }
@@ -1097,18 +1089,36 @@ std::string FileNetcdf::getAttribute(int iVar, std::string iName) {
          Util::warning(ss.str());
       }
       else {
-         char* value = new char[len+1];
-         status = nc_get_att_text(mFile, iVar, iName.c_str(), value);
-         handleNetcdfError(status, "could not get attribute");
-         value[len] = '\0';
-         if(status == NC_NOERR)
-            ret = std::string(value);
-         delete[] value;
+         ret = getAttributeText(iVar, iName);
       }
    }
    return ret;
 }
 
+std::string FileNetcdf::getAttributeText(int iVar, std::string iName) const {
+   nc_type type;
+   size_t len;
+   int status = nc_inq_att(mFile, iVar, iName.c_str(), &type, &len);
+   handleNetcdfError(status, "could not determine attribute type");
+   std::string ret = "";
+   if(type == NC_CHAR) {
+      std::vector<char> value(len + 1, '\0');
+      status = nc_get_att_text(mFile, iVar, iName.c_str(), &value[0]);
+      handleNetcdfError(status, "could not get attribute");
+      ret = std::string(&value[0]);
+   }
+   else if(type == NC_STRING && len > 0) {
+      std::vector<char*> values(len);
+      status = nc_get_att_string(mFile, iVar, iName.c_str(), &values[0]);
+      handleNetcdfError(status, "could not get attribute");
+      if(values[0] != NULL)
+         ret = std::string(values[0]);
+      nc_free_string(len, &values[0]);
+   }
+   // Attributes of other types have no text
+   return ret;
+}
+
 std::string FileNetcdf::getGlobalAttribute(std::string iName) {
    std::string ret = "";
    int id;
@@ -1124,13 +1134,7 @@ std::string FileNetcdf::getGlobalAttribute(std::string iName) {
          Util::warning(ss.str());
       }
       else {
-         char* value = new char[len+1];
-         status = nc_get_att_text(mFile, NC_GLOBAL, iName.c_str(), value);
-         handleNetcdfError(status, "could not get global attribute");
-         value[len] = '\0';
-         if(status == NC_NOERR)
-            ret = std::string(value);
-         delete[] value;
+         ret = getAttributeText(NC_GLOBAL, iName);
       }
    }
    return ret;
diff --git a/src/client/File/Netcdf.h b/src/client/File/Netcdf.h
index cca2ed5..ebb05e4 100644
--- a/src/client/File/Netcdf.h
+++ b/src/client/File/Netcdf.h
@@ -98,6 +98,7 @@ class FileNetcdf : public File {
       int getIndex(const std::vector<int>& iCount, const std::vector<int>& iIndices) const;
       void getIndices(int i, const std::vector<int>& iCount, std::vector<int>& iIndices) const;
       void setAttribute(int iVar, std::string iName, std::string iValue);
+      std::string getAttributeText(int iVar, std::string iName) const;
       void defineTimes();
       void defineEns();
       void defineReferenceTime();
-- 
2.43.0


From a65ddf9864d14259dc1db564ba1aab44de452489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:08 +0000
Subject: [PATCH 084/117] fix: keep added fields when another time is requested

---
 src/client/File/File.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/client/File/File.cpp b/src/client/File/File.cpp
index 38770a4..cf36e0b 100644
--- a/src/client/File/File.cpp
+++ b/src/client/File/File.cpp
@@ -111,16 +111,18 @@ FieldPtr File::getField(const Variable& iVariable, int iTime, bool iSkipRead) co
       }
       else if (iSkipRead) {
          for(int t = 0; t < getNumTime(); t++) {
-            FieldPtr field = getEmptyField();
-            addField(field, iVariable, t);
+            // Keep fields that have been added for other times
+            if(mFields[iVariable][t] == NULL)
+               addField(getEmptyField(), iVariable, t);
          }
       }
       else {
          std::string variableType = iVariable.name();
          Util::warning(variableType + " not available in '" + getFilename() + "'");
          for(int t = 0; t < getNumTime(); t++) {
-            FieldPtr field = getEmptyField();
-            addField(field, iVariable, t);
+            // Keep fields that have been added for other times
+            if(mFields[iVariable][t] == NULL)
+               addField(getEmptyField(), iVariable, t);
          }
       }
    }
-- 
2.43.0


From 524aec640b7ca2a7aa50ae7f44f5f3d940c9b142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:10 +0000
Subject: [PATCH 085/117] fix: sort calibrator with missing members

---
 src/client/Calibrator/Sort.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/client/Calibrator/Sort.cpp b/src/client/Calibrator/Sort.cpp
index a7557d9..a74ab1f 100644
--- a/src/client/Calibrator/Sort.cpp
+++ b/src/client/Calibrator/Sort.cpp
@@ -24,8 +24,7 @@ bool CalibratorSort::calibrateCore(File& iFile, const ParameterFile* iParameterF
       #pragma omp parallel for
       for(int i = 0; i < nLat; i++) {
          for(int j = 0; j < nLon; j++) {
-            std::vector<float> values = field(i,j);
-            std::sort(values.begin(), values.end());
+            const std::vector<float>& values = field(i,j);
 
             // Create a new array with all the missing values
             // at the end
@@ -37,6 +36,8 @@ bool CalibratorSort::calibrateCore(File& iFile, const ParameterFile* iParameterF
                   counter++;
                }
             }
+            // Missing values can be nan, which std::sort cannot handle
+            std::sort(missingLast.begin(), missingLast.begin() + counter);
             for(int e = 0; e < nEns; e++) {
                field(i,j,e) = missingLast[e];
             }
-- 
2.43.0


From 00ef372d862781e7c58af87a4889294944a21e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:10 +0000
Subject: [PATCH 086/117] fix: mask calibrator with time-dependent parameters

---
 src/client/Calibrator/Mask.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/Calibrator/Mask.cpp b/src/client/Calibrator/Mask.cpp
index 7143cfe..c7bff76 100644
--- a/src/client/Calibrator/Mask.cpp
+++ b/src/client/Calibrator/Mask.cpp
@@ -38,6 +38,7 @@ bool CalibratorMask::calibrateCore(File& iFile, const ParameterFile* iParameterF
       for(int i = 0; i < nLat; i++) {
          for(int j = 0; j < nLon; j++) {
             if(t == 0 || iParameterFile->isTimeDependent()) {
+               isWithinRadius[i][j] = 0;
                Location loc(Util::MV, Util::MV, Util::MV);
                Location currLocation(lats[i][j], lons[i][j], elevs[i][j]);
                if(mUseNearestOnly) {
-- 
2.43.0


From 69c53fb5e7caa3e77e68c08bf1c1da80ea8a0eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:10 +0000
Subject: [PATCH 087/117] fix: minPrecip option of the phase calibrator

---
 src/client/Calibrator/Phase.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/Calibrator/Phase.cpp b/src/client/Calibrator/Phase.cpp
index fea6f41..6fec3c0 100644
--- a/src/client/Calibrator/Phase.cpp
+++ b/src/client/Calibrator/Phase.cpp
@@ -13,6 +13,7 @@ CalibratorPhase::CalibratorPhase(const Variable& iVariable, const Options& iOpti
    iOptions.getRequiredValue("precipitation", mPrecipitationVariable);
    iOptions.getValue("snowThreshold", mSnowThreshold);
    iOptions.getValue("rainThreshold", mRainThreshold);
+   iOptions.getValue("minPrecip", mMinPrecip);
    iOptions.check();
 }
 bool CalibratorPhase::calibrateCore(File& iFile, const ParameterFile* iParameterFile) const {
-- 
2.43.0


From a2e3ebefa71cc8098b99269d6eb2196f127d12b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:36 +0000
Subject: [PATCH 088/117] fix: windDirection calibrator with missing values

---
 src/client/Calibrator/WindDirection.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/WindDirection.cpp b/src/client/Calibrator/WindDirection.cpp
index 9cfd3a1..a800e14 100644
--- a/src/client/Calibrator/WindDirection.cpp
+++ b/src/client/Calibrator/WindDirection.cpp
@@ -46,7 +46,10 @@ bool CalibratorWindDirection::calibrateCore(File& iFile, const ParameterFile* iP
                float currDirection = direction(i,j,e);
                if(Util::isValid(currDirection)) {
                    float factor = getFactor(currDirection, parameters);
-                   wind(i,j,e) = factor*wind(i,j,e);
+                   if(Util::isValid(factor) && Util::isValid(wind(i,j,e)))
+                      wind(i,j,e) = factor*wind(i,j,e);
+                   else
+                      wind(i,j,e) = Util::MV;
                }
             }
          }
-- 
2.43.0


From 560e871c5978ca78d5b5a223219bab0e0c3adf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:36 +0000
Subject: [PATCH 089/117] fix: qq calibrator with zero extrapolation of one
 point

---
 src/client/Calibrator/Qq.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Qq.cpp b/src/client/Calibrator/Qq.cpp
index 34335e6..9732239 100644
--- a/src/client/Calibrator/Qq.cpp
+++ b/src/client/Calibrator/Qq.cpp
@@ -115,7 +115,7 @@ bool CalibratorQq::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                         if(mPolicy == ExtrapolationPolicy::Zero) {
                            slope = 0;
                         }
-                        if(mPolicy == ExtrapolationPolicy::OneToOne || N <= 1) {
+                        else if(mPolicy == ExtrapolationPolicy::OneToOne || N <= 1) {
                            slope = 1;
                         }
                         else if(mPolicy == ExtrapolationPolicy::MeanSlope) {
-- 
2.43.0


From 780f633c420e7361ee91835e07921656e2b9555a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:36 +0000
Subject: [PATCH 090/117] fix: regression calibrator with missing predictors

---
 src/client/Calibrator/Regression.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/client/Calibrator/Regression.cpp b/src/client/Calibrator/Regression.cpp
index 760b6a1..08dd3ee 100644
--- a/src/client/Calibrator/Regression.cpp
+++ b/src/client/Calibrator/Regression.cpp
@@ -69,11 +69,12 @@ bool CalibratorRegression::calibrateCore(File& iFile, const ParameterFile* iPara
                      // Accumulate a + b * var1 + c * var2 ...
                      for(int p = 0; p < parameters.size(); p++) {
                         float coeff = parameters[p];
-                        if(!Util::isValid(coeff)) {
+                        float predictor = (*fields[p])(i,j,e);
+                        if(!Util::isValid(coeff) || !Util::isValid(predictor)) {
                            total = Util::MV;
                            break;
                         }
-                        total += coeff*(*fields[p])(i,j,e);
+                        total += coeff*predictor;
                      }
                      (*field)(i,j,e)  = total;
                   }
-- 
2.43.0


From dd2b45f540d09b026b33147bc80f653dc651c2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:36 +0000
Subject: [PATCH 091/117] fix: coastal calibrator with missing values and
 calibrated neighbours

---
 src/client/Calibrator/Coastal.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/client/Calibrator/Coastal.cpp b/src/client/Calibrator/Coastal.cpp
index 7242a86..64835cf 100644
--- a/src/client/Calibrator/Coastal.cpp
+++ b/src/client/Calibrator/Coastal.cpp
@@ -38,6 +38,8 @@ bool CalibratorCoastal::calibrateCore(File& iFile, const ParameterFile* iParamet
       if(!iParameterFile->isLocationDependent())
           parametersGlobal = iParameterFile->getParameters(t);
       const FieldPtr field = iFile.getField(mVariable, t);
+      // Neighbours are used after they have been calibrated, unless a copy is made
+      const Field raw = *field;
 
       #pragma omp parallel for
       for(int i = 0; i < nLat; i++) {
@@ -52,17 +54,19 @@ bool CalibratorCoastal::calibrateCore(File& iFile, const ParameterFile* iParamet
                float upperValue = Util::MV;
                float minLaf = 2;
                float maxLaf = -1;
-               float nearestNeighbour = (*field)(i,j,e);
+               float nearestNeighbour = raw(i,j,e);
                // Find the range within a neighbourhood
                for(int ii = std::max(0, i-mSearchRadius); ii <= std::min(nLat-1, i+mSearchRadius); ii++) {
                   for(int jj = std::max(0, j-mSearchRadius); jj <= std::min(nLon-1, j+mSearchRadius); jj++) {
                      float currLaf = laf[ii][jj];
+                     if(!Util::isValid(currLaf))
+                        continue;
                      if(currLaf < minLaf) {
-                        lowerValue = (*field)(ii,jj,e);
+                        lowerValue = raw(ii,jj,e);
                         minLaf = currLaf;
                      }
                      if(currLaf > maxLaf) {
-                        upperValue = (*field)(ii,jj,e);
+                        upperValue = raw(ii,jj,e);
                         maxLaf = currLaf;
                      }
                   }
@@ -77,14 +81,11 @@ bool CalibratorCoastal::calibrateCore(File& iFile, const ParameterFile* iParamet
                if(Util::isValid(lowerValue) && Util::isValid(upperValue) && (maxLaf - minLaf > mMinLafDiff))
                   gradient = (upperValue - lowerValue) / (maxLaf - minLaf);
                assert(Util::isValid(gradient));
-               assert(Util::isValid(nearestNeighbour));
 
                float value = Util::MV;
-               if(mUseNN)
-                  value = a + b * nearestNeighbour + c * gradient;
-               else
-                  value = a + b * lowerValue + c * gradient;
-               assert(Util::isValid(value));
+               float baseValue = mUseNN ? nearestNeighbour : lowerValue;
+               if(Util::isValid(nearestNeighbour) && Util::isValid(baseValue) && parameters.isValid())
+                  value = a + b * baseValue + c * gradient;
                (*field)(i,j,e) = value;
             }
          }
-- 
2.43.0


From bd638eeef65ccb523d3e9b6d0687328d80cb8e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:04 +0000
Subject: [PATCH 092/117] fix: the phase calibrator does not use a parameter
 file

---
 src/client/Calibrator/Phase.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/Calibrator/Phase.h b/src/client/Calibrator/Phase.h
index a503a34..a04a8bf 100644
--- a/src/client/Calibrator/Phase.h
+++ b/src/client/Calibrator/Phase.h
@@ -9,6 +9,7 @@ class CalibratorPhase : public Calibrator {
       CalibratorPhase(const Variable& iVariable, const Options& iOptions);
       static std::string description(bool full=true);
       std::string name() const {return "phase";};
+      bool requiresParameterFile() const { return false;};
 
       //! Precipitation phase
       enum Phase {
-- 
2.43.0


From f9a5c9cb521a224766be1d1cd37e724a8b4d6cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:51 +0000
Subject: [PATCH 093/117] fix: gaussian calibrator with ensemble means that are
 not positive

---
 src/client/Calibrator/Gaussian.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/client/Calibrator/Gaussian.cpp b/src/client/Calibrator/Gaussian.cpp
index 8447000..c6ad796 100644
--- a/src/client/Calibrator/Gaussian.cpp
+++ b/src/client/Calibrator/Gaussian.cpp
@@ -120,7 +120,7 @@ float CalibratorGaussian::getInvCdf(float iQuantile, float iEnsMean, float iEnsS
    if(!Util::isValid(iEnsMean) || !Util::isValid(iEnsSpread))
       return Util::MV;
 
-   if(iEnsMean < 0 || iEnsSpread < 0)
+   if(iEnsSpread < 0)
       return Util::MV;
 
    // Check that parameters are valid
@@ -136,7 +136,7 @@ float CalibratorGaussian::getInvCdf(float iQuantile, float iEnsMean, float iEnsS
    float mu    = iEnsMean;
    float sigma = exp(sa  + sb * iEnsSpread);
 
-   if(mu <= 0 || sigma <= 0)
+   if(sigma <= 0)
       return Util::MV;
    if(!Util::isValid(mu) || !Util::isValid(sigma))
       return Util::MV;
@@ -151,7 +151,7 @@ float CalibratorGaussian::getCdf(float iThreshold, float iEnsMean, float iEnsSpr
    if(!Util::isValid(iThreshold) || !Util::isValid(iEnsMean) || !Util::isValid(iEnsSpread))
       return Util::MV;
 
-   if(iEnsMean < 0 || iEnsSpread < 0)
+   if(iEnsSpread < 0)
       return Util::MV;
 
    // Check that parameters are valid
@@ -167,7 +167,7 @@ float CalibratorGaussian::getCdf(float iThreshold, float iEnsMean, float iEnsSpr
    float mu    = iEnsMean;
    float sigma = exp(sa + sb * iEnsSpread);
 
-   if(mu <= 0 || sigma <= 0)
+   if(sigma <= 0)
       return Util::MV;
    if(!Util::isValid(mu) || !Util::isValid(sigma))
       return Util::MV;
@@ -197,7 +197,7 @@ float CalibratorGaussian::getPdf(float iThreshold, float iEnsMean, float iEnsSpr
    float mu    = iEnsMean;
    float sigma = exp(sa + sb * iEnsSpread);
 
-   if(mu <= 0 || sigma <= 0)
+   if(sigma <= 0)
       return Util::MV;
    if(!Util::isValid(mu) || !Util::isValid(sigma))
       return Util::MV;
-- 
2.43.0


From 94af102ef55ea897a0e6640bc8b290051db7e5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:51 +0000
Subject: [PATCH 094/117] fix: precision of the spread in the gaussian
 calibrator

---
 src/client/Calibrator/Gaussian.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/client/Calibrator/Gaussian.cpp b/src/client/Calibrator/Gaussian.cpp
index c6ad796..8ba1499 100644
--- a/src/client/Calibrator/Gaussian.cpp
+++ b/src/client/Calibrator/Gaussian.cpp
@@ -47,8 +47,8 @@ bool CalibratorGaussian::calibrateCore(File& iFile, const ParameterFile* iParame
                parameters = parametersGlobal;
 
             // Compute model variables
-            float total2 = 0;
-            float total = 0;
+            double total2 = 0;
+            double total = 0;
             int counter = 0;
             bool isValid = true;
             for(int e = 0; e < nEns; e++) {
@@ -58,7 +58,7 @@ bool CalibratorGaussian::calibrateCore(File& iFile, const ParameterFile* iParame
                      float value = field(ii,jj,e);
                      if(Util::isValid(value)) {
                         total += value;
-                        total2 += value*value;
+                        total2 += (double) value*value;
                         counter++;
                      }
                   }
@@ -72,8 +72,9 @@ bool CalibratorGaussian::calibrateCore(File& iFile, const ParameterFile* iParame
                float ensMean = Util::MV;
                float ensSpread = Util::MV;
                if(counter > 0) {
-                  ensMean = total / counter;
-                  ensSpread = sqrt(total2/counter - (ensMean*ensMean));
+                  double mean = total / counter;
+                  ensMean = mean;
+                  ensSpread = sqrt(std::max(0.0, total2/counter - mean*mean));
                }
 
                // Calibrate
-- 
2.43.0


From e56720443113ab4e6f864695f974752a37fbc21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:51 +0000
Subject: [PATCH 095/117] fix: calibrated neighbours in the gaussian calibrator

---
 src/client/Calibrator/Gaussian.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Gaussian.cpp b/src/client/Calibrator/Gaussian.cpp
index 8ba1499..71ac68d 100644
--- a/src/client/Calibrator/Gaussian.cpp
+++ b/src/client/Calibrator/Gaussian.cpp
@@ -32,6 +32,8 @@ bool CalibratorGaussian::calibrateCore(File& iFile, const ParameterFile* iParame
    // Loop over offsets
    for(int t = 0; t < nTime; t++) {
       Field& field = *iFile.getField(mVariable, t);
+      // Neighbours are used after they have been calibrated, unless a copy is made
+      const Field rawField = field;
 
       Parameters parametersGlobal;
       if(!iParameterFile->isLocationDependent())
@@ -55,7 +57,7 @@ bool CalibratorGaussian::calibrateCore(File& iFile, const ParameterFile* iParame
                // Create a neighbourhood ensemble
                for(int ii = std::max(0, i-mNeighbourhoodSize); ii <= std::min(nLat-1, i+mNeighbourhoodSize); ii++) {
                   for(int jj = std::max(0, j-mNeighbourhoodSize); jj <= std::min(nLon-1, j+mNeighbourhoodSize); jj++) {
-                     float value = field(ii,jj,e);
+                     float value = rawField(ii,jj,e);
                      if(Util::isValid(value)) {
                         total += value;
                         total2 += (double) value*value;
-- 
2.43.0


From cfc569dd518d12f24a625a7862426e707e0d10d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:51 +0000
Subject: [PATCH 096/117] fix: missing members in the gaussian calibrator

---
 src/client/Calibrator/Gaussian.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Gaussian.cpp b/src/client/Calibrator/Gaussian.cpp
index 71ac68d..dbc0dc3 100644
--- a/src/client/Calibrator/Gaussian.cpp
+++ b/src/client/Calibrator/Gaussian.cpp
@@ -67,10 +67,14 @@ bool CalibratorGaussian::calibrateCore(File& iFile, const ParameterFile* iParame
                }
             }
             const std::vector<float>& raw = field(i,j);
+            bool hasAllMembers = true;
+            for(int e = 0; e < nEns; e++) {
+               hasAllMembers = hasAllMembers && Util::isValid(raw[e]);
+            }
 
             // Only calibrate the ensemble if all members are available. Otherwise
             // use the raw members.
-            if(counter > 0) {
+            if(counter > 0 && hasAllMembers) {
                float ensMean = Util::MV;
                float ensSpread = Util::MV;
                if(counter > 0) {
-- 
2.43.0


From 3f754acb2736bd3b9ad4f2b4f8f453accacf0210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:52 +0000
Subject: [PATCH 097/117] fix: zaga calibrator with 6h=1 and no popVariable

---
 src/client/Calibrator/Zaga.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Zaga.cpp b/src/client/Calibrator/Zaga.cpp
index 5060da8..69d338c 100644
--- a/src/client/Calibrator/Zaga.cpp
+++ b/src/client/Calibrator/Zaga.cpp
@@ -55,7 +55,7 @@ bool CalibratorZaga::calibrateCore(File& iFile, const ParameterFile* iParameterF
 
    int startTime = 0;
    int timeWindow = 1;
-   if(m6h) {
+   if(m6h && mPopVariable != "") {
       startTime = 5;
       timeWindow = 6;
    }
-- 
2.43.0


From 797b8db3cea2ccc911c06aa02b0d6bb96c5fdc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:52 +0000
Subject: [PATCH 098/117] fix: calibrated neighbours in the zaga calibrator

---
 src/client/Calibrator/Zaga.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Zaga.cpp b/src/client/Calibrator/Zaga.cpp
index 69d338c..6127073 100644
--- a/src/client/Calibrator/Zaga.cpp
+++ b/src/client/Calibrator/Zaga.cpp
@@ -79,6 +79,8 @@ bool CalibratorZaga::calibrateCore(File& iFile, const ParameterFile* iParameterF
       if(mPopVariable != "") {
          pop = iFile.getField(mPopVariable, t);
       }
+      // Neighbours are used after they have been calibrated, unless a copy is made
+      const Field rawPrecip = *precips[t];
       FieldPtr precipLow;
       if(Util::isValid(mPrecipLowQuantile)) {
          precipLow = iFile.getField(mLowVariable, t);
@@ -121,7 +123,7 @@ bool CalibratorZaga::calibrateCore(File& iFile, const ParameterFile* iParameterF
                         float total = 0;
                         // Accumulate over the time window, if necessary
                         for(int tt = t-timeWindow + 1; tt <= t; tt++) {
-                           Field& precip = *precips[tt];
+                           const Field& precip = tt == t ? rawPrecip : *precips[tt];
 
                            float value = precip(ii,jj,e);
                            if(Util::isValid(total) && Util::isValid(value)) {
-- 
2.43.0


From d40627b065b771f1e3ecf43878a13146c79afd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:52 +0000
Subject: [PATCH 099/117] fix: maxEnsMean option of the bct calibrator

---
 src/client/Calibrator/Bct.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/Calibrator/Bct.cpp b/src/client/Calibrator/Bct.cpp
index c6d018b..3f76838 100644
--- a/src/client/Calibrator/Bct.cpp
+++ b/src/client/Calibrator/Bct.cpp
@@ -9,6 +9,7 @@
 CalibratorBct::CalibratorBct(const Variable& iVariable, const Options& iOptions):
       Calibrator(iVariable, iOptions),
       mMaxEnsMean(100) {
+   iOptions.getValue("maxEnsMean", mMaxEnsMean);
    iOptions.check();
 }
 
-- 
2.43.0


From e53de438cd424bc98a6e47bc523f5ad709e1c65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:00 +0000
Subject: [PATCH 100/117] fix: do not pass the options of one parameter file on
 to the next

---
 src/client/Setup.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/Setup.cpp b/src/client/Setup.cpp
index 6f3edde..08c5e9b 100644
--- a/src/client/Setup.cpp
+++ b/src/client/Setup.cpp
@@ -718,6 +718,7 @@ Setup::Setup(const std::vector<std::string>& argv) {
             calibrator = "";
             cOpt.clear();
             parameterFile = "";
+            pOptions.clear();
             if(argv.size() <= index) {
                state = NEWVAR;
             }
-- 
2.43.0


From a0d2be16ca75a60cd3a9007037b3c00703054c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:00 +0000
Subject: [PATCH 101/117] fix: several variable aliases on the command line

---
 src/client/Setup.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/client/Setup.cpp b/src/client/Setup.cpp
index 08c5e9b..d079eb1 100644
--- a/src/client/Setup.cpp
+++ b/src/client/Setup.cpp
@@ -416,6 +416,9 @@ Setup::Setup(const std::vector<std::string>& argv) {
          else if(argv[index] == "-vi") {
             state = NEWVARALIAS;
          }
+         else if(argv[index] == "-va") {
+            state = NEWVARALIAS;
+         }
          else {
             aOptions.addOptions(argv[index]);
             index++;
@@ -430,14 +433,14 @@ Setup::Setup(const std::vector<std::string>& argv) {
                Util::error("Variable alias must have a name= option");
             }
             variableAliases[variableAlias] = Variable(aOptions);
-            variableAlias = "";
-            aOptions.clear();
          }
          else {
             std:: stringstream ss;
             ss << "Variable alias '" << variableAlias << "' already read. Using first instance.";
             Util::warning(ss.str());
          }
+         variableAlias = "";
+         aOptions.clear();
          if(argv.size() <= index) {
             state = END;
          }
@@ -449,6 +452,10 @@ Setup::Setup(const std::vector<std::string>& argv) {
             state = VARI;
             index++;
          }
+         else if(argv[index] == "-va"){
+            state = VARALIAS;
+            index++;
+         }
       }
       else if(state == DOWN) {
          if(argv.size() <= index) {
-- 
2.43.0


From 708e802f4f0bf28a35876c6301ecf42aafa1612e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:00 +0000
Subject: [PATCH 102/117] fix: variables after variable options are new
 variables

---
 src/client/Setup.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/client/Setup.cpp b/src/client/Setup.cpp
index d079eb1..099451c 100644
--- a/src/client/Setup.cpp
+++ b/src/client/Setup.cpp
@@ -192,10 +192,13 @@ Setup::Setup(const std::vector<std::string>& argv) {
          else if(argv[index] == "-v") {
             state = NEWVAR;
          }
-         else if(argv[index] == "-vi") {
+         else if(variableInputName == "" && argv[index] == "-vi") {
             index++;
             state = VARI;
          }
+         else if(argv[index] == "-vi") {
+            state = NEWVAR;
+         }
          else if(argv[index] == "-p") {
             errorMessage = "-p must be after a -d or -c";
             state = ERROR;
@@ -264,10 +267,13 @@ Setup::Setup(const std::vector<std::string>& argv) {
          else if(argv[index] == "-vi") {
             state = NEWVAR;
          }
-         else if(argv[index] == "-v") {
+         else if(variableName == "" && argv[index] == "-v") {
             state = VAR;
             index++;
          }
+         else if(argv[index] == "-v") {
+            state = NEWVAR;
+         }
          else if(argv[index] == "-p") {
             errorMessage = "-p must be after a -d or -c";
             state = ERROR;
-- 
2.43.0


From 79e02eeca1bffbbaa93784f536c1b9e34f69379b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:13 +0000
Subject: [PATCH 103/117] fix: the last of several downscalers for a variable

---
 src/client/Setup.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/client/Setup.cpp b/src/client/Setup.cpp
index 099451c..1b0e31a 100644
--- a/src/client/Setup.cpp
+++ b/src/client/Setup.cpp
@@ -471,6 +471,7 @@ Setup::Setup(const std::vector<std::string>& argv) {
          }
          else {
             downscaler = argv[index];
+            dOptions.clear();
             index++;
             if(argv.size() <= index) {
                state = NEWVAR;
@@ -512,6 +513,11 @@ Setup::Setup(const std::vector<std::string>& argv) {
          else if(argv[index] == "-vi") {
             state = NEWVAR;
          }
+         else if(argv[index] == "-d") {
+            // Two downscalers defined for one variable
+            state = DOWN;
+            index++;
+         }
          else if(argv[index] == "-p") {
             state = PARDOWN;
          }
-- 
2.43.0


From 1cd0f5a9ac17d1f88e9dca2a89ee3417e6275267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:39 +0000
Subject: [PATCH 104/117] fix: parameter files of downscalers on the command
 line

---
 src/client/Setup.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/client/Setup.cpp b/src/client/Setup.cpp
index 1b0e31a..0967fea 100644
--- a/src/client/Setup.cpp
+++ b/src/client/Setup.cpp
@@ -104,6 +104,8 @@ Setup::Setup(const std::vector<std::string>& argv) {
    std::string calibrator = "";
    Options cOpt;
    std::string parameterFile = "";
+   std::string downscalerParameterFile = "";
+   Options dpOptions;
    std::vector<std::string> calibratorNames;
    std::vector<ParameterFile*> parameterFileCalibrators;
    ParameterFile* parameterFileDownscaler = NULL;
@@ -304,6 +306,15 @@ Setup::Setup(const std::vector<std::string>& argv) {
             }
 
             if(!alreadyExists) {
+               if(downscalerParameterFile != "") {
+                  std::string schemeName;
+                  if(!dpOptions.getValue("type", schemeName))
+                     Util::error("Parameter file missing 'type': " + dpOptions.toString());
+                  dpOptions.addOption("file", downscalerParameterFile);
+                  parameterFileDownscaler = ParameterFile::getScheme(schemeName, dpOptions);
+                  if(!parameterFileDownscaler->isReadable())
+                     Util::error("Could not open parameter file: " + dpOptions.toString());
+               }
                VariableConfiguration varconf;
                varconf.parameterFileDownscaler = parameterFileDownscaler;
                // Find input variable
@@ -378,6 +389,8 @@ Setup::Setup(const std::vector<std::string>& argv) {
             variableInputName = "";
             downscaler = defaultDownscaler();
             parameterFileDownscaler = NULL;
+            downscalerParameterFile = "";
+            dpOptions.clear();
             dOptions.clear();
             cOptions.clear();
             calibratorNames.clear();
@@ -472,6 +485,8 @@ Setup::Setup(const std::vector<std::string>& argv) {
          else {
             downscaler = argv[index];
             dOptions.clear();
+            downscalerParameterFile = "";
+            dpOptions.clear();
             index++;
             if(argv.size() <= index) {
                state = NEWVAR;
@@ -493,6 +508,7 @@ Setup::Setup(const std::vector<std::string>& argv) {
             }
             else if(argv[index] == "-p") {
                state = PARDOWN;
+               index++;
             }
             else {
                state = DOWNOPT;
@@ -520,6 +536,7 @@ Setup::Setup(const std::vector<std::string>& argv) {
          }
          else if(argv[index] == "-p") {
             state = PARDOWN;
+            index++;
          }
          else {
             // Process downscaler options
@@ -534,7 +551,7 @@ Setup::Setup(const std::vector<std::string>& argv) {
             state = ERROR;
          }
          else {
-            parameterFile = argv[index];
+            downscalerParameterFile = argv[index];
             index++;
             if(argv.size() <= index) {
                state = NEWVAR;
@@ -579,13 +596,18 @@ Setup::Setup(const std::vector<std::string>& argv) {
          else if(argv[index] == "-vi") {
             state = NEWVAR;
          }
+         else if(argv[index] == "-d") {
+            // Two downscalers defined for one variable
+            state = DOWN;
+            index++;
+         }
          else if(argv[index] == "-p") {
             errorMessage = "Two or more -p used for one calibrator";
             state = ERROR;
          }
          else {
             // Process parameter file options
-            pOptions.addOptions(argv[index]);
+            dpOptions.addOptions(argv[index]);
             index++;
          }
       }
-- 
2.43.0


From b2365444d5a287e4c7bfc92938a9fe944e0e1726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:31 +0000
Subject: [PATCH 105/117] fix: fields of different levels of a variable

---
 src/client/Variable.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/client/Variable.cpp b/src/client/Variable.cpp
index 7529106..431fe52 100644
--- a/src/client/Variable.cpp
+++ b/src/client/Variable.cpp
@@ -2,7 +2,10 @@
 #include <sstream>
 #include "Util.h"
 
-Variable::Variable() {
+Variable::Variable() :
+      mMin(Util::MV),
+      mMax(Util::MV),
+      mLevel(Util::MV) {
 }
 Variable::Variable(std::string iName, float iMin, float iMax, std::string iUnits, std::string iStandardName, int iLevel):
       mName(iName),
@@ -97,9 +100,12 @@ void Variable::add(const Options& iOptions) {
 }
 
 bool Variable::operator<(const Variable &right) const {
-   return mName < right.name();
+   // Different levels of a variable are different fields
+   if(mName != right.mName)
+      return mName < right.mName;
+   return mLevel < right.mLevel;
 }
 
 bool Variable::operator==(const Variable &right) const {
-   return mName == right.name();
+   return mName == right.mName && mLevel == right.mLevel;
 }
-- 
2.43.0


From 6d5dc4d18691b583d1172d39c79da0a3907711b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:19 +0000
Subject: [PATCH 106/117] fix: divisors in the kriging calibrator

---
 src/client/Calibrator/Kriging.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Kriging.cpp b/src/client/Calibrator/Kriging.cpp
index 17d88ff..d666b92 100644
--- a/src/client/Calibrator/Kriging.cpp
+++ b/src/client/Calibrator/Kriging.cpp
@@ -344,7 +344,7 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
                if(mOperator == Util::OperatorMultiply)
                   finalBias = finalBias + 1;
                else if(mOperator == Util::OperatorDivide)
-                  finalBias = finalBias - 1;
+                  finalBias = finalBias + 1;
 
                // Apply bias to each ensemble member
                for(int e = 0; e < nEns; e++) {
-- 
2.43.0


From b8f19849cea1f8171624037827e4bd5fdee63cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:19 +0000
Subject: [PATCH 107/117] fix: missing values in the kriging calibrator

---
 src/client/Calibrator/Kriging.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/Calibrator/Kriging.cpp b/src/client/Calibrator/Kriging.cpp
index d666b92..3ed8fc7 100644
--- a/src/client/Calibrator/Kriging.cpp
+++ b/src/client/Calibrator/Kriging.cpp
@@ -349,6 +349,8 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
                // Apply bias to each ensemble member
                for(int e = 0; e < nEns; e++) {
                   float rawValue = (*field)(i,j,e);
+                  if(!Util::isValid(rawValue))
+                     continue;
 
                   // Adjust bias based on auxillary weight
                   if(mAuxVariable != "") {
-- 
2.43.0


From 2d4b45b9ecd02e18dd04beaa1be384c5806b1e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:19 +0000
Subject: [PATCH 108/117] fix: weights of the auxiliary variable of each member
 in the kriging calibrator

---
 src/client/Calibrator/Kriging.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/client/Calibrator/Kriging.cpp b/src/client/Calibrator/Kriging.cpp
index 3ed8fc7..7c9b34b 100644
--- a/src/client/Calibrator/Kriging.cpp
+++ b/src/client/Calibrator/Kriging.cpp
@@ -353,31 +353,32 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
                      continue;
 
                   // Adjust bias based on auxillary weight
+                  float memberBias = finalBias;
                   if(mAuxVariable != "") {
                      float weight = auxWeights[i][j][e][t];
                      if(mOperator == Util::OperatorAdd || mOperator == Util::OperatorSubtract) {
-                        finalBias = finalBias * weight;
+                        memberBias = finalBias * weight;
                      }
                      else {
-                        finalBias = pow(finalBias, weight);
+                        memberBias = pow(finalBias, weight);
                      }
                   }
 
                   if(mOperator == Util::OperatorAdd) {
-                     (*field)(i,j,e) += finalBias;
+                     (*field)(i,j,e) += memberBias;
                   }
                   else if(mOperator == Util::OperatorSubtract) {
-                     (*field)(i,j,e) -= finalBias;
+                     (*field)(i,j,e) -= memberBias;
                   }
                   else if(mOperator == Util::OperatorMultiply) {
                      // TODO: How do we ensure that the matrix is positive definite in this
                      // case?
-                     (*field)(i,j,e) *= finalBias;
+                     (*field)(i,j,e) *= memberBias;
                   }
                   else if(mOperator == Util::OperatorDivide) {
                      // TODO: How do we ensure that the matrix is positive definite in this
                      // case?
-                     (*field)(i,j,e) /= finalBias;
+                     (*field)(i,j,e) /= memberBias;
                   }
                   else {
                      Util::error("Unrecognized operator in CalibratorKriging");
-- 
2.43.0


From 4e3abd1039afb98239802a62d32796fa94457052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:20 +0000
Subject: [PATCH 109/117] fix: cross validation in the kriging calibrator

---
 src/client/Calibrator/Kriging.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/client/Calibrator/Kriging.cpp b/src/client/Calibrator/Kriging.cpp
index 7c9b34b..2f5b01c 100644
--- a/src/client/Calibrator/Kriging.cpp
+++ b/src/client/Calibrator/Kriging.cpp
@@ -295,6 +295,7 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
             // Don't use the nearest station when cross validating
             float maxCovar = Util::MV;
             int ImaxCovar = Util::MV;
+            vec2 cvInverse;
             if(mCrossValidate) {
                for(int ii = 0; ii < currS.size(); ii++) {
                   if(!Util::isValid(ImaxCovar) || currS[ii] > maxCovar) {
@@ -303,14 +304,17 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
                   }
                }
                currS[ImaxCovar] = 0;
+               // Index of the location among all locations
+               ImaxCovar = currI[ImaxCovar];
                vec2 cvMatrix = matrix;
-               for(int ii = 0; ii < currN; ii++) {
+               for(int ii = 0; ii < N; ii++) {
                   cvMatrix[ImaxCovar][ii] = 0;
                   cvMatrix[ii][ImaxCovar] = 0;
                }
                cvMatrix[ImaxCovar][ImaxCovar] = 1;
-               inverse = Util::inverse(cvMatrix);
+               cvInverse = Util::inverse(cvMatrix);
             }
+            const vec2& currInverse = mCrossValidate ? cvInverse : inverse;
 
             // Compute weights (matrix-vector product)
             std::vector<float> weights;
@@ -319,7 +323,7 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
                // Only loop over non-zero values in the vector
                for(int jj = 0; jj < currN; jj++) {
                   int JJ = currI[jj];
-                  weights[ii] += inverse[ii][JJ] * currS[jj];
+                  weights[ii] += currInverse[ii][JJ] * currS[jj];
                }
             }
             // Set the weight of the nearest location to 0 when cross-validating
-- 
2.43.0


From c0508763525ba4e2eb40f8b2eeff8815738b95dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:20 +0000
Subject: [PATCH 110/117] fix: locations without elevation in the kriging
 calibrator

---
 src/client/Calibrator/Kriging.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Kriging.cpp b/src/client/Calibrator/Kriging.cpp
index 2f5b01c..fe3edca 100644
--- a/src/client/Calibrator/Kriging.cpp
+++ b/src/client/Calibrator/Kriging.cpp
@@ -203,7 +203,9 @@ bool CalibratorKriging::calibrateCore(File& iFile, const ParameterFile* iParamet
          // Improve conditioning of matrix when you have two or more stations
          // that are very close
          float factor = 0.414 / 0.5;
-         float R = calcCovar(iloc, jloc)*factor;
+         float R = calcCovar(iloc, jloc);
+         // Locations without elevation do not covary with others
+         R = Util::isValid(R) ? R*factor : 0;
          // Store the number in both halves
          matrix[ii][jj] = R;
          matrix[jj][ii] = R;
-- 
2.43.0


From c6e2b57d17a857ca25927db03d4b9ba8770951a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:02 +0000
Subject: [PATCH 111/117] fix: observations without elevation in the oi
 calibrator

---
 src/client/Calibrator/Oi.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index a6c3c17..1575368 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -384,10 +384,11 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
          float elevCorr = 0;
          if(Util::isValid(mElevGradient) && mElevGradient != 0) {
             float nnElev = elevs[gYi[i]][gXi[i]];
-            assert(Util::isValid(nnElev));
-            assert(Util::isValid(gLocations[i].elev()));
-            float elevDiff = gLocations[i].elev() - nnElev;
-            elevCorr = mElevGradient * elevDiff;
+            // Observations without elevation are not used when elevations are compared
+            if(Util::isValid(nnElev) && Util::isValid(gLocations[i].elev())) {
+               float elevDiff = gLocations[i].elev() - nnElev;
+               elevCorr = mElevGradient * elevDiff;
+            }
          }
          float total = 0;
          int count = 0;
-- 
2.43.0


From 1a76868b7afd172f19356941a8849968e5eb28ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:02 +0000
Subject: [PATCH 112/117] fix: last row and column around each observation in
 the oi calibrator

---
 src/client/Calibrator/Oi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index 1575368..8b27682 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -269,8 +269,8 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                bool wrongLaf = Util::isValid(gLafs[i]) && mLandOnly && gLafs[i] == 0;
                if(!wrongLaf) {
                   if(isRegularGrid) {
-                     for(int y = std::max(0, Y - gridpointRadius); y < std::min(nY, Y + gridpointRadius); y++) {
-                        for(int x = std::max(0, X - gridpointRadius); x < std::min(nX, X + gridpointRadius); x++) {
+                     for(int y = std::max(0, Y - gridpointRadius); y <= std::min(nY - 1, Y + gridpointRadius); y++) {
+                        for(int x = std::max(0, X - gridpointRadius); x <= std::min(nX - 1, X + gridpointRadius); x++) {
                            gLocIndices[y][x].push_back(i);
                         }
                      }
-- 
2.43.0


From e243b9720691a111d547036a3061bc6b7299bd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:02 +0000
Subject: [PATCH 113/117] fix: missing elevations and land fractions in the oi
 calibrator

---
 src/client/Calibrator/Oi.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index 8b27682..62c2433 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -261,7 +261,7 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
             bool hasValidElev = !Util::isValid(mMaxElevDiff) || Util::isValid(gLocations[i].elev());
             if(Util::isValid(mMaxElevDiff) && hasValidElev) {
                float elevDiff = abs(gLocations[i].elev() - elevs[Y][X]);
-               hasValidElev = elevDiff < mMaxElevDiff;
+               hasValidElev = Util::isValid(elevs[Y][X]) && elevDiff < mMaxElevDiff;
             }
             if(hasValidElev) {
 
@@ -460,7 +460,7 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                int index = lLocIndices0[i];
                float hdist = Util::getDistance(gLocations[index].lat(), gLocations[index].lon(), lat, lon, true);
                float vdist = Util::MV;
-               if(Util::isValid(gLocations[index].elev() && Util::isValid(elev)))
+               if(Util::isValid(gLocations[index].elev()) && Util::isValid(elev))
                   vdist = gLocations[index].elev() - elev;
                float lafdist = 0;
                if(Util::isValid(gLafs[index]) && Util::isValid(laf))
@@ -577,7 +577,7 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                   lR(i, i) = gCi[index];
                   float hdist = Util::getDistance(gLocations[index].lat(), gLocations[index].lon(), lat, lon, true);
                   float vdist = Util::MV;
-                  if(Util::isValid(gLocations[index].elev() && Util::isValid(elev)))
+                  if(Util::isValid(gLocations[index].elev()) && Util::isValid(elev))
                      vdist = gLocations[index].elev() - elev;
                   float lafdist = 0;
                   if(Util::isValid(gLafs[index]) && Util::isValid(laf))
@@ -588,10 +588,10 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                      int index_j = lLocIndices[j];
                      float hdist = Util::getDistance(gLocations[index].lat(), gLocations[index].lon(), gLocations[index_j].lat(), gLocations[index_j].lon(), true);
                      float vdist = Util::MV;
-                     if(Util::isValid(gLocations[index].elev() && Util::isValid(gLocations[index_j].elev())))
+                     if(Util::isValid(gLocations[index].elev()) && Util::isValid(gLocations[index_j].elev()))
                         vdist = gLocations[index].elev() - gLocations[index_j].elev();
                            float lafdist = 0;
-                     if(Util::isValid(gLafs[index]) && Util::isValid(laf))
+                     if(Util::isValid(gLafs[index]) && Util::isValid(gLafs[index_j]))
                         lafdist = gLafs[index] - gLafs[index_j];
 
                      lP(i, j) = calcRho(hdist, vdist, lafdist, mRhoType);
-- 
2.43.0


From eff8efec6d620ad15631087078a50525eaf15a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:02 +0000
Subject: [PATCH 114/117] fix: gridpoints without position in the oi calibrator

---
 src/client/Calibrator/Oi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index 62c2433..9f646a8 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -470,7 +470,7 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                int Y = gYi[index];
                // Only include observations that are within the domain
                if(!isRegularGrid || (X > 0 && X < lats[0].size()-1 && Y > 0 && Y < lats.size()-1)) {
-                  if(rho > mMinRho) {
+                  if(Util::isValid(hdist) && rho > mMinRho) {
                      lRhos0.push_back(std::pair<float,int>(rho, i));
                   }
                }
-- 
2.43.0


From 4b354c0f55bc0d45511a4ce1f1959f12bd81c455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:02 +0000
Subject: [PATCH 115/117] fix: observations only in the ensemble mode of the oi
 calibrator

---
 src/client/Calibrator/Oi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index 9f646a8..af991ec 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -681,7 +681,7 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
             else {
                // Compute Rinv
                mattype Rinv(lS, lS, arma::fill::zeros);
-               if(numParameters == 2) {
+               if(numParameters <= 2) {
                   for(int i = 0; i < lS; i++) {
                      int index = lLocIndices[i];
                      Rinv(i, i) = lRhos[i] / (mSigma * mSigma * gCi[index]);
-- 
2.43.0


From a825f663df38959c8bb9af531e17bec13ef4d174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:02 +0000
Subject: [PATCH 116/117] fix: limits of the increments of each member in the
 oi calibrator

---
 src/client/Calibrator/Oi.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index af991ec..12d54d4 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -940,8 +940,8 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                      if(!mExtrapolate) {
                         // Don't allow a final increment that is larger than any increment
                         // at station points
-                        float maxInc = arma::max(lObs - (lY[e] + lYhat));
-                        float minInc = arma::min(lObs - (lY[e] + lYhat));
+                        float maxInc = arma::max(lObs - (lY.col(e) + lYhat));
+                        float minInc = arma::min(lObs - (lY.col(e) + lYhat));
                         if(x == mX && y == mY) {
                            std::cout << "Increments: " << maxInc << " " << minInc << " " << currIncrement << std::endl;
                         }
@@ -954,13 +954,13 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
                         if(x == mX && y == mY) {
                            std::cout << "Analysis increment: " << memberIncrement << " " << ensMean << " " << currIncrement << " " << X(e) << std::endl;
                         }
-                        if(maxInc > 0 && memberIncrement > maxInc) {
+                        if(maxInc >= 0 && memberIncrement > maxInc) {
                            currIncrement = maxInc + X(e);
                         }
                         else if(maxInc < 0 && memberIncrement > 0) {
                            currIncrement = 0 + X(e);
                         }
-                        else if(minInc < 0 && memberIncrement < minInc) {
+                        else if(minInc <= 0 && memberIncrement < minInc) {
                            currIncrement = minInc + X(e);
                         }
                         else if(minInc > 0 && memberIncrement < 0) {
-- 
2.43.0


From bbe1ddeede2c4b5a8ef147779f043b303fb3d063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:32 +0000
Subject: [PATCH 117/117] fix: mean of the valid members in the oi calibrator

---
 src/client/Calibrator/Oi.cpp | 41 +++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/client/Calibrator/Oi.cpp b/src/client/Calibrator/Oi.cpp
index 12d54d4..6a6a1c9 100644
--- a/src/client/Calibrator/Oi.cpp
+++ b/src/client/Calibrator/Oi.cpp
@@ -376,11 +376,29 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
          }
       }
 
+      // Calculate number of valid members
+      int nValidEns = 0;
+      std::vector<int> validEns;
+      for(int e = 0; e < nEns; e++) {
+         int numInvalid = 0;
+         for(int x = 0; x < nX; x++) {
+            for(int y = 0; y < nY; y++) {
+               float value = (*field)(y, x, e);
+               if(!Util::isValid(value))
+                  numInvalid++;
+            }
+         }
+         if(numInvalid == 0) {
+            validEns.push_back(e);
+            nValidEns++;
+         }
+      }
+
       // Compute Y
       vec2 gY(gS);
       std::vector<float> gYhat(gS);
       for(int i = 0; i < gS; i++) {
-         gY[i].resize(nEns, 0);
+         gY[i].resize(nEns, Util::MV);
          float elevCorr = 0;
          if(Util::isValid(mElevGradient) && mElevGradient != 0) {
             float nnElev = elevs[gYi[i]][gXi[i]];
@@ -392,7 +410,9 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
          }
          float total = 0;
          int count = 0;
-         for(int e = 0; e < nEns; e++) {
+         // Only use the members that are used at the gridpoints
+         for(int ei = 0; ei < nValidEns; ei++) {
+            int e = validEns[ei];
             float value = (*field)(gYi[i], gXi[i], e);
             if(Util::isValid(value)) {
                value += elevCorr;
@@ -417,23 +437,6 @@ bool CalibratorOi::calibrateCore(File& iFile, const ParameterFile* iParameterFil
          }
       }
 
-      // Calculate number of valid members
-      int nValidEns = 0;
-      std::vector<int> validEns;
-      for(int e = 0; e < nEns; e++) {
-         int numInvalid = 0;
-         for(int x = 0; x < nX; x++) {
-            for(int y = 0; y < nY; y++) {
-               float value = (*field)(y, x, e);
-               if(!Util::isValid(value))
-                  numInvalid++;
-            }
-         }
-         if(numInvalid == 0) {
-            validEns.push_back(e);
-            nValidEns++;
-         }
-      }
       std::cout << "Number of valid ensemble members: " << nValidEns << std::endl;
       bool singleMemberMode = !mUseEns || nValidEns < mMinValidEns;
 
-- 
2.43.0

