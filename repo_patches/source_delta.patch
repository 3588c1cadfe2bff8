From 46a26e1b187f39b2c64ea1c83b52bb6b28ab0fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:05 +0000
Subject: [PATCH 01/69] fix: TableMedium reads past the end of its table at the
 last node

---
 src/medium.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/medium.cpp b/src/medium.cpp
index 77330aa..4014883 100644
--- a/src/medium.cpp
+++ b/src/medium.cpp
@@ -88,10 +88,12 @@ namespace batoid {
 
         double TableMedium::getN(double wavelength) const {
             // Linear search.  Better for GPU's?  and not that painful for small arrays?
-            if (wavelength < _args[0])
+            if (std::isnan(wavelength) || wavelength < _args[0])
                 return NAN;
             if (wavelength > _args[_size-1])
                 return NAN;
+            if (wavelength == _args[_size-1])
+                return _vals[_size-1];
             int upperIdx;
             for(upperIdx=1; upperIdx<_size; upperIdx++) {
                 if (wavelength < _args[upperIdx])
-- 
2.43.0


From 4b847648cb4bde16b8dd3d1339fb959dcb4e38e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 02/69] fix: ObscPolygon.containsGrid misses the closing edge
 and mixes up row lengths

---
 src/obscuration.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/obscuration.cpp b/src/obscuration.cpp
index 20cc015..eb8a010 100644
--- a/src/obscuration.cpp
+++ b/src/obscuration.cpp
@@ -261,7 +261,7 @@ namespace batoid {
             // Loop through edges to find all relevant x intercepts
             double x1 = _xp[0];  // first point of segment
             double y1 = _yp[0];
-            for (int k=0; k<_size; k++) {
+            for (int k=1; k<=_size; k++) {
                 double x2 = _xp[k % _size];  // second point of segment
                 double y2 = _yp[k % _size];
                 if ((y > std::min(y1, y2)) && (y <= std::max(y1, y2)))
@@ -275,13 +275,11 @@ namespace batoid {
             bool contained = false;
             auto xptr = xinters.begin();
             for (int i=0; i<nx; i++) {
-                if (xptr != xinters.end()) {
-                    if (xgrid[i] > *xptr) {
-                        contained = !contained;
-                        xptr++;
-                    }
+                while (xptr != xinters.end() && xgrid[i] > *xptr) {
+                    contained = !contained;
+                    xptr++;
                 }
-                out[j*ny+i] = contained;
+                out[j*nx+i] = contained;
             }
         }
     }
-- 
2.43.0


From 716caac25da1b33faa403736c0fd6ed8e3df4a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:56 +0000
Subject: [PATCH 03/69] fix: ObscPolygon views its caller's arrays as doubles
 without converting or copying them

---
 batoid/obscuration.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/batoid/obscuration.py b/batoid/obscuration.py
index 895fa27..fbc0bc6 100644
--- a/batoid/obscuration.py
+++ b/batoid/obscuration.py
@@ -257,8 +257,10 @@ class ObscPolygon(Obscuration):
     """
 
     def __init__(self, xs, ys):
-        self.xs = np.ascontiguousarray(xs, dtype=float)
-        self.ys = np.ascontiguousarray(ys, dtype=float)
+        self.xs = np.array(xs, dtype=float, order="C")
+        self.ys = np.array(ys, dtype=float, order="C")
+        if self.xs.ndim != 1 or self.xs.shape != self.ys.shape:
+            raise ValueError("xs and ys must be 1d and have the same length")
         self._obsc = _batoid.CPPObscPolygon(
             self.xs.ctypes.data,
             self.ys.ctypes.data,
@@ -268,8 +270,8 @@ class ObscPolygon(Obscuration):
     def __eq__(self, rhs):
         if type(rhs) == type(self):
             return (
-                np.all(self.xs == rhs.xs)
-                and np.all(self.ys == rhs.ys)
+                np.array_equal(self.xs, rhs.xs)
+                and np.array_equal(self.ys, rhs.ys)
             )
         return False
 
@@ -290,6 +292,8 @@ class ObscPolygon(Obscuration):
         return f"ObscPolygon({self.xs!r}, {self.ys!r})"
 
     def containsGrid(self, xgrid, ygrid):
+        xgrid = np.ascontiguousarray(xgrid, dtype=float)
+        ygrid = np.ascontiguousarray(ygrid, dtype=float)
         nx = len(xgrid)
         ny = len(ygrid)
         out = np.empty((ny, nx), dtype=bool)
-- 
2.43.0


From 555926044dc4823807d2d8089039d3157e8f2916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:56 +0000
Subject: [PATCH 04/69] fix: Obscuration.obscure does not return the rays as
 documented

---
 batoid/obscuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/obscuration.py b/batoid/obscuration.py
index fbc0bc6..830cb3d 100644
--- a/batoid/obscuration.py
+++ b/batoid/obscuration.py
@@ -39,7 +39,7 @@ class Obscuration:
         out : `RayVector`
             Returned object will have appropriate elements marked as vignetted.
         """
-        obscure(self, rv)
+        return obscure(self, rv)
 
     def __ne__(self, rhs):
         return not (self == rhs)
-- 
2.43.0


From 7757826e0c445d72fb203625197b9c1ef5358502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:56 +0000
Subject: [PATCH 05/69] fix: TableMedium reinterprets tables that are not
 contiguous doubles

---
 batoid/medium.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/batoid/medium.py b/batoid/medium.py
index fff1e26..2e37b8a 100644
--- a/batoid/medium.py
+++ b/batoid/medium.py
@@ -69,8 +69,13 @@ class TableMedium(Medium):
         Refractive indices.
     """
     def __init__(self, wavelengths, ns):
-        self.wavelengths = np.array(wavelengths)
-        self.ns = np.array(ns)
+        self.wavelengths = np.array(wavelengths, dtype=float, order="C")
+        self.ns = np.array(ns, dtype=float, order="C")
+        if (
+            self.wavelengths.ndim != 1 or len(self.wavelengths) == 0
+            or self.wavelengths.shape != self.ns.shape
+        ):
+            raise ValueError("wavelengths and ns must be 1d and have the same length")
         self._medium = _batoid.CPPTableMedium(
             self.wavelengths.ctypes.data,
             self.ns.ctypes.data,
-- 
2.43.0


From ccf7673bc51fc13e161593025fc7c84d0b0a8fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:51 +0000
Subject: [PATCH 06/69] fix: Quadric intersection of paraboloids, and of points
 off the sheet through the vertex

---
 src/quadric.cpp | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/quadric.cpp b/src/quadric.cpp
index d04e43f..2676618 100644
--- a/src/quadric.cpp
+++ b/src/quadric.cpp
@@ -43,30 +43,33 @@ namespace batoid {
         double vx, double vy, double vz,
         double& dt, int niter
     ) const {
-        double z0term = z-_Rcp1;
-        double vrr0 = vx*x + vy*y;
-
-        double a = vz*vz + (vx*vx+vy*vy)*_cp1inv;
-        double b = 2*(vz*z0term + vrr0*_cp1inv);
-        double c = z0term*z0term - _RRcp1cp1 + (x*x + y*y)*_cp1inv;
+        // Write the conic through the vertex as r^2 + (1+k) z^2 - 2 R z = 0, which, unlike
+        // centering it at R/(1+k), is regular for paraboloids.
+        double a = vx*vx + vy*vy + _cp1*vz*vz;
+        double b = 2*(x*vx + y*vy + _cp1*z*vz - _R*vz);
+        double c = x*x + y*y + _cp1*z*z - 2*_R*z;
 
         double discriminant = b*b - 4*a*c;
 
-        if (discriminant < 0)
+        if (discriminant < 0 || (a == 0 && b == 0))
             return false;
 
-        double dt1;
-        if (b > 0) {
-            dt1 = (-b - sqrt(discriminant)) / (2*a);
-        } else {
-            dt1 = 2*c / (-b + sqrt(discriminant));
-        }
-        double dt2 = c / (a*dt1);
+        double q = -0.5*(b + std::copysign(sqrt(discriminant), b));
+        double dt1 = (a != 0) ? q/a : c/q;
+        double dt2 = (q != 0) ? c/q : dt1;
 
-        // New strategy, just always pick smaller abs(z).
+        // The conic equation is also satisfied on the far side of an ellipsoid and on the other
+        // sheet of a hyperboloid, neither of which is part of the surface.
         double z1 = z + vz*dt1;
         double z2 = z + vz*dt2;
-        dt = (std::abs(z1) < std::abs(z2)) ? dt1 : dt2;
+        bool ok1 = _cp1*z1/_R <= 1;
+        bool ok2 = _cp1*z2/_R <= 1;
+        if (!ok1 && !ok2)
+            return false;
+        if (ok1 && ok2)
+            dt = (std::abs(z1) < std::abs(z2)) ? dt1 : dt2;
+        else
+            dt = ok1 ? dt1 : dt2;
         return true;
     }
 
-- 
2.43.0


From 45287bbb50033851003810f0512f2eb86d773c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:51 +0000
Subject: [PATCH 07/69] fix: Sphere intersection accepts the far hemisphere,
 and depends on rounding on the surface

---
 src/sphere.cpp | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/sphere.cpp b/src/sphere.cpp
index d0f505f..c670d49 100644
--- a/src/sphere.cpp
+++ b/src/sphere.cpp
@@ -38,31 +38,28 @@ namespace batoid {
         double vx, double vy, double vz,
         double& dt, int niter
     ) const {
-        double vr2 = vx*vx + vy*vy;
-        double vz2 = vz*vz;
-        double vrr0 = vx*x + vy*y;
-        double r02 = x*x + y*y;
-        double z0term = z-_R;
-
-        double a = vz2 + vr2;
-        double b = 2*vz*z0term + 2*vrr0;
-        double c = z0term*z0term - _Rsq + r02;
+        double a = vx*vx + vy*vy + vz*vz;
+        double b = 2*(x*vx + y*vy + z*vz - _R*vz);
+        double c = x*x + y*y + z*z - 2*_R*z;
 
         double discriminant = b*b - 4*a*c;
 
         if (discriminant < 0)
             return false;
 
-        double dt1;
-        if (b > 0) {
-            dt1 = (-b - sqrt(discriminant)) / (2*a);
-        } else {
-            dt1 = 2*c / (-b + sqrt(discriminant));
-        }
-        double dt2 = c / (a*dt1);
-
-        // If vz < 0, R > 0, want greatest time.
-        dt = (vz*_R < 0) ? std::max(dt1, dt2) : std::min(dt1, dt2);
+        double q = -0.5*(b + std::copysign(sqrt(discriminant), b));
+        double dt1 = q/a;
+        double dt2 = (q != 0) ? c/q : dt1;
+        if (dt1 > dt2)
+            std::swap(dt1, dt2);
+
+        // If vz down and sphere concave up, then pick greatest time;
+        // I.e., intersection closest to the vertex.
+        // All other cases follow from symmetry
+        dt = (vz*_R < 0) ? dt2 : dt1;
+        // Only the hemisphere through the vertex is part of the surface.
+        if (!((z + vz*dt)/_R <= 1))
+            return false;
         return true;
     }
 
-- 
2.43.0


From 9de5b6b5b98b1b5e23316e9454edb22d77a107fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:51 +0000
Subject: [PATCH 08/69] fix: Paraboloid intersection of rays already on the
 surface gives NaN or the wrong crossing

---
 src/paraboloid.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/paraboloid.cpp b/src/paraboloid.cpp
index d282c95..7be6215 100644
--- a/src/paraboloid.cpp
+++ b/src/paraboloid.cpp
@@ -56,12 +56,9 @@ namespace batoid {
         if (discriminant < 0)
             return false;
 
-        if (b > 0) {
-            dt1 = (-b - sqrt(discriminant)) / (2*a);
-        } else {
-            dt1 = 2*c / (-b + sqrt(discriminant));
-        }
-        double dt2 = c / (a*dt1);
+        double q = -0.5*(b + std::copysign(sqrt(discriminant), b));
+        dt1 = q/a;
+        double dt2 = (q != 0) ? c/q : dt1;
 
         // If vz down and paraboloid concave up, then pick greatest time;
         // I.e., intersection closest to the origin.
-- 
2.43.0


From c7efda4ff90000602b0bb4a5b4fd6dfd374dbe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 09/69] fix: comparing RayVectors of different lengths reads
 past the shorter one

---
 src/rayVector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rayVector.cpp b/src/rayVector.cpp
index 0d22e5f..b53d9b4 100644
--- a/src/rayVector.cpp
+++ b/src/rayVector.cpp
@@ -223,7 +223,8 @@ namespace batoid {
 
     bool RayVector::operator==(const RayVector& rhs) const {
         return (
-            x == rhs.x
+            size == rhs.size
+            && x == rhs.x
             && y == rhs.y
             && z == rhs.z
             && vx == rhs.vx
-- 
2.43.0


From 879d2d309ca32616be7b99a311266a0325c69c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 10/69] fix: refraction into a medium without an index at the
 wavelength gives unfailed NaN rays

---
 src/batoid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/batoid.cpp b/src/batoid.cpp
index 2627e2c..7f9a115 100644
--- a/src/batoid.cpp
+++ b/src/batoid.cpp
@@ -479,7 +479,7 @@ namespace batoid {
                     yptr[i] = y;
                     zptr[i] = z;
                     tptr[i] = t;
-                    if (sinsqr > 1.0) {  // total internal reflection
+                    if (!(sinsqr <= 1.0)) {  // total internal reflection, or no refractive index
                         vxptr[i] = std::numeric_limits<double>::quiet_NaN();
                         vyptr[i] = std::numeric_limits<double>::quiet_NaN();
                         vzptr[i] = std::numeric_limits<double>::quiet_NaN();
@@ -647,7 +647,7 @@ namespace batoid {
                     yptr[i] = y;
                     zptr[i] = z;
                     tptr[i] = t;
-                    if (sinsqr > 1.0) {  // total internal reflection
+                    if (!(sinsqr <= 1.0)) {  // total internal reflection, or no refractive index
                         vxptr[i] = std::numeric_limits<double>::quiet_NaN();
                         vyptr[i] = std::numeric_limits<double>::quiet_NaN();
                         vzptr[i] = std::numeric_limits<double>::quiet_NaN();
-- 
2.43.0


From ee78e28734f7b9d98271d5ff559c6e03bb2c8015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 11/69] fix: OPD screens deflecting rays past grazing give
 unfailed NaN rays

---
 src/batoid.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/batoid.cpp b/src/batoid.cpp
index 7f9a115..df74685 100644
--- a/src/batoid.cpp
+++ b/src/batoid.cpp
@@ -809,6 +809,11 @@ namespace batoid {
                         cos2 -= dPd2;
                         cos3 = std::sqrt(1 - cos1*cos1 - cos2*cos2);
                     }
+                    if (std::isnan(cos3)) {  // deflected past grazing, or no gradient here
+                        failptr[i] = true;
+                        vigptr[i] = true;
+                        continue;
+                    }
 
                     // printf("cos1 = %.18f\n", cos1);
                     // printf("cos2 = %.18f\n", cos2);
-- 
2.43.0


From d092f238aa11ef6265b34dda0b0fb41420e5aaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:58 +0000
Subject: [PATCH 12/69] fix: Surface.normal reads out of bounds when x and y
 have different shapes

---
 batoid/surface.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/batoid/surface.py b/batoid/surface.py
index 1f15f40..f9585cd 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -38,20 +38,17 @@ class Surface(ABC):
         normal : array_like, shape (n, 3)
             Surface normals.
         """
-        xx = np.asfortranarray(x, dtype=float)
-        yy = np.asfortranarray(y, dtype=float)
+        xx, yy = np.broadcast_arrays(x, y)
+        scalar = xx.ndim == 0
+        xx = np.asfortranarray(xx, dtype=float)
+        yy = np.asfortranarray(yy, dtype=float)
         out = np.empty(xx.shape+(3,), order='F', dtype=float)
         size = len(xx.ravel())
 
         self._surface.normal(
             xx.ctypes.data, yy.ctypes.data, size, out.ctypes.data
         )
-        try:
-            len(x)
-        except TypeError:
-            return out[0]
-        else:
-            return out
+        return out[0] if scalar else out
 
     def intersect(self, rv, coordSys=None, coating=None):
         return intersect(self, rv, coordSys, coating)
-- 
2.43.0


From 8d2c145e1280c062313f02d2e8603efd147080aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:58 +0000
Subject: [PATCH 13/69] fix: Asphere with imin=1 reinterprets coefficients that
 are not doubles, and views its caller's array

---
 batoid/surface.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/batoid/surface.py b/batoid/surface.py
index f9585cd..2b5d309 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -1,4 +1,5 @@
 from abc import ABC, abstractmethod
+from copy import copy
 from numbers import Integral, Real
 
 import numpy as np
@@ -375,7 +376,6 @@ class Asphere(Surface):
     def __init__(self, R, conic, coefs, imin=2):
         self.R = R
         self.conic = conic
-        self.coefs = coefs
         self.imin = imin
 
         if not isinstance(imin, Integral):
@@ -384,13 +384,10 @@ class Asphere(Surface):
             raise ValueError("imin must be >= 1")
         if not all(isinstance(coef, Real) for coef in coefs):
             raise TypeError("coefs must be a list of floats")
+        self.coefs = copy(coefs)
 
         # padded_coefs starts at i=1, so the 0th term is a_1 r^2.
-        if imin != 1:
-            padded_coefs = np.concatenate([np.zeros(imin-1), coefs])
-        else:
-            padded_coefs = coefs
-        self._padded_coefs = np.ascontiguousarray(padded_coefs)
+        self._padded_coefs = np.concatenate([np.zeros(imin-1), coefs]).astype(float)
         self._surface = _batoid.CPPAsphere(
             R, conic, self._padded_coefs.ctypes.data, len(self._padded_coefs)
         )
-- 
2.43.0


From 9eceff59af57a400ed0c739d8f5172dc225645bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:59 +0000
Subject: [PATCH 14/69] fix: equal Bicubics with differently spelled nanpolicy
 hash differently

---
 batoid/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/surface.py b/batoid/surface.py
index 2b5d309..f3636aa 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -605,7 +605,7 @@ class Bicubic(Surface):
         return hash((
             "Bicubic", tuple(self.xs), tuple(self.ys), tuple(self.zs.ravel()),
             tuple(self.dzdxs.ravel()), tuple(self.dzdys.ravel()),
-            tuple(self.d2zdxdys.ravel()), self.nanpolicy
+            tuple(self.d2zdxdys.ravel()), self.nanpolicy.upper()
         ))
 
     def __setstate__(self, args):
-- 
2.43.0


From 7d80796fcdedb8a0665b4155c4b696cd0af210dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:02 +0000
Subject: [PATCH 15/69] fix: Bicubic rejects derivatives given as lists

---
 batoid/surface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/batoid/surface.py b/batoid/surface.py
index f3636aa..b220fa9 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -554,6 +554,7 @@ class Bicubic(Surface):
             dzdys[0, :] = (self._zs[1, :] - self._zs[0, :])/dy
             dzdys[-1, :] = (self._zs[-1, :] - self._zs[-2, :])/dy
 
+        dzdys = np.array(dzdys, dtype=float, order="C")
         if d2zdxdys is None:
             d2zdxdys = np.empty_like(self._zs)
             d2zdxdys[:, 1:-1] = (dzdys[:, 2:] - dzdys[:, :-2])/(2*dx)
@@ -561,7 +562,7 @@ class Bicubic(Surface):
             d2zdxdys[:, -1] = (dzdys[:, -1] - dzdys[:, -2])/dx
 
         self._dzdxs = np.array(dzdxs, dtype=float, order="C")
-        self._dzdys = np.array(dzdys, dtype=float, order="C")
+        self._dzdys = dzdys
         self._d2zdxdys = np.array(d2zdxdys, dtype=float, order="C")
 
         self.nanpolicy = nanpolicy
-- 
2.43.0


From b0bfe407d75b562f620ae6611a3932a94a171d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:57 +0000
Subject: [PATCH 16/69] fix: indexing a RayVector by a negative or a numpy
 integer selects the wrong rays

---
 batoid/rayVector.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index c639ee4..e1c94d5 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -1318,7 +1318,8 @@ class RayVector:
          self._failed, self.coordSys) = args
 
     def __getitem__(self, idx):
-        if isinstance(idx, int):
+        if isinstance(idx, Integral):
+            idx = int(idx)
             if idx >= 0:
                 if idx >= self._rv.t.size:
                     msg = "index {} is out of bounds for axis 0 with size {}"
@@ -1330,7 +1331,7 @@ class RayVector:
                     msg = "index {} is out of bounds for axis 0 with size {}"
                     msg = msg.format(idx, self._rv.t.size)
                     raise IndexError(msg)
-                idx = slice(self._rv.t.size+idx, self._rv.t.size-idx+1)
+                idx = slice(self._rv.t.size+idx, self._rv.t.size+idx+1)
 
         self._syncToHost()
         return RayVector._directInit(
-- 
2.43.0


From 5f0f5a7ae300aa52a97e665c031b4242109b7322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 17/69] fix: RayVector equality ignores the coordinate system,
 and fails for other types

---
 batoid/rayVector.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index e1c94d5..98f9887 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -1290,10 +1290,11 @@ class RayVector:
         return self._t.size
 
     def __eq__(self, rhs):
-        return self._rv == rhs._rv
+        if not isinstance(rhs, RayVector): return False
+        return self._rv == rhs._rv and self.coordSys == rhs.coordSys
 
     def __ne__(self, rhs):
-        return self._rv != rhs._rv
+        return not (self == rhs)
 
     def __repr__(self):
         out = f"RayVector({self.x!r}, {self.y!r}, {self.z!r}"
-- 
2.43.0


From f3968f349cf1fdfef28d8bc0a773d3a683e8a79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 18/69] fix: RayVector.fromStop modifies and keeps its caller's
 x and y arrays

---
 batoid/rayVector.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 98f9887..4f9987c 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -967,8 +967,9 @@ class RayVector:
         if wavelength is None:
             raise ValueError("Missing wavelength keyword")
 
-        x = np.atleast_1d(x).astype(float, copy=False)
-        y = np.atleast_1d(y).astype(float, copy=False)
+        x, y = np.broadcast_arrays(np.atleast_1d(x), np.atleast_1d(y))
+        x = np.array(x, dtype=float, order='C')
+        y = np.array(y, dtype=float, order='C')
         z = stopSurface.surface.sag(x, y)
         transform = CoordTransform(stopSurface.coordSys, coordSys)
         applyForwardTransformArrays(transform, x, y, z)
-- 
2.43.0


From dc48b8f88ca305923252b819aeb68d37ce8c7087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 19/69] fix: RayVector.asSpokes with given ring radii or given
 spoke angles

---
 batoid/rayVector.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 4f9987c..a8558e6 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -787,13 +787,14 @@ class RayVector:
             elif spacing == 'GQ':
                 if spokes is None:
                     spokes = 2*rings+1
+                nspokes = spokes if isinstance(spokes, Integral) else len(spokes)
                 Li, w = np.polynomial.legendre.leggauss(rings)
                 eps = inner/outer
                 area = np.pi*(1-eps**2)
                 rings = np.sqrt(eps**2 + (1+Li)*(1-eps**2)/2)*outer
-                flux = w*area/(2*spokes)
-            if isinstance(spokes, Integral):
-                spokes = np.linspace(0, 2*np.pi, spokes, endpoint=False)
+                flux = w*area/(2*nspokes)
+        if isinstance(spokes, Integral):
+            spokes = np.linspace(0, 2*np.pi, spokes, endpoint=False)
         rings, spokes = np.meshgrid(rings, spokes)
         flux = np.broadcast_to(flux, rings.shape)
         rings = rings.ravel()
-- 
2.43.0


From ca6fdef715b6be1bdc2f9513dbf9225ffe01e607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 20/69] fix: ray generators hand the caller's flux array to the
 core unconverted

---
 batoid/rayVector.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index a8558e6..1b4fa12 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -819,8 +819,7 @@ class RayVector:
         cls, backDist, source, dirCos, n, x, y, z, w, flux, coordSys
     ):
         """Map rays backwards to their source position."""
-        if isinstance(flux, Real):
-            flux = np.full(len(x), float(flux))
+        flux = np.array(np.broadcast_to(flux, x.shape), dtype=float, order='C')
         if source is None:
             vv = np.array(dirCos, dtype=float, copy=True)
             vv /= n*np.sqrt(np.dot(vv, vv))
-- 
2.43.0


From 6878ddd4a4ed8346259911c67b67153fa5a886ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 21/69] fix: ray generators give NaN for rays travelling along
 the x axis

---
 batoid/rayVector.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 1b4fa12..d1c4af6 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -824,7 +824,11 @@ class RayVector:
             vv = np.array(dirCos, dtype=float, copy=True)
             vv /= n*np.sqrt(np.dot(vv, vv))
             zhat = -n*vv
-            xhat = np.cross(np.array([1.0, 0.0, 0.0]), zhat)
+            # any axis not parallel to the rays will do
+            if abs(zhat[0]) < 0.9:
+                xhat = np.cross(np.array([1.0, 0.0, 0.0]), zhat)
+            else:
+                xhat = np.cross(np.array([0.0, 1.0, 0.0]), zhat)
             xhat /= np.sqrt(np.dot(xhat, xhat))
             yhat = np.cross(xhat, zhat)
             origin = zhat*backDist
-- 
2.43.0


From 7e1cba9c5a890a230c48e052635504a8ab720a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 22/69] fix: RayVector.asGrid transposes the primitive vectors
 lx and ly

---
 batoid/rayVector.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index d1c4af6..daf9c4d 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -429,8 +429,7 @@ class RayVector:
             xx = xx.ravel()
             yy = yy.ravel()
         stack = np.stack([xx, yy])
-        x = np.dot(lx, stack)
-        y = np.dot(ly, stack)
+        x, y = np.dot(np.transpose([lx, ly]), stack)
         del xx, yy, stack
         z = stopSurface.surface.sag(x, y)
         transform = CoordTransform(stopSurface.coordSys, coordSys)
-- 
2.43.0


From f320b66a9bea0d4dae624e591da0080dce9844c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:56 +0000
Subject: [PATCH 23/69] fix: RayVector.asGrid with vector separations, or with
 two rays per side

---
 batoid/rayVector.py | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index daf9c4d..4e79ae0 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -370,22 +370,33 @@ class RayVector:
 
         if nx is not None and ny is None:
             ny = nx
-        if dx is not None and dy is None:
-            dy = dx
-        if lx is not None and ly is None:
-            if isinstance(lx, Real):
-                ly = lx
-            else:
-                ly = np.dot(np.array([[0, -1], [1, 0]]), lx)
+        # Promote separations and lengths to vectors.
+        def asVectors(ax, ay):
+            if ax is None:
+                return None, None
+            if isinstance(ax, Real):
+                ax = (ax, 0.0)
+            ax = np.array(ax, dtype=float)
+            if ay is None:
+                ay = np.array([-ax[1], ax[0]])
+            elif isinstance(ay, Real):
+                ay = (0.0, ay)
+            return ax, np.array(ay, dtype=float)
+        dx, dy = asVectors(dx, dy)
+        lx, ly = asVectors(lx, ly)
 
         # We need lx, ly, nx, ny for below, so construct these from other
         # arguments if they're not already available.
         if nx is not None and dx is not None:
-            if (nx%2) == 0:
+            if nx == 2:
+                lx = dx*2
+            elif (nx%2) == 0:
                 lx = dx*(nx-2)
             else:
                 lx = dx*(nx-1)
-            if (ny%2) == 0:
+            if ny == 2:
+                ly = dy*2
+            elif (ny%2) == 0:
                 ly = dy*(ny-2)
             else:
                 ly = dy*(ny-1)
@@ -394,19 +405,14 @@ class RayVector:
             # always infer an even n (since even and odd are degenerate given
             # only lx, dx).
             slop = 0.1  # prevent 3.9999 -> 3, e.g.
-            nx = int((lx/dx+slop)//2)*2+2
-            ny = int((ly/dy+slop)//2)*2+2
+            nx = int((np.hypot(*lx)/np.hypot(*dx)+slop)//2)*2+2
+            ny = int((np.hypot(*ly)/np.hypot(*dy)+slop)//2)*2+2
             # These are the real dx, dy; which may be different from what was
             # passed in order to force an integer for nx/ny.  We don't actually
             # need them after this point though.
             # dx = lx/(nx-2)
             # dy = ly/(ny-2)
 
-        if isinstance(lx, Real):
-            lx = (lx, 0.0)
-        if isinstance(ly, Real):
-            ly = (0.0, ly)
-
         if nrandom is not None:
             if rng is None:
                 rng = np.random.default_rng()
-- 
2.43.0


From 4f61c7888925924432e0abd2f040240b82299148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:56 +0000
Subject: [PATCH 24/69] fix: ray generators return nothing for rays from a
 finite source

---
 batoid/rayVector.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 4e79ae0..4ba90d9 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -854,17 +854,20 @@ class RayVector:
                 flux, vignetted, failed, coordSys
             )
         else:
-            pass
-            # v = np.copy(r)
-            # v -= source
-            # v /= n*np.einsum('ab,ab->b', v, v)
-            # r[:] = source
-            # t = np.zeros(len(r), dtype=float)
-            # vignetted = np.zeros(len(r), dtype=bool)
-            # failed = np.zeros(len(r), dtype=bool)
-            # return RayVector._directInit(
-            #     r, v, t, w, flux, vignetted, failed, coordSys
-            # )
+            # source is in global coordinates
+            source = np.array(source, dtype=float)
+            source = CoordTransform(globalCoordSys, coordSys).applyForwardArray(*source)
+            v = np.stack([x, y, z]) - source[:, None]
+            v /= n*np.sqrt(np.sum(v*v, axis=0))
+            vx, vy, vz = v
+            x, y, z = [np.full(len(x), s) for s in source]
+            t = np.zeros(len(x), dtype=float)
+            vignetted = np.zeros(len(x), dtype=bool)
+            failed = np.zeros(len(x), dtype=bool)
+            return RayVector._directInit(
+                x, y, z, vx, vy, vz, t, w,
+                flux, vignetted, failed, coordSys
+            )
 
     @classmethod
     def fromStop(
-- 
2.43.0


From d706c64fefff9bc42cc5fc4391265aa2f731ab6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:23 +0000
Subject: [PATCH 25/69] fix: CoordTransform mixes up the axes of
 multidimensional coordinate arrays

---
 batoid/coordTransform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/coordTransform.py b/batoid/coordTransform.py
index 3f4a08a..0c37ced 100644
--- a/batoid/coordTransform.py
+++ b/batoid/coordTransform.py
@@ -87,7 +87,7 @@ class CoordTransform:
         """
         r = np.array([x, y, z], dtype=float, copy=True).T
         r -= self.dr
-        return self.drot.T@r.T
+        return np.tensordot(self.drot.T, r.T, axes=1)
 
     def applyReverseArray(self, x, y, z):
         """Apply reverse-direction transformation to ndarrays.
@@ -108,7 +108,7 @@ class CoordTransform:
         returns a newly created ndarray.
         """
         r = np.array([x, y, z], dtype=float, copy=True)
-        r = (self.drot@r).T
+        r = np.tensordot(self.drot, r, axes=1).T
         r += self.dr
         return r.T
 
-- 
2.43.0


From e496a1def7a88c8d70c37c5a280d373ebd755ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 26/69] fix: backDist is measured from the coordinate origin
 instead of from the stop surface

---
 batoid/rayVector.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 4ba90d9..6216519 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -445,7 +445,7 @@ class RayVector:
         n = medium.getN(wavelength)
 
         return cls._finish(
-            backDist, source, dirCos, n, x, y, z, w, flux, coordSys
+            backDist, stopSurface, source, dirCos, n, x, y, z, w, flux, coordSys
         )
 
     @classmethod
@@ -644,7 +644,7 @@ class RayVector:
         n = medium.getN(wavelength)
 
         return cls._finish(
-            backDist, source, dirCos, n, x, y, z, w, flux, coordSys
+            backDist, stopSurface, source, dirCos, n, x, y, z, w, flux, coordSys
         )
 
     @classmethod
@@ -816,12 +816,12 @@ class RayVector:
         w.fill(wavelength)
         n = medium.getN(wavelength)
         return cls._finish(
-            backDist, source, dirCos, n, x, y, z, w, flux, coordSys
+            backDist, stopSurface, source, dirCos, n, x, y, z, w, flux, coordSys
         )
 
     @classmethod
     def _finish(
-        cls, backDist, source, dirCos, n, x, y, z, w, flux, coordSys
+        cls, backDist, stopSurface, source, dirCos, n, x, y, z, w, flux, coordSys
     ):
         """Map rays backwards to their source position."""
         flux = np.array(np.broadcast_to(flux, x.shape), dtype=float, order='C')
@@ -836,7 +836,10 @@ class RayVector:
                 xhat = np.cross(np.array([0.0, 1.0, 0.0]), zhat)
             xhat /= np.sqrt(np.dot(xhat, xhat))
             yhat = np.cross(xhat, zhat)
-            origin = zhat*backDist
+            # backDist is measured from the point (0, 0, z(0,0)) on the stop surface
+            transform = CoordTransform(stopSurface.coordSys, coordSys)
+            origin = transform.applyForwardArray(0, 0, stopSurface.surface.sag(0, 0))
+            origin += zhat*backDist
             rot = np.stack([xhat, yhat, zhat]).T
             _batoid.finishParallel(
                 origin, rot.ravel(), vv,
@@ -991,7 +994,7 @@ class RayVector:
         n = medium.getN(wavelength)
 
         return cls._finish(
-            backDist, source, dirCos, n, x, y, z, w, flux, coordSys
+            backDist, stopSurface, source, dirCos, n, x, y, z, w, flux, coordSys
         )
 
     @classmethod
-- 
2.43.0


From 34fc9df7c064cf6a80ceec642dd021e823c85403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:08 +0000
Subject: [PATCH 27/69] fix: field projections lose precision near the axis,
 and the shape of one-element arrays

---
 batoid/utils.py | 113 +++++++-----------------------------------------
 1 file changed, 15 insertions(+), 98 deletions(-)

diff --git a/batoid/utils.py b/batoid/utils.py
index 7d9b94b..b202b48 100644
--- a/batoid/utils.py
+++ b/batoid/utils.py
@@ -90,23 +90,8 @@ def postelToDirCos(u, v):
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
     rho = np.sqrt(u*u + v*v)
-    wZero = (rho == 0.0)
-    try:
-        if wZero:
-            return 0.0, 0.0, -1.0
-    except ValueError:
-        pass
-    srho = np.sin(rho)
-    with np.errstate(invalid='ignore'):
-        alpha = u/rho*srho
-        beta = v/rho*srho
-    gamma = -np.cos(rho)
-    if np.any(wZero):
-        alpha[wZero] = 0.0
-        beta[wZero] = 0.0
-        gamma[wZero] = -1.0
-
-    return alpha, beta, gamma
+    sinc = np.sinc(rho/np.pi)  # sin(rho)/rho
+    return u*sinc, v*sinc, -np.cos(rho)
 
 
 def dirCosToPostel(alpha, beta, gamma):
@@ -129,21 +114,11 @@ def dirCosToPostel(alpha, beta, gamma):
     (alpha, beta, gamma) = (0, 0, -1) (a ray coming directly from above).  The
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
-    wZero = (gamma == -1)
-    try:
-        if wZero:
-            return 0.0, 0.0
-    except ValueError:
-        pass
-    rho = np.arccos(-gamma)
-    srho = np.sin(rho)
-    with np.errstate(invalid='ignore'):
-        u = alpha*rho/srho
-        v = beta*rho/srho
-    if np.any(wZero):
-        u[wZero] = 0.0
-        v[wZero] = 0.0
-    return u, v
+    srho = np.hypot(alpha, beta)
+    rho = np.arctan2(srho, -gamma)
+    with np.errstate(invalid='ignore', divide='ignore'):
+        factor = np.where(srho == 0.0, 1.0, rho/srho)
+    return alpha*factor, beta*factor
 
 
 def zemaxToDirCos(u, v):
@@ -221,24 +196,9 @@ def stereographicToDirCos(u, v):
     (alpha, beta, gamma) = (0, 0, -1) (a ray coming directly from above).  The
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
-    rho = np.sqrt(u*u + v*v)
-    wZero = (rho == 0.0)
-    try:
-        if wZero:
-            return 0.0, 0.0, -1.0
-    except ValueError:
-        pass
-    theta = 2*np.arctan(rho/2)
-    stheta = np.sin(theta)
-    with np.errstate(invalid='ignore'):
-        alpha = u/rho*stheta
-        beta = v/rho*stheta
-    gamma = -np.cos(theta)
-    if np.any(wZero):
-        alpha[wZero] = 0.0
-        beta[wZero] = 0.0
-        gamma[wZero] = -1.0
-    return alpha, beta, gamma
+    # tan^2(theta/2)
+    tsqr = (u*u + v*v)/4
+    return u/(1+tsqr), v/(1+tsqr), -(1-tsqr)/(1+tsqr)
 
 
 def dirCosToStereographic(alpha, beta, gamma):
@@ -260,22 +220,7 @@ def dirCosToStereographic(alpha, beta, gamma):
     (alpha, beta, gamma) = (0, 0, -1) (a ray coming directly from above).  The
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
-    wZero = (gamma == -1)
-    try:
-        if wZero:
-            return 0.0, 0.0
-    except ValueError:
-        pass
-    theta = np.arccos(-gamma)
-    rho = 2*np.tan(theta/2)
-    stheta = np.sin(theta)
-    with np.errstate(invalid='ignore'):
-        u = alpha*rho/stheta
-        v = beta*rho/stheta
-    if np.any(wZero):
-        u[wZero] = 0.0
-        v[wZero] = 0.0
-    return u, v
+    return 2*alpha/(1-gamma), 2*beta/(1-gamma)
 
 
 def orthographicToDirCos(u, v):
@@ -350,23 +295,8 @@ def lambertToDirCos(u, v):
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
     rhosqr = u*u + v*v
-    wZero = rhosqr == 0.0
-    try:
-        if wZero:
-            return 0.0, 0.0, -1.0
-    except ValueError:
-        pass
-    rho = np.sqrt(rhosqr)
-    gamma = (2-rhosqr)/2
-    r = np.sqrt(1-gamma*gamma)
-    with np.errstate(invalid='ignore'):
-        alpha = u * r/rho
-        beta = v * r/rho
-    if np.any(wZero):
-        alpha[wZero] = 0.0
-        beta[wZero] = 0.0
-        gamma[wZero] = 1.0
-    return alpha, beta, -gamma
+    factor = np.sqrt(1-rhosqr/4)
+    return u*factor, v*factor, -(2-rhosqr)/2
 
 
 def dirCosToLambert(alpha, beta, gamma):
@@ -389,21 +319,8 @@ def dirCosToLambert(alpha, beta, gamma):
     (alpha, beta, gamma) = (0, 0, -1) (a ray coming directly from above).  The
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
-    wZero = (gamma == -1)
-    try:
-        if wZero:
-            return 0.0, 0.0
-    except ValueError:
-        pass
-    rho = np.sqrt(2+2*gamma)
-    norm = np.sqrt(1-gamma*gamma)
-    with np.errstate(invalid='ignore'):
-        u = alpha*rho/norm
-        v = beta*rho/norm
-    if np.any(wZero):
-        u[wZero] = 0.0
-        v[wZero] = 0.0
-    return u, v
+    factor = np.sqrt(2/(1-gamma))
+    return alpha*factor, beta*factor
 
 
 def fieldToDirCos(u, v, projection='postel'):
-- 
2.43.0


From e1847373466285cd7d0a1f7e6801de25d5fac1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:08 +0000
Subject: [PATCH 28/69] fix: orthographic projection returns its arguments, so
 that fromFieldAngles modifies its caller's angles

---
 batoid/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/batoid/utils.py b/batoid/utils.py
index b202b48..d8c5f7f 100644
--- a/batoid/utils.py
+++ b/batoid/utils.py
@@ -245,8 +245,8 @@ def orthographicToDirCos(u, v):
     rho = np.sqrt(u*u + v*v)
     theta = np.arcsin(rho)
     gamma = np.cos(theta)
-    alpha = u
-    beta = v
+    alpha = u*1.0
+    beta = v*1.0
     return alpha, beta, -gamma
 
 
@@ -269,8 +269,8 @@ def dirCosToOrthographic(alpha, beta, gamma):
     (alpha, beta, gamma) = (0, 0, -1) (a ray coming directly from above).  The
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
-    u = alpha
-    v = beta
+    u = alpha*1.0
+    v = beta*1.0
     return u, v
 
 
-- 
2.43.0


From a4b8cc9f10751230f959320d75b021bb0ae6dfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:07 +0000
Subject: [PATCH 29/69] fix: Optic ignores skip given at construction, and
 traceSplit fails on skipped optics

---
 batoid/optic.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 3b63277..9c6ded2 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -41,7 +41,7 @@ class Optic:
         self.coordSys = coordSys
         self.inMedium = inMedium
         self.outMedium = outMedium
-        self.skip = False
+        self.skip = skip
         kwargs.pop('itemDict', None)
         self.__dict__.update(**kwargs)
 
@@ -503,10 +503,12 @@ class Interface(Optic):
                            "flux = {:18.8f}   nphot = {:10d}")
             print(strtemplate.format(s, self.name, np.sum(rv.flux), len(rv)))
         if self.skip:
+            if not hasattr(rv, 'path'):
+                rv.path = []
             if reverse:
-                return None, rv
+                return [], [rv]
             else:
-                return rv, None
+                return [rv], []
         refracted, reflected = self.rSplit(rv, reverse=reverse)
 
         # For now, apply obscuration equally forwards and backwards
@@ -1224,10 +1226,12 @@ class CompoundOptic(Optic):
                            "flux = {:18.8f}   nphot = {:10d}")
             print(strtemplate.format(s, self.name, np.sum(rv.flux), len(rv)))
         if self.skip:
+            if not hasattr(rv, 'path'):
+                rv.path = []
             if reverse:
-                return None, rv
+                return [], [rv]
             else:
-                return rv, None
+                return [rv], []
 
         if not reverse:
             workQueue = [(rv, "forward", 0)]
-- 
2.43.0


From f06d613ec05b6690f1b7c9439d7576686ed84b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:07 +0000
Subject: [PATCH 30/69] fix: deriving a modified Interface discards its
 coatings

---
 batoid/optic.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 9c6ded2..7167381 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -763,13 +763,14 @@ class RefractiveInterface(Interface):
     Rays will interact with this surface by refracting through it.
     """
     def __init__(self, *args, **kwargs):
-        Interface.__init__(self, *args, **kwargs)
+        # Set before Interface.__init__, which applies any coatings in kwargs.
         self.forwardCoating = SimpleCoating(
             reflectivity=0.0, transmissivity=1.0
         )
         self.reverseCoating = SimpleCoating(
             reflectivity=0.0, transmissivity=1.0
         )
+        Interface.__init__(self, *args, **kwargs)
 
     def interact(self, rv, reverse=False):
         if reverse:
@@ -801,13 +802,14 @@ class Mirror(Interface):
     Rays will interact with this surface by reflecting off of it.
     """
     def __init__(self, *args, **kwargs):
-        Interface.__init__(self, *args, **kwargs)
+        # Set before Interface.__init__, which applies any coatings in kwargs.
         self.forwardCoating = SimpleCoating(
             reflectivity=1.0, transmissivity=0.0
         )
         self.reverseCoating = SimpleCoating(
             reflectivity=1.0, transmissivity=0.0
         )
+        Interface.__init__(self, *args, **kwargs)
 
     def interact(self, rv, reverse=False):
         # reflect is independent of reverse
@@ -829,11 +831,12 @@ class Detector(Interface):
     stop with this `Interface`.
     """
     def __init__(self, *args, **kwargs):
-        Interface.__init__(self, *args, **kwargs)
+        # Set before Interface.__init__, which applies any coatings in kwargs.
         self.forwardCoating = SimpleCoating(
             reflectivity=0.0, transmissivity=1.0
         )
         self.reverseCoating = None
+        Interface.__init__(self, *args, **kwargs)
 
     def rSplit(self, rv, reverse=False):
         assert reverse == False
@@ -850,13 +853,14 @@ class Baffle(Interface):
     the vignetting calculation will still be applied at this `Interface`.
     """
     def __init__(self, *args, **kwargs):
-        Interface.__init__(self, *args, **kwargs)
+        # Set before Interface.__init__, which applies any coatings in kwargs.
         self.forwardCoating = SimpleCoating(
             reflectivity=0.0, transmissivity=1.0
         )
         self.reverseCoating = SimpleCoating(
             reflectivity=0.0, transmissivity=1.0
         )
+        Interface.__init__(self, *args, **kwargs)
 
     def rSplit(self, rv, reverse=False):
         return self.surface.intersect(rv, self.coordSys), None
-- 
2.43.0


From 5a3a34ac6f7f9e6242a5e08f2ebda195053ac676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:07 +0000
Subject: [PATCH 31/69] fix: OPDScreen.rSplit calls a method that does not
 exist

---
 batoid/optic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 7167381..b49e181 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -929,7 +929,7 @@ class OPDScreen(Interface):
 
     def rSplit(self, rv, reverse=False):
         # Can only go forward for now.
-        return self.surface.interact(rv), None
+        return self.interact(rv, reverse=reverse), None
 
 
 class CompoundOptic(Optic):
-- 
2.43.0


From 6ef996d3d15681a429b86b72c9d6e270b6b6e55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:07 +0000
Subject: [PATCH 32/69] fix: RefractiveInterface.rSplit uses the coating of the
 opposite direction

---
 batoid/optic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index b49e181..577fdf8 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -787,11 +787,11 @@ class RefractiveInterface(Interface):
         if reverse:
             m1 = self.outMedium
             m2 = self.inMedium
-            coating = self.forwardCoating
+            coating = self.reverseCoating
         else:
             m1 = self.inMedium
             m2 = self.outMedium
-            coating = self.reverseCoating
+            coating = self.forwardCoating
 
         return self.surface.rSplit(rv, m1, m2, coating, coordSys=self.coordSys)
 
-- 
2.43.0


From 2850a81a51b05b6c556f094d2a7b9ed82d30683c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:07 +0000
Subject: [PATCH 33/69] fix: deriving a system modifies the wrong part when a
 name is a prefix of another

---
 batoid/optic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 577fdf8..8994d4f 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1445,7 +1445,7 @@ class CompoundOptic(Optic):
         newDict = dict(self.__dict__)
         del newDict['items']
         for i, item in enumerate(self.items):
-            if name.startswith(item.name):
+            if (name+'.').startswith(item.name+'.'):
                 if name == item.name:
                     newItems.append(item.withGlobalShift(shift))
                 else:
@@ -1608,7 +1608,7 @@ class CompoundOptic(Optic):
         newDict = dict(self.__dict__)
         del newDict['items']
         for i, item in enumerate(self.items):
-            if name.startswith(item.name):
+            if (name+'.').startswith(item.name+'.'):
                 if name == item.name:
                     newItems.append(item.withLocalRotation(
                         rot, rotCenter, coordSys
@@ -1656,7 +1656,7 @@ class CompoundOptic(Optic):
         newDict = dict(self.__dict__)
         del newDict['items']
         for i, item in enumerate(self.items):
-            if name.startswith(item.name):
+            if (name+'.').startswith(item.name+'.'):
                 if name == item.name:
                     newItems.append(item.withSurface(surface))
                 else:
-- 
2.43.0


From 3eef5e26a4b8d116b434ab003eb7df5148cf0021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:31 +0000
Subject: [PATCH 34/69] fix: Interface.withLocalRotation rotates its stop about
 the stop's own axes

---
 batoid/optic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 8994d4f..991e117 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -683,8 +683,9 @@ class Interface(Optic):
             rot, rotCenter, coordSys
         )
         if 'stopSurface' in newDict:
-            newDict['stopSurface'] = newDict['stopSurface'].withLocalRotation(
-                rot, rotCenter, coordSys
+            # The same rotation, which is about the axes of self.coordSys.
+            newDict['stopSurface'] = newDict['stopSurface'].withGlobalRotation(
+                self.coordSys.rot@rot@self.coordSys.rot.T, rotCenter, coordSys
             )
         del newDict['surface']
         ret.__init__(
-- 
2.43.0


From 1ceaf97af8a0bb49c02eea7fbf9a7775888a8b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:58 +0000
Subject: [PATCH 35/69] fix: inserting or removing a nested optic does nothing

---
 batoid/optic.py | 45 ++++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 991e117..f6f8d96 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1710,20 +1710,18 @@ class CompoundOptic(Optic):
             Optic with inserted item.
         """
         before = self._names.get(before, before)
-        if before not in self.itemDict:
+        if before not in self.itemDict or before == self.name:
             raise ValueError("Optic {} not found".format(before))
+        # Clip off leading token
+        before = before[len(self.name)+1:]
         newItems = []
-        newDict = dict(self.__dict__)
-        for k in ['items', 'itemDict', '_names', 'R_inner', 'R_outer']:
-            newDict.pop(k, None)
-        for i, it in enumerate(self.items):
-            if self._names[it.name] == self._names[before]:
+        for it in self.items:
+            if before == it.name:
                 newItems.append(item)
+            elif before.startswith(it.name+'.'):
+                it = it.withInsertedOptic(before, item)
             newItems.append(it)
-        return self.__class__(
-            newItems,
-            **newDict
-        )
+        return self._withItems(newItems)
 
     def withRemovedOptic(self, item):
         """Return a new `CompoundOptic` with the given subitem removed.
@@ -1739,19 +1737,28 @@ class CompoundOptic(Optic):
             Optic without removed item.
         """
         item = self._names.get(item, item)
-        if item not in self.itemDict:
+        if item not in self.itemDict or item == self.name:
             raise ValueError("Optic {} not found".format(item))
+        # Clip off leading token
+        item = item[len(self.name)+1:]
         newItems = []
+        for it in self.items:
+            if item == it.name:
+                continue
+            if item.startswith(it.name+'.'):
+                it = it.withRemovedOptic(item)
+            newItems.append(it)
+        return self._withItems(newItems)
+
+    def _withItems(self, items):
+        # Return a copy of this optic with different subitems.  Goes around
+        # `Lens`, which may have one or three items while being modified.
         newDict = dict(self.__dict__)
-        for k in ['items', 'itemDict', '_names', 'R_inner', 'R_outer']:
+        for k in ['items', 'itemDict', '_names']:
             newDict.pop(k, None)
-        for it in self.items:
-            if self._names[it.name] != self._names[item]:
-                newItems.append(it)
-        return self.__class__(
-            newItems,
-            **newDict
-        )
+        ret = self.__class__.__new__(self.__class__)
+        CompoundOptic.__init__(ret, items, **newDict)
+        return ret
 
 
 class Lens(CompoundOptic):
-- 
2.43.0


From 35a210eff29e48f30fd6c845a631f7f8f07a3633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 36/69] fix: sign of the off-diagonal terms of the PSF lattice
 vectors

---
 batoid/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/analysis.py b/batoid/analysis.py
index 06f2d2c..6a36d70 100644
--- a/batoid/analysis.py
+++ b/batoid/analysis.py
@@ -7,8 +7,8 @@ from .utils import bilinear_fit, fieldToDirCos
 
 def _reciprocalLatticeVectors(a1, a2, N):
     norm = 2*np.pi/(a1[0]*a2[1] - a1[1]*a2[0])/N
-    b1 = norm*np.array([a2[1], a2[0]])
-    b2 = norm*np.array([a1[1], a1[0]])
+    b1 = norm*np.array([a2[1], -a2[0]])
+    b2 = norm*np.array([-a1[1], a1[0]])
     return b1, b2
 
 
-- 
2.43.0


From d1de841cd361e1fa2438ef10b58fa3e391e73b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 37/69] fix: dkdu differentiates by starting positions instead
 of pupil positions

---
 batoid/analysis.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/batoid/analysis.py b/batoid/analysis.py
index 6a36d70..e388519 100644
--- a/batoid/analysis.py
+++ b/batoid/analysis.py
@@ -45,8 +45,12 @@ def dkdu(
         optic=optic, theta_x=theta_x, theta_y=theta_y, wavelength=wavelength,
         projection=projection, nrad=nrad, naz=naz
     )
-    ux = np.array(rays.x)
-    uy = np.array(rays.y)
+    # Pupil coordinates are where the rays meet the stop, which is not where they
+    # start from unless the field angle is zero.
+    epRays = rays.copy().toCoordSys(optic.stopSurface.coordSys)
+    optic.stopSurface.surface.intersect(epRays)
+    ux = np.array(epRays.x)
+    uy = np.array(epRays.y)
 
     optic.trace(rays)
     w = ~rays.vignetted
-- 
2.43.0


From b90494e741f2595638bb1cca2f3efaeda1fafc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 38/69] fix: fftPSF fails for odd nx

---
 batoid/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/analysis.py b/batoid/analysis.py
index e388519..e38fea9 100644
--- a/batoid/analysis.py
+++ b/batoid/analysis.py
@@ -462,7 +462,7 @@ def fftPSF(
     pad_size = nx*pad_factor
     expwf = np.zeros((pad_size, pad_size), dtype=np.complex128)
     start = pad_size//2-nx//2
-    stop = pad_size//2+nx//2
+    stop = start+nx
     expwf[start:stop, start:stop][~wfarr.mask] = \
         np.exp(2j*np.pi*wfarr[~wfarr.mask])
     psf = np.abs(np.fft.fftshift(np.fft.fft2(expwf)))**2
-- 
2.43.0


From 041493383fe4a833082efaee1749beec0157ac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:54 +0000
Subject: [PATCH 39/69] fix: parsing a configuration modifies it, so that
 aliased parts cannot be parsed

---
 batoid/parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/batoid/parse.py b/batoid/parse.py
index 6e0c039..d32abba 100644
--- a/batoid/parse.py
+++ b/batoid/parse.py
@@ -4,6 +4,7 @@ import numpy as np
 
 
 def parse_obscuration(config):
+    config = dict(config)  # may be used elsewhere, so don't modify
     typ = config.pop('type')
     if typ in [
         'ObscCircle', 'ObscAnnulus', 'ObscRay', 'ObscRectangle', 'ObscPolygon'
@@ -26,6 +27,7 @@ def parse_obscuration(config):
 
 
 def parse_surface(config):
+    config = dict(config)  # may be used elsewhere, so don't modify
     typ = config.pop('type')
     if typ == 'Sum':
         items = [parse_surface(c) for c in config['items']]
@@ -96,6 +98,7 @@ def parse_optic(config,
     @param inMedium  default in Medium, often set by optic parent
     @param outMedium default out Medium, often set by optic parent
     """
+    config = dict(config)  # may be used elsewhere, so don't modify
     if 'obscuration' in config:
         obscuration = parse_obscuration(config.pop('obscuration'))
     else:
-- 
2.43.0


From 8772737c39673cd8a1e20de5492751628ec3f62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:54 +0000
Subject: [PATCH 40/69] fix: configured Interface loses its obscuration and
 media

---
 batoid/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/batoid/parse.py b/batoid/parse.py
index d32abba..ebaeb6c 100644
--- a/batoid/parse.py
+++ b/batoid/parse.py
@@ -211,7 +211,8 @@ def parse_optic(config,
         surface = parse_surface(config.pop('surface'))
         return batoid.optic.Interface(
             surface, name=name,
-            coordSys=coordSys,
+            coordSys=coordSys, obscuration=obscuration,
+            inMedium=inMedium, outMedium=outMedium,
             **kwargs
         )
     else:
-- 
2.43.0


From 16480afe98d4aa5aaffe10ee7ee14e52d2c8845f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:42 +0000
Subject: [PATCH 41/69] fix: PFS.yaml cannot be loaded, exponents without sign
 are strings in yaml

---
 batoid/data/PFS/PFS.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/data/PFS/PFS.yaml b/batoid/data/PFS/PFS.yaml
index 8b499d6..6df43ed 100644
--- a/batoid/data/PFS/PFS.yaml
+++ b/batoid/data/PFS/PFS.yaml
@@ -152,7 +152,7 @@ opticalSystem:
             type: Asphere
             R: -0.8160784449707
             conic: 0.0
-            coefs: [15.794016512640001, 1.096767066453e5, -5.9917366145880001e7, 1.119542606394e10]
+            coefs: [15.794016512640001, 1.096767066453e+5, -5.9917366145880001e+7, 1.119542606394e+10]
           obscuration:
             type: ClearCircle
             radius: 0.045264242758568948
-- 
2.43.0


From 995a217319c9bc9e9d1e89aece1b3305e060f0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:19 +0000
Subject: [PATCH 42/69] fix: lens with an item removed or inserted cannot be
 moved or changed further

---
 batoid/optic.py | 31 +++++--------------------------
 1 file changed, 5 insertions(+), 26 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index f6f8d96..0a63335 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1389,10 +1389,7 @@ class CompoundOptic(Optic):
             newDict['stopSurface'] = (
                 newDict['stopSurface'].withGlobalShift(shift)
             )
-        ret.__init__(
-            newItems,
-            **newDict
-        )
+        CompoundOptic.__init__(ret, newItems, **newDict)
         return ret
 
     def withLocalShift(self, shift):
@@ -1443,8 +1440,6 @@ class CompoundOptic(Optic):
             self.name+".", name[:len(self.name)+1]+" != "+self.name+"."
         name = name[len(self.name)+1:]
         newItems = []
-        newDict = dict(self.__dict__)
-        del newDict['items']
         for i, item in enumerate(self.items):
             if (name+'.').startswith(item.name+'.'):
                 if name == item.name:
@@ -1452,10 +1447,7 @@ class CompoundOptic(Optic):
                 else:
                     newItems.append(item.withGloballyShiftedOptic(name, shift))
                 newItems.extend(self.items[i+1:])
-                return self.__class__(
-                    newItems,
-                    **newDict
-                )
+                return self._withItems(newItems)
             newItems.append(item)
         raise RuntimeError(
             "Error in withGloballyShiftedOptic!, Shouldn't get here!"
@@ -1530,10 +1522,7 @@ class CompoundOptic(Optic):
                     rot, rotCenter, coordSys
                 )
             )
-        ret.__init__(
-            newItems,
-            **newDict
-        )
+        CompoundOptic.__init__(ret, newItems, **newDict)
         return ret
 
     def withLocalRotation(self, rot, rotCenter=None, coordSys=None):
@@ -1606,8 +1595,6 @@ class CompoundOptic(Optic):
             self.name+".", name[:len(self.name)+1]+" != "+self.name+"."
         name = name[len(self.name)+1:]
         newItems = []
-        newDict = dict(self.__dict__)
-        del newDict['items']
         for i, item in enumerate(self.items):
             if (name+'.').startswith(item.name+'.'):
                 if name == item.name:
@@ -1619,10 +1606,7 @@ class CompoundOptic(Optic):
                         name, rot, rotCenter, coordSys
                     ))
                 newItems.extend(self.items[i+1:])
-                return self.__class__(
-                    newItems,
-                    **newDict
-                )
+                return self._withItems(newItems)
             newItems.append(item)
         raise RuntimeError(
             "Error in withLocallyRotatedOptic!, Shouldn't get here!"
@@ -1654,8 +1638,6 @@ class CompoundOptic(Optic):
             self.name+".", name[:len(self.name)+1]+" != "+self.name+"."
         name = name[len(self.name)+1:]
         newItems = []
-        newDict = dict(self.__dict__)
-        del newDict['items']
         for i, item in enumerate(self.items):
             if (name+'.').startswith(item.name+'.'):
                 if name == item.name:
@@ -1663,10 +1645,7 @@ class CompoundOptic(Optic):
                 else:
                     newItems.append(item.withSurface(name, surface))
                 newItems.extend(self.items[i+1:])
-                return self.__class__(
-                    newItems,
-                    **newDict
-                )
+                return self._withItems(newItems)
             newItems.append(item)
         raise RuntimeError("Error in withSurface.  Shouldn't get here!")
 
-- 
2.43.0


From 100676216867cd1c1fa28ee52ec3d831e65fc6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 43/69] fix: focalLength is NaN when the image is seen mirrored

---
 batoid/analysis.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/batoid/analysis.py b/batoid/analysis.py
index e38fea9..8f506e1 100644
--- a/batoid/analysis.py
+++ b/batoid/analysis.py
@@ -1078,10 +1078,13 @@ def focalLength(*args, **kwargs):
     -----
         Computed from Jacobian drdth, suitably averaged over azimuth.
     """
+    # An image seen in a mirror has a Jacobian with negative determinant.
     return np.sqrt(
-        np.linalg.det(
-            batoid.analysis.drdth(
-                *args, **kwargs
+        np.abs(
+            np.linalg.det(
+                batoid.analysis.drdth(
+                    *args, **kwargs
+                )
             )
         )
     )
-- 
2.43.0


From 92b31da6cea3293c233a6c3f7720434747f95f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 44/69] fix: OPD screens deflect rays going up the wrong way

---
 src/batoid.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/batoid.cpp b/src/batoid.cpp
index df74685..a2b79a0 100644
--- a/src/batoid.cpp
+++ b/src/batoid.cpp
@@ -800,13 +800,11 @@ namespace batoid {
                     // printf("dPd1 = %.18f\n", dPd1);
                     // printf("dPd2 = %.18f\n", dPd2);
 
+                    cos1 += dPd1;
+                    cos2 += dPd2;
                     if (cos3 < 0) {
-                        cos1 += dPd1;
-                        cos2 += dPd2;
                         cos3 = -std::sqrt(1 - cos1*cos1 - cos2*cos2);
                     } else {
-                        cos1 -= dPd1;
-                        cos2 -= dPd2;
                         cos3 = std::sqrt(1 - cos1*cos1 - cos2*cos2);
                     }
                     if (std::isnan(cos3)) {  // deflected past grazing, or no gradient here
-- 
2.43.0


From a6d3a77cd493adbdf315f1b0ce9e9af1d18ad2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 45/69] fix: slopes of Tilted are wrong, as a screen and when
 intersecting sums

---
 include/tilted.h | 4 ++++
 src/tilted.cpp   | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/tilted.h b/include/tilted.h
index 7cbb68b..b9d2c94 100644
--- a/include/tilted.h
+++ b/include/tilted.h
@@ -21,6 +21,10 @@ namespace batoid {
             double x, double y,
             double& nx, double& ny, double& nz
         ) const override;
+        virtual void grad(
+            double x, double y,
+            double& dzdx, double& dzdy
+        ) const override;
         virtual bool timeToIntersect(
             double x, double y, double z,
             double vx, double vy, double vz,
diff --git a/src/tilted.cpp b/src/tilted.cpp
index 929b74d..daf5486 100644
--- a/src/tilted.cpp
+++ b/src/tilted.cpp
@@ -24,6 +24,14 @@ namespace batoid {
         nz = sqrt(1 - _tanx*_tanx - _tany*_tany);
     }
 
+    void Tilted::grad(
+        double x, double y,
+        double& dzdx, double& dzdy
+    ) const {
+        dzdx = _tanx;
+        dzdy = _tany;
+    }
+
     bool Tilted::timeToIntersect(
         double x, double y, double z,
         double vx, double vy, double vz,
-- 
2.43.0


From f4c5a5a4a5b8c79a0eab9deaa069dc4c859afd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 46/69] fix: normal of a Sum containing a Tilted is wrong

---
 src/sum.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sum.cpp b/src/sum.cpp
index a68b100..7687e43 100644
--- a/src/sum.cpp
+++ b/src/sum.cpp
@@ -34,10 +34,10 @@ namespace batoid {
         nx = 0.0;
         ny = 0.0;
         for (int i=0; i<_nsurf; i++) {
-            double tnx, tny, tnz;
-            _surfaces[i]->normal(x, y, tnx, tny, tnz);
-            nx += tnx/tnz;
-            ny += tny/tnz;
+            double dzdx, dzdy;
+            _surfaces[i]->grad(x, y, dzdx, dzdy);
+            nx -= dzdx;
+            ny -= dzdy;
         }
         nz = 1./std::sqrt(nx*nx + ny*ny + 1);
         nx *= nz;
-- 
2.43.0


From 0aa50a184190bc1911ffa09f4d652a0918c0eec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:40 +0000
Subject: [PATCH 47/69] fix: last row and column of nodes of a Bicubic are
 treated as outside the grid

Evaluating at NaN or very far outside also overflowed an int.
---
 src/table.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/table.cpp b/src/table.cpp
index fd7d119..a177907 100644
--- a/src/table.cpp
+++ b/src/table.cpp
@@ -55,10 +55,21 @@ namespace batoid {
         return c + x*(2*b + x*3*a);
     }
 
+    // Find the grid cell containing f (in units of the grid spacing); the last
+    // node belongs to the last cell.
+    bool cell(double f, size_t n, int& i) {
+        // 1ulp or so of slack since the spacing is rounded.
+        if (not (f >= 0 and f <= (n-1.0)*(1 + 4.5e-16)))  // true for NaN too
+            return false;
+        i = int(f);
+        if (i > int(n)-2)
+            i = int(n)-2;
+        return i >= 0;
+    }
+
     double Table::eval(double x, double y) const {
-        int ix = int(std::floor((x-_x0)/_dx));
-        int iy = int(std::floor((y-_y0)/_dy));
-        if ((ix >= (_nx-1)) or (ix < 0) or (iy >= (_ny-1)) or (iy < 0)) {
+        int ix, iy;
+        if (not cell((x-_x0)/_dx, _nx, ix) or not cell((y-_y0)/_dy, _ny, iy)) {
             return _use_nan ? NAN : 0.0;
         }
         double xgrid = _x0 + ix*_dx;
@@ -93,9 +104,8 @@ namespace batoid {
         double x, double y,
         double& dzdx, double& dzdy
     ) const {
-        int ix = int(std::floor((x-_x0)/_dx));
-        int iy = int(std::floor((y-_y0)/_dy));
-        if ((ix >= (_nx-1)) or (ix < 0) or (iy >= (_ny-1)) or (iy < 0)) {
+        int ix, iy;
+        if (not cell((x-_x0)/_dx, _nx, ix) or not cell((y-_y0)/_dy, _ny, iy)) {
             if (_use_nan) {
                 dzdx = NAN;
                 dzdy = NAN;
-- 
2.43.0


From 8cf782dc9a83a5d52f951d5da8621b77946b859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:36 +0000
Subject: [PATCH 48/69] fix: rays coming from beside a Bicubic fail even if
 they hit its grid

---
 include/bicubic.h |  5 +++++
 src/bicubic.cpp   | 12 ++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/include/bicubic.h b/include/bicubic.h
index a579295..4850654 100644
--- a/include/bicubic.h
+++ b/include/bicubic.h
@@ -22,6 +22,11 @@ namespace batoid {
             double x, double y,
             double& nx, double& ny, double& nz
         ) const override;
+        virtual bool timeToIntersect(
+            double x, double y, double z,
+            double vx, double vy, double vz,
+            double& dt, int niter
+        ) const override;
 
     private:
         const Table* _table;
diff --git a/src/bicubic.cpp b/src/bicubic.cpp
index 197304a..a7d8f13 100644
--- a/src/bicubic.cpp
+++ b/src/bicubic.cpp
@@ -39,6 +39,18 @@ namespace batoid {
         ny = -dydz*nz;
     }
 
+    bool Bicubic::timeToIntersect(
+        double x, double y, double z,
+        double vx, double vy, double vz,
+        double& dt, int niter
+    ) const {
+        // Can't start iterating from outside of the grid.  In that case, start from
+        // where the ray crosses the xy plane instead.
+        if (std::isnan(sag(x+vx*dt, y+vy*dt)))
+            dt = -z/vz;
+        return Surface::timeToIntersect(x, y, z, vx, vy, vz, dt, niter);
+    }
+
     #if defined(BATOID_GPU)
         #pragma omp end declare target
     #endif
-- 
2.43.0


From b00a8cf12c3d8e56de66761b28a54f13cecf61b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 49/69] fix: changing a CoordSys.xhat changes the CoordSys

---
 batoid/coordSys.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/batoid/coordSys.py b/batoid/coordSys.py
index d8229f4..dd216d2 100644
--- a/batoid/coordSys.py
+++ b/batoid/coordSys.py
@@ -45,21 +45,21 @@ class CoordSys:
         """ndarray of float, shape (3,): Orientation of local x vector in
         global coordinates.
         """
-        return self.rot[:, 0]
+        return self.rot[:, 0].copy()
 
     @property
     def yhat(self):
         """ndarray of float, shape (3,): Orientation of local y vector in
         global coordinates.
         """
-        return self.rot[:, 1]
+        return self.rot[:, 1].copy()
 
     @property
     def zhat(self):
         """ndarray of float, shape (3,): Orientation of local z vector in
         global coordinates.
         """
-        return self.rot[:, 2]
+        return self.rot[:, 2].copy()
 
     def shiftGlobal(self, dr):
         """Return new CoordSys with origin shifted along global axes.
-- 
2.43.0


From 4a8810b57e60d2565737b8b4e3b6ac372103d538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 50/69] fix: Lattice shares the caller's primitiveVectors

---
 batoid/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/lattice.py b/batoid/lattice.py
index aa1abab..1d92ecd 100644
--- a/batoid/lattice.py
+++ b/batoid/lattice.py
@@ -48,7 +48,7 @@ class Lattice:
         numpy.fft.fftfreq.
     """
     def __init__(self, array, primitiveVectors):
-        primitiveVectors = np.atleast_2d(primitiveVectors)
+        primitiveVectors = np.array(primitiveVectors, ndmin=2)
 
         if array.ndim != len(primitiveVectors):
             raise ValueError("Not enough primitiveVectors for array")
-- 
2.43.0


From a6f74d317ef5dd35cc5dd3c346d115107916d24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:58 +0000
Subject: [PATCH 51/69] fix: changing the frame of a default-constructed object
 corrupts the global frame

---
 batoid/constants.py | 3 +++
 batoid/parse.py     | 5 +++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/batoid/constants.py b/batoid/constants.py
index b94735e..44ee64c 100644
--- a/batoid/constants.py
+++ b/batoid/constants.py
@@ -2,4 +2,7 @@ from .coordSys import CoordSys
 from .medium import ConstMedium
 
 globalCoordSys = CoordSys()
+# Shared by everything that doesn't specify a CoordSys, so protect it.
+globalCoordSys.origin.flags.writeable = False
+globalCoordSys.rot.flags.writeable = False
 vacuum = ConstMedium(1.0)
diff --git a/batoid/parse.py b/batoid/parse.py
index ebaeb6c..450edfb 100644
--- a/batoid/parse.py
+++ b/batoid/parse.py
@@ -1,4 +1,5 @@
 import batoid
+from .constants import globalCoordSys
 
 import numpy as np
 
@@ -36,7 +37,7 @@ def parse_surface(config):
     return eval(evalstr)
 
 
-def parse_coordSys(config, coordSys=batoid.CoordSys()):
+def parse_coordSys(config, coordSys=globalCoordSys):
     """
     @param config  configuration dictionary
     @param coordSys  sys to which transformations in config are added
@@ -89,7 +90,7 @@ def parse_coordSys(config, coordSys=batoid.CoordSys()):
 
 
 def parse_optic(config,
-                coordSys=batoid.CoordSys(),
+                coordSys=globalCoordSys,
                 inMedium=batoid.ConstMedium(1.0),
                 outMedium=None):
     """
-- 
2.43.0


From 4682df49c3d4ed3f8c3b8725a8508c8fdcd95ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:47 +0000
Subject: [PATCH 52/69] fix: heap overflow in RayVector.asSpokes given single
 precision rings and spokes

---
 batoid/rayVector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 6216519..88ef113 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -800,6 +800,8 @@ class RayVector:
                 flux = w*area/(2*nspokes)
         if isinstance(spokes, Integral):
             spokes = np.linspace(0, 2*np.pi, spokes, endpoint=False)
+        rings = np.asarray(rings, dtype=float)
+        spokes = np.asarray(spokes, dtype=float)
         rings, spokes = np.meshgrid(rings, spokes)
         flux = np.broadcast_to(flux, rings.shape)
         rings = rings.ravel()
-- 
2.43.0


From 3a3c94f196dfaa000c8f2283c54045345645f799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 53/69] fix: ObscPolygon without vertices reads outside of its
 arrays

---
 src/obscuration.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/obscuration.cpp b/src/obscuration.cpp
index eb8a010..298554a 100644
--- a/src/obscuration.cpp
+++ b/src/obscuration.cpp
@@ -199,6 +199,7 @@ namespace batoid {
         }
 
         bool ObscPolygon::contains(double x, double y) const {
+            if (_size == 0) return false;
             double x1 = _xp[0];  // first point of segment
             double y1 = _yp[0];
             double xinters = 0.0;
@@ -236,6 +237,11 @@ namespace batoid {
         // xgrid is [nx], ygrid is [ny]
         // out is [ny, nx]
 
+        if (_size == 0) {
+            std::fill(out, out+nx*ny, false);
+            return;
+        }
+
         // Compute polygon y min/max
         double ymin = _yp[0];
         double ymax = _yp[0];
-- 
2.43.0


From 9132d8fde478cb55a1ce1e823a851a4b6c0be43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:33 +0000
Subject: [PATCH 54/69] fix: Sum without surfaces reads outside of its arrays

---
 batoid/surface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/batoid/surface.py b/batoid/surface.py
index b220fa9..b2b218d 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -684,6 +684,8 @@ class Sum(Surface):
         if len(args) == 1 and isinstance(args[0], Sequence):
             args = args[0]
         assert all(isinstance(arg, Surface) for arg in args)
+        if len(args) == 0:
+            raise ValueError("Sum requires at least one Surface")
 
         self.surfaces = tuple(args)
         self._surface = _batoid.CPPSum([s._surface for s in self.surfaces])
-- 
2.43.0


From 32c5436097187d5884ef83e2527a80679c7bce78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:33 +0000
Subject: [PATCH 55/69] fix: misaligned arrays are read as if they were aligned

---
 batoid/obscuration.py | 4 ++--
 batoid/surface.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/batoid/obscuration.py b/batoid/obscuration.py
index 830cb3d..d92c68e 100644
--- a/batoid/obscuration.py
+++ b/batoid/obscuration.py
@@ -292,8 +292,8 @@ class ObscPolygon(Obscuration):
         return f"ObscPolygon({self.xs!r}, {self.ys!r})"
 
     def containsGrid(self, xgrid, ygrid):
-        xgrid = np.ascontiguousarray(xgrid, dtype=float)
-        ygrid = np.ascontiguousarray(ygrid, dtype=float)
+        xgrid = np.require(xgrid, dtype=float, requirements="CA")
+        ygrid = np.require(ygrid, dtype=float, requirements="CA")
         nx = len(xgrid)
         ny = len(ygrid)
         out = np.empty((ny, nx), dtype=bool)
diff --git a/batoid/surface.py b/batoid/surface.py
index b2b218d..8597d77 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -41,8 +41,8 @@ class Surface(ABC):
         """
         xx, yy = np.broadcast_arrays(x, y)
         scalar = xx.ndim == 0
-        xx = np.asfortranarray(xx, dtype=float)
-        yy = np.asfortranarray(yy, dtype=float)
+        xx = np.require(np.atleast_1d(xx), dtype=float, requirements="FA")
+        yy = np.require(np.atleast_1d(yy), dtype=float, requirements="FA")
         out = np.empty(xx.shape+(3,), order='F', dtype=float)
         size = len(xx.ravel())
 
-- 
2.43.0


From d87b35489fef3c77d0d82eec9635028c341f25a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:38 +0000
Subject: [PATCH 56/69] fix: ObscPolygon.containsGrid reads outside of grids
 that are not 1d

---
 batoid/obscuration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/batoid/obscuration.py b/batoid/obscuration.py
index d92c68e..349513a 100644
--- a/batoid/obscuration.py
+++ b/batoid/obscuration.py
@@ -294,6 +294,8 @@ class ObscPolygon(Obscuration):
     def containsGrid(self, xgrid, ygrid):
         xgrid = np.require(xgrid, dtype=float, requirements="CA")
         ygrid = np.require(ygrid, dtype=float, requirements="CA")
+        if xgrid.ndim != 1 or ygrid.ndim != 1:
+            raise ValueError("xgrid and ygrid must be 1d")
         nx = len(xgrid)
         ny = len(ygrid)
         out = np.empty((ny, nx), dtype=bool)
-- 
2.43.0


From a7bc17e60f1fa056c85d986fc8850d96ac51c94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:13 +0000
Subject: [PATCH 57/69] fix: rays of a RayVector made from arrays of more than
 one dimension are left out, or others read

---
 batoid/rayVector.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 88ef113..21d57e9 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -126,9 +126,9 @@ class RayVector:
             Positions in meters.
         """
         from .global_vars import _batoid_max_threads
-        x = np.empty(len(self._x))
-        y = np.empty(len(self._x))
-        z = np.empty(len(self._x))
+        x = np.empty_like(self._x)
+        y = np.empty_like(self._x)
+        z = np.empty_like(self._x)
         self._rv.positionAtTime(
             t,
             x.ctypes.data, y.ctypes.data, z.ctypes.data,
@@ -1237,7 +1237,7 @@ class RayVector:
             self._t.ctypes.data,
             self._wavelength.ctypes.data, self._flux.ctypes.data,
             self._vignetted.ctypes.data, self._failed.ctypes.data,
-            len(self._wavelength)
+            self._wavelength.size
         )
 
     def _syncToHost(self):
-- 
2.43.0


From 0fe16dbbb8e90db69e7404c94463884fe43d4404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:21 +0000
Subject: [PATCH 58/69] fix: TableMedium with a nan wavelength reads outside of
 its arrays

---
 src/medium.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/medium.cpp b/src/medium.cpp
index 4014883..01c37ae 100644
--- a/src/medium.cpp
+++ b/src/medium.cpp
@@ -99,6 +99,8 @@ namespace batoid {
                 if (wavelength < _args[upperIdx])
                     break;
             }
+            if (upperIdx >= _size)  // nan in _args
+                return NAN;
             double out = (wavelength - _args[upperIdx-1]);
             out *= (_vals[upperIdx] - _vals[upperIdx-1]);
             out /= (_args[upperIdx] - _args[upperIdx-1]);
-- 
2.43.0


From 1818da26cc39a987d73dae0b96551942bacb9994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:39 +0000
Subject: [PATCH 59/69] fix: RayVector.fromStop reads outside of arrays of more
 than one dimension

---
 batoid/rayVector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 21d57e9..bc26478 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -985,6 +985,8 @@ class RayVector:
             raise ValueError("Missing wavelength keyword")
 
         x, y = np.broadcast_arrays(np.atleast_1d(x), np.atleast_1d(y))
+        if x.ndim != 1:
+            raise ValueError("x and y must be scalars or 1d")
         x = np.array(x, dtype=float, order='C')
         y = np.array(y, dtype=float, order='C')
         z = stopSurface.surface.sag(x, y)
-- 
2.43.0


From eec54f3c15f16b0eec4eeae3a637f39afa95207d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:28 +0000
Subject: [PATCH 60/69] fix: Sum releases its array of surfaces

---
 src/sum.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sum.cpp b/src/sum.cpp
index 7687e43..c2ac784 100644
--- a/src/sum.cpp
+++ b/src/sum.cpp
@@ -17,6 +17,8 @@ namespace batoid {
                 const Surface** surfaces = _surfaces;
                 #pragma omp target exit data map(release:surfaces[:_nsurf])
             }
+        #else
+            delete[] _surfaces;
         #endif
     }
 
-- 
2.43.0


From e64a080c72af781ffb9ff883dea3186b9631a7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:28 +0000
Subject: [PATCH 61/69] fix: ObscUnion and ObscIntersection release their
 arrays of obscurations

---
 src/obscuration.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/obscuration.cpp b/src/obscuration.cpp
index 298554a..a67f854 100644
--- a/src/obscuration.cpp
+++ b/src/obscuration.cpp
@@ -362,6 +362,8 @@ namespace batoid {
                     const Obscuration** obscs = _obscs;
                     #pragma omp target exit data map(release:obscs[:_nobsc])
                 }
+            #else
+                delete[] _obscs;
             #endif
         }
 
@@ -413,6 +415,8 @@ namespace batoid {
                     const Obscuration** obscs = _obscs;
                     #pragma omp target exit data map(release:obscs[:_nobsc])
                 }
+            #else
+                delete[] _obscs;
             #endif
         }
 
-- 
2.43.0


From 21789ac5b5b58b173289f0427e706bea724ebdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 62/69] fix: CompoundOptic.get3dmesh fails when an item has no
 known radius

---
 batoid/optic.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 0a63335..2a9f7d9 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1303,10 +1303,15 @@ class CompoundOptic(Optic):
         ys = []
         zs = []
         for item in self.items:
-            x, y, z = item.get3dmesh()
+            mesh = item.get3dmesh()
+            if mesh is None:
+                continue
+            x, y, z = mesh
             xs.append(x)
             ys.append(y)
             zs.append(z)
+        if not xs:
+            return
         return np.hstack(xs), np.hstack(ys), np.hstack(zs)
 
     def draw2d(self, ax, **kwargs):
-- 
2.43.0


From ae1901d020580a1729ff1fead4717d033bf28eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 63/69] fix: drawTrace2d and drawTrace3d do not accept their
 documented globalSys

---
 batoid/optic.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 2a9f7d9..b84457b 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1867,7 +1867,10 @@ def getGlobalRays(traceFull, start=None, end=None, globalSys=globalCoordSys):
     return xyz, raylen
 
 
-def drawTrace3d(ax, traceFull, start=None, end=None, plotly=False, **kwargs):
+def drawTrace3d(
+    ax, traceFull, start=None, end=None, plotly=False,
+    globalSys=globalCoordSys, **kwargs
+):
     """Draw 3D rays in global coordinates on the specified axis.
 
     Parameters
@@ -1887,7 +1890,7 @@ def drawTrace3d(ax, traceFull, start=None, end=None, plotly=False, **kwargs):
     globalSys : `batoid.CoordSys`
         Global coordinate system to use.
     """
-    xyz, raylen = getGlobalRays(traceFull, start, end)
+    xyz, raylen = getGlobalRays(traceFull, start, end, globalSys)
     for line, nline in zip(xyz, raylen):
         if plotly:
             ax.add_scatter3d(
@@ -1900,7 +1903,9 @@ def drawTrace3d(ax, traceFull, start=None, end=None, plotly=False, **kwargs):
             ax.plot(line[0, :nline], line[1, :nline], line[2, :nline], **kwargs)
 
 
-def drawTrace2d(ax, traceFull, start=None, end=None, **kwargs):
+def drawTrace2d(
+    ax, traceFull, start=None, end=None, globalSys=globalCoordSys, **kwargs
+):
     """Draw 2D rays in global coordinates on the specified axis.
 
     Parameters
@@ -1918,7 +1923,7 @@ def drawTrace2d(ax, traceFull, start=None, end=None, **kwargs):
     globalSys : `batoid.CoordSys`
         Global coordinate system to use.
     """
-    xyz, raylen = getGlobalRays(traceFull, start, end)
+    xyz, raylen = getGlobalRays(traceFull, start, end, globalSys)
     lines = []
     for line, nline in zip(xyz, raylen):
         lines.extend([line[0, :nline], line[2, :nline]])
-- 
2.43.0


From 9598fd71482ab364debb0f4a3d99431a33152dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 64/69] fix: CompoundOptic.draw2d does not accept its
 documented list of types

---
 batoid/optic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/batoid/optic.py b/batoid/optic.py
index b84457b..40d2452 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1333,6 +1333,8 @@ class CompoundOptic(Optic):
             Default: None means to draw all types.
         """
         only = kwargs.pop('only', None)
+        if isinstance(only, list):
+            only = tuple(only)
         for item in self.items:
             item_class = item.__class__
             if issubclass(item_class, CompoundOptic):
-- 
2.43.0


From 17949ed16897040e0161581a471fe1163f0bbaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:02 +0000
Subject: [PATCH 65/69] fix: zernikePyramid fails without Z4 and Z5, and for Z1

---
 batoid/plotUtils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/batoid/plotUtils.py b/batoid/plotUtils.py
index 9917812..047c001 100644
--- a/batoid/plotUtils.py
+++ b/batoid/plotUtils.py
@@ -102,7 +102,7 @@ def zernikePyramid(
     for j, ax in axes.items():
         n, _ = galsim.zernike.noll_to_zern(j)
         ax.set_title("Z{}".format(j))
-        if vdim:
+        if vdim and n > 0:
             _vmin = vmin/n
             _vmax = vmax/n
         else:
@@ -126,10 +126,12 @@ def zernikePyramid(
         callback(fig=fig, axes=axes)
 
     fig.tight_layout()
-    # Assume we always have Z4 and Z5?
-    amt = 0.5*(axes[4].get_position().x0 - axes[5].get_position().x0)
-    shiftAxes(shiftLeft, -amt)
-    shiftAxes(shiftRight, amt)
+    if ncol > 1:
+        # Half the distance between columns
+        lefts = gridspec.get_grid_positions(fig)[2]
+        amt = 0.5*(lefts[1] - lefts[0])
+        shiftAxes(shiftLeft, -amt)
+        shiftAxes(shiftRight, amt)
 
     if filename:
         fig.savefig(filename)
-- 
2.43.0


From fa618ac43e706ba929cd2bd0ec14ba2b5673ff38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:00 +0000
Subject: [PATCH 66/69] fix: sidereal time counts Julian centuries from J2000,
 not from day zero

---
 batoid/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/app.py b/batoid/app.py
index 2a1e81b..1525a61 100644
--- a/batoid/app.py
+++ b/batoid/app.py
@@ -53,7 +53,7 @@ def sub_ptt(opd):
 
 def lst(jd, lon_deg):
     """Local Sidereal Time from julian day and longitude"""
-    T = jd / 36525
+    T = (jd - 2451545) / 36525
     return (
         280.46061837
         + 360.98564736629*(jd - 2451545)
-- 
2.43.0


From 5fd025de7a5213395a10e2920e32688944fec6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:00 +0000
Subject: [PATCH 67/69] fix: camera axes follow the telescope when it moves

---
 batoid/app.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/batoid/app.py b/batoid/app.py
index 1525a61..d84224a 100644
--- a/batoid/app.py
+++ b/batoid/app.py
@@ -911,6 +911,7 @@ class RubinCSApp:
         self.telescope.z = z
         self.update_rays()
         self.update_fp()
+        self.update_CCS()
         self.update_EDCS()
         self.update_DVCS()
         self.update_OCS()
-- 
2.43.0


From 4138c2d2fb25393e4809805ad2ca105af59c8a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:15 +0000
Subject: [PATCH 68/69] fix: wavefront image shows y along the axis drawn
 beside it

---
 batoid/app.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/batoid/app.py b/batoid/app.py
index d84224a..46e50eb 100644
--- a/batoid/app.py
+++ b/batoid/app.py
@@ -641,6 +641,7 @@ class RubinCSApp:
             np.zeros((256, 256)),
             vmin=-1.0, vmax=1.0,
             cmap='seismic',
+            origin='lower',  # rows of a wavefront go up in y
             extent=[4.18, -4.18, -4.18, 4.18]  # +x goes to the left in OCS
         )
         # Add OCS rose.
-- 
2.43.0


From a07cc1c269e5528c6e975f82ab96488446986196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:57 +0000
Subject: [PATCH 69/69] fix: controls that follow another one do not answer
 back without end

---
 batoid/app.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/batoid/app.py b/batoid/app.py
index 46e50eb..70b7677 100644
--- a/batoid/app.py
+++ b/batoid/app.py
@@ -130,6 +130,7 @@ class RubinCSApp:
         self.show_EDCS = True
         self.noll = 4
         self.perturb = 0.0
+        self._is_following = False
 
         # IPV Scatters
         self.constellations = self._constellations_view()
@@ -667,29 +668,47 @@ class RubinCSApp:
             plt.show(self._mpl_fig)
         return out
 
+    @contextlib.contextmanager
+    def _following(self):
+        # Controls that follow another one must not be answered, or two of
+        # them can disagree in the last digit forever.
+        self._is_following = True
+        try:
+            yield
+        finally:
+            self._is_following = False
+
     def update_altaz(self):
         self.alt, self.az = eq_to_az(
             self.ra, self.dec, self.jd, self.lat, self.lon
         )
-        self.alt_control.value = self.alt
-        self.az_control.value = self.az
+        with self._following():
+            self.alt_control.value = self.alt
+            self.az_control.value = self.az
 
     def update_eq(self):
         self.ra, self.dec = az_to_eq(
             self.alt, self.az, self.jd, self.lat, self.lon
         )
-        self.ra_control.value = self.ra
-        self.dec_control.value = self.dec
+        with self._following():
+            self.ra_control.value = self.ra
+            self.dec_control.value = self.dec
 
     def handle_ra(self, change):
+        if self._is_following:
+            return
         self.ra = change['new']
         self.update_altaz()
         self.update_telescope()
+        self.update_elevation_bearings()
 
     def handle_dec(self, change):
+        if self._is_following:
+            return
         self.dec = change['new']
         self.update_altaz()
         self.update_telescope()
+        self.update_elevation_bearings()
 
     def handle_jd(self, change):
         self.jd = change['new']
@@ -699,11 +718,15 @@ class RubinCSApp:
         self.update_stars()
 
     def handle_alt(self, change):
+        if self._is_following:
+            return
         self.alt = change['new']
         self.update_eq()
         self.update_telescope()
 
     def handle_az(self, change):
+        if self._is_following:
+            return
         self.az = change['new']
         self.update_eq()
         self.update_telescope()
-- 
2.43.0

