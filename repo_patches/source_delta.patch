From 31906e3da58babfad25b77948ab4f52282f3d38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:54 +0000
Subject: [PATCH 001/135] fix: VecCommon::reflect_about called a nonexistent
 neg() and could not be instantiated

---
 geomc/linalg/vecdetail/VecBase.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/vecdetail/VecBase.h b/geomc/linalg/vecdetail/VecBase.h
index 8348580..9eb0a74 100644
--- a/geomc/linalg/vecdetail/VecBase.h
+++ b/geomc/linalg/vecdetail/VecBase.h
@@ -604,7 +604,7 @@ public:
      */
     self_t reflect_about(self_t normal) const {
         normal = normal.unit();
-        return this->neg() + normal * 2 * this->dot(normal);
+        return -(*this) + normal * 2 * this->dot(normal);
     }
 
     /**
-- 
2.43.0


From 50ca27a4565e75b7c48da1091859dcbd5da31d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:54 +0000
Subject: [PATCH 002/135] fix: Vec<T,2>::rotate(center, radians) called a
 nonexistent overload

---
 geomc/linalg/vecdetail/Vec2.h | 370 +++++++++++++++++-----------------
 1 file changed, 185 insertions(+), 185 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec2.h b/geomc/linalg/vecdetail/Vec2.h
index 68682b0..fbe3f30 100644
--- a/geomc/linalg/vecdetail/Vec2.h
+++ b/geomc/linalg/vecdetail/Vec2.h
@@ -1,185 +1,185 @@
-#pragma once
-
-/*
- * Vec2.h
- *
- *  Created on: May 9, 2009
- *      Author: Tim Babb
- */
-
-#include <cmath>
-#include <geomc/linalg/vecdetail/VecBase.h>
-
-namespace geom {
-
-    /** @ingroup linalg
-     *  @brief 2D specialization of vector class.
-     * 
-     * `Vec<T,2>`'s elements may be accessed under these equivalent naming schemes:
-     * 
-     *     v.{x,y}     // conventional Euclidean coordinate names
-     *     v.{s,t}     // conventional parameterization coordinate names
-     *     v.{row,col} // matrix coordinate names
-     * 
-     * with the latter scheme intended for use as matrix coordinates. `x`, `s`, and
-     * `row` all refer to the same element.
-     * 
-     * Take special note that, in accordance with convention, `row` refers to the
-     * vertical position of a matrix element, despite being the first coordinate.
-     * This means that `row`, a vertical coordinate, aliases `x`, a traditionally 
-     * horizontal coordinate. For this reason it is **inadviseable to interchange 
-     * usage** of the "matrix coordinate" and "Euclidean" naming schemes.
-     */
-    template <typename T> class Vec<T,2> : public detail::VecCommon< T, 2, Vec<T,2> > {
-
-    public:
-
-        // to prevent c++20 ambiguity warnings:
-        using detail::VecCommon<T,2,Vec<T,2>>::operator==;
-        
-        /// @brief (1, 0) vector constant
-        static const Vec<T,2> X_AXIS;
-        /// @brief (0, 1) vector constant
-        static const Vec<T,2> Y_AXIS;
-
-        /*===========================*
-         * Structors                 *
-         *===========================*/
-        
-        /// Construct vector with both elements set to 0.
-        constexpr Vec():detail::VecCommon< T, 2, Vec<T,2> >() {}
-        
-        /// Construct a vector with both elements set to `a`.
-        constexpr Vec(T a):detail::VecCommon< T, 2, Vec<T,2> >(a) {}
-
-        /// Construct a vector with elements `(x, y)`.
-        constexpr Vec(T x, T y) {
-            detail::VecBase<T,2>::x = x;
-            detail::VecBase<T,2>::y = y;
-        }
-        
-        /// Construct a vector with elements copied from the 2-element array `v`.
-        constexpr Vec(const T v[2]):detail::VecCommon< T, 2, Vec<T,2> >(v){}
-        
-        /*===========================*
-         * Convenience Arithmetic    *
-         *===========================*/
-        
-        //do not hide these; we want to overload them:
-        using detail::VecCommon< T, 2, Vec<T,2> >::add;
-        using detail::VecCommon< T, 2, Vec<T,2> >::sub;
-        using detail::VecCommon< T, 2, Vec<T,2> >::scale;
-        using detail::VecCommon< T, 2, Vec<T,2> >::dot;
-
-        /// Addition. Convenience function with separate args for `x` and `y`.
-        inline Vec<T,2> add(T dx, T dy) const {
-            return Vec<T,2>(detail::VecBase<T,2>::x + dx, detail::VecBase<T,2>::y + dy);
-        }
-
-        /// Subtraction. Convenience function with separate args for `x` and `y`.
-        inline Vec<T,2> sub(T dx, T dy) const {
-            return Vec<T,2>(detail::VecBase<T,2>::x - dx, detail::VecBase<T,2>::y - dy);
-        }
-
-        /// Scalar multiplication. Convenience function with separate args for `x` and `y`.
-        inline Vec<T,2> scale(T sx, T sy) const {
-            return Vec<T,2>(detail::VecBase<T,2>::x*sx, detail::VecBase<T,2>::y*sy);
-        }
-
-        /// Dot product with the vector `(x1, y1)`.
-        inline T dot(T x1, T y1) const {
-            return detail::VecBase<T,2>::x*x1 + detail::VecBase<T,2>::y*y1;
-        }
-
-        /// @return A new vector with the X component reflected.
-        inline Vec<T,2> reflected_x() const {
-            return Vec<T,2>(-detail::VecBase<T,2>::x, detail::VecBase<T,2>::y);
-        }
-        
-        /// @return A new vector with the Y component reflected.
-        inline Vec<T,2> reflected_y() const {
-            return Vec<T,2>(detail::VecBase<T,2>::x, -detail::VecBase<T,2>::y);
-        }
-
-        /// @return `true` if no elements are an infinity or `NaN`.
-        bool is_finite_real() const {
-            return is_real(detail::VecBase<T,2>::x) and is_real(detail::VecBase<T,2>::y);
-        }
-        
-        /*===========================*
-         * 2D Geometry               *
-         *===========================*/
-
-        /**
-         * @return A vector perpendicular to `this`, created by a rotation of 
-         * 90 degrees counterclockwise.
-         */
-        
-        Vec<T,2> left_perpendicular() const {
-            return Vec<T,2>(-detail::VecBase<T,2>::y, detail::VecBase<T,2>::x);
-        }
-        
-        /**
-         * @return A vector perpendicular to `this`, created by a rotation of 
-         * 90 degrees clockwise.
-         */
-        Vec<T,2> right_perpendicular() const {
-            return Vec<T,2>(detail::VecBase<T,2>::y, -detail::VecBase<T,2>::x);
-        }
-
-        /**
-         * @return A vector rotated counterclockwise by the angle `radians`.
-         * @param radians Rotation angle in radians
-         */
-        Vec<T,2> rotated(T radians) const {
-            T sint = std::sin(radians);
-            T cost = std::cos(radians);
-            return Vec<T,2>(cost * this->x - sint * this->y,
-                            sint * this->x + cost * this->y);
-        }
-        
-        /**
-         * @return A vector rotated counterclockwise by the angle `radians` about
-         * the point `center`.
-         * @param center Center of rotation.
-         * @param radians Angle of rotation.
-         */
-        Vec<T,2> rotate(Vec<T,2> center, T radians) const {
-            return center + (((*this) - center).rotate(radians));
-        }
-
-        /**
-         * @return The polar coordinates `(r, angle)` for this cartesian point,
-         * with `angle` in radians.
-         */
-        inline Vec<T,2> to_polar() const {
-            return Vec<T,2>(this->mag(), angle());
-        }
-        
-        /**
-         * @return The cartesian `(x, y)` coordinates of this point interpreted
-         * as polar coordinates, with `this[0] = r` and `this[1] = radians`.
-         */
-        inline Vec<T,2> from_polar() const {
-            Vec<T,2> v;
-            v.x = detail::VecBase<T,2>::y * std::cos(detail::VecBase<T,2>::x);
-            v.y = detail::VecBase<T,2>::y * std::sin(detail::VecBase<T,2>::x);
-            return v;
-        }
-
-        /**
-         * @return The angle in radians to this vector from the x-axis, between 0 
-         * and `2 * pi`.
-         */
-        inline T angle() const {
-            T theta = (T)(std::atan2(detail::VecBase<T,2>::y,detail::VecBase<T,2>::x));
-            if (theta < 0) theta += 2 * M_PI;
-            return theta;
-        }
-
-    }; //end Vec2 definition
-    
-    template <typename T> const Vec<T,2> Vec<T,2>::X_AXIS = Vec<T,2>(1,0);
-    template <typename T> const Vec<T,2> Vec<T,2>::Y_AXIS = Vec<T,2>(0,1);
-
-} //end namespace geom
+#pragma once
+
+/*
+ * Vec2.h
+ *
+ *  Created on: May 9, 2009
+ *      Author: Tim Babb
+ */
+
+#include <cmath>
+#include <geomc/linalg/vecdetail/VecBase.h>
+
+namespace geom {
+
+    /** @ingroup linalg
+     *  @brief 2D specialization of vector class.
+     * 
+     * `Vec<T,2>`'s elements may be accessed under these equivalent naming schemes:
+     * 
+     *     v.{x,y}     // conventional Euclidean coordinate names
+     *     v.{s,t}     // conventional parameterization coordinate names
+     *     v.{row,col} // matrix coordinate names
+     * 
+     * with the latter scheme intended for use as matrix coordinates. `x`, `s`, and
+     * `row` all refer to the same element.
+     * 
+     * Take special note that, in accordance with convention, `row` refers to the
+     * vertical position of a matrix element, despite being the first coordinate.
+     * This means that `row`, a vertical coordinate, aliases `x`, a traditionally 
+     * horizontal coordinate. For this reason it is **inadviseable to interchange 
+     * usage** of the "matrix coordinate" and "Euclidean" naming schemes.
+     */
+    template <typename T> class Vec<T,2> : public detail::VecCommon< T, 2, Vec<T,2> > {
+
+    public:
+
+        // to prevent c++20 ambiguity warnings:
+        using detail::VecCommon<T,2,Vec<T,2>>::operator==;
+        
+        /// @brief (1, 0) vector constant
+        static const Vec<T,2> X_AXIS;
+        /// @brief (0, 1) vector constant
+        static const Vec<T,2> Y_AXIS;
+
+        /*===========================*
+         * Structors                 *
+         *===========================*/
+        
+        /// Construct vector with both elements set to 0.
+        constexpr Vec():detail::VecCommon< T, 2, Vec<T,2> >() {}
+        
+        /// Construct a vector with both elements set to `a`.
+        constexpr Vec(T a):detail::VecCommon< T, 2, Vec<T,2> >(a) {}
+
+        /// Construct a vector with elements `(x, y)`.
+        constexpr Vec(T x, T y) {
+            detail::VecBase<T,2>::x = x;
+            detail::VecBase<T,2>::y = y;
+        }
+        
+        /// Construct a vector with elements copied from the 2-element array `v`.
+        constexpr Vec(const T v[2]):detail::VecCommon< T, 2, Vec<T,2> >(v){}
+        
+        /*===========================*
+         * Convenience Arithmetic    *
+         *===========================*/
+        
+        //do not hide these; we want to overload them:
+        using detail::VecCommon< T, 2, Vec<T,2> >::add;
+        using detail::VecCommon< T, 2, Vec<T,2> >::sub;
+        using detail::VecCommon< T, 2, Vec<T,2> >::scale;
+        using detail::VecCommon< T, 2, Vec<T,2> >::dot;
+
+        /// Addition. Convenience function with separate args for `x` and `y`.
+        inline Vec<T,2> add(T dx, T dy) const {
+            return Vec<T,2>(detail::VecBase<T,2>::x + dx, detail::VecBase<T,2>::y + dy);
+        }
+
+        /// Subtraction. Convenience function with separate args for `x` and `y`.
+        inline Vec<T,2> sub(T dx, T dy) const {
+            return Vec<T,2>(detail::VecBase<T,2>::x - dx, detail::VecBase<T,2>::y - dy);
+        }
+
+        /// Scalar multiplication. Convenience function with separate args for `x` and `y`.
+        inline Vec<T,2> scale(T sx, T sy) const {
+            return Vec<T,2>(detail::VecBase<T,2>::x*sx, detail::VecBase<T,2>::y*sy);
+        }
+
+        /// Dot product with the vector `(x1, y1)`.
+        inline T dot(T x1, T y1) const {
+            return detail::VecBase<T,2>::x*x1 + detail::VecBase<T,2>::y*y1;
+        }
+
+        /// @return A new vector with the X component reflected.
+        inline Vec<T,2> reflected_x() const {
+            return Vec<T,2>(-detail::VecBase<T,2>::x, detail::VecBase<T,2>::y);
+        }
+        
+        /// @return A new vector with the Y component reflected.
+        inline Vec<T,2> reflected_y() const {
+            return Vec<T,2>(detail::VecBase<T,2>::x, -detail::VecBase<T,2>::y);
+        }
+
+        /// @return `true` if no elements are an infinity or `NaN`.
+        bool is_finite_real() const {
+            return is_real(detail::VecBase<T,2>::x) and is_real(detail::VecBase<T,2>::y);
+        }
+        
+        /*===========================*
+         * 2D Geometry               *
+         *===========================*/
+
+        /**
+         * @return A vector perpendicular to `this`, created by a rotation of 
+         * 90 degrees counterclockwise.
+         */
+        
+        Vec<T,2> left_perpendicular() const {
+            return Vec<T,2>(-detail::VecBase<T,2>::y, detail::VecBase<T,2>::x);
+        }
+        
+        /**
+         * @return A vector perpendicular to `this`, created by a rotation of 
+         * 90 degrees clockwise.
+         */
+        Vec<T,2> right_perpendicular() const {
+            return Vec<T,2>(detail::VecBase<T,2>::y, -detail::VecBase<T,2>::x);
+        }
+
+        /**
+         * @return A vector rotated counterclockwise by the angle `radians`.
+         * @param radians Rotation angle in radians
+         */
+        Vec<T,2> rotated(T radians) const {
+            T sint = std::sin(radians);
+            T cost = std::cos(radians);
+            return Vec<T,2>(cost * this->x - sint * this->y,
+                            sint * this->x + cost * this->y);
+        }
+        
+        /**
+         * @return A vector rotated counterclockwise by the angle `radians` about
+         * the point `center`.
+         * @param center Center of rotation.
+         * @param radians Angle of rotation.
+         */
+        Vec<T,2> rotate(Vec<T,2> center, T radians) const {
+            return center + (((*this) - center).rotated(radians));
+        }
+
+        /**
+         * @return The polar coordinates `(r, angle)` for this cartesian point,
+         * with `angle` in radians.
+         */
+        inline Vec<T,2> to_polar() const {
+            return Vec<T,2>(this->mag(), angle());
+        }
+        
+        /**
+         * @return The cartesian `(x, y)` coordinates of this point interpreted
+         * as polar coordinates, with `this[0] = r` and `this[1] = radians`.
+         */
+        inline Vec<T,2> from_polar() const {
+            Vec<T,2> v;
+            v.x = detail::VecBase<T,2>::y * std::cos(detail::VecBase<T,2>::x);
+            v.y = detail::VecBase<T,2>::y * std::sin(detail::VecBase<T,2>::x);
+            return v;
+        }
+
+        /**
+         * @return The angle in radians to this vector from the x-axis, between 0 
+         * and `2 * pi`.
+         */
+        inline T angle() const {
+            T theta = (T)(std::atan2(detail::VecBase<T,2>::y,detail::VecBase<T,2>::x));
+            if (theta < 0) theta += 2 * M_PI;
+            return theta;
+        }
+
+    }; //end Vec2 definition
+    
+    template <typename T> const Vec<T,2> Vec<T,2>::X_AXIS = Vec<T,2>(1,0);
+    template <typename T> const Vec<T,2> Vec<T,2>::Y_AXIS = Vec<T,2>(0,1);
+
+} //end namespace geom
-- 
2.43.0


From 50ba676654b207ec08017204c47c59403ea2f3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:54 +0000
Subject: [PATCH 003/135] fix: Vec<T,2>::from_polar swapped radius and angle
 (documented as (r, radians))

---
 geomc/linalg/vecdetail/Vec2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec2.h b/geomc/linalg/vecdetail/Vec2.h
index fbe3f30..a2a9036 100644
--- a/geomc/linalg/vecdetail/Vec2.h
+++ b/geomc/linalg/vecdetail/Vec2.h
@@ -162,8 +162,8 @@ namespace geom {
          */
         inline Vec<T,2> from_polar() const {
             Vec<T,2> v;
-            v.x = detail::VecBase<T,2>::y * std::cos(detail::VecBase<T,2>::x);
-            v.y = detail::VecBase<T,2>::y * std::sin(detail::VecBase<T,2>::x);
+            v.x = detail::VecBase<T,2>::x * std::cos(detail::VecBase<T,2>::y);
+            v.y = detail::VecBase<T,2>::x * std::sin(detail::VecBase<T,2>::y);
             return v;
         }
 
-- 
2.43.0


From 87808315bb2c2fa1e5161760578f4777506470cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:54 +0000
Subject: [PATCH 004/135] fix: Vec<T,3>::rotate about an off-origin axis used
 u*x - v*y - w*z instead of the dot product

---
 geomc/linalg/vecdetail/Vec3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index ee24996..256a9b5 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -320,7 +320,7 @@ namespace geom {
             T u2 = u * u;
             T v2 = v * v;
             T w2 = w * w;
-            T uxvywz = diff_of_products(u, x, v, y) - (w * z);
+            T uxvywz = sum_of_products(u, x, v, y) + (w * z);
             
             T p0 = sum_of_products(b, v, c, w);
             T p1 = sum_of_products(a, u, c, w);
-- 
2.43.0


From 00b1328844e722e71fd6abcf05292c42c9440f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 005/135] fix: Vec<T,3>::rotate used u*z + v*y where the z
 component needs u*x + v*y

---
 geomc/linalg/vecdetail/Vec3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index 256a9b5..e82b562 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -277,7 +277,7 @@ namespace geom {
             // (expected to be within 5% of "naïve" performance)
             T p0 = sum_of_products(v, y, w, z);
             T p1 = sum_of_products(u, x, w, z);
-            T p2 = sum_of_products(u, z, v, y);
+            T p2 = sum_of_products(u, x, v, y);
             
             T q0 = diff_of_products(v, z, w, y);
             T q1 = diff_of_products(w, x, u, z);
-- 
2.43.0


From 31d81f4e4be5d3ea8670da80832966e08382925a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 006/135] fix: Vec<T,3>::rotate about an off-origin axis scaled
 the point unless the axis was unit length

---
 geomc/linalg/vecdetail/Vec3.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index e82b562..11a84e2 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -313,6 +313,12 @@ namespace geom {
             const T& y = this->y;
             const T& z = this->z;
             
+            // the formula below requires a unit-length axis
+            T len = std::sqrt(u * u + v * v + w * w);
+            u /= len;
+            v /= len;
+            w /= len;
+            
             T cc = std::cos(radians);
             T ss = std::sin(radians);
             T oneMcos = 1 - cc;
-- 
2.43.0


From f86d1521e1738d83751ce05a4326a62f19acc0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 007/135] fix: floor_div, ceil_div and snap rounded the wrong
 way for negative integers

---
 geomc/function/Utils.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geomc/function/Utils.h b/geomc/function/Utils.h
index c160ad2..b6307ab 100644
--- a/geomc/function/Utils.h
+++ b/geomc/function/Utils.h
@@ -225,7 +225,8 @@ constexpr auto ceil_div(T a, T b) {
     if constexpr (not std::is_integral<T>()) {
         return std::ceil(a / b);
     } else {
-        return (a + b - 1) / b;
+        // integer division truncates; correct it if the exact quotient is positive
+        return a / b + ((a % b != 0) and ((a < 0) == (b < 0)) ? 1 : 0);
     }
 }
 
@@ -250,7 +251,8 @@ constexpr auto floor_div(T a, T b) {
     if constexpr (not std::is_integral<T>()) {
         return std::floor(a / b);
     } else {
-        return (a + b) / b - 1;
+        // integer division truncates; correct it if the exact quotient is negative
+        return a / b - ((a % b != 0) and ((a < 0) != (b < 0)) ? 1 : 0);
     }
 }
 
-- 
2.43.0


From c2a05c96ac454bfc5671cd6b0ef260427e9935fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 008/135] fix: complex specialisations of the fused product
 helpers named real/imag without calling them

---
 geomc/function/functiondetail/UtilDetail.h | 24 +++++++++++-----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/geomc/function/functiondetail/UtilDetail.h b/geomc/function/functiondetail/UtilDetail.h
index bc1437a..6b4ec8a 100644
--- a/geomc/function/functiondetail/UtilDetail.h
+++ b/geomc/function/functiondetail/UtilDetail.h
@@ -135,10 +135,10 @@ struct _ImplFMADot<std::complex<T>, void> {
     {
         // (a.r * b.r - a.i * b.i) + (a.r * b.i + a.i * b.r)i -
         // (c.r * d.r - c.i * d.i) + (c.r * d.i + c.i * d.r)i
-        auto ab_r = geom::diff_of_products<T>(a.real, b.real, a.imag, b.imag);
-        auto cd_r = geom::diff_of_products<T>(c.real, d.real, c.imag, d.imag);
-        auto ab_i =  geom::sum_of_products<T>(a.real, b.imag, a.imag, b.real);
-        auto cd_i =  geom::sum_of_products<T>(c.real, d.imag, c.imag, d.real);
+        auto ab_r = geom::diff_of_products<T>(a.real(), b.real(), a.imag(), b.imag());
+        auto cd_r = geom::diff_of_products<T>(c.real(), d.real(), c.imag(), d.imag());
+        auto ab_i =  geom::sum_of_products<T>(a.real(), b.imag(), a.imag(), b.real());
+        auto cd_i =  geom::sum_of_products<T>(c.real(), d.imag(), c.imag(), d.real());
         return {ab_r - cd_r, ab_i - cd_i};
     }
     
@@ -150,10 +150,10 @@ struct _ImplFMADot<std::complex<T>, void> {
     {
         // (a.r * b.r - a.i * b.i) + (a.r * b.i + a.i * b.r)i +
         // (c.r * d.r - c.i * d.i) + (c.r * d.i + c.i * d.r)i
-        auto ab_r = geom::diff_of_products<T>(a.real, b.real, a.imag, b.imag);
-        auto cd_r = geom::diff_of_products<T>(c.real, d.real, c.imag, d.imag);
-        auto ab_i =  geom::sum_of_products<T>(a.real, b.imag, a.imag, b.real);
-        auto cd_i =  geom::sum_of_products<T>(c.real, d.imag, c.imag, d.real);
+        auto ab_r = geom::diff_of_products<T>(a.real(), b.real(), a.imag(), b.imag());
+        auto cd_r = geom::diff_of_products<T>(c.real(), d.real(), c.imag(), d.imag());
+        auto ab_i =  geom::sum_of_products<T>(a.real(), b.imag(), a.imag(), b.real());
+        auto cd_i =  geom::sum_of_products<T>(c.real(), d.imag(), c.imag(), d.real());
         return {ab_r + cd_r, ab_i + cd_i};
     }
     
@@ -172,11 +172,11 @@ struct _ImplFMADot<std::complex<T>, void> {
         
         // (a + bi) * (c + di) + (k_r + k_i i)
         // real: (ac - bd + k_r)
-        auto bd_k = geom::multiply_add<T>(-a.imag, b.imag, c.real);
-        auto real = geom::multiply_add<T>( a.real, b.real, bd_k);
+        auto bd_k = geom::multiply_add<T>(-a.imag(), b.imag(), c.real());
+        auto real = geom::multiply_add<T>( a.real(), b.real(), bd_k);
         // imag: (ad + bc + k_i)
-        auto bc_k = geom::multiply_add<T>(a.imag, b.real, c.imag);
-        auto imag = geom::multiply_add<T>(a.real, b.imag, bc_k);
+        auto bc_k = geom::multiply_add<T>(a.imag(), b.real(), c.imag());
+        auto imag = geom::multiply_add<T>(a.real(), b.imag(), bc_k);
         return {real, imag};
     }
 };
-- 
2.43.0


From 68e8b632180845e42a83a3593ed6948fa249738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 009/135] fix: diff_of_products of dual numbers passed duals
 where primal parts were meant and could not be instantiated

---
 geomc/function/functiondetail/UtilDetail.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/UtilDetail.h b/geomc/function/functiondetail/UtilDetail.h
index 6b4ec8a..cd8a520 100644
--- a/geomc/function/functiondetail/UtilDetail.h
+++ b/geomc/function/functiondetail/UtilDetail.h
@@ -99,7 +99,7 @@ struct _ImplFMADot<Dual<T,P>, void> {
         T dp = geom::sum_of_products<T>(a.x, b.dx, a.dx, b.x);
         T dq = geom::sum_of_products<T>(c.x, d.dx, c.dx, d.x);
         return Dual<T,P>(
-            geom::diff_of_products<T>(a, b, c, d),
+            geom::diff_of_products<T>(a.x, b.x, c.x, d.x),
             dp - dq);
     }
     
-- 
2.43.0


From 1026f352e027d658f2624a071ed0ecf23fee88e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 010/135] fix: derivative of tan(Dual) had the wrong sign

---
 geomc/function/functiondetail/DualFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 35e9cb6..438f56e 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -297,7 +297,7 @@ inline geom::Dual<T,P> cos(const geom::Dual<T,P> &d) {
 template <typename T, geom::DiscontinuityPolicy P>
 inline geom::Dual<T,P> tan(const geom::Dual<T,P> &d) {
     T c = std::cos(d.x);
-    return geom::Dual<T,P>(std::tan(d.x), -d.dx / (c*c));
+    return geom::Dual<T,P>(std::tan(d.x), d.dx / (c*c));
 }
 
 
-- 
2.43.0


From 5e59ec2df0ab1d2eb31bb2915e05fe5f0064df0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 011/135] fix: derivative of exp(Dual) had the wrong sign

---
 geomc/function/functiondetail/DualFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 438f56e..76005a8 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -360,7 +360,7 @@ inline geom::Dual<T,P> atan2(const geom::Dual<T,P> &y, const geom::Dual<T,P> &x)
 template <typename T, geom::DiscontinuityPolicy P>
 inline geom::Dual<T,P> exp(const geom::Dual<T,P> &d) {
     T e = std::exp(d.x);
-    return geom::Dual<T,P>(e, -d.dx * e);
+    return geom::Dual<T,P>(e, d.dx * e);
 }
 
 
-- 
2.43.0


From 6b273319342b860d3e4338eaf82659444d0e93d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 012/135] fix: pow(Dual, Dual) divided by the exponent instead
 of the base

---
 geomc/function/functiondetail/DualFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 76005a8..3acd627 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -395,7 +395,7 @@ inline geom::Dual<T,P> pow(const geom::Dual<T,P> &base, const geom::Dual<T,P> &x
     T a_c = pow(base.x, xp.x);
     return geom::Dual<T,P>(
         a_c,
-        base.dx * xp.x * a_c / xp.x +
+        base.dx * xp.x * a_c / base.x +
         xp.dx * a_c * std::log(base.x)
     );
     
-- 
2.43.0


From 66c40215e5abbbdfc87262ecd66ac0e882e019ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 013/135] fix: pow of Dual and scalar dropped the discontinuity
 policy, and pow(Dual, Dual) was ambiguous for the default policy

---
 geomc/function/functiondetail/DualFunctions.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 3acd627..517f720 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -406,10 +406,10 @@ inline geom::Dual<T,P> pow(const geom::Dual<T,P> &base, const geom::Dual<T,P> &x
  * @brief Returns `base` raised to exponent `xp`.
  * @related geom::Dual
  */
-template <typename T, typename U>
-inline geom::Dual<T> pow(const geom::Dual<T> &base, U xp) {
+template <typename T, typename U, geom::DiscontinuityPolicy P>
+inline geom::Dual<T,P> pow(const geom::Dual<T,P> &base, U xp) {
     T a_x = pow(base.x, xp);
-    return geom::Dual<T>(
+    return geom::Dual<T,P>(
         a_x,
         base.dx * xp * a_x / base.x
     );
@@ -423,7 +423,7 @@ inline geom::Dual<T> pow(const geom::Dual<T> &base, U xp) {
 template <typename T, typename U, geom::DiscontinuityPolicy P>
 inline geom::Dual<T,P> pow(U base, const geom::Dual<T,P> &xp) {
     T a_x = pow(base, xp.x);
-    return geom::Dual<T>(
+    return geom::Dual<T,P>(
         a_x,
         xp.dx * a_x * std::log(base)
     );
-- 
2.43.0


From c24b9ede81a89c873952e3b0ebb15bb237c6c1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 014/135] fix: max(Dual, Dual) dropped the discontinuity policy

---
 geomc/function/functiondetail/DualFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 517f720..6c9d86d 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -545,7 +545,7 @@ inline geom::Dual<T,P> max(const geom::Dual<T,P> &d1, const geom::Dual<T,P> &d2)
     } else {
         dx = gt ? d1.dx : d2.dx;
     }
-    return geom::Dual<T>(x,dx);
+    return geom::Dual<T,P>(x,dx);
 }
 
 
-- 
2.43.0


From d686a7e82a64e02852e722ab897714bda670df2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 015/135] fix: Dual *= scalar could never be called
 (undeducible template parameter)

---
 geomc/function/functiondetail/DualFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 6c9d86d..fe17f21 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -59,7 +59,7 @@ template <typename T, typename U, DiscontinuityPolicy Dp>
 requires requires(T t, U u) {
     {t * u} -> std::convertible_to<T>;
 }
-constexpr Dual<T,Dp>& operator*=(Dual<T,Dp>& x, T s) {
+constexpr Dual<T,Dp>& operator*=(Dual<T,Dp>& x, U s) {
     x.x  = x.x  * s;
     x.dx = x.dx * s;
     return x;
-- 
2.43.0


From 04376bcedc764a8ddfea55cc442a1e018b6d4bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 016/135] fix: converting a Dual to another discontinuity
 policy overwrote the value with the derivative

---
 geomc/function/functiondetail/DualImpl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualImpl.h b/geomc/function/functiondetail/DualImpl.h
index 0f04048..a56e4c8 100644
--- a/geomc/function/functiondetail/DualImpl.h
+++ b/geomc/function/functiondetail/DualImpl.h
@@ -148,7 +148,7 @@ struct Dual {
     
     /// Construct a Dual from one with a different discontinuity policy.
     template <DiscontinuityPolicy DP1>
-    constexpr Dual(const Dual<T,DP1>& d):x(d.dx), dx(d.dx) {}
+    constexpr Dual(const Dual<T,DP1>& d):x(d.x), dx(d.dx) {}
     
     /// Copy-construct a Dual
     constexpr Dual(const Dual& d) = default;
-- 
2.43.0


From 600f206467e5aa43f2876d1e510f1ce112701905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:36 +0000
Subject: [PATCH 017/135] fix: derivative of scalar - Dual had the wrong sign

---
 geomc/function/functiondetail/DualFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index fe17f21..e0e3c13 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -195,7 +195,7 @@ requires requires(T t, U u) {
 constexpr Dual<T,Dp> operator-(U s, const Dual<T,Dp>& d) { 
     return Dual<T,Dp>{
         s - d.x,
-        d.dx
+        -d.dx
     };
 }
 
-- 
2.43.0


From 51136d4a11850fc18c53e8d0981376e4f9c81b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:36 +0000
Subject: [PATCH 018/135] fix: Dual *= and /= gave the wrong derivative when
 both operands are the same object

---
 geomc/function/functiondetail/DualFunctions.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index e0e3c13..904ecf8 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -47,10 +47,12 @@ constexpr Dual<T,Dp> operator*(U s, const Dual<T,Dp>& d) {
 /// Multiply and assign to dual.
 template <typename T, DiscontinuityPolicy Dp>
 constexpr Dual<T,Dp>& operator*=(Dual<T,Dp>& x, const Dual<T,Dp>& y) {
+    // (x and y may be the same object)
     T x_x = x.x;
-    x.x  = x.x * y.x;
+    T y_x = y.x;
+    x.x  = x_x * y_x;
     // product rule: x * dy + y * dx
-    x.dx = sum_of_products(x_x, y.dx, y.x, x.dx);
+    x.dx = sum_of_products(x_x, y.dx, y_x, x.dx);
     return x;
 }
 
@@ -110,9 +112,11 @@ requires requires (T t, U u) {
     {t / u} -> std::convertible_to<T>;
 }
 constexpr Dual<T,Dp>& operator/=(Dual<T,Dp>& x, const Dual<U,Dp>& y) {
+    // (x and y may be the same object)
     auto x_x = x.x;
-    x.x  = x.x / y.x;
-    x.dx = diff_of_products(x.dx, y.x, x_x, y.dx) / (y.x * y.x);
+    auto y_x = y.x;
+    x.x  = x_x / y_x;
+    x.dx = diff_of_products(x.dx, y_x, x_x, y.dx) / (y_x * y_x);
     return x;
 }
 
-- 
2.43.0


From a4b0a7fb00d127bfdcc82e14a7770b592c575add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:23 +0000
Subject: [PATCH 019/135] fix: storage aliasing test missed overlapping storage

---
 geomc/linalg/Matrix.h                     | 26 +++++++++++++++++++++--
 geomc/linalg/mtxtypes/DiagMatrix.h        |  2 +-
 geomc/linalg/mtxtypes/PermutationMatrix.h |  2 +-
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index 90a6336..a82e096 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -321,11 +321,11 @@ inline bool mtx_aliases_storage(const Ma& a, const Mb& b) {
         for (index_t j = 0; j < b.storage_token_count(); j++) {
             auto& tka = buf_a[i];
             auto& tkb = buf_b[j];
-            if (tka.lo < tkb.lo or tka.hi > tkb.hi) return false;
+            if (tka.lo < tkb.hi and tkb.lo < tka.hi) return true;
         }
     }
     
-    return true;
+    return false;
 }
 
 template <typename T, index_t N>
@@ -333,6 +333,28 @@ inline bool mtx_aliases_storage(const Vec<T,N>& a, const Vec<T,N>& b) {
     return a.begin() == b.begin();
 }
 
+template <typename T, index_t M, typename U, index_t N>
+inline bool mtx_aliases_storage(const Vec<T,M>& a, const Vec<U,N>& b) {
+    return (const void*) a.begin() < (const void*) b.end() and
+           (const void*) b.begin() < (const void*) a.end();
+}
+
+template <typename Ma, typename T, index_t N>
+inline bool mtx_aliases_storage(const Ma& a, const Vec<T,N>& b) {
+    static_assert(detail::IsMatrix<Ma>::val, "Arguments must be matrices or vectors");
+    typename Ma::storagebuffer_t buf_a = a.get_storage_token_buffer();
+    a.get_storage_tokens(buf_a.get());
+    for (index_t i = 0; i < a.storage_token_count(); i++) {
+        if (buf_a[i].lo < (const void*) b.end() and (const void*) b.begin() < buf_a[i].hi) return true;
+    }
+    return false;
+}
+
+template <typename T, index_t N, typename Mb>
+inline bool mtx_aliases_storage(const Vec<T,N>& a, const Mb& b) {
+    return mtx_aliases_storage(b, a);
+}
+
 
 /************************************
  * Matrix mul                       *
diff --git a/geomc/linalg/mtxtypes/DiagMatrix.h b/geomc/linalg/mtxtypes/DiagMatrix.h
index db323e5..4b1fbf6 100644
--- a/geomc/linalg/mtxtypes/DiagMatrix.h
+++ b/geomc/linalg/mtxtypes/DiagMatrix.h
@@ -160,7 +160,7 @@ public:
     
     inline void get_storage_tokens(storage_token_t* buf) const {
         const T* p = data.get();
-        *buf = {p, p + rows()};
+        *buf = {p, p + diag};
     }
     
     constexpr index_t storage_token_count() const {
diff --git a/geomc/linalg/mtxtypes/PermutationMatrix.h b/geomc/linalg/mtxtypes/PermutationMatrix.h
index f066627..f83ad12 100644
--- a/geomc/linalg/mtxtypes/PermutationMatrix.h
+++ b/geomc/linalg/mtxtypes/PermutationMatrix.h
@@ -395,7 +395,7 @@ public:
     inline void get_storage_tokens(storage_token_t* buf) const {
         // currently, this kind of matrix owns all its memory. two matrices
         // cannot alias unless they are the same object.
-        *buf = {this, this};
+        *buf = {this, this + 1};
     }
     
     constexpr index_t storage_token_count() const {
-- 
2.43.0


From 736a48444a168de8168104cc53021ef593441866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:44 +0000
Subject: [PATCH 020/135] fix: product of permutation matrices into a general
 matrix was transposed, and kept a stale parity

---
 geomc/linalg/mtxdetail/MatrixMult.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index 573c911..81ed9b2 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -332,13 +332,13 @@ public:
     typedef geom::PermutationMatrix<((M < N) ? M : N)> return_t;
     
     template <typename Md>
-    static void mul(Md* d, const Ma& a, const Ma& b) {
+    static void mul(Md* d, const Ma& a, const Mb& b) {
         const index_t* d_a = a.getRowDestinations();
         const index_t* d_b = b.getRowDestinations();
         
         d->set_zero();
         for (index_t i = 0; i < a.rows(); i++) {
-            d->set(i, d_a[d_b[i]], 1);
+            d->set(d_a[d_b[i]], i, 1);
         }
     }
     
@@ -382,6 +382,7 @@ public:
         for (index_t i = 0; i < N2; i++) {
             d->set(i, 0, b[p[i]]);
         }
+        d->_sign = 0;
     }
 };
 
-- 
2.43.0


From d6257c76b118370f6be266dd7f43696716feaae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:44 +0000
Subject: [PATCH 021/135] fix: products of diagonal matrices could not be
 instantiated or ran out of bounds

---
 geomc/linalg/mtxdetail/MatrixMult.h | 33 +++++++++++++++++------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index 81ed9b2..f005995 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -132,20 +132,23 @@ public:
     // diagonal destination matrix
     template <typename U, index_t I, index_t J>
     static void mul(geom::DiagMatrix<U,I,J>* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
-        T* pc = d->diagonal_begin();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb, ++pc) {
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
+        const index_t diag = std::min(a.diagonal_end() - pa, b.diagonal_end() - pb);
+        U* pc = d->diagonal_begin();
+        for (index_t i = 0; i < diag; ++i, ++pa, ++pb, ++pc) {
             *pc = (*pa) * (*pb);
         }
+        std::fill(pc, d->diagonal_end(), 0);
     }
     
     template <typename U, index_t I, index_t J>
     static void mul_acc(geom::DiagMatrix<U,I,J>* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
-        T* pc = d->diagonal_begin();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb, ++pc) {
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
+        const index_t diag = std::min(a.diagonal_end() - pa, b.diagonal_end() - pb);
+        U* pc = d->diagonal_begin();
+        for (index_t i = 0; i < diag; ++i, ++pa, ++pb, ++pc) {
             *pc += (*pa) * (*pb);
         }
     }
@@ -153,19 +156,21 @@ public:
     // arbitrary destination matrix
     template <typename Md>
     static void mul(Md* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
+        const index_t diag = std::min(a.diagonal_end() - pa, b.diagonal_end() - pb);
         d->set_zero();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb) {
+        for (index_t i = 0; i < diag; ++i, ++pa, ++pb) {
             d->set(i, i, (*pa) * (*pb));
         }
     }
     
     template <typename Md>
     static void mul_acc(Md* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb) {
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
+        const index_t diag = std::min(a.diagonal_end() - pa, b.diagonal_end() - pb);
+        for (index_t i = 0; i < diag; ++i, ++pa, ++pb) {
             d->set(i, i, (*d)(i,i) + (*pa) * (*pb));
         }
     }
-- 
2.43.0


From f715bec8f26cc2befa906d5c4890a99a68dec9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:44 +0000
Subject: [PATCH 022/135] fix: products of diagonal with general or permutation
 matrices used the wrong entries

---
 geomc/linalg/mtxdetail/MatrixMult.h | 36 ++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index f005995..7e7a977 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -37,6 +37,23 @@ namespace detail {
         >::value \
     >::type
 
+// likewise, products of two diagonal matrices have their own implementation,
+// and products with a permutation only move the elements of the other matrix.
+template <typename Mt>
+struct _IsDiagOrPermuteMatrix : std::false_type {};
+template <typename T, index_t M, index_t N>
+struct _IsDiagOrPermuteMatrix<geom::DiagMatrix<T,M,N>> : std::true_type {};
+template <index_t N>
+struct _IsDiagOrPermuteMatrix<geom::PermutationMatrix<N>> : std::true_type {};
+
+#define REQUIRE_GENERAL_MATRIX_T(Mt) \
+    typename std::enable_if< \
+        std::is_base_of< \
+            geom::detail::MatrixBase<typename Mt::elem_t, Mt::ROWDIM, Mt::COLDIM, typename Mt::recurring_t>, \
+            Mt \
+        >::value and not _IsDiagOrPermuteMatrix<Mt>::value \
+    >::type
+
 
 /************************************
  * Matrix mult implementations      *
@@ -84,7 +101,7 @@ public:
 
 // mtx * diag
 template <typename Mat, typename T, index_t M, index_t N>
-class _ImplMtxMul<Mat, geom::DiagMatrix<T,M,N>, REQUIRE_MATRIX_T(Mat)> {
+class _ImplMtxMul<Mat, geom::DiagMatrix<T,M,N>, REQUIRE_GENERAL_MATRIX_T(Mat)> {
 public:
 
     typedef SimpleMatrix<T, Mat::ROWDIM, N> return_t;
@@ -93,9 +110,10 @@ public:
     template <typename Md>
     static void mul(Md* d, const Mat& a, const geom::DiagMatrix<T,M,N>& b) {
         const T* dp = b.diagonal_begin();
-        for (index_t c = 0; c < b.cols(); ++c, ++dp) {
+        const index_t diag = b.diagonal_end() - dp;
+        for (index_t c = 0; c < b.cols(); ++c) {
             for (index_t r = 0; r < a.rows(); ++r) {
-                d->set(r,c, (*dp) * a(r,c));
+                d->set(r, c, c < diag ? dp[c] * a(r,c) : T(0));
             }
         }
     }
@@ -104,18 +122,19 @@ public:
 
 // diag * mtx
 template <typename Mat, typename T, index_t M, index_t N>
-class _ImplMtxMul<geom::DiagMatrix<T,M,N>, Mat, REQUIRE_MATRIX_T(Mat)> {
+class _ImplMtxMul<geom::DiagMatrix<T,M,N>, Mat, REQUIRE_GENERAL_MATRIX_T(Mat)> {
 public:
 
     typedef SimpleMatrix<T, M, Mat::COLDIM> return_t;
     
-    // (M x N) * (N x a) -> (N x a)
+    // (M x N) * (N x a) -> (M x a)
     template <typename Md>
     static void mul(Md* d, const geom::DiagMatrix<T,M,N>& a, const Mat& b) {
         const T* dp = a.diagonal_begin();
-        for (index_t r = 0; r < b.rows(); ++r, ++dp) {
-            for (index_t c = 0; c < a.cols(); ++c) {
-                d->set(r,c, (*dp) * a(r,c));
+        const index_t diag = a.diagonal_end() - dp;
+        for (index_t r = 0; r < a.rows(); ++r) {
+            for (index_t c = 0; c < b.cols(); ++c) {
+                d->set(r, c, r < diag ? dp[r] * b(r,c) : T(0));
             }
         }
     }
@@ -363,6 +382,7 @@ public:
             d_rd[i] = s_b[s_a[i]];
             d_cd[i] = d_a[d_b[i]];
         }
+        d->_sign = 0;
     }
 };
 
-- 
2.43.0


From 796b1971124b95fb96fcd1d7736cf3525357193e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:44 +0000
Subject: [PATCH 023/135] fix: matrix row iterators called a nonexistent get()

---
 geomc/linalg/mtxdetail/MatrixIterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixIterator.h b/geomc/linalg/mtxdetail/MatrixIterator.h
index 38ae378..a8a4111 100644
--- a/geomc/linalg/mtxdetail/MatrixIterator.h
+++ b/geomc/linalg/mtxdetail/MatrixIterator.h
@@ -230,7 +230,7 @@ private:
     
     inline RefType dereference() const {
         // always make sure this is calling the function with the right const-ness!
-        return mtx->get(pt.row, pt.col);
+        return (*mtx)(pt.row, pt.col);
     }
     
 };
@@ -275,7 +275,7 @@ public:
     
     // TODO: this should be a reference?
     inline operator T() const {
-        return ((const M*)m)->get(row, col);
+        return (*(const M*)m)(row, col);
     }
     
 };
-- 
2.43.0


From 27a94b7c63175548fcb2091f3ad5f79d3b5bda92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:44 +0000
Subject: [PATCH 024/135] fix: copying one permutation matrix into another did
 not compile

---
 geomc/linalg/mtxdetail/MatrixCopy.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixCopy.h b/geomc/linalg/mtxdetail/MatrixCopy.h
index cf99651..c1de1df 100644
--- a/geomc/linalg/mtxdetail/MatrixCopy.h
+++ b/geomc/linalg/mtxdetail/MatrixCopy.h
@@ -21,8 +21,8 @@ namespace detail {
     }
 
 
-    template <index_t N>
-    inline void _mtxcopy(geom::PermutationMatrix<N>* into, const geom::PermutationMatrix<N>& src) {
+    template <index_t M, index_t N>
+    inline void _mtxcopy(geom::PermutationMatrix<M>* into, const geom::PermutationMatrix<N>& src) {
         into->setRowSources(src.getRowSources());
     }
 
-- 
2.43.0


From 2cccc22b4f8e90c981454c00caf0ec0df12959a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:44 +0000
Subject: [PATCH 025/135] fix: matrix *= diagonal matrix overran the
 destination if the product is not of the same shape

---
 geomc/linalg/Matrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index a82e096..dbf8be9 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -1070,7 +1070,8 @@ operator*=(Mx& m, const DiagMatrix<T,M,N>& d) {
     
     // check dims, if required
 #ifdef GEOMC_MTX_CHECK_DIMS
-    if ((Mx::COLDIM == 0 or M == 0) and (m.cols() != d.rows())) {
+    // (the product must also fit back into `m`)
+    if (m.cols() != d.rows() or m.cols() != d.cols()) {
         throw DimensionMismatchException(m.rows(), m.cols(), d.rows(), d.cols());
     }
 #endif
-- 
2.43.0


From 0e6d86666beaade40d2f9fad016c658b6a0ce1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:45 +0000
Subject: [PATCH 026/135] fix: mul_acc gave wrong results when the destination
 is an operand

---
 geomc/linalg/Matrix.h               | 24 ++++++++++++++++++++++++
 geomc/linalg/mtxdetail/MatrixMult.h |  1 -
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index dbf8be9..9374f21 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -475,7 +475,19 @@ mul_acc(Md *into, const Ma &a, const Mb &b) {
         throw DimensionMismatchException(D::rows(*into), D::cols(*into), A::rows(a), B::cols(b));
     }
 #endif
+#if GEOMC_MTX_CHECK_ALIASING
+    if (mtx_aliases_storage(*into, a) or mtx_aliases_storage(*into, b)) {
+        typedef typename detail::_ImplMtxAccumulator<Md>::type acc_t;
+        acc_t tmp = detail::_ImplMtxInstance<acc_t>::instance(A::rows(a), B::cols(b));
+        detail::_mtxcopy(&tmp, *into);
+        mult_t::mul_acc(&tmp, a, b);
+        detail::_mtxcopy(into, tmp);
+    } else {
+        mult_t::mul_acc(into, a, b);
+    }
+#else
     mult_t::mul_acc(into, a, b);
+#endif
     return *into;
 }
 
@@ -552,7 +564,19 @@ mul_acc(Md *into, const Ma &a, const Mb &b) {
         throw DimensionMismatchException(Dr::rows(*into), Dr::cols(*into), A::rows(a), B::cols(b));
     }
 #endif
+#if GEOMC_MTX_CHECK_ALIASING
+    if (mtx_aliases_storage(*into, a) or mtx_aliases_storage(*into, b)) {
+        typedef typename detail::_ImplMtxAccumulator<Md>::type acc_t;
+        acc_t tmp = detail::_ImplMtxInstance<acc_t>::instance(A::rows(a), B::cols(b));
+        detail::_mtxcopy(&tmp, *into);
+        mult_t::mul_acc(&tmp, a, b);
+        detail::_mtxcopy(into, tmp);
+    } else {
+        mult_t::mul_acc(into, a, b);
+    }
+#else
     mult_t::mul_acc(into, a, b);
+#endif
     return *into;
 }
 
diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index 7e7a977..5ae4b8b 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -407,7 +407,6 @@ public:
         for (index_t i = 0; i < N2; i++) {
             d->set(i, 0, b[p[i]]);
         }
-        d->_sign = 0;
     }
 };
 
-- 
2.43.0


From c9b2d1ed654877d2530e6d98eab0292d4048c59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:45 +0000
Subject: [PATCH 027/135] fix: products with vectors did not check the inner
 dimension

---
 geomc/linalg/Matrix.h                       |  8 ++++++++
 geomc/linalg/mtxdetail/MatrixFunctionImpl.h | 17 +++++++++++++++++
 geomc/linalg/mtxdetail/MatrixMult.h         |  2 ++
 3 files changed, 27 insertions(+)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index 9374f21..7955fa9 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -510,6 +510,10 @@ mul(Md *into, const Ma &a, const Mb &b) {
     typedef typename mult_t::return_t buffer_t;
     
 #ifdef GEOMC_MTX_CHECK_DIMS
+    // do the source matrix dimensions agree?
+    if ((A::COLDIM == DYNAMIC_DIM or B::ROWDIM == DYNAMIC_DIM) and A::cols(a) != B::rows(b)) {
+        throw DimensionMismatchException(A::rows(a), A::cols(a), B::rows(b), B::cols(b));
+    }
     // trial orientation adaptors:
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_ROW> Dr;
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_COL> Dc;
@@ -554,6 +558,10 @@ mul_acc(Md *into, const Ma &a, const Mb &b) {
     typedef typename mult_t::return_t buffer_t;
     
 #ifdef GEOMC_MTX_CHECK_DIMS
+    // do the source matrix dimensions agree?
+    if ((A::COLDIM == DYNAMIC_DIM or B::ROWDIM == DYNAMIC_DIM) and A::cols(a) != B::rows(b)) {
+        throw DimensionMismatchException(A::rows(a), A::cols(a), B::rows(b), B::cols(b));
+    }
     // trial orientation adaptors:
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_ROW> Dr;
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_COL> Dc;
diff --git a/geomc/linalg/mtxdetail/MatrixFunctionImpl.h b/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
index 5239760..75c75c2 100644
--- a/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
+++ b/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
@@ -84,6 +84,23 @@ struct _ImplMtxInstance <geom::Vec<T,N> > {
     }
 };
 
+// a temporary object which can stand in for a destination of type `Md`
+// when accumulating a product, if that destination aliases an operand.
+template <typename Md>
+struct _ImplMtxAccumulator {
+    typedef geom::SimpleMatrix<typename Md::elem_t, Md::ROWDIM, Md::COLDIM> type;
+};
+
+template <typename T, index_t M, index_t N>
+struct _ImplMtxAccumulator<geom::DiagMatrix<T,M,N>> {
+    typedef geom::DiagMatrix<T,M,N> type;
+};
+
+template <typename T, index_t N>
+struct _ImplMtxAccumulator<geom::Vec<T,N>> {
+    typedef geom::Vec<T,N> type;
+};
+
 
 /************************************
  * Matrix transpose implementations *
diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index 5ae4b8b..59fe9e2 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -438,6 +438,8 @@ public:
 //      can increment matrix ptr and use     v++ % N.
 
 #undef REQUIRE_MATRIX_T
+#undef REQUIRE_NONPERMUTE_MATRIX_T
+#undef REQUIRE_GENERAL_MATRIX_T
 
 }; // namespace geom
 }; // namespace detail
-- 
2.43.0


From 7e56accc119383803880217eb5bdbf402f8d9b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:16 +0000
Subject: [PATCH 028/135] fix: identity of a nonsquare matrix put ones off the
 diagonal (tall matrices, column-major wide ones)

---
 geomc/linalg/mtxtypes/SimpleMatrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/mtxtypes/SimpleMatrix.h b/geomc/linalg/mtxtypes/SimpleMatrix.h
index 0ab80ab..3e939be 100644
--- a/geomc/linalg/mtxtypes/SimpleMatrix.h
+++ b/geomc/linalg/mtxtypes/SimpleMatrix.h
@@ -500,9 +500,9 @@ public:
      */
     void set_identity() {
         set_zero();
-        T *last = data_end();
-        for (T *p = data_begin(); p < last; p += cols() + 1) {
-            *p = 1;
+        const index_t diag = std::min(rows(), cols());
+        for (index_t i = 0; i < diag; ++i) {
+            set(i, i, 1);
         }
     }
     
-- 
2.43.0


From 993082483dab8e23fd765640533bbe98d510b3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:16 +0000
Subject: [PATCH 029/135] fix: row iterators of diagonal and permutation
 matrices could not be compared or obtained from m[r]

---
 geomc/linalg/mtxdetail/MatrixIterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixIterator.h b/geomc/linalg/mtxdetail/MatrixIterator.h
index a8a4111..c0fb937 100644
--- a/geomc/linalg/mtxdetail/MatrixIterator.h
+++ b/geomc/linalg/mtxdetail/MatrixIterator.h
@@ -208,7 +208,7 @@ private:
     
     friend class boost::iterator_core_access;
     
-    inline bool equal(const MtxColIterator<M,RefType>& other) const {
+    inline bool equal(const MtxRowIterator<M,RefType>& other) const {
         return (other.mtx == mtx) and (other.pt == pt);
     }
     
@@ -314,7 +314,7 @@ struct _ImplMtxReftype {
 
 template <typename M, typename T>
 struct _ImplMtxConstRowtype {
-    typedef MtxRowIterator<M, const T> const_row_iterator;
+    typedef MtxRowIterator<const M, const T> const_row_iterator;
 };
 
 template <typename M, typename T>
-- 
2.43.0


From 94e12a8a4b45128877897161706d7a2554b16007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:17 +0000
Subject: [PATCH 030/135] fix: transposing between permutation matrices of
 fixed and dynamic size did not compile

---
 geomc/linalg/mtxdetail/MatrixFunctionImpl.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixFunctionImpl.h b/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
index 75c75c2..01eb2ef 100644
--- a/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
+++ b/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
@@ -192,8 +192,7 @@ struct _ImplMtxTxpose<geom::PermutationMatrix<N> > {
     
     template <index_t L>
     inline static void transpose(geom::PermutationMatrix<L>* d, const geom::PermutationMatrix<N>& m) {
-        *d = m;
-        d->transpose();
+        d->setRowSources(m.getColSources());
     }
 };
 
-- 
2.43.0


From 102759d14cb8f339f1c606a53a93d09989c6bb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:17 +0000
Subject: [PATCH 031/135] fix: transposing a matrix which wraps user memory did
 not compile

---
 geomc/linalg/mtxdetail/MatrixFunctionImpl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixFunctionImpl.h b/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
index 01eb2ef..5c3dcae 100644
--- a/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
+++ b/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
@@ -130,7 +130,8 @@ template <typename T, index_t M, index_t N, MatrixLayout Lyt, StoragePolicy P>
 struct _ImplMtxTxpose<geom::SimpleMatrix<T,M,N,Lyt,P> > {
     
     typedef geom::SimpleMatrix<T,M,N,Lyt,P> Mx;
-    typedef geom::SimpleMatrix<T,N,M,Lyt,P> return_t;
+    // (a matrix which wraps user memory cannot be returned)
+    typedef geom::SimpleMatrix<T,N,M,Lyt,(P == STORAGE_WRAPPED) ? STORAGE_UNIQUE : P> return_t;
     
     
     // xxx: this is masked by alias checking, which will duplicate
-- 
2.43.0


From e54d5194dc2e7814ee3ee7ab4a901262f36b5724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:17 +0000
Subject: [PATCH 032/135] fix: transpose onto aliased memory transposed the
 result a second time

---
 geomc/linalg/Matrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index 7955fa9..b70e398 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -724,6 +724,7 @@ transpose(Md *into, const Mx &m) {
         return_t buf = detail::_ImplMtxInstance<return_t>::instance(m.cols(), m.rows());
         txpose_t::transpose(&buf, m);
         detail::_mtxcopy(into, buf);
+        return;
     }
 #endif
     txpose_t::transpose(into, m);
-- 
2.43.0


From 79c3eb3536a9ed3b810ab54ec6394f7e3cded8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:47 +0000
Subject: [PATCH 033/135] fix: permutation_sign counts a cycle of length k as
 k-1 transpositions

---
 geomc/linalg/mtxtypes/PermutationMatrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxtypes/PermutationMatrix.h b/geomc/linalg/mtxtypes/PermutationMatrix.h
index f83ad12..f3b16fc 100644
--- a/geomc/linalg/mtxtypes/PermutationMatrix.h
+++ b/geomc/linalg/mtxtypes/PermutationMatrix.h
@@ -486,7 +486,8 @@ index_t permutation_sign(index_t* p, index_t n) {
         do {
             // source of the new element at this position:
             index_t next = p[cur];
-            odd = not odd;
+            // (a cycle of length `k` is a product of `k - 1` swaps)
+            if (next != i) odd = not odd;
             // mark this element as visited by mapping it to itself
             p[cur] = cur;
             // ...and then proceed
-- 
2.43.0


From edb5731102cd39a7120f1e8ffbd9f2d38d282f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:47 +0000
Subject: [PATCH 034/135] fix: permutation_sign is inline, so that two
 translation units can include it

---
 geomc/linalg/mtxtypes/PermutationMatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxtypes/PermutationMatrix.h b/geomc/linalg/mtxtypes/PermutationMatrix.h
index f3b16fc..31be37d 100644
--- a/geomc/linalg/mtxtypes/PermutationMatrix.h
+++ b/geomc/linalg/mtxtypes/PermutationMatrix.h
@@ -475,7 +475,7 @@ void permutation_apply(index_t* p, index_t n, RandomAccessIterator v) {
  * the identity permutation after the function returns.
  * @param n The number of elements in the permutation.
  */
-index_t permutation_sign(index_t* p, index_t n) {
+inline index_t permutation_sign(index_t* p, index_t n) {
     // todo: UNTESTED
     bool odd = false;
     for (index_t i = 0; i < n; i++) {
-- 
2.43.0


From ec9cb1a4e01ddf5c3221bc7b7ab531d1e9d048b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:47 +0000
Subject: [PATCH 035/135] fix: swapping a permutation row or column with itself
 keeps the sign

---
 geomc/linalg/mtxtypes/PermutationMatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxtypes/PermutationMatrix.h b/geomc/linalg/mtxtypes/PermutationMatrix.h
index 31be37d..0a3e053 100644
--- a/geomc/linalg/mtxtypes/PermutationMatrix.h
+++ b/geomc/linalg/mtxtypes/PermutationMatrix.h
@@ -340,7 +340,7 @@ public:
         dst[src[b]] = a;
         // swap a/b
         std::swap(src[a], src[b]);
-        _sign *= -1;
+        if (a != b) _sign *= -1;
     }
     
     /**
@@ -359,7 +359,7 @@ public:
         src[dst[b]] = a;
         // swap a/b
         std::swap(dst[a], dst[b]);
-        _sign *= -1;
+        if (a != b) _sign *= -1;
     }
     
     /**
-- 
2.43.0


From 2be586531ed87f1bb41f6fa4ad0dd5d9567322d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:48 +0000
Subject: [PATCH 036/135] fix: PermutationMatrix::sign returns the sign it
 computed

---
 geomc/linalg/mtxtypes/PermutationMatrix.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxtypes/PermutationMatrix.h b/geomc/linalg/mtxtypes/PermutationMatrix.h
index 0a3e053..9dc37fa 100644
--- a/geomc/linalg/mtxtypes/PermutationMatrix.h
+++ b/geomc/linalg/mtxtypes/PermutationMatrix.h
@@ -155,9 +155,8 @@ public:
             for (index_t i = 0; i < n; i++) {
                 row_dst[row_src[i]] = i;
             }
-        } else {
-            return _sign;
         }
+        return _sign;
     }
     
     
-- 
2.43.0


From 54c3d68d778cb5ecbc9848948605e75d87e09ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:48 +0000
Subject: [PATCH 037/135] fix: the determinants of diagonal, permutation and
 generic matrices compile

---
 geomc/linalg/mtxdetail/MatrixDet.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixDet.h b/geomc/linalg/mtxdetail/MatrixDet.h
index fe052b9..6e18aca 100644
--- a/geomc/linalg/mtxdetail/MatrixDet.h
+++ b/geomc/linalg/mtxdetail/MatrixDet.h
@@ -166,7 +166,7 @@ template <typename T, index_t M, index_t N, MatrixLayout Lyt, StoragePolicy P>
 inline T det(const SimpleMatrix<T, M, N, Lyt, P>& m) {
     static_assert(N * M == 0 or M == N, "Determinant only defined for square matrices.");
     if (M * N == 0 and m.rows() != m.cols()) return 0;
-    return det(m.data_begin(), m.rows());
+    return detNxN(m.data_begin(), m.rows());
 }
 
 // 2x2 matrix det
@@ -202,7 +202,7 @@ T det(const DiagMatrix<T,N,M>& m) {
     static_assert(N * M == 0 or M == N, "Determinant only defined for square matrices.");
     T d = 1;
     if (m.rows() != m.cols()) return 0;
-    for (T* a = m.diagonal_begin(); a != m.diagonal_end(); ++a) {
+    for (const T* a = m.diagonal_begin(); a != m.diagonal_end(); ++a) {
         d *= *a;
     }
     return d;
@@ -224,7 +224,7 @@ template <index_t N>
 inline index_t det(const PermutationMatrix<N>& m) {
     index_t n = m.rows();
     SmallStorage<index_t,(N > 32 ? N : 32)> p(m.getRowSources(), n);
-    return permutation_sign(p.get(), n);
+    return permutation_sign(p.begin(), n);
 }
 
 /// @} // ingroup matrix
-- 
2.43.0


From adb7ffba098168daf8bfe0a4b946651518097e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:48 +0000
Subject: [PATCH 038/135] fix: det_destructive and detNxN read the diagonal of
 the factored matrix

---
 geomc/linalg/mtxdetail/MatrixDet.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixDet.h b/geomc/linalg/mtxdetail/MatrixDet.h
index 6e18aca..b5ccc9d 100644
--- a/geomc/linalg/mtxdetail/MatrixDet.h
+++ b/geomc/linalg/mtxdetail/MatrixDet.h
@@ -121,7 +121,7 @@ T det_destructive(T* m, index_t n) {
     T d = odd ? -1 : 1;
     // det(A) is the product of its diagonals, if A is triangular
     for (index_t i = 0; i < n; ++i) {
-        d *= m[i * i];
+        d *= m[i * n + i];
     }
     return d;
 }
@@ -140,13 +140,13 @@ template <typename T>
 T detNxN(const T* m, index_t n) {
     bool odd;
     SmallStorage<T, 64> buf(m, n * n);
-    if (decomp_plu(buf.get(), n, n, nullptr, &odd) != 0) return 0;
+    if (decomp_plu<T>(buf.begin(), n, n, nullptr, &odd) != 0) return 0;
     T d = odd ? -1 : 1;
     // det(A) is the product of its diagonal elems, if A is triangular
     // and det(AB) = det(A) * det(B). So if M = LU,
     // because `L` has unit diagonal, det(M) is just the diagonal elements of `U`.
     for (index_t i = 0; i < n; ++i) {
-        d *= buf[i * i];
+        d *= buf[i * n + i];
     }
     return d;
 }
-- 
2.43.0


From 1f14861a8e9c5d82c5d357c412375005f064464c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:48 +0000
Subject: [PATCH 039/135] fix: det4x4 keeps its operand const

---
 geomc/linalg/mtxdetail/MatrixDet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixDet.h b/geomc/linalg/mtxdetail/MatrixDet.h
index b5ccc9d..176b9cb 100644
--- a/geomc/linalg/mtxdetail/MatrixDet.h
+++ b/geomc/linalg/mtxdetail/MatrixDet.h
@@ -86,7 +86,7 @@ inline T det3x3(
 /// Compute the 4x4 matrix determinant.
 template <typename T>
 T det4x4(const T m[16]) {
-    const detail::_m4x4<T>& v = *reinterpret_cast<detail::_m4x4<T>*>(m);
+    const detail::_m4x4<T>& v = *reinterpret_cast<const detail::_m4x4<T>*>(m);
     return 
         diff_of_products(
             v.a, det3x3(v.f, v.g, v.h,  v.j, v.k, v.l,  v.n, v.o, v.p),
-- 
2.43.0


From 5159b32fda92cc3bf7a2837ff5bfc005a9cf503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:48 +0000
Subject: [PATCH 040/135] fix: pivoted LU decomposition checks the last pivot
 and eliminates the last column

---
 geomc/linalg/LUDecomp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/LUDecomp.h b/geomc/linalg/LUDecomp.h
index 54689af..e25a486 100644
--- a/geomc/linalg/LUDecomp.h
+++ b/geomc/linalg/LUDecomp.h
@@ -116,7 +116,7 @@ index_t decomp_lup(T* m, index_t rows, index_t cols, index_t* reorder, bool* par
     
     detail::MxWrap<T,RowMajor> mx = {m, rows, cols};
     
-    for (index_t i = 0; i < n - 1; i++) {
+    for (index_t i = 0; i < n; i++) {
         // find pivot
         T biggest = std::abs(mx.elem(i,i));
         index_t pvt = i;
@@ -202,7 +202,7 @@ index_t decomp_plu(T* m, index_t rows, index_t cols, index_t* reorder, bool* par
     
     detail::MxWrap<T,RowMajor> mx = {m, rows, cols};
     
-    for (index_t i = 0; i < n - 1; i++) {
+    for (index_t i = 0; i < n; i++) {
         // find pivot
         T biggest = std::abs(mx.elem(i,i));
         index_t pvt = i;
-- 
2.43.0


From 6ff9b9eca7d3092324e66309728bf57971f5646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:38 +0000
Subject: [PATCH 041/135] fix: keep the CRLF line endings of Vec2.h that an
 earlier fix dropped

---
 geomc/linalg/vecdetail/Vec2.h | 370 +++++++++++++++++-----------------
 1 file changed, 185 insertions(+), 185 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec2.h b/geomc/linalg/vecdetail/Vec2.h
index a2a9036..57fe58e 100644
--- a/geomc/linalg/vecdetail/Vec2.h
+++ b/geomc/linalg/vecdetail/Vec2.h
@@ -1,185 +1,185 @@
-#pragma once
-
-/*
- * Vec2.h
- *
- *  Created on: May 9, 2009
- *      Author: Tim Babb
- */
-
-#include <cmath>
-#include <geomc/linalg/vecdetail/VecBase.h>
-
-namespace geom {
-
-    /** @ingroup linalg
-     *  @brief 2D specialization of vector class.
-     * 
-     * `Vec<T,2>`'s elements may be accessed under these equivalent naming schemes:
-     * 
-     *     v.{x,y}     // conventional Euclidean coordinate names
-     *     v.{s,t}     // conventional parameterization coordinate names
-     *     v.{row,col} // matrix coordinate names
-     * 
-     * with the latter scheme intended for use as matrix coordinates. `x`, `s`, and
-     * `row` all refer to the same element.
-     * 
-     * Take special note that, in accordance with convention, `row` refers to the
-     * vertical position of a matrix element, despite being the first coordinate.
-     * This means that `row`, a vertical coordinate, aliases `x`, a traditionally 
-     * horizontal coordinate. For this reason it is **inadviseable to interchange 
-     * usage** of the "matrix coordinate" and "Euclidean" naming schemes.
-     */
-    template <typename T> class Vec<T,2> : public detail::VecCommon< T, 2, Vec<T,2> > {
-
-    public:
-
-        // to prevent c++20 ambiguity warnings:
-        using detail::VecCommon<T,2,Vec<T,2>>::operator==;
-        
-        /// @brief (1, 0) vector constant
-        static const Vec<T,2> X_AXIS;
-        /// @brief (0, 1) vector constant
-        static const Vec<T,2> Y_AXIS;
-
-        /*===========================*
-         * Structors                 *
-         *===========================*/
-        
-        /// Construct vector with both elements set to 0.
-        constexpr Vec():detail::VecCommon< T, 2, Vec<T,2> >() {}
-        
-        /// Construct a vector with both elements set to `a`.
-        constexpr Vec(T a):detail::VecCommon< T, 2, Vec<T,2> >(a) {}
-
-        /// Construct a vector with elements `(x, y)`.
-        constexpr Vec(T x, T y) {
-            detail::VecBase<T,2>::x = x;
-            detail::VecBase<T,2>::y = y;
-        }
-        
-        /// Construct a vector with elements copied from the 2-element array `v`.
-        constexpr Vec(const T v[2]):detail::VecCommon< T, 2, Vec<T,2> >(v){}
-        
-        /*===========================*
-         * Convenience Arithmetic    *
-         *===========================*/
-        
-        //do not hide these; we want to overload them:
-        using detail::VecCommon< T, 2, Vec<T,2> >::add;
-        using detail::VecCommon< T, 2, Vec<T,2> >::sub;
-        using detail::VecCommon< T, 2, Vec<T,2> >::scale;
-        using detail::VecCommon< T, 2, Vec<T,2> >::dot;
-
-        /// Addition. Convenience function with separate args for `x` and `y`.
-        inline Vec<T,2> add(T dx, T dy) const {
-            return Vec<T,2>(detail::VecBase<T,2>::x + dx, detail::VecBase<T,2>::y + dy);
-        }
-
-        /// Subtraction. Convenience function with separate args for `x` and `y`.
-        inline Vec<T,2> sub(T dx, T dy) const {
-            return Vec<T,2>(detail::VecBase<T,2>::x - dx, detail::VecBase<T,2>::y - dy);
-        }
-
-        /// Scalar multiplication. Convenience function with separate args for `x` and `y`.
-        inline Vec<T,2> scale(T sx, T sy) const {
-            return Vec<T,2>(detail::VecBase<T,2>::x*sx, detail::VecBase<T,2>::y*sy);
-        }
-
-        /// Dot product with the vector `(x1, y1)`.
-        inline T dot(T x1, T y1) const {
-            return detail::VecBase<T,2>::x*x1 + detail::VecBase<T,2>::y*y1;
-        }
-
-        /// @return A new vector with the X component reflected.
-        inline Vec<T,2> reflected_x() const {
-            return Vec<T,2>(-detail::VecBase<T,2>::x, detail::VecBase<T,2>::y);
-        }
-        
-        /// @return A new vector with the Y component reflected.
-        inline Vec<T,2> reflected_y() const {
-            return Vec<T,2>(detail::VecBase<T,2>::x, -detail::VecBase<T,2>::y);
-        }
-
-        /// @return `true` if no elements are an infinity or `NaN`.
-        bool is_finite_real() const {
-            return is_real(detail::VecBase<T,2>::x) and is_real(detail::VecBase<T,2>::y);
-        }
-        
-        /*===========================*
-         * 2D Geometry               *
-         *===========================*/
-
-        /**
-         * @return A vector perpendicular to `this`, created by a rotation of 
-         * 90 degrees counterclockwise.
-         */
-        
-        Vec<T,2> left_perpendicular() const {
-            return Vec<T,2>(-detail::VecBase<T,2>::y, detail::VecBase<T,2>::x);
-        }
-        
-        /**
-         * @return A vector perpendicular to `this`, created by a rotation of 
-         * 90 degrees clockwise.
-         */
-        Vec<T,2> right_perpendicular() const {
-            return Vec<T,2>(detail::VecBase<T,2>::y, -detail::VecBase<T,2>::x);
-        }
-
-        /**
-         * @return A vector rotated counterclockwise by the angle `radians`.
-         * @param radians Rotation angle in radians
-         */
-        Vec<T,2> rotated(T radians) const {
-            T sint = std::sin(radians);
-            T cost = std::cos(radians);
-            return Vec<T,2>(cost * this->x - sint * this->y,
-                            sint * this->x + cost * this->y);
-        }
-        
-        /**
-         * @return A vector rotated counterclockwise by the angle `radians` about
-         * the point `center`.
-         * @param center Center of rotation.
-         * @param radians Angle of rotation.
-         */
-        Vec<T,2> rotate(Vec<T,2> center, T radians) const {
-            return center + (((*this) - center).rotated(radians));
-        }
-
-        /**
-         * @return The polar coordinates `(r, angle)` for this cartesian point,
-         * with `angle` in radians.
-         */
-        inline Vec<T,2> to_polar() const {
-            return Vec<T,2>(this->mag(), angle());
-        }
-        
-        /**
-         * @return The cartesian `(x, y)` coordinates of this point interpreted
-         * as polar coordinates, with `this[0] = r` and `this[1] = radians`.
-         */
-        inline Vec<T,2> from_polar() const {
-            Vec<T,2> v;
-            v.x = detail::VecBase<T,2>::x * std::cos(detail::VecBase<T,2>::y);
-            v.y = detail::VecBase<T,2>::x * std::sin(detail::VecBase<T,2>::y);
-            return v;
-        }
-
-        /**
-         * @return The angle in radians to this vector from the x-axis, between 0 
-         * and `2 * pi`.
-         */
-        inline T angle() const {
-            T theta = (T)(std::atan2(detail::VecBase<T,2>::y,detail::VecBase<T,2>::x));
-            if (theta < 0) theta += 2 * M_PI;
-            return theta;
-        }
-
-    }; //end Vec2 definition
-    
-    template <typename T> const Vec<T,2> Vec<T,2>::X_AXIS = Vec<T,2>(1,0);
-    template <typename T> const Vec<T,2> Vec<T,2>::Y_AXIS = Vec<T,2>(0,1);
-
-} //end namespace geom
+#pragma once
+
+/*
+ * Vec2.h
+ *
+ *  Created on: May 9, 2009
+ *      Author: Tim Babb
+ */
+
+#include <cmath>
+#include <geomc/linalg/vecdetail/VecBase.h>
+
+namespace geom {
+
+    /** @ingroup linalg
+     *  @brief 2D specialization of vector class.
+     * 
+     * `Vec<T,2>`'s elements may be accessed under these equivalent naming schemes:
+     * 
+     *     v.{x,y}     // conventional Euclidean coordinate names
+     *     v.{s,t}     // conventional parameterization coordinate names
+     *     v.{row,col} // matrix coordinate names
+     * 
+     * with the latter scheme intended for use as matrix coordinates. `x`, `s`, and
+     * `row` all refer to the same element.
+     * 
+     * Take special note that, in accordance with convention, `row` refers to the
+     * vertical position of a matrix element, despite being the first coordinate.
+     * This means that `row`, a vertical coordinate, aliases `x`, a traditionally 
+     * horizontal coordinate. For this reason it is **inadviseable to interchange 
+     * usage** of the "matrix coordinate" and "Euclidean" naming schemes.
+     */
+    template <typename T> class Vec<T,2> : public detail::VecCommon< T, 2, Vec<T,2> > {
+
+    public:
+
+        // to prevent c++20 ambiguity warnings:
+        using detail::VecCommon<T,2,Vec<T,2>>::operator==;
+        
+        /// @brief (1, 0) vector constant
+        static const Vec<T,2> X_AXIS;
+        /// @brief (0, 1) vector constant
+        static const Vec<T,2> Y_AXIS;
+
+        /*===========================*
+         * Structors                 *
+         *===========================*/
+        
+        /// Construct vector with both elements set to 0.
+        constexpr Vec():detail::VecCommon< T, 2, Vec<T,2> >() {}
+        
+        /// Construct a vector with both elements set to `a`.
+        constexpr Vec(T a):detail::VecCommon< T, 2, Vec<T,2> >(a) {}
+
+        /// Construct a vector with elements `(x, y)`.
+        constexpr Vec(T x, T y) {
+            detail::VecBase<T,2>::x = x;
+            detail::VecBase<T,2>::y = y;
+        }
+        
+        /// Construct a vector with elements copied from the 2-element array `v`.
+        constexpr Vec(const T v[2]):detail::VecCommon< T, 2, Vec<T,2> >(v){}
+        
+        /*===========================*
+         * Convenience Arithmetic    *
+         *===========================*/
+        
+        //do not hide these; we want to overload them:
+        using detail::VecCommon< T, 2, Vec<T,2> >::add;
+        using detail::VecCommon< T, 2, Vec<T,2> >::sub;
+        using detail::VecCommon< T, 2, Vec<T,2> >::scale;
+        using detail::VecCommon< T, 2, Vec<T,2> >::dot;
+
+        /// Addition. Convenience function with separate args for `x` and `y`.
+        inline Vec<T,2> add(T dx, T dy) const {
+            return Vec<T,2>(detail::VecBase<T,2>::x + dx, detail::VecBase<T,2>::y + dy);
+        }
+
+        /// Subtraction. Convenience function with separate args for `x` and `y`.
+        inline Vec<T,2> sub(T dx, T dy) const {
+            return Vec<T,2>(detail::VecBase<T,2>::x - dx, detail::VecBase<T,2>::y - dy);
+        }
+
+        /// Scalar multiplication. Convenience function with separate args for `x` and `y`.
+        inline Vec<T,2> scale(T sx, T sy) const {
+            return Vec<T,2>(detail::VecBase<T,2>::x*sx, detail::VecBase<T,2>::y*sy);
+        }
+
+        /// Dot product with the vector `(x1, y1)`.
+        inline T dot(T x1, T y1) const {
+            return detail::VecBase<T,2>::x*x1 + detail::VecBase<T,2>::y*y1;
+        }
+
+        /// @return A new vector with the X component reflected.
+        inline Vec<T,2> reflected_x() const {
+            return Vec<T,2>(-detail::VecBase<T,2>::x, detail::VecBase<T,2>::y);
+        }
+        
+        /// @return A new vector with the Y component reflected.
+        inline Vec<T,2> reflected_y() const {
+            return Vec<T,2>(detail::VecBase<T,2>::x, -detail::VecBase<T,2>::y);
+        }
+
+        /// @return `true` if no elements are an infinity or `NaN`.
+        bool is_finite_real() const {
+            return is_real(detail::VecBase<T,2>::x) and is_real(detail::VecBase<T,2>::y);
+        }
+        
+        /*===========================*
+         * 2D Geometry               *
+         *===========================*/
+
+        /**
+         * @return A vector perpendicular to `this`, created by a rotation of 
+         * 90 degrees counterclockwise.
+         */
+        
+        Vec<T,2> left_perpendicular() const {
+            return Vec<T,2>(-detail::VecBase<T,2>::y, detail::VecBase<T,2>::x);
+        }
+        
+        /**
+         * @return A vector perpendicular to `this`, created by a rotation of 
+         * 90 degrees clockwise.
+         */
+        Vec<T,2> right_perpendicular() const {
+            return Vec<T,2>(detail::VecBase<T,2>::y, -detail::VecBase<T,2>::x);
+        }
+
+        /**
+         * @return A vector rotated counterclockwise by the angle `radians`.
+         * @param radians Rotation angle in radians
+         */
+        Vec<T,2> rotated(T radians) const {
+            T sint = std::sin(radians);
+            T cost = std::cos(radians);
+            return Vec<T,2>(cost * this->x - sint * this->y,
+                            sint * this->x + cost * this->y);
+        }
+        
+        /**
+         * @return A vector rotated counterclockwise by the angle `radians` about
+         * the point `center`.
+         * @param center Center of rotation.
+         * @param radians Angle of rotation.
+         */
+        Vec<T,2> rotate(Vec<T,2> center, T radians) const {
+            return center + (((*this) - center).rotated(radians));
+        }
+
+        /**
+         * @return The polar coordinates `(r, angle)` for this cartesian point,
+         * with `angle` in radians.
+         */
+        inline Vec<T,2> to_polar() const {
+            return Vec<T,2>(this->mag(), angle());
+        }
+        
+        /**
+         * @return The cartesian `(x, y)` coordinates of this point interpreted
+         * as polar coordinates, with `this[0] = r` and `this[1] = radians`.
+         */
+        inline Vec<T,2> from_polar() const {
+            Vec<T,2> v;
+            v.x = detail::VecBase<T,2>::x * std::cos(detail::VecBase<T,2>::y);
+            v.y = detail::VecBase<T,2>::x * std::sin(detail::VecBase<T,2>::y);
+            return v;
+        }
+
+        /**
+         * @return The angle in radians to this vector from the x-axis, between 0 
+         * and `2 * pi`.
+         */
+        inline T angle() const {
+            T theta = (T)(std::atan2(detail::VecBase<T,2>::y,detail::VecBase<T,2>::x));
+            if (theta < 0) theta += 2 * M_PI;
+            return theta;
+        }
+
+    }; //end Vec2 definition
+    
+    template <typename T> const Vec<T,2> Vec<T,2>::X_AXIS = Vec<T,2>(1,0);
+    template <typename T> const Vec<T,2> Vec<T,2>::Y_AXIS = Vec<T,2>(0,1);
+
+} //end namespace geom
-- 
2.43.0


From cb0754e2b62a07b0f1fa552369944bd5c5a2305b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 042/135] fix: inverting a diagonal matrix compiles, tolerates
 aliasing and leaves the destination alone on failure

---
 geomc/linalg/mtxdetail/MatrixInv.h | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixInv.h b/geomc/linalg/mtxdetail/MatrixInv.h
index 2aa16ee..18485c3 100644
--- a/geomc/linalg/mtxdetail/MatrixInv.h
+++ b/geomc/linalg/mtxdetail/MatrixInv.h
@@ -375,14 +375,29 @@ public:
     
     typedef geom::DiagMatrix<T, (M != 0 ? M : N), (M != 0 ? M : N)> return_t;
     
+    static bool invertible(const geom::DiagMatrix<T,M,N>& m) {
+        return std::find(m.diagonal_begin(), m.diagonal_end(), T(0)) == m.diagonal_end();
+    }
+    
+    // arbitrary destination matrix
     template <typename Md>
     static bool inv(Md *into, const geom::DiagMatrix<T,M,N>& m) {
-        into->set_zero(); // for newly allocated matrices, redundant. oh well.
-        T *p = m.diagonal_begin();
+        if (not invertible(m)) return false;
+        into->set_zero();
+        const T *p = m.diagonal_begin();
         for (index_t i = 0; p != m.diagonal_end(); ++i, ++p) {
-            T elem = *p;
-            if (elem == 0) return false;
-            into->set(i,i, 1/elem);
+            into->set(i, i, 1 / *p);
+        }
+        return true;
+    }
+    
+    // diagonal destination matrix; may be aliased with the source
+    template <typename U, index_t I, index_t J>
+    static bool inv(geom::DiagMatrix<U,I,J> *into, const geom::DiagMatrix<T,M,N>& m) {
+        if (not invertible(m)) return false;
+        U *d = into->diagonal_begin();
+        for (const T *p = m.diagonal_begin(); p != m.diagonal_end(); ++p, ++d) {
+            *d = 1 / *p;
         }
         return true;
     }
-- 
2.43.0


From 7be3a6df1ac272bbd967d07d400c05e0bf91e8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 043/135] fix: inverting a dynamic matrix of more than four
 rows compiles

---
 geomc/linalg/mtxdetail/MatrixInv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixInv.h b/geomc/linalg/mtxdetail/MatrixInv.h
index 18485c3..48c1dd1 100644
--- a/geomc/linalg/mtxdetail/MatrixInv.h
+++ b/geomc/linalg/mtxdetail/MatrixInv.h
@@ -270,7 +270,7 @@ struct _ImplMtxInvRaw<T,0> {
                 // make a buffer with the same layout as the output
                 static constexpr MatrixLayout Lyt = Md::Layout;
                 SmallStorage<T,64> buf(n * n); // try not to alloc
-                WrapperMatrix<T,0,0,Lyt> bmx(buf.get(), n, n);
+                WrapperMatrix<T,0,0,Lyt> bmx(buf.begin(), n, n);
                 detail::_mtxcopy(&bmx, m);
                 return geom::invNxN(into->data_begin(), bmx.data_begin(), n);
         }
-- 
2.43.0


From 580c49f0926d53416920dc4f5829fd328e5e4998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 044/135] fix: nullspace pivots by columns, so that independent
 vectors with a singular leading block have a null space

---
 geomc/linalg/Orthogonal.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/geomc/linalg/Orthogonal.h b/geomc/linalg/Orthogonal.h
index ec11bdf..0a13b0b 100644
--- a/geomc/linalg/Orthogonal.h
+++ b/geomc/linalg/Orthogonal.h
@@ -138,7 +138,7 @@ bool nullspace(const Vec<T,N> bases[], index_t n, Vec<T,N> null_basis[]) {
     }
     
     T       m[N * (N-2)]; // <--  N-2 is the max # bases
-    index_t P[N - 2];     //     (N-1 and N cases handled above)
+    index_t P[N];         //     (N-1 and N cases handled above)
             T* n0 = null_basis[0].begin();
     const T* b0 = bases[0].begin();
     
@@ -152,19 +152,19 @@ bool nullspace(const Vec<T,N> bases[], index_t n, Vec<T,N> null_basis[]) {
     // each new null basis is a column of:
     detail::MxWrap<T,false> X = {n0, N, N - n};
     
-    // get V to row-echelon form
+    // get V to row-echelon form, pivoting by columns. `P[i]` is the source of column `i`.
     bool parity_swap = false;
-    if (decomp_plu(m, n, N, P, &parity_swap) > 0) return false;
+    if (decomp_lup(m, n, N, P, &parity_swap) > 0) return false;
     
     // foreach null space basis
     for (index_t b = 0; b < N - n; b++) {
-        X(b + n, b) = 1;
+        X(P[b + n], b) = 1;
         // back substitute.
         for (index_t r = n - 1; r >= 0; r--) {
-            T& x_i =  X(r, b);
+            T& x_i =  X(P[r], b);
             x_i    = -V(r, n + b);
             for (index_t c = r + 1; c < n; c++) {
-                x_i -= V(r, c) * X(c, b);
+                x_i -= V(r, c) * X(P[c], b);
             }
             x_i /= V(r, r);
         }
-- 
2.43.0


From 6ef8fff5428c8284351c61f57ece238ef6b28e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 045/135] fix: nullspace reports dependent vectors also when
 one null vector is asked for

---
 geomc/linalg/Orthogonal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/Orthogonal.h b/geomc/linalg/Orthogonal.h
index 0a13b0b..0465f14 100644
--- a/geomc/linalg/Orthogonal.h
+++ b/geomc/linalg/Orthogonal.h
@@ -134,7 +134,7 @@ bool nullspace(const Vec<T,N> bases[], index_t n, Vec<T,N> null_basis[]) {
     if (N - n == 1) {
         // this may be optimized for some (lower) dimensions:
         null_basis[0] = orthogonal(bases);
-        return true;
+        return null_basis[0] != Vec<T,N>();
     }
     
     T       m[N * (N-2)]; // <--  N-2 is the max # bases
-- 
2.43.0


From 7f8cf09285ad6525d217f48f2211d1d95f1ce627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 046/135] fix: orthogonal pivots by columns, so that
 independent vectors with a singular leading block have a perpendicular

---
 geomc/linalg/Orthogonal.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/geomc/linalg/Orthogonal.h b/geomc/linalg/Orthogonal.h
index 0465f14..df24b42 100644
--- a/geomc/linalg/Orthogonal.h
+++ b/geomc/linalg/Orthogonal.h
@@ -75,19 +75,21 @@ Vec<T,N> orthogonal(const Vec<T,N> v[N-1]) {
     
     std::copy(v0, v0 + N * (N-1), m);
     
+    // pivot by columns, so that the leading block is invertible
+    // if the vectors are independent. `P[i]` is the source of column `i`.
     bool parity_swap = false;
-    if (decomp_plu(m, N-1, N, P, &parity_swap) > 0) {
+    if (decomp_lup(m, N-1, N, P, &parity_swap) > 0) {
         // matrix is singular; nullity is > 1. return 0 vector.
         return Vec<T,N>();
     }
     
-    o[N-1] = 1;
+    o[P[N-1]] = 1;
     for (index_t r = N-2; r >= 0; r--) {
         // back substitute.
         for (index_t c = N-1; c > r; c--) {
-            o[r] -= o[c] * mx(r,c);
+            o[P[r]] -= o[P[c]] * mx(r,c);
         }
-        o[r] /= mx(r,r);
+        o[P[r]] /= mx(r,r);
     }
     
     return o;
-- 
2.43.0


From df945107529912775408bc90264296e7033d1a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 047/135] fix: the matrix overload of cholesky compiles and
 honours the storage order

---
 geomc/linalg/Cholesky.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/Cholesky.h b/geomc/linalg/Cholesky.h
index cfa7b18..3274e8f 100644
--- a/geomc/linalg/Cholesky.h
+++ b/geomc/linalg/Cholesky.h
@@ -85,7 +85,7 @@ cholesky(SimpleMatrix<T,M,N,Lyt,P>* m) {
     if (M * N == 0 and m->rows() != m->cols()) {
         return false;
     }
-    return cholesky<T,true>(m->begin(), m->rows());
+    return cholesky<T, Lyt == ROW_MAJOR>(m->data_begin(), m->rows());
 }
 #endif
 
-- 
2.43.0


From 469dc23802a59dba59d733cba5f1cf7777284445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 048/135] fix: direction-aligning rotations carry a direction
 onto its opposite

---
 geomc/linalg/AffineTransform.h | 20 +++++++++++++++++---
 geomc/linalg/vecdetail/Vec3.h  | 18 ++++++++++++++++++
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/AffineTransform.h b/geomc/linalg/AffineTransform.h
index ed72436..fca1671 100644
--- a/geomc/linalg/AffineTransform.h
+++ b/geomc/linalg/AffineTransform.h
@@ -437,6 +437,20 @@ inline void rotmat(
     rotmat(into, axis.x, axis.y, axis.z, ctr.x, ctr.y, ctr.z, theta);
 }
 
+namespace detail {
+
+// set the upper 3x3 part of `into` to a half turn about the unit vector `u`.
+template <typename T, index_t N>
+inline void set_half_turn(SimpleMatrix<T,N,N>* into, const Vec<T,3>& u) {
+    for (index_t r = 0; r < 3; ++r) {
+        for (index_t c = 0; c < 3; ++c) {
+            into->set(r, c, 2 * u[r] * u[c] - (r == c ? 1 : 0));
+        }
+    }
+}
+
+} // namespace detail
+
 // rotation aligning `dir` with `alignWith`.
 // modified from http://www.iquilezles.org/www/articles/noacos/noacos.htm
 template <typename T>
@@ -451,7 +465,7 @@ inline void rotmat_direction_align(
     // handle poles
     if (std::abs(c) == 1) {
         into->set_identity();
-        if (c < 0) { into->set(0,0,-1); into->set(2,2,-1); }
+        if (c < 0) { detail::set_half_turn(into, dir.any_perpendicular()); }
         return;
     }
     
@@ -477,7 +491,7 @@ SimpleMatrix<T,3,3> rotmat_direction_align(
     if (std::abs(c) == 1) {
         SimpleMatrix<T,3,3> out;
         // 180 degree case:
-        if (c < 0) { out.set(0, 0, -1); out.set(2, 2, -1); }
+        if (c < 0) { detail::set_half_turn(&out, dir.any_perpendicular()); }
         return out;
     }
     
@@ -571,7 +585,7 @@ inline void rotmat_direction_align(
     // handle poles
     if (std::abs(c) == 1) {
         into->set_identity();
-        if (c < 0) { into->set(0,0,-1); into->set(2,2,-1); }
+        if (c < 0) { detail::set_half_turn(into, dir.any_perpendicular()); }
         return;
     }
     
diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index 11a84e2..79f96c3 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -341,6 +341,18 @@ namespace geom {
                     q2 * oneMcos + z * cc + (-b*u + a*v - v*x + u*y) * ss);
         }
         
+        /// @return A unit vector perpendicular to `this`, which must not be zero.
+        Vec<T,3> any_perpendicular() const {
+            // cross with the coordinate axis this vector is least aligned with
+            const T ax = std::abs(this->x);
+            const T ay = std::abs(this->y);
+            const T az = std::abs(this->z);
+            const Vec<T,3> a = (ax <= ay and ax <= az) ? Vec<T,3>(1,0,0) :
+                               (ay <= az)              ? Vec<T,3>(0,1,0) :
+                                                         Vec<T,3>(0,0,1);
+            return this->cross(a).unit();
+        }
+        
         /**
          * Compute a transform aligning `from` with `to` and apply it to `this`.
          */
@@ -349,6 +361,12 @@ namespace geom {
             const Vec<T,3>& v = *this;
             const Vec<T,3>  q = from.cross(to);
             const T         c = from.dot(to);
+            if (c == -1) {
+                // `from` and `to` are opposite: a half turn about any axis
+                // perpendicular to them aligns them.
+                const Vec<T,3> u = from.any_perpendicular();
+                return u * (2 * u.dot(v)) - v;
+            }
             const T         k = 1 / (1 + c);
             return Vec<T,3>(
                 (q.x * q.x * k + c)   * v.x + (q.y * q.x * k - q.z) * v.y + (q.z * q.x * k + q.y) * v.z,
-- 
2.43.0


From 2aa38cca233f20e048bedffcb60fa567f94e36b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 049/135] fix: keep the inverse's translation when enlarging an
 affine transform

---
 geomc/linalg/AffineTransform.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geomc/linalg/AffineTransform.h b/geomc/linalg/AffineTransform.h
index fca1671..689975b 100644
--- a/geomc/linalg/AffineTransform.h
+++ b/geomc/linalg/AffineTransform.h
@@ -184,9 +184,11 @@ public:
             }
             // keep translation components in the homogenous column
             xf.mat(i,M) = static_cast<U>(mat(i,N));
+            xf.inv(i,M) = static_cast<U>(inv(i,N));
         }
         // this ought to be 1, but let's be pedantic
         xf.mat(M,M) = mat(N,N);
+        xf.inv(M,M) = inv(N,N);
         return xf;
     }
     
-- 
2.43.0


From 925e9893e34d1b96fe523dfd32af8918a025e61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 050/135] fix: dividing an affine transform by itself gives the
 identity

---
 geomc/linalg/AffineTransform.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/AffineTransform.h b/geomc/linalg/AffineTransform.h
index 689975b..3c638fc 100644
--- a/geomc/linalg/AffineTransform.h
+++ b/geomc/linalg/AffineTransform.h
@@ -168,9 +168,8 @@ public:
      * the inverse of `xf`.
      */
     AffineTransform<T,N>& operator/=(const AffineTransform<T,N>& xf) {
-        mat = xf.inv * mat;
-        inv = inv * xf.mat;
-        return *this;
+        // `xf` may be this transform, so don't overwrite it until the end
+        return *this = apply_inverse(xf);
     }
     
     template <index_t M, typename U=T>
-- 
2.43.0


From eae77659ce04fe3c6661888ae38c63fb3d1d217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 051/135] fix: recognise opposite directions whose dot product
 rounds above -1

---
 geomc/linalg/AffineTransform.h | 6 +++---
 geomc/linalg/vecdetail/Vec3.h  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/linalg/AffineTransform.h b/geomc/linalg/AffineTransform.h
index 3c638fc..fcfbf11 100644
--- a/geomc/linalg/AffineTransform.h
+++ b/geomc/linalg/AffineTransform.h
@@ -464,7 +464,7 @@ inline void rotmat_direction_align(
     const T c = dir.dot(alignWith);
     
     // handle poles
-    if (std::abs(c) == 1) {
+    if (std::abs(c) == 1 or v.is_zero()) {
         into->set_identity();
         if (c < 0) { detail::set_half_turn(into, dir.any_perpendicular()); }
         return;
@@ -489,7 +489,7 @@ SimpleMatrix<T,3,3> rotmat_direction_align(
     const T c = dir.dot(alignWith);
     
     // handle poles
-    if (std::abs(c) == 1) {
+    if (std::abs(c) == 1 or v.is_zero()) {
         SimpleMatrix<T,3,3> out;
         // 180 degree case:
         if (c < 0) { detail::set_half_turn(&out, dir.any_perpendicular()); }
@@ -584,7 +584,7 @@ inline void rotmat_direction_align(
     const T c = dir.dot(alignWith);
     
     // handle poles
-    if (std::abs(c) == 1) {
+    if (std::abs(c) == 1 or v.is_zero()) {
         into->set_identity();
         if (c < 0) { detail::set_half_turn(into, dir.any_perpendicular()); }
         return;
diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index 79f96c3..b47234b 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -361,7 +361,7 @@ namespace geom {
             const Vec<T,3>& v = *this;
             const Vec<T,3>  q = from.cross(to);
             const T         c = from.dot(to);
-            if (c == -1) {
+            if (c == -1 or (c < 0 and q.is_zero())) {
                 // `from` and `to` are opposite: a half turn about any axis
                 // perpendicular to them aligns them.
                 const Vec<T,3> u = from.any_perpendicular();
-- 
2.43.0


From a0fa877a0e9db423bcaf896afe363aed54685303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 052/135] fix: log and pow of real quaternions

---
 geomc/linalg/Quaternion.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 39e444e..9bbe4d5 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -310,6 +310,8 @@ geom::Quat<T> log(const geom::Quat<T>& q) {
     T q_m = q.mag();
     T v_m = q.imag().mag();
     T k   = std::acos(q.w / q_m);
+    // q is real; any axis will do
+    if (v_m == 0) return geom::Quat<T>(geom::Vec<T,3>(k, 0, 0), std::log(q_m));
     return geom::Quat<T>(k * q.imag() / v_m, std::log(q_m));
 }
 
@@ -321,7 +323,8 @@ geom::Quat<T> pow(const geom::Quat<T> &q, U a) {
     T mag = q.mag();
     if (mag == 0) return geom::Quat<T>(0,0,0,1);
     U theta = std::acos(q.real() / mag); // :(
-    geom::Vec<T,3> nhat = q.imag().unit();
+    // if q is real, any axis will do
+    geom::Vec<T,3> nhat = q.imag().is_zero() ? geom::Vec<T,3>(1, 0, 0) : q.imag().unit();
     return std::pow(mag, a) * geom::Quat<T>(
         nhat * std::sin(a * theta), 
         std::cos(a * theta));
-- 
2.43.0


From cf7c47b64e2c6fd512f01ef854241e35d63a0569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 053/135] fix: quaternion slerp compiles and handles equal
 rotations

---
 geomc/linalg/Quaternion.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 9bbe4d5..19ec2c4 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -240,7 +240,7 @@ public:
      * @param t Interpolation parameter between 0 and 1.
      * @return 
      */
-    Quat<T> slerp(const Quat<T> &q1, T t) const {
+    Quat<T> slerp(Quat<T> q1, T t) const {
         // assumed unit quaternion.
         const Quat<T> &q0 = *this;
         T dot = q0.dot(q1);
@@ -248,11 +248,12 @@ public:
             dot = -dot;
             q1 = -q1;
         }
-        dot = std::max(0, std::min<T>(1, dot)); //keep <dot> in the domain of acos.
+        dot = std::max<T>(0, std::min<T>(1, dot)); //keep <dot> in the domain of acos.
         T omega = std::acos(dot);
         T theta = omega * t;
-        Quat<T> q2 = (q1 - q0 * dot).unit();
-        return std::cos(theta) * q0 + std::sin(theta) * q2;
+        Quat<T> q2 = q1 - q0 * dot;
+        if (q2.is_zero()) return q0; // the orientations are the same
+        return std::cos(theta) * q0 + std::sin(theta) * q2.unit();
     }
     
     /**
-- 
2.43.0


From 29ab90bff3e8e138d2edbfd89cda1527a89b4d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 054/135] fix: quaternion rotation_scale and axis-angle
 conversions compile for every scalar type

---
 geomc/linalg/Quaternion.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 19ec2c4..0d0a488 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -193,8 +193,8 @@ public:
      * `(x, y, z, radians)`.
      */
     Vec<T,4> to_axis_angle_rotation() const {
-        T w_clamp = std::min(std::max(detail::VecBase<T,4>::w, -1.0), 1.0);
-        double alpha = 2 * std::acos(w_clamp);
+        T w_clamp = std::min(std::max(detail::VecBase<T,4>::w, (T)-1), (T)1);
+        T alpha = 2 * std::acos(w_clamp);
         if (detail::VecBase<T,4>::x == 0 and 
             detail::VecBase<T,4>::y == 0 and
             detail::VecBase<T,4>::z == 0)
@@ -211,7 +211,7 @@ public:
      */
     Vec<T,3> to_angular_velocity() const {
         // assumes a unit quaternion.
-        T w_clamp = std::min(std::max(detail::VecBase<T,4>::w, -1.0), 1.0);
+        T w_clamp = std::min(std::max(detail::VecBase<T,4>::w, (T)-1), (T)1);
         T alpha = 2 * std::acos(w_clamp);
         if (imag().is_zero()) {
             return Vec<T,3>::zeros;
@@ -227,7 +227,8 @@ public:
     // this may go the "long way" around. that what we want?
     Quat<T> rotation_scale(T t) const {
         // assumes a unit quaternion.
-        const T w = std::max(-1, std::min(Vec<T,4>::w, 1));
+        if (imag().is_zero()) return identity();
+        const T w = std::max((T)-1, std::min(detail::VecBase<T,4>::w, (T)1));
         T omega = std::acos(w);
         T theta = omega * t;
         return Quat<T>(std::sin(theta) * imag().unit(), std::cos(theta));
-- 
2.43.0


From dd25ddea8ae042717968b4130abfdabf075c61a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 055/135] fix: aligning quaternion turns by the angle between
 the directions, not twice it

---
 geomc/linalg/Quaternion.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 0d0a488..99973d1 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -103,7 +103,13 @@ public:
     {
         Vec<T,3> axis = v ^ alignWith;
         T d = v.dot(alignWith);
-        return Quat<T>(axis, d);
+        if (d == -1 or (d < 0 and axis.is_zero())) {
+            // opposite directions; use a half turn about any perpendicular axis.
+            return Quat<T>(v.any_perpendicular(), 0);
+        }
+        // |axis| = sin(theta) and d = cos(theta), so (axis, 1 + d) is a multiple
+        // of (sin(theta/2), cos(theta/2)).
+        return Quat<T>(axis, 1 + d).unit();
     }
 
     /*******************************
-- 
2.43.0


From a89fd01ac017feaacbb430da6d3844817fd58fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 056/135] fix: Quat::exp and Quat::log compile

---
 geomc/linalg/Quaternion.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 99973d1..ebacf03 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -11,6 +11,16 @@
 #include <cmath>
 #include <geomc/linalg/Vec.h>
 
+namespace geom {
+template <typename T> class Quat;
+}
+
+namespace std {
+// declared here so that Quat's methods may call them
+template <typename T> geom::Quat<T> exp(const geom::Quat<T>& q);
+template <typename T> geom::Quat<T> log(const geom::Quat<T>& q);
+}
+
 namespace geom {
 
 /** @ingroup linalg 
-- 
2.43.0


From cecac8401c2747661e2b39e1ad313c0c847479c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:20 +0000
Subject: [PATCH 057/135] fix: Rect::contact_vector measures depth in the
 coordinate type

---
 geomc/shape/Rect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index cb2192a..3b1dba1 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -911,8 +911,8 @@ public:
         point_t v;
         bool overlap[N];
         bool all_overlap = true;
-        index_t shortest_axis;
-        index_t shortest_val = std::numeric_limits<T>::max();
+        index_t shortest_axis = 0;
+        T shortest_val = std::numeric_limits<T>::max();
         for (index_t i = 0; i < N; ++i) {
             auto r0 = this->axis(i);
             auto r1 = other.axis(i);
-- 
2.43.0


From caa819b4e9807814e12091d7a0b7513da2c536e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:20 +0000
Subject: [PATCH 058/135] fix: Rect::sdf for one-dimensional boxes

---
 geomc/shape/Rect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 3b1dba1..55113ae 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -865,7 +865,7 @@ public:
      */
     T sdf(point_t p) const {
         T sign = contains(p) ? -1 : 1;
-        return sign * project(p).dist(p);
+        return sign * ptype::mag(project(p) - p);
     }
 
     /**
-- 
2.43.0


From 471e05f5cac6c92c60fcee850cddab67739f20da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:20 +0000
Subject: [PATCH 059/135] fix: Rect::project moves to the nearest face, not the
 nearest corner

---
 geomc/shape/Rect.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 55113ae..8b03963 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -848,15 +848,25 @@ public:
      * `clip()` leaves `p` unchanged if it lies in the Rect's interior.
      */
     point_t project(point_t p) const {
+        if (not contains(p)) return clip(p);
+        // `p` is inside; move it to the nearest face
         T* p_i = ptype::iterator(p);
         const T* lo_i = ptype::iterator(lo);
         const T* hi_i = ptype::iterator(hi);
+        index_t axis  = 0;
+        T nearest     = lo_i[0];
+        T dist        = p_i[0] - lo_i[0];
         for (index_t i = 0; i < N; ++i) {
-            // for each coordinate, find the extrumum which is closest to p
-            T d_lo = std::abs(p_i[i] - lo_i[i]);
-            T d_hi = std::abs(p_i[i] - hi_i[i]);
-            p_i[i] = (d_lo < d_hi) ? lo_i[i] : hi_i[i];
+            for (T face : {lo_i[i], hi_i[i]}) {
+                T d = std::abs(p_i[i] - face);
+                if (d < dist) {
+                    axis    = i;
+                    nearest = face;
+                    dist    = d;
+                }
+            }
         }
+        p_i[axis] = nearest;
         return p;
     }
 
-- 
2.43.0


From 857d5943ec66c90ccf20a494a7f7e92a2d68c2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:20 +0000
Subject: [PATCH 060/135] fix: Rect::abs compiles on a const box

---
 geomc/shape/Rect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 8b03963..965539a 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -723,8 +723,8 @@ public:
      */
     Rect<T,N> abs() const {
         Rect<T,N> out;
-        T* lo_i     = ptype::iterator(lo);
-        T* hi_i     = ptype::iterator(hi);
+        const T* lo_i = ptype::iterator(lo);
+        const T* hi_i = ptype::iterator(hi);
         T* out_lo_i = ptype::iterator(out.lo);
         T* out_hi_i = ptype::iterator(out.hi);
         for (index_t i = 0; i < N; ++i) {
-- 
2.43.0


From b6838f87140f94b27c9a33770c475a209fbaa6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:20 +0000
Subject: [PATCH 061/135] fix: Rect::center and set_dimensions for negative
 integer coordinates

---
 geomc/shape/Rect.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 965539a..8cf8e77 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -653,7 +653,7 @@ public:
      * @return The center point of this region.
      */
     point_t center() const {
-        return (hi + lo + endpoint_measure) / 2;
+        return lo + dimensions() / 2;
     }
 
     /**
@@ -687,11 +687,7 @@ public:
         // [0|1|2|3|4]
         // [0|1|2|3]
 
-        // xxx fixme for int types
-        dim = std::abs(dim);
-        point_t diff = (dim - dimensions()) / 2;
-        lo = lo - diff;
-        hi = hi + diff;
+        *this = from_center(center(), std::abs(dim));
     }
 
     /**
-- 
2.43.0


From 0a15f2ab97fbcc73fde142e7c3bfb712dd46be25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:20 +0000
Subject: [PATCH 062/135] fix: Rect::intersects is inclusive of its boundaries

---
 geomc/shape/Rect.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 8cf8e77..6f4d1e8 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -625,9 +625,9 @@ public:
      */
     bool intersects(const Rect<T,N>& box) const {
         for (index_t axis = 0; axis < N; axis++) {
-            // disjoint on this axis?
-            if (ptype::iterator(hi)[axis]     <= ptype::iterator(box.lo)[axis] or
-                ptype::iterator(box.hi)[axis] <= ptype::iterator(lo)[axis]) {
+            // disjoint on this axis? (boundaries are inclusive)
+            if (std::max(ptype::iterator(lo)[axis], ptype::iterator(box.lo)[axis]) >
+                std::min(ptype::iterator(hi)[axis], ptype::iterator(box.hi)[axis])) {
                 return false;
             }
         }
-- 
2.43.0


From 94b18d2d2c190034aec24a738144733944443a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:20 +0000
Subject: [PATCH 063/135] fix: the empty box is contained in every box

---
 geomc/shape/Rect.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 6f4d1e8..237341f 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -598,6 +598,7 @@ public:
      * `this`.
      */
     bool contains(const Rect<T,N>& box) const {
+        if (box.is_empty()) return true;
         for (index_t axis = 0; axis < N; axis++) {
             // inner box must not protrude along any axis
             if (ptype::iterator(box.lo)[axis] < ptype::iterator(lo)[axis] or
-- 
2.43.0


From 767169f085ff011395805b7cd4c5d92581b53b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:21 +0000
Subject: [PATCH 064/135] fix: Rect slice operators name the sliced point type

---
 geomc/shape/Rect.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 237341f..13a9ead 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -244,8 +244,8 @@ public:
         const T* lo_p = ptype::iterator(lo);
         const T* hi_p = ptype::iterator(hi);
         Rect<T,M> out {
-            point_t{ lo_p[indices]...},
-            point_t{ hi_p[indices]...}
+            typename Rect<T,M>::point_t{ lo_p[indices]...},
+            typename Rect<T,M>::point_t{ hi_p[indices]...}
         };
         return out;
     }
@@ -265,8 +265,8 @@ public:
         const T* lo_p = ptype::iterator(lo);
         const T* hi_p = ptype::iterator(hi);
         Rect<T,M> out {
-            point_t{ lo_p[indices]...},
-            point_t{ hi_p[indices]...}
+            typename Rect<T,M>::point_t{ lo_p[indices]...},
+            typename Rect<T,M>::point_t{ hi_p[indices]...}
         };
         return out;
     }
-- 
2.43.0


From dc416c24e81e78c1facc6e74f1cd5c9ca2943d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:34 +0000
Subject: [PATCH 065/135] fix: Sphere intersection tests use both shapes'
 extents

---
 geomc/shape/Sphere.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Sphere.h b/geomc/shape/Sphere.h
index 01f5821..d6679f4 100644
--- a/geomc/shape/Sphere.h
+++ b/geomc/shape/Sphere.h
@@ -70,11 +70,11 @@ public:
      * @return `true` if `s` overlaps with this sphere's volume, false otherwise.
      */
     bool intersects(Sphere s) const {
-        return ptype::mag2(center - s.center) <= r * r;
+        return ptype::mag2(center - s.center) <= (r + s.r) * (r + s.r);
     }
     
     bool intersects(const Rect<T,N>& rect) const {
-        return rect.dist2(r) <= r * r;
+        return not rect.is_empty() and rect.dist2(center) <= r * r;
     }
     
     point_t convex_support(point_t d) const {
-- 
2.43.0


From 08a656a8bdfa219d8878daefbc105a351cfbd576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:34 +0000
Subject: [PATCH 066/135] fix: Plane intersection tests for hulls

---
 geomc/shape/Plane.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Plane.h b/geomc/shape/Plane.h
index a134e65..1562b38 100644
--- a/geomc/shape/Plane.h
+++ b/geomc/shape/Plane.h
@@ -196,11 +196,12 @@ public:
         bool negative;
         for (index_t i = 0; i < npts; i++){
             T dist = distance(hull[i]);
+            if (dist == 0) return true;
             if (i > 0){
                 // if a point lies on the plane, or another point lies on the
                 // other side of the plane, then this shape crosses the plane.
-                if (dist == 0 || ((dist < 0) != negative)){
-                    return false;
+                if ((dist < 0) != negative){
+                    return true;
                 }
             } else {
                 negative = dist < 0;
-- 
2.43.0


From 70d0dae7094b5005767185626b8bc564b65d0a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:34 +0000
Subject: [PATCH 067/135] fix: Plane intersects a sphere when it is within the
 radius

---
 geomc/shape/Plane.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Plane.h b/geomc/shape/Plane.h
index 1562b38..9047d92 100644
--- a/geomc/shape/Plane.h
+++ b/geomc/shape/Plane.h
@@ -182,7 +182,7 @@ public:
      * @return `true` if and only if this plane passes through `s`.
      */
     inline bool intersects(const Sphere<T,N> &s) const {
-        return distance(s.center) >= s.r;
+        return std::abs(distance(s.center)) <= s.r;
     }
     
     /**
-- 
2.43.0


From 6f663dfc3809e8ad9d77a2915715ff1b0044afee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:34 +0000
Subject: [PATCH 068/135] fix: Plane touches a shape at its support point

---
 geomc/shape/Plane.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Plane.h b/geomc/shape/Plane.h
index 9047d92..846fb48 100644
--- a/geomc/shape/Plane.h
+++ b/geomc/shape/Plane.h
@@ -173,7 +173,7 @@ public:
      */
     template <typename ConvexShape>
     inline bool intersects(const ConvexShape& shape) const {
-        return shape.convex_support( normal).dot(normal) + d  > 0 and
+        return shape.convex_support( normal).dot(normal) + d >= 0 and
                shape.convex_support(-normal).dot(normal) + d <= 0;
     }
     
-- 
2.43.0


From 2c07bc11ab1b5908a8c07b1b56c540f4a03b7dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:34 +0000
Subject: [PATCH 069/135] fix: transforming a Plane keeps the sign of its
 offset

---
 geomc/shape/Plane.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/shape/Plane.h b/geomc/shape/Plane.h
index 846fb48..40cad8e 100644
--- a/geomc/shape/Plane.h
+++ b/geomc/shape/Plane.h
@@ -150,10 +150,10 @@ public:
      * @param xf An affine transformation.
      */
     void apply(const AffineTransform<T,N> &xf) {
-        Vec<T,N> p0 = normal*d; // a point on the plane
+        Vec<T,N> p0 = origin(); // a point on the plane
         Vec<T,N> p1 = xf.apply(p0); // the new position of that point
         normal = xf.apply_normal(normal).unit(); // construct a plane with transformed normal
-        d = p1.dot(normal); // and transformed position
+        d = -p1.dot(normal); // and transformed position
     }
     
     /**
@@ -161,10 +161,10 @@ public:
      * @param xf An affine transformation.
      */
     void apply_inverse(const AffineTransform<T,N> &xf) {
-        Vec<T,N> p0 = normal*d;
+        Vec<T,N> p0 = origin();
         Vec<T,N> p1 = xf.apply_inverse(p0);
         normal = xf.apply_inverse_normal(normal).unit();
-        d = p1.dot(normal);
+        d = -p1.dot(normal);
     }
     
     /**
-- 
2.43.0


From 5ce1fbc9fab4812beda62dd18a62a704631403ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:34 +0000
Subject: [PATCH 070/135] fix: volume of a mirrored Oriented Rect is positive

---
 geomc/shape/Oriented.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Oriented.h b/geomc/shape/Oriented.h
index 7dda825..7b50f98 100644
--- a/geomc/shape/Oriented.h
+++ b/geomc/shape/Oriented.h
@@ -229,7 +229,7 @@ public:
                 mx(j,i) = s * xf.mat(j,i);
             }
         }
-        return det_destructive(mx.data_begin(), N);
+        return std::abs(det_destructive(mx.data_begin(), N));
     }
     
 }; // class Oriented<Rect>
-- 
2.43.0


From 51b3194d54aba249383c6330de67508e0f5cd567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:35 +0000
Subject: [PATCH 071/135] fix: Frustum ray interval on the frustum's side of
 its tip

---
 geomc/shape/Frustum.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/Frustum.h b/geomc/shape/Frustum.h
index 38c1f43..8292714 100644
--- a/geomc/shape/Frustum.h
+++ b/geomc/shape/Frustum.h
@@ -189,7 +189,10 @@ public:
             // if the two hits are on either side of h=0, then the interval is inverted.
             // (we have already handled the ray through the origin case).
             // which of the two half-infinite intervals should be intersected with the slab?
-            s = (slab_range.lo < 0)
+            // the one on the same side of h=0 as the frustum.
+            bool rising = ray.direction[N-1] > 0;
+            bool upper  = clipped_height().hi > 0;
+            s = (rising != upper)
                 ? Rect<T,1>(std::numeric_limits<T>::lowest(), s.lo)
                 : Rect<T,1>(s.hi, std::numeric_limits<T>::max());
         }
-- 
2.43.0


From 5a06fbac4ace626f2178d087b32d5c8597039e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:35 +0000
Subject: [PATCH 072/135] fix: Frustum ray through the tip in the h=0 plane

---
 geomc/shape/Frustum.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Frustum.h b/geomc/shape/Frustum.h
index 8292714..6638921 100644
--- a/geomc/shape/Frustum.h
+++ b/geomc/shape/Frustum.h
@@ -119,10 +119,10 @@ public:
         // handle degenerate cases
         if (o_base[N-1] == 0) {
             // the ray lies in the h=0 plane
-            if (o_base == (T)0) [[unlikely]] {
+            if (o_ortho == (T)0) [[unlikely]] {
                 // the ray passes through the origin, and intersects the
                 // frustum tip, if it's included in the height range
-                T s = ray.direction.fraction_on(ray.origin);
+                T s = -ray.origin.fraction_on(ray.direction);
                 return Rect<T,1>(s, s) & slab_range;
             } else {
                 // the ray does not pass through the origin
-- 
2.43.0


From 249104445060c1485e1de349d8aa82d454c9503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:35 +0000
Subject: [PATCH 073/135] fix: Extruded::normal compiles

---
 geomc/shape/Extruded.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Extruded.h b/geomc/shape/Extruded.h
index 72ce502..b6398a0 100644
--- a/geomc/shape/Extruded.h
+++ b/geomc/shape/Extruded.h
@@ -104,7 +104,7 @@ public:
                 T wall_dist = std::abs(base.sdf(p_base));
                 if (cap_dist < wall_dist) {
                     // the cap is nearest. use its normal
-                    return {Vec<T,N-1>{}, (cap_h >= height.hi) ? 1 : -1};
+                    return {Vec<T,N-1>{}, (T)((cap_h >= height.hi) ? 1 : -1)};
                 }
             }
             // the wall is nearest, use its normal
@@ -113,7 +113,7 @@ public:
             // p beyond the top or bottom cap
             if (inside_base) {
                 // p directly above or below a cap
-                return {Vec<T,N-1>{}, (h >= height.hi) ? 1 : -1};
+                return {Vec<T,N-1>{}, (T)((h >= height.hi) ? 1 : -1)};
             } else {
                 // p is outside the base shape
                 Vec<T,N> cap_pt {
-- 
2.43.0


From 2a39791799cb4e5975d404d6884ae0d4bc06ac44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:35 +0000
Subject: [PATCH 074/135] fix: dilate compiles for floating point shapes

---
 geomc/shape/Dilated.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index 8757cd9..31fb93a 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -126,7 +126,7 @@ public:
  */
 template <typename Shape>
 inline Dilated<Shape> dilate(const Shape& s, typename Shape::elem_t dilation) {
-    return Dilated<Shape>(s, std::max(dilation, 0));
+    return Dilated<Shape>(s, std::max<typename Shape::elem_t>(dilation, 0));
 }
 
 /**
@@ -135,7 +135,7 @@ inline Dilated<Shape> dilate(const Shape& s, typename Shape::elem_t dilation) {
  */
 template <typename Shape>
 inline Dilated<Shape> dilate(const Dilated<Shape>& s, typename Shape::elem_t dilation) {
-    return Dilated<Shape>(s.shape, std::max(s.dilation + dilation, 0));
+    return Dilated<Shape>(s.shape, std::max<typename Shape::elem_t>(s.dilation + dilation, 0));
 }
 
 /**
@@ -160,7 +160,7 @@ inline Plane<T,N> dilate(Plane<T,N> p, T dilation) {
  */
 template <typename T, index_t N>
 inline Sphere<T,N> dilate(const Sphere<T,N>& s, T dilation) {
-    return Sphere<T,N>(s.center, std::max(s.r + dilation, 0));
+    return Sphere<T,N>(s.center, std::max<T>(s.r + dilation, 0));
 }
 
 /**
-- 
2.43.0


From d3201f9ed4f47e123928c680cb65bf438a50fd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:35 +0000
Subject: [PATCH 075/135] fix: Dilated contains its surface

---
 geomc/shape/Dilated.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index 31fb93a..626e43d 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -77,7 +77,7 @@ public:
     
     /// Point containment test.
     bool contains(Vec<T,N> p) const {
-        return sdf(p) < 0;
+        return sdf(p) <= 0;
     }
     
     /// Signed distance function.
-- 
2.43.0


From ff4e3d38cbe99831cb35d008aa7d31cb244c1daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:35 +0000
Subject: [PATCH 076/135] fix: Dilated without an amount has zero dilation

---
 geomc/shape/Dilated.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index 626e43d..4beb744 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -66,7 +66,7 @@ public:
     Dilated():dilation((T)0) {}
     
     /// Wrap `s` with zero dilation.
-    Dilated(const Shape& s):shape(s) {}
+    Dilated(const Shape& s):shape(s), dilation((T)0) {}
     
     /// Dilate `s` by the amount `dilation`.
     Dilated(const Shape& s, T dilation):shape(s), dilation(dilation) {}
-- 
2.43.0


From 4868510f38e05af858617624b22ae35549abb12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:35 +0000
Subject: [PATCH 077/135] fix: Cylinder ray along its wall

---
 geomc/shape/Cylinder.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index e1cb579..a261bc0 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -221,10 +221,10 @@ class Cylinder:
         // construct an interval holding the ray's overlap with the infinite cylinder
         if (k0 != 0 and quadratic_solve(roots, k0, k1, k2)) {
             interval = Rect<T,1>::spanning_corners(roots[0], roots[1]);
-        } else if (k2 < 0) {
+        } else if (k2 <= 0) {
             // if there is no intersection, then it might be the case that 
             // the ray points exactly down the interior of the cylinder, which
-            // can only happen if the ray origin is inside too (k2 < 0). also
+            // can only happen if the ray origin is inside too (k2 <= 0). also
             // due to precision this manifests sometimes when there is one root:
             // when v and a are aligned then k0 is 0, and the equation can take the form
             // `0x^2 + (small)x + c = 0`; this should be treated the same as 'no solution'.
-- 
2.43.0


From 46836b9417736426cfd0bfc8a784939733308039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:35 +0000
Subject: [PATCH 078/135] fix: Cylinder support point along its axis

---
 geomc/shape/Cylinder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index a261bc0..a05218b 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -194,7 +194,7 @@ class Cylinder:
     
     Vec<T,N> convex_support(Vec<T,N> d) const {
         Vec<T,N> a = p1 - p0;
-        Vec<T,N> perp = (d - d.project_on(a)).unit() * radius;
+        Vec<T,N> perp = (d - d.project_on(a)).with_length(radius);
         return (d.dot(a) > 0 ? p1 : p0) + perp;
     }
     
-- 
2.43.0


From d5a47a5fa13e6bfa618867d94745fb0093b604f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:35 +0000
Subject: [PATCH 079/135] fix: Cylinder normal at the far rim

---
 geomc/shape/Cylinder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index a05218b..edcedd7 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -156,7 +156,7 @@ class Cylinder:
             // p projects onto the cap
             if (r_dist > radius) {
                 // p projects onto the rim of the cap
-                n = p - (r * radius + p0);
+                n = p - (r * radius + (s < 0 ? p0 : p1));
             } else {
                 // p projects to the cap face; normal is axial
                 n = s < 0 ? -a : a;
-- 
2.43.0


From e60eeb465de9692efbe92d697893031266d52261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:35 +0000
Subject: [PATCH 080/135] fix: Cylinder projection of axis points to the cap

---
 geomc/shape/Cylinder.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index edcedd7..839ce05 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -116,8 +116,8 @@ class Cylinder:
         T x2 = d * s;
         // distance of p to the axis
         T r_dist = std::sqrt(b2 - x2);
-        // unit length radial vector
-        Vec<T,N> r = (p - p0 - s * a) / r_dist;
+        // unit length radial vector (or zero, if `p` is on the axis)
+        Vec<T,N> r = (p - p0 - s * a).with_length(1);
         // adjust `r` and `s` to lie on the cylinder boundary
         if (s < 0 or s > 1) {
             // p projects onto the cap
-- 
2.43.0


From 8871a9c96ac61d4731666860c81b3d3967fc4e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:36 +0000
Subject: [PATCH 081/135] fix: Cylinder sdf inside the shape

---
 geomc/shape/Cylinder.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index 839ce05..2dd3457 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -93,13 +93,15 @@ class Cylinder:
         s = std::max(-s, (s - 1));
         // sdf is negative (inside shape) iff (s, r) in the negative quadrant
         T sign = (s < 0 and r < 0) ? -1 : 1;
+        // inside, the nearest surface is the closer of the wall and cap
+        if (sign < 0) return std::max(s * std::sqrt(a2), r);
         // clamped coordinates, to project orthogonally to the wall/cap
         s = std::max(s, (T)0);
         r = std::max(r, (T)0);
         // squared axis-parallel distance to cap
         x2 = s * s * a2;
-        // signed distance to the surface point
-        return sign * std::sqrt(r * r + x2);
+        // distance to the surface point
+        return std::sqrt(r * r + x2);
     }
     
     Vec<T,N> project(Vec<T,N> p) const {
-- 
2.43.0


From f6aa665a99332d4e2159cf37b37b5b0690c67103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:36 +0000
Subject: [PATCH 082/135] fix: Cylinder contains its far cap

---
 geomc/shape/Cylinder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index 2dd3457..6b4336e 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -64,7 +64,7 @@ class Cylinder:
         T d  = a.dot(b);
         T x2 = d * d / a2;
         bool in_r = b2 - x2 <= radius * radius;
-        bool in_caps = x2 < a2 and d >= 0;
+        bool in_caps = x2 <= a2 and d >= 0;
         return in_r and in_caps;
     }
     
-- 
2.43.0


From 510ec187e87fc9e29007216c22ddf1dc489a2c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:36 +0000
Subject: [PATCH 083/135] fix: Capsule axis point compiles

---
 geomc/shape/Capsule.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Capsule.h b/geomc/shape/Capsule.h
index 3765eb8..96b52d0 100644
--- a/geomc/shape/Capsule.h
+++ b/geomc/shape/Capsule.h
@@ -61,7 +61,7 @@ public:
         point_t v    = p  - p0;
         point_t axis = p1 - p0;
         T frac = v.dot(axis) / axis.mag2();
-        return p0 + axis * clamp(frac, 0, 1);
+        return p0 + axis * clamp<T>(frac, 0, 1);
     }
     
     /**
-- 
2.43.0


From cc0c7a14546cec5ea348411bfc82bd3404ff04cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:36 +0000
Subject: [PATCH 084/135] fix: Ray distance to a point

---
 geomc/linalg/Ray.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/geomc/linalg/Ray.h b/geomc/linalg/Ray.h
index 9f9eb6e..0bc2990 100644
--- a/geomc/linalg/Ray.h
+++ b/geomc/linalg/Ray.h
@@ -84,15 +84,13 @@ public:
     
     /// Signed distance from `p` to the nearest point on the ray.
     inline T sdf(point_t p) const {
-        return std::sqrt(dist2());
+        return std::sqrt(dist2(p));
     }
     
     /// Compute the square of the distance from `p` to the nearest point on the ray.
     inline T dist2(point_t p) const {
         point_t b = p - origin;
-        T b2 = b.mag2();
-        T d  = direction.dot(b);
-        return b2 == 0 ? 0 : b2 - (d * d / b2);
+        return (b - b.project_on(direction)).mag2();
     }
     
 }; // class Ray
-- 
2.43.0


From 103dcec4697d798b083788209516710c3eca023a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:35 +0000
Subject: [PATCH 085/135] fix: trace_simplex solves for every surface
 coordinate and reads the ray parameter in bounds

---
 geomc/shape/Simplex.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index c9e6222..5794256 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -571,8 +571,7 @@ inline bool trace_simplex(const Vec<T,N> verts[N], const Ray<T,N>& ray, Vec<T,N-
     
     // linear solve
     Vec<T,N> x = ray.origin - verts[0];
-    index_t skip = uv ? 0 : N - 1;
-    if (not linear_solve(bases, 1, &x, skip)) return false;
+    if (not linear_solve(bases, 1, &x)) return false;
     
     // inside simplex?
     T sum = 0;
-- 
2.43.0


From faff885e5c558a2b56c423703d8bd8d96244d835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:43 +0000
Subject: [PATCH 086/135] fix: trace_simplex reads the ray parameter from the
 last unknown, not past it

---
 geomc/shape/Simplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index 5794256..0dbf9e0 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -582,7 +582,7 @@ inline bool trace_simplex(const Vec<T,N> verts[N], const Ray<T,N>& ray, Vec<T,N-
     if (sum > 1) return false;
     
     // output result
-    *s  = x[N];
+    *s  = x[N - 1];
     if (uv) *uv = x.template resized<N-1>();
     return true;
 }
-- 
2.43.0


From a8070195fed27f47ad89f7bb214a178f0bd5a806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:43 +0000
Subject: [PATCH 087/135] fix: Simplex::measure uses the n-1 edge vectors and
 is positive

---
 geomc/shape/Simplex.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index 0dbf9e0..a6503ad 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -383,7 +383,7 @@ public:
             if (n == 3) return (pts[1] - pts[0]).cross(pts[2] - pts[0]).mag() / 2;
         }
         // full volume
-        if (n == N + 1) return volume();
+        if (n == N + 1) return std::abs(volume());
         // otherwise, construct the basis of the simplex.
         // we'll use it to compute the volume
         Vec<T,N> bases[N];
@@ -397,12 +397,13 @@ public:
         // divided by n factorial. i suspect the gram matrix could probably
         // be computed more efficiently, because it's symmetric
         T buf[N * N];
-        WrapperMatrix<T,0,0> b {buf, n, n};
-        WrapperMatrix<T,0,N,MatrixLayout::ROW_MAJOR> m0 {m, n};
-        WrapperMatrix<T,N,0,MatrixLayout::COL_MAJOR> m1 {m, n};
-        // (n x n) = (n x N) * (N x n)
+        const index_t n_bases = n - 1;
+        WrapperMatrix<T,0,0> b {buf, n_bases, n_bases};
+        WrapperMatrix<T,0,N,MatrixLayout::ROW_MAJOR> m0 {m, n_bases};
+        WrapperMatrix<T,N,0,MatrixLayout::COL_MAJOR> m1 {m, n_bases};
+        // (n-1 x n-1) = (n-1 x N) * (N x n-1)
         mul(&b, m0, m1);
-        return std::sqrt(std::abs(det_destructive(buf, n))) / k;
+        return std::sqrt(std::abs(det_destructive(buf, n_bases))) / k;
     }
     
     /**
-- 
2.43.0


From 3e09221617e7b5d04c67552cf73df3f55d6dd8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:43 +0000
Subject: [PATCH 088/135] fix: Simplex::is_facing checks every surface
 coordinate

---
 geomc/shape/Simplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index a6503ad..239df7a 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -320,7 +320,7 @@ public:
                 
                 // check that the coordinates of `p` are inside the simplex
                 T sum = 0;
-                for (index_t i = n_null; i < n_bases; ++i) {
+                for (index_t i = n_null; i < N; ++i) {
                     sum += x[i];
                     if (x[i] < 0 or sum > 1) return false;
                 }
-- 
2.43.0


From 8e630780fb9b7b291b3ef9e5a0dcaa2cbf32db43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:44 +0000
Subject: [PATCH 089/135] fix: Simplex ray intersection keeps testing a
 single-point interval

---
 geomc/shape/Simplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index 239df7a..1000cba 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -236,7 +236,7 @@ public:
             if (linear_solve(m, 2, B)) {
                 // intersect all the ranges of s for which 0 <= w_i <= 1.
                 Rect<T,1> interval = Rect<T,1>::full;
-                for (index_t i = 0; i < N + 1 and interval.hi > interval.lo; ++i) {
+                for (index_t i = 0; i < N + 1 and interval.hi >= interval.lo; ++i) {
                     // w_i = p_i + k_i * s
                     // solve for w_i = 0 and w_i = 1:
                     T p_i = B[0][i];
-- 
2.43.0


From 2896af28462f570c76699b7df7e09f6698745bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:44 +0000
Subject: [PATCH 090/135] fix: dilating a plane moves its surface along the
 normal

---
 geomc/shape/Dilated.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index 4beb744..0d4d386 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -147,7 +147,7 @@ inline Dilated<Shape> dilate(const Dilated<Shape>& s, typename Shape::elem_t dil
  */
 template <typename T, index_t N>
 inline Plane<T,N> dilate(Plane<T,N> p, T dilation) {
-    p.d += dilation;
+    p.d -= dilation;
     return p;
 }
 
-- 
2.43.0


From ae264efd3d8f3d2ded6de6bdc9fa09ff7ac66e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:11 +0000
Subject: [PATCH 091/135] fix: SmallStorage::push_back accepts an item of the
 array itself when it grows

---
 geomc/SmallStorage.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index 0adb2ce..d3ddf17 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -233,7 +233,11 @@ public:
     
     /// Add a copy of the given item to the end of the array, increasing its size by 1.
     T& push_back(const T& item) {
-        _ensure_capacity(_size + 1);
+        if (_size >= _capacity) {
+            // `item` may be one of ours; copy it before it is moved by reallocating.
+            T copied {item};
+            return emplace_back(std::move(copied));
+        }
         T* place = reinterpret_cast<T*>(_data + _size);
         new (place) T {item};
         _size += 1;
-- 
2.43.0


From cfc73496a7e34b1469398994740476eedb61b3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:11 +0000
Subject: [PATCH 092/135] fix: SmallStorage move self-assignment keeps its
 contents

---
 geomc/SmallStorage.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index d3ddf17..3751041 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -168,6 +168,7 @@ public:
     
     /// Move the contents of `other` into this array.
     SmallStorage<T,N>& operator=(SmallStorage<T,N>&& other) {
+        if (&other == this) return *this; // no self-assign
         _destroy(_data, _size);
         // if we have allocated storage, free it. we're going to clobber
         if (_capacity > N) delete [] _data;
-- 
2.43.0


From 35d001a883098db71b825a889603600cbf1a55b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:11 +0000
Subject: [PATCH 093/135] fix: a moved-from inline SmallStorage owns nothing

---
 geomc/SmallStorage.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index 3751041..a1267d4 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -149,6 +149,7 @@ public:
                 new (_data + i) T {std::move(src[i])};
                 src[i].~T(); // destroy the source
             }
+            other._size = 0;
         } else {
             // array was stolen.
             // empty the other container
-- 
2.43.0


From 540d40628aa35c44be32c2ee9f5a31ae8d8b6f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:11 +0000
Subject: [PATCH 094/135] fix: SmallStorage moves only the live items when it
 grows

---
 geomc/SmallStorage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index a1267d4..4bd2252 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -51,7 +51,7 @@ private:
             size_t new_capacity = std::max(n, _capacity * 2);
             storage_t* new_data = new storage_t[new_capacity];
             T* src = begin();
-            for (size_t i = 0; i < n; ++i) {
+            for (size_t i = 0; i < _size; ++i) {
                 new (new_data + i) T{std::move(src[i])};
                 src[i].~T(); // destroy the source
             }
-- 
2.43.0


From 66b57d6f90e1c6322121d4d5b340840871190f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:35 +0000
Subject: [PATCH 095/135] fix: Deque::push_front accepts an item of the deque
 itself when it grows

---
 geomc/Deque.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/geomc/Deque.h b/geomc/Deque.h
index 928156e..3d21a5e 100644
--- a/geomc/Deque.h
+++ b/geomc/Deque.h
@@ -277,7 +277,12 @@ public:
      */
     template <typename U> // templated so that we can deduce and collapse lvalues
     T& push_front(U&& t) {
-        reserve(_size + 1);
+        if (_size >= _capacity) {
+            // `t` may be one of ours; capture it before it is moved by reallocating.
+            T item(std::forward<U>(t));
+            reserve(_size + 1);
+            return push_front(std::move(item));
+        }
         const index_t n = capacity();
         _head = (_head + n - 1) % n;
         T* place = get() + _head;
-- 
2.43.0


From c6c17473c9ca5bce27ac4edee1dbcd911b8db393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:35 +0000
Subject: [PATCH 096/135] fix: Deque::push_back accepts an item of the deque
 itself when it grows

---
 geomc/Deque.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/geomc/Deque.h b/geomc/Deque.h
index 3d21a5e..34453f8 100644
--- a/geomc/Deque.h
+++ b/geomc/Deque.h
@@ -261,7 +261,12 @@ public:
     /// Add an element to the end of the buffer.
     template <typename U> // templated so that we can deduce and collapse lvalues
     T& push_back(U&& t) {
-        reserve(_size + 1);
+        if (_size >= _capacity) {
+            // `t` may be one of ours; capture it before it is moved by reallocating.
+            T item(std::forward<U>(t));
+            reserve(_size + 1);
+            return push_back(std::move(item));
+        }
         T* p = item(_size);
         // placement new, using move semantics if applicable:
         new (p) T(std::forward<U>(t));
-- 
2.43.0


From cc7e52ce42a0006f8e83c03ae5f344c8db321583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:35 +0000
Subject: [PATCH 097/135] fix: Deque move self-assignment keeps its contents

---
 geomc/Deque.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/Deque.h b/geomc/Deque.h
index 34453f8..d94b41c 100644
--- a/geomc/Deque.h
+++ b/geomc/Deque.h
@@ -165,6 +165,7 @@ public:
     
     /// Move the contents of `other` to this buffer
     Deque& operator=(Deque&& other) {
+        if (&other == this) return *this; // no self-assign
         // destroy all our stuff
         for (index_t i = 0; i < _size; ++i) {
             item(i)->~T();
-- 
2.43.0


From 717fab21c99d738ea445760333e2583045f741b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:35 +0000
Subject: [PATCH 098/135] fix: copying a Deque with more capacity than its copy
 needs uses the inline buffer consistently

---
 geomc/Deque.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/Deque.h b/geomc/Deque.h
index d94b41c..d321bfc 100644
--- a/geomc/Deque.h
+++ b/geomc/Deque.h
@@ -90,7 +90,7 @@ public:
     /// Construct a new circular buffer containing copies of all the items in `other`.
     Deque(const Deque<T,N>& other):
             _data((other._size > N) ? (new storage_t[other._capacity]) : _buf),
-            _capacity(std::max(other._capacity, N)),
+            _capacity((other._size > N) ? other._capacity : N),
             _head(0),
             _size(other._size)
     {
-- 
2.43.0


From 0496fb9c96cd23cfb0fc639bae1ae746c54ab79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:38 +0000
Subject: [PATCH 099/135] fix: GridIterator<T,1>::begin works for either axis
 order

---
 geomc/shape/GridIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/GridIterator.h b/geomc/shape/GridIterator.h
index 8452fa8..727913c 100644
--- a/geomc/shape/GridIterator.h
+++ b/geomc/shape/GridIterator.h
@@ -220,7 +220,7 @@ public:
             pt(lo) {}
     
     inline GridIterator<T,1,Order> begin() const {
-        GridIterator<T,1> other = *this;
+        GridIterator<T,1,Order> other = *this;
         other.pt = region.lo;
         return other;
     }
-- 
2.43.0


From e280c42c3b4ca64127283cdca0cc30f03c209806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:38 +0000
Subject: [PATCH 100/135] fix: GridIterator<T,1>(lo, hi) treats hi as
 exclusive, as documented

---
 geomc/shape/GridIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/GridIterator.h b/geomc/shape/GridIterator.h
index 727913c..d6e1b17 100644
--- a/geomc/shape/GridIterator.h
+++ b/geomc/shape/GridIterator.h
@@ -216,7 +216,7 @@ public:
             region(r),
             pt(region.lo) {}
     GridIterator(const point_t &lo, const point_t &hi):
-            region(lo, hi + 1),
+            region(lo, hi - 1),
             pt(lo) {}
     
     inline GridIterator<T,1,Order> begin() const {
-- 
2.43.0


From 1656fb96da8408457867af03f41b809cd34c6088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:38 +0000
Subject: [PATCH 101/135] fix: GridIterator advances relative to its current
 point and its region's origin

---
 geomc/shape/GridIterator.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/GridIterator.h b/geomc/shape/GridIterator.h
index d6e1b17..96dbba1 100644
--- a/geomc/shape/GridIterator.h
+++ b/geomc/shape/GridIterator.h
@@ -150,13 +150,16 @@ private:
     }
     
     inline void advance(index_t n) {
-        point_t dest = point_t(0);
+        point_t dest = point_t((T)0);
         point_t dim  = region.dimensions();
         index_t vol  = region.volume();
         
+        // linear index of the destination, counted from the first cell
+        n += begin().distance_to(*this);
+        
         for (index_t i = dim_last; i != dim_first - dim_increment; i -= dim_increment) {
             vol     = vol / dim[i];
-            dest[i] = n / vol;
+            dest[i] = region.lo[i] + n / vol;
             n       = n % vol;
         }
         
-- 
2.43.0


From 28915f7e74b1325d00f58c94a7f893c180c9e360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:38 +0000
Subject: [PATCH 102/135] fix: decrementing a GridIterator borrows to the last
 cell of an axis

---
 geomc/shape/GridIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/GridIterator.h b/geomc/shape/GridIterator.h
index 96dbba1..b5e23a4 100644
--- a/geomc/shape/GridIterator.h
+++ b/geomc/shape/GridIterator.h
@@ -145,7 +145,7 @@ private:
         for (index_t i = dim_first;
                 i != dim_end and --(pt[i]) < region.lo[i];
                 i += dim_increment) {
-            if (i != dim_last) pt[i] = region.hi[i] - 1;
+            if (i != dim_last) pt[i] = region.hi[i];
         }
     }
     
-- 
2.43.0


From 963b67d5fc3095b42bf915d80a5d5b36d571a9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:58 +0000
Subject: [PATCH 103/135] fix: Simplex hash called hash_array with wrong
 arguments (did not compile)

---
 geomc/shape/Simplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index 1000cba..bffa44c 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -599,7 +599,7 @@ template <typename T, index_t N, typename H>
 struct Digest<Simplex<T,N>, H> {
     H operator()(const Simplex<T,N>& s) const {
         H nonce = geom::truncated_constant<H>(0x8159bb983f797983, 0xe8904e94430f7555);
-        return geom::hash_array<H>(nonce, s.pts, s.n);
+        return geom::hash_array(nonce, s.pts, s.n);
     }
 };
 
-- 
2.43.0


From 6857b3ab7895fd9f7f75beac05a6e179aef957ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:58 +0000
Subject: [PATCH 104/135] fix: reseeding a generator kept coin-flip bits
 buffered from the previous state

---
 geomc/random/LCRand.cpp | 1 +
 geomc/random/MTRand.cpp | 1 +
 geomc/random/Xorshiro.h | 3 +++
 3 files changed, 5 insertions(+)

diff --git a/geomc/random/LCRand.cpp b/geomc/random/LCRand.cpp
index b48b96c..8d33f49 100644
--- a/geomc/random/LCRand.cpp
+++ b/geomc/random/LCRand.cpp
@@ -24,6 +24,7 @@ uint32_t LCRand::rand32(){
 
 void LCRand::rseed(uint64_t seed){
     state = seed;
+    _bitsleft = 0; // discard bits buffered from the previous state
 }
 
 } /* namespace geom */
diff --git a/geomc/random/MTRand.cpp b/geomc/random/MTRand.cpp
index a889d89..cec4d3b 100644
--- a/geomc/random/MTRand.cpp
+++ b/geomc/random/MTRand.cpp
@@ -71,4 +71,5 @@ void MTRand::rseed(uint64_t seed){
         mt_buffer[i] = seeder.rand32();
     }
     mt_index = 0;
+    _bitsleft = 0; // discard bits buffered from the previous state
 }
diff --git a/geomc/random/Xorshiro.h b/geomc/random/Xorshiro.h
index aaaa804..9226d57 100644
--- a/geomc/random/Xorshiro.h
+++ b/geomc/random/Xorshiro.h
@@ -39,6 +39,7 @@ public:
         s[1] = splitmix64(&x);
         s[2] = splitmix64(&x);
         s[3] = splitmix64(&x);
+        _bitsleft = 0; // discard bits buffered from the previous state
     }
     
     template <typename F>
@@ -52,6 +53,7 @@ public:
         s[2] = splitmix64(&x);
         x = entropy();
         s[3] = splitmix64(&x);
+        _bitsleft = 0; // discard bits buffered from the previous state
     }
     
     void seed(const uint64_t entropy[4]) {
@@ -59,6 +61,7 @@ public:
         s[1] = entropy[1];
         s[2] = entropy[2];
         s[3] = entropy[3];
+        _bitsleft = 0;
     }
     
     uint64_t rand64() {
-- 
2.43.0


From 9a0668189e472eef01ffef340919e18fef246283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:58 +0000
Subject: [PATCH 105/135] fix: samples between two radii were not uniform in
 volume (shell, solidcap, solidarc)

---
 geomc/random/RandomTools.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index d7c2d60..65d2e09 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -192,7 +192,7 @@ public:
      */
     template <index_t N> 
     Vec<T,N> shell(T minradius, T maxradius) {
-        T radius = std::pow(this->rng->template rand<T>(minradius/maxradius, 1), ((T)1)/N);
+        T radius = std::pow(this->rng->template rand<T>(std::pow(minradius/maxradius, (T)N), 1), ((T)1)/N);
         return this->unit<N>() * radius * maxradius;
     }
     
@@ -376,7 +376,8 @@ public:
     Vec<T,2> solidarc(T min_radians, T max_radians,
                       T min_radius,  T max_radius) {
         T angle = this->rng->template rand<T>(min_radians, max_radians);
-        T len   = max_radius * std::sqrt(this->rng->template rand<T>(min_radius / max_radius, 1));
+        T s     = min_radius / max_radius;
+        T len   = max_radius * std::sqrt(this->rng->template rand<T>(s * s, 1));
         return Vec<T,2>(len,angle).from_polar();
     }
     
-- 
2.43.0


From e28b46241aa82264da7dd4c618392d75a22f2155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:07 +0000
Subject: [PATCH 106/135] fix: solidcap samples were not uniform in volume
 between the radii

---
 geomc/random/RandomTools.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index 65d2e09..8a61e06 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -286,7 +286,8 @@ public:
      * distributed throughout the volume.
      */
     inline Vec<T,3> solidcap(Vec<T,3> dir, T half_angle_radians, T minR, T maxR) {
-        T r = this->rng->template rand<T>(minR / maxR, 1);
+        T s = minR / maxR;
+        T r = this->rng->template rand<T>(s * s * s, 1);
         r = maxR * std::cbrt(r);
         return r * this->cap(dir, half_angle_radians);
     }
-- 
2.43.0


From 61edb63d64eb95bcc60ceeeaa0f32cef91f98557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:07 +0000
Subject: [PATCH 107/135] fix: a cap about the negative z axis was sampled
 about the positive one

---
 geomc/random/RandomTools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index 8a61e06..13991d2 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -272,7 +272,7 @@ public:
     inline Vec<T,3> cap(Vec<T,3> dir, T half_angle_radians) {
         Vec<T,3> v = this->cap(half_angle_radians);
         Vec<T,3> rotAxis = Vec<T,3>(0,0,1).cross(dir);
-        if (rotAxis.is_zero()) return v;
+        if (rotAxis.is_zero()) return dir.z < 0 ? -v : v;
         return v.rotate(rotAxis, std::acos(dir.z/dir.mag()));
     }
     
-- 
2.43.0


From 63c1a017f6e187e285306552e105ff22e3620851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:08 +0000
Subject: [PATCH 108/135] fix: solidball(radius) was not uniform in volume

---
 geomc/random/RandomTools.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index 13991d2..2a92d61 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -177,8 +177,7 @@ public:
      */
     template <index_t N> 
     inline Vec<T,N> solidball(T radius) {
-        T r = std::pow(this->rng->template rand<T>(), ((T)1)/N);
-        return solidball<N>() * r * radius;
+        return solidball<N>() * radius;
     }
     
     /**
-- 
2.43.0


From 73668793d3ab74b3b3e2a179539992953ac44d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:08 +0000
Subject: [PATCH 109/135] fix: unit() returned NaN when the zero vector was
 drawn

---
 geomc/random/RandomTools.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index 2a92d61..78adb7f 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -132,13 +132,15 @@ public:
     template <index_t N> 
     Vec<T,N> unit() {
         Vec<T,N> v;
+        T m2;
         do {
             for (index_t i = 0; i < N; i++) {
                 // pick a point inside the unit cube
                 v[i] = this->rng->template rand<T>(-1,1);
             }
-            // discard points outside the unit ball
-        } while (v.mag2() > 1);
+            m2 = v.mag2();
+            // discard points outside the unit ball, and its center (which has no direction)
+        } while (m2 > 1 or m2 == 0);
         return v.unit(); // return point on ball surface
     }
     
-- 
2.43.0


From a534f37ecdf6a4e52ef88ed6d26cf64b94a4f288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:08 +0000
Subject: [PATCH 110/135] fix: ranges wider than the largest signed value
 overflowed

---
 geomc/random/Random.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index b5a053e..1816ac1 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -274,13 +274,13 @@ template <> double Random::rand<double>(double hi) {
 
 template <> int Random::rand<int>(int lo, int hi) {
     int lo1 = min(hi,lo);
-    return rand<int>(max(hi,lo) - lo1) + lo1;
+    return rand<unsigned int>((unsigned int) max(hi,lo) - (unsigned int) lo1) + lo1;
 }
 
 
 template <> long long Random::rand<long long>(long long lo, long long hi) {
     long long lo1 = min(hi,lo);
-    return rand<long long>(max(hi,lo) - lo1) + lo1;
+    return rand<unsigned long long>((unsigned long long) max(hi,lo) - (unsigned long long) lo1) + lo1;
 }
 
 
-- 
2.43.0


From 0f7a3abf44ff4f7cd6567a991f962e91fd2f1a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:08 +0000
Subject: [PATCH 111/135] fix: negating the most negative bound overflowed

---
 geomc/random/Random.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index 1816ac1..f06b40b 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -202,7 +202,7 @@ template <> unsigned int Random::rand<unsigned int>(unsigned int hi) {
 
 template <> int Random::rand<int>(int hi) {
     if (hi < 0) {
-        return -rand<unsigned int>(-hi);
+        return -rand<unsigned int>(-(unsigned int) hi);
     } else {
         return rand<unsigned int>(hi);
     }
@@ -225,7 +225,7 @@ template <> unsigned long Random::rand<unsigned long>(unsigned long hi) {
 
 template <> long Random::rand<long>(long hi) {
     if (hi < 0) {
-        return -rand<unsigned long>(-hi);
+        return -rand<unsigned long>(-(unsigned long) hi);
     } else {
         return rand<unsigned long>(hi);
     }
@@ -248,7 +248,7 @@ template <> unsigned long long Random::rand<unsigned long long>(unsigned long lo
 
 template <> long long Random::rand<long long>(long long hi) {
     if (hi < 0) {
-        return -rand<unsigned long long>(-hi);
+        return -rand<unsigned long long>(-(unsigned long long) hi);
     } else {
         return rand<unsigned long long>(hi);
     }
-- 
2.43.0


From f7bc0a82c85f9d63483bbac6163c83a93a74c083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:12 +0000
Subject: [PATCH 112/135] fix: bounded draws accepted an incomplete last block
 (biased) when the bound exceeds 3/4 of the range

---
 geomc/random/Random.cpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index f06b40b..8577227 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -11,10 +11,6 @@
 
 #include <geomc/random/Random.h>
 
-#define INT_SIGNBIT       (1 << std::numeric_limits<int>::digits)
-#define LONG_SIGNBIT      (1L << std::numeric_limits<long>::digits)
-#define LONG_LONG_SIGNBIT (1LL << std::numeric_limits<long long>::digits)
-
 using namespace std;
 using namespace geom;
 
@@ -193,9 +189,8 @@ template <> unsigned int Random::rand<unsigned int>(unsigned int hi) {
         bits = rand<unsigned int>();
         val = bits % hi;
         lo = bits - val;
-        //while this chunk wraps around to zero:
-        //i.e. lo sign bit is 1, end-of-chunk sign bit is 0
-    } while ( (lo & INT_SIGNBIT) & ~(lo+(hi-1)) );
+        //while this chunk wraps around to zero
+    } while (lo + (hi - 1) < lo);
     return val;
 }
 
@@ -216,9 +211,8 @@ template <> unsigned long Random::rand<unsigned long>(unsigned long hi) {
         bits = rand<unsigned long>();
         val = bits % hi;
         lo = bits - val;
-        //while this chunk wraps around to zero:
-        //i.e. lo sign bit is 1, end-of-chunk sign bit is 0
-    } while ( (lo & LONG_SIGNBIT) & ~(lo+(hi-1)) );
+        //while this chunk wraps around to zero
+    } while (lo + (hi - 1) < lo);
     return val;
 }
 
@@ -239,9 +233,8 @@ template <> unsigned long long Random::rand<unsigned long long>(unsigned long lo
         bits = rand<unsigned long long>();
         val = bits % hi;
         lo = bits - val;
-        //while this chunk wraps around to zero:
-        //i.e. lo sign bit is 1, end-of-chunk sign bit is 0
-    } while ( (lo & LONG_LONG_SIGNBIT) & ~(lo+(hi-1)) );
+        //while this chunk wraps around to zero
+    } while (lo + (hi - 1) < lo);
     return val;
 }
 
-- 
2.43.0


From 9348017583bdb35553cdf9e378b0b90727873f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:12 +0000
Subject: [PATCH 113/135] fix: equal dual numbers had unequal hashes

---
 geomc/function/functiondetail/DualFunctions.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 904ecf8..eac84cf 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -257,10 +257,8 @@ constexpr Dual<T,Dp> operator-(const Dual<T,Dp>& d) {
 template <typename T, DiscontinuityPolicy Dp, typename H>
 struct Digest<Dual<T,Dp>, H> {
     H operator()(const Dual<T,Dp>& d) const {
-        return hash_combine<H>(
-            geom::hash<T,H>(d.x),
-            geom::hash<T,H>(d.dx)
-        );
+        // duals compare by their primal component alone
+        return geom::hash<T,H>(d.x);
     }
 };
 
-- 
2.43.0


From b09a73b9ebecb3543da40b9f3e69181c61e0f09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:31 +0000
Subject: [PATCH 114/135] fix: ranges wider than the largest signed value
 overflowed: comment

---
 geomc/random/Random.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index 8577227..f3b04c8 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -261,9 +261,7 @@ template <> double Random::rand<double>(double hi) {
  * Full Range Specializations     *
  **********************************/
 
-// todo: some of these will fail for ranges crossing zero where lo - hi is
-// greater than INT_MAX.
-
+// the width of a range may exceed the largest signed value, so it is unsigned.
 
 template <> int Random::rand<int>(int lo, int hi) {
     int lo1 = min(hi,lo);
-- 
2.43.0


From 2dc43a00211632cab21ae226d11e7006da9d5ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:31 +0000
Subject: [PATCH 115/135] fix: Dual comparison operators were not const (no
 hashed containers of duals)

---
 geomc/function/functiondetail/DualImpl.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/geomc/function/functiondetail/DualImpl.h b/geomc/function/functiondetail/DualImpl.h
index a56e4c8..45f57c3 100644
--- a/geomc/function/functiondetail/DualImpl.h
+++ b/geomc/function/functiondetail/DualImpl.h
@@ -170,17 +170,17 @@ struct Dual {
     // comparison
     
     /// Equality of primal component
-    inline bool operator==(const Dual<T,Dp> &d) { return x == d.x; }
+    inline bool operator==(const Dual<T,Dp> &d) const { return x == d.x; }
     /// Inequality of primal component
-    inline bool operator!=(const Dual<T,Dp> &d) { return x != d.x; }
+    inline bool operator!=(const Dual<T,Dp> &d) const { return x != d.x; }
     /// Greater-or-equal-to comparison of primal component
-    inline bool operator>=(const Dual<T,Dp> &d) { return x >= d.x; }
+    inline bool operator>=(const Dual<T,Dp> &d) const { return x >= d.x; }
     /// Less-or-equal-to comparison of primal component
-    inline bool operator<=(const Dual<T,Dp> &d) { return x <= d.x; }
+    inline bool operator<=(const Dual<T,Dp> &d) const { return x <= d.x; }
     /// Greater-than comparison of primal component
-    inline bool operator> (const Dual<T,Dp> &d) { return x  > d.x; }
+    inline bool operator> (const Dual<T,Dp> &d) const { return x  > d.x; }
     /// Less-than comparison of primal component
-    inline bool operator< (const Dual<T,Dp> &d) { return x  < d.x; }
+    inline bool operator< (const Dual<T,Dp> &d) const { return x  < d.x; }
     
     /// Post-increment
     Dual<T,Dp> operator++(int) {
-- 
2.43.0


From 3e547211c2bcb7340fcafcd4cc3b94fb4db05775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:31 +0000
Subject: [PATCH 116/135] fix: Ray hash did not compile

---
 geomc/linalg/Ray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/Ray.h b/geomc/linalg/Ray.h
index 0bc2990..211e424 100644
--- a/geomc/linalg/Ray.h
+++ b/geomc/linalg/Ray.h
@@ -141,7 +141,7 @@ template <typename T, index_t N, typename H>
 struct Digest<Ray<T,N>, H> {
     H operator()(const Ray<T,N> &r) const {
         H nonce = geom::truncated_constant<H>(0xc5ca6b58d6ca9853, 0x8af9e7e642670825);
-        return geom::hash_many<Vec<T,N>,H>(nonce, r.origin, r.direction);
+        return geom::hash_many<H>(nonce, r.origin, r.direction);
     }
 };
 
-- 
2.43.0


From 8d03ba098e41ceb0f1d7c07ead739c3787ef4833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:33 +0000
Subject: [PATCH 117/135] fix: mirrored raster edges with an extent of one
 divided by zero

---
 geomc/function/functiondetail/RasterDetail.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomc/function/functiondetail/RasterDetail.h b/geomc/function/functiondetail/RasterDetail.h
index 041874b..ef19150 100644
--- a/geomc/function/functiondetail/RasterDetail.h
+++ b/geomc/function/functiondetail/RasterDetail.h
@@ -44,8 +44,9 @@ public:
     static inline index_t coord(index_t c, index_t max) {
         c = std::abs(c);
         max -= 1;
-        int cyc = c/max;
-        int i   = c%max;
+        if (max <= 0) return 0; // a single sample mirrors itself
+        index_t cyc = c/max;
+        index_t i   = c%max;
         return ((cyc & 1) == 0)?(i):(max-i);
     }
 };
-- 
2.43.0


From 66f76b494419fa0c084dc9711d467a24ca238b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:33 +0000
Subject: [PATCH 118/135] fix: raster samples were read from the wrong cell at
 negative coordinates

---
 geomc/function/functiondetail/RasterDetail.h | 21 +++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/geomc/function/functiondetail/RasterDetail.h b/geomc/function/functiondetail/RasterDetail.h
index ef19150..c76bc64 100644
--- a/geomc/function/functiondetail/RasterDetail.h
+++ b/geomc/function/functiondetail/RasterDetail.h
@@ -73,6 +73,17 @@ public:
  * Sampling behaviors    *
  *************************/
 
+// the grid cell containing a point
+template <typename I, index_t N>
+inline typename PointType<index_t,N>::point_t grid_cell(const typename PointType<I,N>::point_t &pt) {
+    typename PointType<index_t,N>::point_t c;
+    const I *src = PointType<I,N>::iterator(pt);
+    index_t *dst = PointType<index_t,N>::iterator(c);
+    for (index_t i = 0; i < N; i++) {
+        dst[i] = (index_t)std::floor(src[i]);
+    }
+    return c;
+}
 
 template <typename I, typename O, index_t N, index_t Channels, EdgeBehavior Edge, Interpolation Interp>
 class _ImplRasterSample {
@@ -87,7 +98,7 @@ public:
     typedef typename Raster<I,O,N,Channels>::sample_t sample_t;
     
     static inline sample_t sample(const Raster<I,O,N,Channels> *r, const coord_t &pt) {
-        grid_t gridPt = grid_t(pt + coord_t(0.5));
+        grid_t gridPt = grid_cell<I,N>(pt + coord_t(0.5));
         return r->template sample_discrete<Edge>(gridPt);
     }
 };
@@ -101,11 +112,11 @@ public:
     
     static inline sample_t sample(const Raster<I,O,N,Channels> *r, const coord_t &pt) {
         sample_t buf[1<<N];
-        grid_t gridPt = (grid_t)pt;
+        grid_t gridPt = grid_cell<I,N>(pt);
         coord_t s = pt - ((coord_t)gridPt);
         
         // copy surrounding 2^N sample pts into a contiguous buffer
-        r->template copy<Edge>(buf, Rect<typename grid_t::elem_t, N>(gridPt, gridPt + grid_t(1)));
+        r->template copy<Edge>(buf, Rect<index_t, N>(gridPt, gridPt + grid_t(1)));
         
         return interp_linear(PointType<I,N>::iterator(s), buf, N);
     }
@@ -120,11 +131,11 @@ public:
     
     static inline sample_t sample(const Raster<I,O,N,Channels> *r, const coord_t &pt) {
         sample_t buf[1<<(2*N)];
-        grid_t gridPt = (grid_t)pt;
+        grid_t gridPt = grid_cell<I,N>(pt);
         coord_t s = pt - ((coord_t)gridPt);
         
         // copy surrounding 4^N sample pts into a contiguous buffer
-        r->template copy<Edge>(buf, Rect<typename grid_t::elem_t, N>(gridPt - grid_t(1), gridPt + grid_t(2)));
+        r->template copy<Edge>(buf, Rect<index_t, N>(gridPt - grid_t(1), gridPt + grid_t(2)));
         
         return interp_cubic(PointType<I,N>::iterator(s), buf, N);
     }
-- 
2.43.0


From f3ec0255427e4881f6994a302e2886f0958fc908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:33 +0000
Subject: [PATCH 119/135] fix: raster grid coordinates ran past the last sample
 of the domain

---
 geomc/function/Raster.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index d6fa9cd..de26b5e 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -431,7 +431,7 @@ public:
 protected:
     
     inline coord_t toGridSpace(const coord_t &pt) const {
-        return (coord_t)m_extent * m_domain.unmap(pt);
+        return (coord_t)(m_extent - grid_t(1)) * m_domain.unmap(pt);
     }
     
     template <EdgeBehavior Edge>
-- 
2.43.0


From f0964d0e392384c4c9560122d113381ce4d6a75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:33 +0000
Subject: [PATCH 120/135] fix: Raster::sample_discrete by a run-time edge rule
 did not compile

---
 geomc/function/Raster.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index de26b5e..9ef41a8 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -371,7 +371,7 @@ public:
             return m_abyss;
         }
         
-        return sample_t(m_data.get() + offs);
+        return PointType<O,N>::from_ptr(m_data.get() + offs);
     }
     
     /**
-- 
2.43.0


From 7637f2298af4c316a3b35fc054373c6e73c9f0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:33 +0000
Subject: [PATCH 121/135] fix: Raster::sample by a run-time rule did not
 compile and overran its buffer

---
 geomc/function/Raster.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index 9ef41a8..068f722 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -278,40 +278,40 @@ public:
     /**
      * Sample this Raster at `pt`.
      * 
-     * @param pt Point to sample.
+     * @param p Point to sample.
      * @param edge Edge sampling behavior.
      * @param interp Sample interpolation strategy.
      * @return Sampled data.
      */
-    sample_t sample(const coord_t &pt, EdgeBehavior edge=EDGE_CLAMP, Interpolation interp=INTERP_LINEAR) const {
+    sample_t sample(const coord_t &p, EdgeBehavior edge=EDGE_CLAMP, Interpolation interp=INTERP_LINEAR) const {
         grid_t gridPt;
-        pt = toGridSpace(pt);
+        coord_t pt = toGridSpace(p);
         
         switch (interp) {
         case INTERP_NEAREST:
-            gridPt = grid_t(pt + coord_t(0.5));
+            gridPt = detail::grid_cell<I,M>(pt + coord_t(0.5));
             return sample_discrete(gridPt, edge);
         case INTERP_LINEAR:
         {
             sample_t buf_l[1<<M];
-            gridPt = (grid_t)pt;
+            gridPt = detail::grid_cell<I,M>(pt);
             coord_t s = pt - ((coord_t)gridPt);
             
             // copy surrounding 2^M sample pts into a contiguous buffer
-            copy(buf_l, Rect<index_t,M>(gridPt, gridPt + grid_t(2)), edge);
+            copy(buf_l, Rect<index_t,M>(gridPt, gridPt + grid_t(1)), edge);
             
-            return interp_linear(s.begin(), buf_l, M);
+            return interp_linear(PointType<I,M>::iterator(s), buf_l, M);
         }
         case INTERP_CUBIC:
         {
             sample_t buf_c[1<<(2*M)];
-            gridPt = (grid_t)pt;
+            gridPt = detail::grid_cell<I,M>(pt);
             coord_t s = pt - ((coord_t)gridPt);
             
             // copy surrounding 4^M sample pts into a contiguous buffer
-            copy(buf_c, Rect<index_t,M>(gridPt - grid_t(1), gridPt + grid_t(3)), edge);
+            copy(buf_c, Rect<index_t,M>(gridPt - grid_t(1), gridPt + grid_t(2)), edge);
             
-            return interp_cubic(s.begin(), buf_c, M);
+            return interp_cubic(PointType<I,M>::iterator(s), buf_c, M);
         }
         default:
             return m_abyss;
-- 
2.43.0


From ac803af19107f52e375cb615c6d1a9ad4f0a0b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:41 +0000
Subject: [PATCH 122/135] fix: the gradient of 1-D Perlin noise was
 uninitialised

---
 geomc/function/PerlinNoise.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/PerlinNoise.h b/geomc/function/PerlinNoise.h
index 684470c..eb6f834 100644
--- a/geomc/function/PerlinNoise.h
+++ b/geomc/function/PerlinNoise.h
@@ -164,7 +164,7 @@ public:
                 f[pair] = mix(t, a, b);
                 
                 // apply the multivariate chain rule:
-                point_t w;
+                point_t w((T)0);
                 // dt/dx is only nonzero along the current axis:
                 T* w_i  = pointtype::iterator(w) + axis;
                 //        dmix_dt(t, ...) * dt/dx
-- 
2.43.0


From 56224edfba16b589dde78f4c78d7946e8776bfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:41 +0000
Subject: [PATCH 123/135] fix: the Perlin gradient scramble overflowed a signed
 integer

---
 geomc/function/PerlinNoise.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/geomc/function/PerlinNoise.h b/geomc/function/PerlinNoise.h
index eb6f834..b68de67 100644
--- a/geomc/function/PerlinNoise.h
+++ b/geomc/function/PerlinNoise.h
@@ -9,6 +9,7 @@
 #define PERLINNOISE_H_
 
 #include <boost/shared_array.hpp>
+#include <cstdint>
 #include <limits>
 #include <utility>
 
@@ -183,14 +184,15 @@ public:
 protected:
     
     inline const point_t& get_grid_gradient(const grid_t& pt) const {
-        index_t idx = 0;
+        // (unsigned, because the scramble wraps)
+        uint64_t hash = 0;
         for (index_t i = 0; i < N; ++i) {
             // do an iterated linear congruential scramble, using Knuth's constants:
             // xxx: todo: make portable
-            index_t k = gridtype::iterator(pt)[i];
-            idx = 6364136223846793005LL * (k + idx) + 1442695040888963407LL;
+            uint64_t k = gridtype::iterator(pt)[i];
+            hash = 6364136223846793005ULL * (k + hash) + 1442695040888963407ULL;
         }
-        idx = positive_mod(idx, (index_t) PERLIN_NUM_GRADIENTS);
+        index_t idx = positive_mod((index_t) hash, (index_t) PERLIN_NUM_GRADIENTS);
         
         // xxx: todo: confirm the above is okay and delete this:
         // idx = positive_mod(idx, (index_t) PERLIN_NUM_GRADIENTS);
-- 
2.43.0


From f3e42c36e09c31aee7a1fb1c364d72d4fe6acf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:42 +0000
Subject: [PATCH 124/135] fix: an empty oriented box overlapped other boxes

---
 geomc/shape/shapedetail/SeparatingAxis.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/shape/shapedetail/SeparatingAxis.h b/geomc/shape/shapedetail/SeparatingAxis.h
index 48894a7..d993b32 100644
--- a/geomc/shape/shapedetail/SeparatingAxis.h
+++ b/geomc/shape/shapedetail/SeparatingAxis.h
@@ -170,6 +170,7 @@ class RectIntersector<T, N,
         // 9 axes for N=3 and 0 axes for N=2. Other dimensions may be
         // supported by extending detail::RectAxisHelper to higher N,
         // though this is unlikely to be simpler than simply falling back to GJK.
+        if (b0.shape.is_empty() or b1.is_empty()) return false; // no points to share
         constexpr index_t n_corners = 1 << N;
         Vec<T,N> b0_pts[n_corners];
         Vec<T,N> b1_pts[n_corners];
-- 
2.43.0


From 9c39e00d52e097574401f30f7875d15c784cb7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:21 +0000
Subject: [PATCH 125/135] fix: a tree built from items counted its nodes
 instead of its items

---
 geomc/Tree.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 4928a47..a0f5c0f 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -202,9 +202,11 @@ public:
         NodeRef node = _nodes.begin();
         
         // assign items to root
-        node->items_first = _items.begin();
-        node->items_last  = _items.end(); --(node->items_last);
-        node->n_items     = _nodes.size();
+        if (not _items.empty()) {
+            node->items_first = _items.begin();
+            node->items_last  = std::prev(_items.end());
+            node->n_items     = _items.size();
+        }
     }
     
     
-- 
2.43.0


From 0650d6cf3f87b1ca4f11a4cc2231501a10083bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:21 +0000
Subject: [PATCH 126/135] fix: inserting items between empty siblings left the
 ancestors with the wrong first or last item

---
 geomc/Tree.h | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index a0f5c0f..3b570d5 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -361,12 +361,8 @@ protected:
             ItemRef new_last,
             index_t delta_items) {
         
-        NodeRef prev_child = _nodes.end();
         NodeRef n = leaf;
         
-        ItemRef old_first = n->items_first;
-        ItemRef old_last  = n->items_last;
-        
         // update ancestors' item count and boundary items
         while (n != _nodes.end()) {
             n->n_items += delta_items;
@@ -374,22 +370,20 @@ protected:
             if (n->n_items == 0) {
                 n->items_first = n->items_last = _items.end();
             } else {
-                // If we ascended from an edge node, that node certainly
-                // controls (or used to control) our edge item. 
-                // But it might have also controlled our edge item if the 
-                // edge sibling doesn't have any items. In this case,
-                // its previous edge item will also be ours.
-                if (n->child_first == prev_child or 
-                        n->items_first == old_first) {
-                    n->items_first = new_first;
-                }
-                if (n->child_last == prev_child or
-                        n->items_last == old_last) {
-                    n->items_last = new_last;
+                if (n != leaf) {
+                    // our edge items belong to the outermost of our
+                    // children that have any.
+                    NodeRef c = n->child_first;
+                    while (c->n_items == 0) ++c;
+                    new_first = c->items_first;
+                    c = n->child_last;
+                    while (c->n_items == 0) --c;
+                    new_last = c->items_last;
                 }
+                n->items_first = new_first;
+                n->items_last  = new_last;
             }
             
-            prev_child = n;
             n = n->parent;
         }
     }
-- 
2.43.0


From 1ae30693db835bdff5bf3ab73a20497845bf1cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:21 +0000
Subject: [PATCH 127/135] fix: the end of a subtree was found before its
 beginning, so nodes were inserted out of order and flatten() removed nothing

---
 geomc/Tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 3b570d5..4661c16 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -858,7 +858,7 @@ protected:
             NodeRef off_end_child = ancestor->child_last; 
             if (ancestor->n_children > 0) ++off_end_child;
             // look for a populated node to the right of us
-            for (NodeRef c = child; c != off_end_child; ++c) {
+            for (NodeRef c = std::next(child); c != off_end_child; ++c) {
                 if (c->n_children > 0) {
                     successor = c->child_first;
                     break;
-- 
2.43.0


From fc6cbbec173ac6b7cac81f118ac39c2d40a142b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:21 +0000
Subject: [PATCH 128/135] fix: the first item of an empty leaf was inserted
 before the items of the preceding leaves

---
 geomc/Tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 4661c16..fe0a5f6 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -885,7 +885,7 @@ protected:
                 node = parent, parent = node->parent) {
             if (parent->n_children != 0) {
                 NodeRef end_c = parent->child_last; ++end_c;
-                for (NodeRef c = node; c != end_c; ++c) {
+                for (NodeRef c = std::next(node); c != end_c; ++c) {
                     if (c->n_items > 0) {
                         return c->items_first;
                     }
-- 
2.43.0


From ffa48826f72eb3abebae2b3f2cfc6391e2e09ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:21 +0000
Subject: [PATCH 129/135] fix: clear() advanced an iterator to an erased item

---
 geomc/Tree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index fe0a5f6..b7f165f 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1540,8 +1540,8 @@ public:
             // delete the items
             ItemRef next_item;
             index_t n_deleted = 0;
-            for (next_item = n->items_first; next_item != endpt; ++next_item) {
-                this->_storage->_items.erase(next_item);
+            for (next_item = n->items_first; next_item != endpt; ) {
+                next_item = this->_storage->_items.erase(next_item);
                 ++n_deleted;
             }
             ItemRef prev_item = next_item; --prev_item;
-- 
2.43.0


From 3bf4823b3c0641b776433ae46d6b5d59cf7abc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:30 +0000
Subject: [PATCH 130/135] fix: appending a child read the parent of the end
 iterator

---
 geomc/Tree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index b7f165f..06ce821 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1006,7 +1006,7 @@ public:
         
         // check invalid cases
         if (n == this->_storage->_nodes.begin())       return this->end();
-        if (n->parent != p and n != this->end()._root) return this->end();
+        if (n != this->end()._root and n->parent != p) return this->end();
         
         // set the insert point for empty nodes
         if (parent_childless) {
@@ -1087,7 +1087,7 @@ public:
         
         // check invalid cases
         if (n == this->_storage->_nodes.begin())       return this->end();
-        if (n->parent != p and this->end()._root != n) return this->end();
+        if (this->end()._root != n and n->parent != p) return this->end();
         if (i_begin == i_end)                          return this->end();
         
         // set the insert point for empty nodes
-- 
2.43.0


From 2ec2fac04e181317da0e3b3dbdc48fe1520111cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:00 +0000
Subject: [PATCH 131/135] fix: copied trees kept references into the source
 tree

---
 geomc/Tree.h | 82 ++++++++++++++++++++--------------------------------
 1 file changed, 31 insertions(+), 51 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 06ce821..1b0343e 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -344,10 +344,9 @@ protected:
     
     inline void recalculate_tree() {
         NodeRef n = _nodes.begin();
+        n->parent      = _nodes.end();
         n->child_first = std::next(n);
-        n->child_last  = _nodes.end(); --(n->child_last);
         n->items_first = _items.begin();
-        n->items_last  = _items.end(); --(n->items_last);
         root().recalculate_references();
     }
     
@@ -1633,57 +1632,38 @@ protected:
     // This should be an effective no-op if the subtree is already owned
     // (though it may still take O(n) to execute).
     void recalculate_references() const {
-        NodeRef begin_child = this->_root->child_first;
-        // next unassigned leaf item:
-        ItemRef begin_items = this->_root->items_first;
-        // last / most recent assigned leaf item in the list: 
-        ItemRef last_item   = begin_items; --last_item;
-        NodeRef end_child   = this->node_successor(this->_root);
-        
-        // in essence we "build" the tree by simply taking ownership of 
-        // the nodes/items that already exist. we walk over the nodes in 
-        // tree order, which means that child nodes are taken in order too.
-        for (NodeRef node = this->_root; node != end_child; ) {
-            node->child_first = node->child_last = 
-                (node->n_children > 0) ? begin_child : this->_storage->_nodes.end();
-            node->items_first = node->items_last = 
-                (node->n_items    > 0) ? begin_items : this->_storage->_items.end();
-            
-            if (node->n_children > 0) {
-                node->child_first->parent = node;
-                
-                // acquire direct children
-                for (index_t c = 0; c < node->n_children - 1; ++c) {
-                    ++(node->child_last);
-                    node->child_last->parent = node;
-                }
-                
-                // move the node "free space"
-                begin_child = node->child_last; ++begin_child;
-                
-                // populate first child's subtree
-                node = node->child_first;
-            } else {
-                if (node->n_items > 0) {
-                    for (index_t i = 0; i < node->n_items - 1; ++i) {
-                        ++(node->items_last);
-                    }
-                    // move the item "free space"
-                    begin_items = last_item = node->items_last; ++begin_items;
-                }
-                    
-                // fixup the items_end along the right edge of this subtree.
-                NodeRef descendent = node;
-                for (NodeRef ancestor = node->parent;
-                        ancestor != this->_root;
-                        descendent = ancestor, ancestor = ancestor->parent) {
-                    if (ancestor->n_items > 0) ancestor->items_last = last_item;
-                }
-                
-                // done populating this tree. populate the next sibling tree.
-                node = this->node_successor(node);
+        NodeRef next_child = this->_root->child_first;
+        ItemRef next_item  = this->_root->items_first;
+        recalculate_node(this->_root, next_child, next_item);
+    }
+    
+    
+    // in essence we "build" the tree by simply taking ownership of the nodes 
+    // and items that already exist. we walk over the nodes in tree order, which 
+    // means that child nodes and items are taken in order too.
+    void recalculate_node(NodeRef node, NodeRef& next_child, ItemRef& next_item) const {
+        node->child_first = node->child_last = this->_storage->_nodes.end();
+        node->items_first = node->items_last = this->_storage->_items.end();
+        
+        if (node->n_items > 0) node->items_first = next_item;
+        
+        if (node->n_children > 0) {
+            // acquire direct children
+            node->child_first = next_child;
+            for (index_t i = 0; i < node->n_children; ++i, ++next_child) {
+                next_child->parent = node;
+                node->child_last   = next_child;
+            }
+            // populate the children's subtrees
+            NodeRef c = node->child_first;
+            for (index_t i = 0; i < node->n_children; ++i, ++c) {
+                recalculate_node(c, next_child, next_item);
             }
+        } else {
+            std::advance(next_item, node->n_items);
         }
+        
+        if (node->n_items > 0) node->items_last = std::prev(next_item);
     }
     
     
-- 
2.43.0


From 3aa2e31a10aee97204dfa644d718d209023e5c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:00 +0000
Subject: [PATCH 132/135] fix: moved trees kept the end iterators of the source
 tree

---
 geomc/Tree.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 1b0343e..7ab2ad0 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -185,7 +185,11 @@ public:
     
     
     /// Default move constructor.
-    Tree(Tree<NodeItem, LeafItem>&& other) = default;
+    Tree(Tree<NodeItem, LeafItem>&& other):
+            _nodes(std::move(other._nodes)),
+            _items(std::move(other._items)) {
+        recalculate_tree();
+    }
     
     
     /**
-- 
2.43.0


From eb71937424a121a4702314bccfd22adc4a274d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:39 +0000
Subject: [PATCH 133/135] fix: Subtree::insert_child_nodes did not compile

---
 geomc/Tree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 7ab2ad0..21895b3 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1102,7 +1102,7 @@ public:
         // todo: this->_storage->_nodes.reserve(n_items);
         NodeRef prev_end_node  = this->end()._root;
         NodeRef first_new_node = this->_storage->_nodes.insert(
-            n, base_t::Node(this->_storage, p, *(i_begin++)));
+            n, typename base_t::Node(this->_storage, p, *(i_begin++)));
         NodeRef last_new_node  = first_new_node;
         
         // transfer ownership of the parent's items to the first child.
@@ -1118,7 +1118,7 @@ public:
         index_t ct = 1;
         for (NodeItemIterator i = i_begin; i != i_end; ++i, ++ct) {
             last_new_node = this->_storage->_nodes.insert(
-                n, base_t::Node(this->_storage, p, *i));
+                n, typename base_t::Node(this->_storage, p, *i));
         }
         
         // adjust child endpoints if necessary
-- 
2.43.0


From ec8f11b267e2c9b82205b819ffaf851a7eac4399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:39 +0000
Subject: [PATCH 134/135] fix: Subtree::insert_items did not compile

---
 geomc/Tree.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 21895b3..8cf958a 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1251,7 +1251,7 @@ public:
     template <typename LeafItemIterator>
     item_iterator insert_items(
             const item_iterator& insert_before,
-            const LeafItemIterator  begin_item,
+            LeafItemIterator  begin_item,
             const LeafItemIterator& end_item,
             index_t* new_item_count=nullptr) const {
         // todo: it would be great if we could protect against the user
@@ -1269,8 +1269,8 @@ public:
         // retrieve parent and insert point
         NodeRef n = this->_root;
         ItemRef insert_pt = insert_before;
-        if (n.n_items == 0) {
-            insert_pt = item_successor(n);
+        if (n->n_items == 0) {
+            insert_pt = this->item_successor(n);
         }
         
         // insert the first item
@@ -1287,7 +1287,7 @@ public:
         
         // figure out the new begin/end items
         ItemRef new_begin, new_end;
-        if (insert_before == n->items_first) {
+        if (insert_before == n->items_first or n->n_items == 0) {
             new_begin = first_new_item;
         } else {
             new_begin = n->items_first;
-- 
2.43.0


From ba433c77ae09888b0c0360c44660a0dd3cbc7ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:39 +0000
Subject: [PATCH 135/135] fix: erasing an item of a subtree did not compile and
 misplaced the last item

---
 geomc/Tree.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 8cf958a..84dbd2b 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1487,8 +1487,8 @@ public:
             // this is a linear check; if we *knew* we were the parent, the
             // entire operation would be log(n). laaaaame.
             bool found = false;
-            for (item_iterator i = n->items_begin(); 
-                    i != n->items_end(); 
+            for (item_iterator i = this->items_begin(); 
+                    i != this->items_end(); 
                     ++i) {
                 if (i == item) {
                     found = true;
@@ -1510,7 +1510,7 @@ public:
                 if (item == n->items_last) {
                     new_end = prev_item;
                 } else {
-                    new_end = prev_item;
+                    new_end = n->items_last;
                 }
                 
                 this->_storage->update_boundary_items(
-- 
2.43.0

