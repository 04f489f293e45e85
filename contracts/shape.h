// Shared vocabulary for the shape contracts.
#pragma once
#include "xf.h"
#include <geomc/linalg/Matrix.h>
#include <geomc/linalg/AffineTransform.h>
#include <geomc/shape/Rect.h>
#include <geomc/shape/Sphere.h>
#include <geomc/shape/Plane.h>
#include <geomc/shape/Cylinder.h>
#include <geomc/shape/Capsule.h>
#include <geomc/shape/Dilated.h>
#include <geomc/shape/Extruded.h>
#include <geomc/shape/Frustum.h>
#include <geomc/shape/Oriented.h>
#include <geomc/GeomException.cpp>
using namespace geom;
template <int N> using V = Vec<double,N>; typedef Rect<double,1> R1;
template <int N> static V<N> pt() { V<N> p; for (int i = 0; i < N; i++) p[i] = vf_real(); return p; }
template <int N> static double dot(const V<N>& a, const V<N>& b) { double s = 0; for (int i = 0; i < N; i++) s += a[i] * b[i]; return s; }
template <int N> static double n2(const V<N>& a) { return dot<N>(a, a); }
template <int N> static void eq(const V<N>& a, const V<N>& b, const char* n) { for (int i = 0; i < N; i++) vf_eq(a[i], b[i], n); }
template <int N> static V<N> at(const Ray<double,N>& r, double s) { V<N> p; for (int i = 0; i < N; i++) p[i] = r.origin[i] + s * r.direction[i]; return p; }
template <int N> static Ray<double,N> ray() { V<N> o = pt<N>(), v = pt<N>(); vf_assume(0 < n2<N>(v)); if (!vf_symbolic()) vf_assume(1e-4 < n2<N>(v)); return Ray<double,N>(o, v); }
template <int N> static Rect<double,N> box() { V<N> l = pt<N>(), h = pt<N>(); for (int i = 0; i < N; i++) vf_assume(l[i] <= h[i]); return Rect<double,N>(l, h); }
template <> Rect<double,1> box<1>() { double l = vf_real(), h = vf_real(); vf_assume(l <= h); return Rect<double,1>(l, h); }
static inline bool in(double lo, double s, double hi) { return (lo <= s) & (s <= hi); }
template <int N> static bool in(const Rect<double,N>& r, const V<N>& p) { bool b = true; for (int i = 0; i < N; i++) b = b & (r.lo[i] <= p[i]) & (p[i] <= r.hi[i]); return b; }
static inline double gap(double lo, double s, double hi) { if (vf_symbolic()) return 0; return std::min(std::abs(s - lo), std::abs(s - hi)) + 1e-300; }
static inline bool in(const R1& r, double s) { return in(r.lo, s, r.hi); }
// any base shape: a ghost whose answers only satisfy the contracts of its members; wit is some point of it
template <int M> struct Base : Convex<double,M,Base<M>>, RayIntersectable<double,M,Base<M>> {
    using point = typename PointType<double,M>::point_t;
    mutable Ray<double,M> seen; mutable point asked, dir; R1 hit; bool member; point wit; mutable point sup; Rect<double,M> box;
    R1 intersect(const Ray<double,M>& r) const { seen = r; return hit; }
    bool contains(point p) const { asked = p; return member; }
    point convex_support(point d) const { dir = d; sup = vf_symbolic() ? pt<M>() : wit; vf_assume(dot<M>(d, wit) <= dot<M>(d, sup)); return sup; }
    Rect<double,M> bounds() const { return box; }
};
template <int M> static Base<M> base() { Base<M> b; double l = vf_real(), h = vf_real(); b.hit = R1(l, h); b.member = vf_bool(); b.wit = pt<M>(); b.sup = pt<M>(); b.box = ::box<M>(); vf_assume(in<M>(b.box, b.wit)); return b; }
