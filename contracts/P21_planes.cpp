// P21: planes divide space by signed distance.
#include "shape.h"
// any plane satisfying the class invariant: unit normal, any offset
template <int N> static Plane<double,N> plane() { Plane<double,N> p; V<N> n = pt<N>(); if (vf_symbolic()) { vf_assume(n2<N>(n) == 1); } else { vf_assume(0.01 < n2<N>(n)); n = n / std::sqrt(n2<N>(n)); } p.normal = n; p.d = vf_real(); return p; }
template <int N> static V<N> nonzero() { V<N> n = pt<N>(); vf_assume(0 < n2<N>(n)); if (!vf_symbolic()) vf_assume(1e-2 < n2<N>(n)); return n; }
template <int N> static void point_queries() {
    Plane<double,N> p = plane<N>(); V<N> a = pt<N>(), b = pt<N>(), n = p.normal; double s = vf_real(), da = p.distance(a), db = p.distance(b);
    vf_eq(da, dot<N>(n, a) + p.d, "offset along the normal"); vf_eq(p.distance(a + s * (b - a)), da + s * (db - da), "distance is affine"); vf_eq(p.distance(a + s * n), da + s, "unit rate along the normal"); vf_eq(p.sdf(a), da, "signed distance");
    vf_iff(p.contains(a), da <= 0, gap(0, da, 0), "half-space membership");
    V<N> q = p.project(a); vf_eq(p.distance(q), 0, "projection lands on the plane"); eq<N>(a - q, da * n, "projection runs along the normal"); V<N> o = p.origin(); vf_eq(p.distance(o), 0, "origin point on the plane"); eq<N>(o, dot<N>(o, n) * n, "origin point along the normal");
    Plane<double,N> r = p; vf_assert(r == p, "equal planes"); r.d = vf_real(); vf_iff(r == p, r.d == p.d, gap(r.d, p.d, r.d), "equal exactly when offset and normal are");
}
CONTRACT(P21_points2) { point_queries<2>(); }
CONTRACT(P21_points3) { point_queries<3>(); }
template <int N> static void made(const Plane<double,N>& p, const V<N>& n) { vf_eq(n2<N>(p.normal), 1, "unit normal"); double L = std::sqrt(n2<N>(n)); eq<N>(L * p.normal, n, "normal along the given direction"); }
template <int N> static void construct() {
    V<N> n = nonzero<N>(), a = pt<N>(); Plane<double,N> x, y(n), z(n, a); made<N>(y, n); made<N>(z, n); vf_eq(z.distance(a), 0, "given point on the plane"); vf_eq(y.distance(V<N>(0.)), 0, "passes through the origin"); vf_eq(x.normal[0], 1, "default normal"); vf_eq(n2<N>(x.normal), 1, "default normal"); vf_eq(x.d, 0, "default passes through the origin");
}
CONTRACT(P21_construct2) { construct<2>(); }
CONTRACT(P21_construct3) { construct<3>(); }
template <int N> static double gram(const V<N>* b) { if constexpr (N == 2) return n2<2>(b[0]); else return n2<3>(b[0]) * n2<3>(b[1]) - dot<3>(b[0], b[1]) * dot<3>(b[0], b[1]); }
template <int N> static void spanned() {
    V<N> b[N - 1], a = pt<N>(), w = a, w0(0.), pts[N]; for (int i = 0; i < N - 1; i++) { b[i] = pt<N>(); double s = vf_real(); w = w + s * b[i]; w0 = w0 + s * b[i]; pts[i + 1] = a + b[i]; } pts[0] = a; double g = gram<N>(b); vf_assume(0 < g); if (!vf_symbolic()) vf_assume(1e-2 < g);
    Plane<double,N> x = Plane<double,N>::from_basis(b), y = Plane<double,N>::from_basis(b, a), z = Plane<double,N>::from_simplex(pts);
    vf_lemma_eq(n2<N>(orthogonal<double>(b)), g, "independent bases have a normal"); vf_eq(n2<N>(x.normal), 1, "unit normal"); vf_eq(n2<N>(y.normal), 1, "unit normal"); vf_eq(n2<N>(z.normal), 1, "unit normal");
    vf_eq(x.distance(w0), 0, "bases span the plane"); vf_eq(y.distance(w), 0, "bases and point span the plane"); vf_eq(z.distance(w), 0, "vertices span the plane"); for (int i = 0; i < N; i++) vf_eq(z.distance(pts[i]), 0, "vertex on the plane");
}
CONTRACT(P21_spanned2) { spanned<2>(); }
CONTRACT(P21_spanned3) { spanned<3>(); }
// k > 0 and the new distance of the image of q is the old distance of q scaled by k
template <int N> static void scaled(const Plane<double,N>& p, const Plane<double,N>& t, const Xf<N>& x, bool inv, const V<N>& q) {
    V<N> m; for (int r = 0; r < N; r++) { double s = 0; for (int c = 0; c < N; c++) s += (inv ? x.mat : x.inv)(c, r) * p.normal[c]; m[r] = s; }
    double M = n2<N>(m); bool gone = M <= 0; if (vf_symbolic() && gone) { for (int i = 0; i < N; i++) { vf_lemma_eq(m[i], 0, "no normal"); } for (int i = 0; i < N; i++) { double b = 0; for (int j = 0; j < N; j++) b += (inv ? x.inv : x.mat)(j, i) * m[j]; vf_lemma_eq(b, p.normal[i], "carried back"); vf_lemma_eq(p.normal[i], 0, "no normal"); } vf_lemma(false, "normal survives"); vf_assume(false); } double L = std::sqrt(M); V<N> y = fwd<N>(x, q, 1, inv); double d0 = dot<N>(p.normal, q) + p.d; vf_eq(n2<N>(t.normal), 1, "unit normal"); vf_lemma_eq(L * (dot<N>(t.normal, y) + t.d), d0, "transformed point keeps its scaled distance"); 
    vf_lemma(0 < L, "positive scale"); double u = vf_name(dot<N>(t.normal, y) + t.d); vf_name(L); vf_name(d0); vf_iff(u <= 0, d0 <= 0, gap(0, d0, 0), "contains exactly the transformed points");
}
template <int N, bool inv> static void transformed() {
    Plane<double,N> p = plane<N>(); Xf<N> x = anyx<N>(); V<N> q = pt<N>(); Plane<double,N> a = p, b = p, c = inv ? p / x : x * p; if (inv) { a.apply_inverse(x); b /= x; } else { a.apply(x); b *= x; }
    // the normal cannot vanish: carrying it back with the transform recovers a unit vector
    scaled<N>(p, a, x, inv, q); eq<N>(b.normal, a.normal, "in-place operator agrees"); vf_eq(b.d, a.d, "in-place operator agrees"); eq<N>(c.normal, a.normal, "operator agrees"); vf_eq(c.d, a.d, "operator agrees");
}
CONTRACT(P21_transformed2) { transformed<2,false>(); }
CONTRACT(P21_transformed3) { transformed<3,false>(); }
CONTRACT(P21_untransformed2) { transformed<2,true>(); }
CONTRACT(P21_untransformed3) { transformed<3,true>(); }
// any convex shape: contained iff its farthest point along the normal is; crossed iff the farthest points lie on both sides
template <int M> struct Two : Convex<double,M,Two<M>> { V<M> wit, up, down, n; mutable int asked, bad; V<M> convex_support(V<M> d) const { double s = dot<M>(d, n); bool far = 0 < s; V<M> p = far ? up : down; if (!vf_symbolic()) { vf_assume(dot<M>(d, wit) <= dot<M>(d, p)); } for (int i = 0; i < M; i++) vf_eq(d[i], far ? n[i] : -n[i], "asked along the normal"); return p; } };
template <int N> static void shapes() {
    Plane<double,N> p = plane<N>(); Two<N> s; s.n = p.normal; s.wit = pt<N>(); s.up = pt<N>(); s.down = pt<N>(); vf_assume(dot<N>(p.normal, s.wit) <= dot<N>(p.normal, s.up)); vf_assume(dot<N>(p.normal, s.down) <= dot<N>(p.normal, s.wit));
    double w = dot<N>(p.normal, s.wit) + p.d, hi = dot<N>(p.normal, s.up) + p.d, lo = dot<N>(p.normal, s.down) + p.d; bool c = p.contains(s), x = p.intersects(s);
    vf_iff(c, hi <= 0, gap(0, hi, 0), "contains exactly the shapes wholly below"); vf_iff(x, (0 <= hi) & (lo <= 0), std::min(gap(0, hi, 0), gap(0, lo, 0)), "crosses exactly the shapes on both sides"); if (c) vf_assert(w <= 1e-9 * !vf_symbolic(), "every point of a contained shape is below"); 
    if (!x) vf_assert((0 < w) | (w < 0) | !vf_symbolic(), "no point of an uncrossed shape is on the plane");
    Sphere<double,N> k(pt<N>(), std::abs(vf_real())); double dk = p.distance(k.center); bool hit = p.intersects(k); vf_iff(hit, (dk <= k.r) & (-k.r <= dk), gap(k.r, std::abs(dk), k.r), "crosses exactly the spheres within reach");
}
CONTRACT(P21_shapes2) { shapes<2>(); }
CONTRACT(P21_shapes3) { shapes<3>(); }
// the list of points: crossed exactly when some are on the plane or on both sides
template <int N, int K> static void hull() {
    Plane<double,N> p = plane<N>(); V<N> h[K]; bool below = false, above = false; double g = 1e9; for (int i = 0; i < K; i++) { h[i] = pt<N>(); double d = dot<N>(p.normal, h[i]) + p.d; below = below | (d <= 0); above = above | (0 <= d); g = std::min(g, gap(0, d, 0)); } if (vf_symbolic()) g = 0; vf_iff(p.intersects(h, K), below & above, g, "crosses exactly the hulls touching both sides");
}
CONTRACT(P21_hull) { hull<2,1>(); hull<2,2>(); hull<2,3>(); hull<2,4>(); hull<3,4>(); }
// dilating moves the surface along the normal
template <int N> static void dilated() { Plane<double,N> p = plane<N>(); double k = vf_real(); vf_assume(0 <= k); V<N> q = pt<N>(); Plane<double,N> x = dilate(p, k); vf_eq(x.distance(q), p.distance(q) - k, "distances shrink by the dilation"); eq<N>(x.normal, p.normal, "same normal"); }
CONTRACT(P21_dilated) { dilated<2>(); dilated<3>(); }
//@@ P21_points2 P21_points3 P21_construct2 P21_construct3 P21_spanned2 P21_spanned3 P21_transformed2 P21_transformed3 P21_untransformed2 P21_untransformed3 P21_shapes2 P21_shapes3 P21_hull P21_dilated
//@ P21_hull: bounded="hulls of at most 4 points"
