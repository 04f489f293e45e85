// P20: every point of the shape lies in the bounding box, and every face of the box touches the shape.
#include "shape.h"
template <int N> static double cross2(const V<N>& a, const V<N>& b) { if constexpr (N == 2) { double z = a[0] * b[1] - a[1] * b[0]; return z * z; } else { double x = a[1] * b[2] - a[2] * b[1], y = a[2] * b[0] - a[0] * b[2], z = a[0] * b[1] - a[1] * b[0]; return x * x + y * y + z * z; } }
template <int N> static V<N> ball(double r) { V<N> e = pt<N>(); if (!vf_symbolic()) { double m = std::sqrt(n2<N>(e)); if (m > r) e *= r / m * 0.999; } else vf_assume(n2<N>(e) <= r * r); return e; }
template <int N> static void within(const Rect<double,N>& b, const V<N>& y) { for (int i = 0; i < N; i++) { vf_le(b.lo[i], y[i], "no point of the shape is outside the box"); vf_le(y[i], b.hi[i], "no point of the shape is outside the box"); } }
// a coordinate of a vector of length at most r
template <int N> static void reach(const V<N>& e, double r) { for (int i = 0; i < N; i++) { vf_lemma(e[i] * e[i] <= r * r, "coordinate at most the length"); vf_lemma(e[i] <= r, "coordinate at most the length"); vf_lemma(-r <= e[i], "coordinate at most the length"); } }
template <int N> static void sphere() { V<N> c = pt<N>(); double r = vf_real(); vf_assume(0 <= r); V<N> e = ball<N>(r); Sphere<double,N> s(c, r); Rect<double,N> b = s.bounds(); reach<N>(e, r); within<N>(b, c + e); for (int i = 0; i < N; i++) { V<N> l = c, h = c; l[i] -= r; h[i] += r; vf_assert(!vf_symbolic() || (s.contains(l) && s.contains(h)), "face touches the sphere"); vf_eq(b.lo[i], l[i], "face touches the sphere"); vf_eq(b.hi[i], h[i], "face touches the sphere"); } }
CONTRACT(P20_sphere2) { sphere<2>(); }
CONTRACT(P20_sphere3) { sphere<3>(); }
template <int N> static void capsule() {
    V<N> a = pt<N>(), b = pt<N>(); double r = vf_real(), t = vf_real(); vf_assume(0 <= r); vf_assume(in(0, t, 1)); V<N> e = ball<N>(r), y = a + t * (b - a) + e; Rect<double,N> x = Capsule<double,N>(a, b, r).bounds(); reach<N>(e, r);
    for (int i = 0; i < N; i++) { double l = std::min(a[i], b[i]), h = std::max(a[i], b[i]), c = a[i] + t * (b[i] - a[i]); vf_lemma(l <= c, "axis between its ends"); vf_lemma(c <= h, "axis between its ends"); vf_eq(x.lo[i], l - r, "face touches an end"); vf_eq(x.hi[i], h + r, "face touches an end"); } within<N>(x, y);
}
CONTRACT(P20_capsule2) { capsule<2>(); }
CONTRACT(P20_capsule3) { capsule<3>(); }
LEMMA(P20_disk, (e, E, c, k, r, x), (0 <= x) & (E * c - e * e == x) & (E <= r * r) & (0 <= c) & (0 <= r) & (0 <= k) & (k * k == r * r * c), (e <= k) & (-k <= e))
template <int N> static void cylinder() {
    V<N> a = pt<N>(), b = pt<N>(), v = b - a; double r = vf_real(), t = vf_real(), v2 = n2<N>(v); vf_assume(0 <= r); vf_assume(0 < v2); vf_assume(in(0, t, 1)); if (!vf_symbolic()) vf_assume(1e-2 < v2); V<N> e = ball<N>(r); e = e - (dot<N>(e, v) / v2) * v; if (vf_symbolic()) { e = pt<N>(); vf_assume(dot<N>(e, v) == 0); vf_assume(n2<N>(e) <= r * r); } V<N> y = a + t * v + e; Rect<double,N> x = Cylinder<double,N>(a, b, r).bounds();
    double E = vf_name(n2<N>(e)); vf_name(r); vf_name(t);
    for (int i = 0; i < N; i++) {
        double l = std::min(a[i], b[i]), h = std::max(a[i], b[i]), m = a[i] + t * v[i], c = 1 - v[i] * v[i] / v2; V<N> w, u; for (int j = 0; j < N; j++) { w[j] = (i == j) - v[i] * v[j] / v2; u[j] = vf_name(w[j]); vf_name(e[j]); } vf_lemma_eq(n2<N>(w), c, "shadow of the disk"); vf_lemma(0 <= n2<N>(w), "shadow of the disk"); vf_lemma(0 <= c, "shadow of the disk"); vf_lemma(l <= m, "axis between its ends"); vf_lemma(m <= h, "axis between its ends");
        double k = vf_name(r * std::sqrt(c)), C = vf_name(c), ei = vf_name(e[i]), X = vf_name(cross2<N>(e, u)); vf_lemma_eq(dot<N>(e, w), e[i] - dot<N>(e, v) * (v[i] / v2), "shadow of the disk"); vf_lemma_eq(dot<N>(e, w), e[i], "shadow of the disk"); double U = vf_name(n2<N>(u)), Q = vf_name(dot<N>(e, u)); vf_lemma_eq(U, C, "shadow of the disk"); vf_lemma_eq(Q, ei, "shadow of the disk"); vf_lemma_eq(E * U - Q * Q, X, "Lagrange"); vf_lemma_eq(E * C - ei * ei, X, "Lagrange"); vf_lemma(0 <= X, "squares"); vf_lemma(0 <= k, "shadow of the disk"); vf_lemma_eq(k * k, r * r * c, "shadow of the disk"); vf_lemma_eq(k * k, r * r * C, "shadow of the disk"); if (vf_symbolic()) use_P20_disk(ei, E, C, k, r, X);
        vf_lemma_eq(x.lo[i], l - k, "face touches the rim"); vf_lemma_eq(x.hi[i], h + k, "face touches the rim"); vf_le(x.lo[i], y[i], "no point of the shape is outside the box"); vf_le(y[i], x.hi[i], "no point of the shape is outside the box");
        // the rim point there
        if (c > 0) { vf_eq(dot<N>(w, v), 0, "rim perpendicular to the axis"); double f = r / std::sqrt(c); vf_eq(n2<N>(f * w), r * r, "rim at the radius"); vf_eq(f * w[i], k, "rim reaches the face"); }
    }
}
CONTRACT(P20_cylinder2) { cylinder<2>(); }
CONTRACT(P20_cylinder3) { cylinder<3>(); }
template <int N> static void rect() { Rect<double,N> s = box<N>(), b = s.bounds(); eq<N>(b.lo, s.lo, "a box bounds itself"); eq<N>(b.hi, s.hi, "a box bounds itself"); }
CONTRACT(P20_rect2) { rect<2>(); }
CONTRACT(P20_rect3) { rect<3>(); }
CONTRACT(P20_extruded) { Base<2> b = base<2>(); R1 z = box<1>(); double h = vf_real(); vf_assume(in(z, h)); Rect<double,3> x = Extruded<Base<2>>(b, z).bounds(); within<3>(x, V<3>(b.wit[0], b.wit[1], h)); for (int i = 0; i < 2; i++) { vf_eq(x.lo[i], b.box.lo[i], "face touches the wall"); vf_eq(x.hi[i], b.box.hi[i], "face touches the wall"); } vf_eq(x.lo[2], z.lo, "face touches the cap"); vf_eq(x.hi[2], z.hi, "face touches the cap"); }
CONTRACT(P20_frustum) {
    Base<2> b = base<2>(); R1 z = box<1>(); double h = vf_real(); Frustum<Base<2>> f(b, z); R1 c = f.clipped_height(); vf_assume(in(c, h)); if (!vf_symbolic()) vf_assume(c.lo <= c.hi); Rect<double,3> x = f.bounds();
    for (int i = 0; i < 2; i++) { double l = b.box.lo[i], u = b.box.hi[i], y = h * b.wit[i], p = c.lo * l, q = c.lo * u, r = c.hi * l, s = c.hi * u, lo = std::min(std::min(p, q), std::min(r, s)), hi = std::max(std::max(p, q), std::max(r, s)); 
        vf_lemma_eq(x.lo[i], lo, "face touches an edge"); vf_lemma_eq(x.hi[i], hi, "face touches an edge"); double hl = h * l, hu = h * u; vf_lemma(std::min(hl, hu) <= y, "slice"); vf_lemma(y <= std::max(hl, hu), "slice"); vf_lemma(std::min(p, r) <= hl, "edge"); vf_lemma(hl <= std::max(p, r), "edge"); vf_lemma(std::min(q, s) <= hu, "edge"); vf_lemma(hu <= std::max(q, s), "edge"); vf_lemma(lo <= y, "no point of the shape is outside the box"); vf_lemma(y <= hi, "no point of the shape is outside the box"); vf_le(x.lo[i], y, "no point of the shape is outside the box"); vf_le(y, x.hi[i], "no point of the shape is outside the box"); }
    vf_eq(x.lo[2], c.lo, "face touches the cap"); vf_eq(x.hi[2], c.hi, "face touches the cap"); 
}
template <int N> static void dilated() { Base<N> b = base<N>(); double k = vf_real(); vf_assume(0 <= k); V<N> e = ball<N>(k); reach<N>(e, k); Rect<double,N> x = Dilated<Base<N>>(b, k).bounds(); within<N>(x, b.wit + e); for (int i = 0; i < N; i++) { vf_eq(x.lo[i], b.box.lo[i] - k, "face touches the dilated shape"); vf_eq(x.hi[i], b.box.hi[i] + k, "face touches the dilated shape"); } }
CONTRACT(P20_dilated2) { dilated<2>(); }
CONTRACT(P20_dilated3) { dilated<3>(); }
// a base shape that records every direction it was asked for
template <int M> struct Many : Convex<double,M,Many<M>> { V<M> wit, sup[8], dir[8]; mutable int n; Rect<double,M> box; V<M> convex_support(V<M> d) const { Many* self = const_cast<Many*>(this); int k = n++; self->dir[k] = d; vf_assume(dot<M>(d, wit) <= dot<M>(d, sup[k])); return sup[k]; } };
template <int M> static Many<M> many() { Many<M> b; b.wit = pt<M>(); for (int i = 0; i < 8; i++) { b.sup[i] = vf_symbolic() ? pt<M>() : b.wit; b.dir[i] = V<M>(0.); } b.n = 0; return b; }
// the box of support points: each face holds one, and the witness is inside
template <int N> static void inherited() {
    Many<N> m = many<N>(); Rect<double,N> x = m.bounds(); within<N>(x, m.wit); for (int i = 0; i < N; i++) { bool l = false, h = false; for (int k = 0; k < m.n; k++) { l = l | (x.lo[i] == m.sup[k][i]); h = h | (x.hi[i] == m.sup[k][i]); } vf_assert(l & h, "face touches the shape"); } vf_assert(m.n <= 8, "few questions");
    Many<N> g = many<N>(); auto any = as_any_convex(g); V<N> d = pt<N>(), p = static_cast<const AnyConvex<double,N>&>(any).convex_support(d); eq<N>(p, g.sup[0], "type-erased shape answers the same"); eq<N>(any.shape.dir[0], d, "type-erased shape asked the same");
    Base<N> b = base<N>(); auto ab = as_any_convex(Rect<double,N>(b.box)); Rect<double,N> y = static_cast<const AnyConvex<double,N>&>(ab).bounds(); eq<N>(y.lo, b.box.lo, "type-erased bounds"); eq<N>(y.hi, b.box.hi, "type-erased bounds");
}
CONTRACT(P20_inherited2) { inherited<2>(); }
CONTRACT(P20_inherited3) { inherited<3>(); }
template <int N> static void oriented() {
    Many<N> m = many<N>(); Xf<N> t = anyx<N>(); Oriented<Many<N>> o(m, t); Rect<double,N> x = o.bounds(); Many<N>& s = o.shape; V<N> y = fwd<N>(t, m.wit, 1);
    for (int i = 0; i < N; i++) { bool l = false, h = false; for (int k = 0; k < s.n; k++) { V<N> q = fwd<N>(t, s.sup[k], 1); l = l | (x.lo[i] == q[i]); h = h | (x.hi[i] == q[i]); } vf_assert((l & h) || !vf_symbolic(), "face touches the shape"); } within<N>(x, y);
    Base<N> b = base<N>(); Oriented<Base<N>> p(b, t); Oriented<Rect<double,N>> ob = p.oriented_bounds(); eq<N>(ob.shape.lo, b.box.lo, "oriented bounds"); eq<N>(ob.shape.hi, b.box.hi, "oriented bounds"); eq<N>(ob.xf.apply(b.wit), fwd<N>(t, b.wit, 1), "oriented bounds"); Oriented<Rect<double,N>> oc = ob.oriented_bounds(); eq<N>(oc.shape.lo, b.box.lo, "oriented bounds"); eq<N>(oc.shape.hi, b.box.hi, "oriented bounds"); eq<N>(oc.xf.apply(b.wit), fwd<N>(t, b.wit, 1), "oriented bounds");
}
CONTRACT(P20_oriented2) { oriented<2>(); }
CONTRACT(P20_oriented3) { oriented<3>(); }
template <int N> static void oriented_box() {
    Rect<double,N> b = box<N>(); V<N> w = pt<N>(); vf_assume(in<N>(b, w)); Xf<N> t = anyx<N>(); Rect<double,N> x = Oriented<Rect<double,N>>(b, t).bounds(); V<N> y = fwd<N>(t, w, 1);
    for (int i = 0; i < N; i++) { double l = t.mat(i, N), h = l; for (int j = 0; j < N; j++) { double m = t.mat(i, j), p = m * b.lo[j], q = m * b.hi[j], z = m * w[j]; if (vf_symbolic()) { vf_lemma(std::min(p, q) <= z, "between the corners"); vf_lemma(z <= std::max(p, q), "between the corners"); } l += std::min(p, q); h += std::max(p, q); } vf_lemma(l <= y[i] || !vf_symbolic(), "no point of the shape is outside the box"); vf_lemma(y[i] <= h || !vf_symbolic(), "no point of the shape is outside the box"); vf_eq(x.lo[i], l, "face touches a corner"); vf_eq(x.hi[i], h, "face touches a corner"); }
}
CONTRACT(P20_oriented_box2) { oriented_box<2>(); }
CONTRACT(P20_oriented_box3) { oriented_box<3>(); }
//@@ P20_disk P20_sphere2 P20_sphere3 P20_capsule2 P20_capsule3 P20_cylinder2 P20_cylinder3 P20_rect2 P20_rect3 P20_extruded P20_frustum P20_dilated2 P20_dilated3 P20_inherited2 P20_inherited3 P20_oriented2 P20_oriented3 P20_oriented_box2 P20_oriented_box3
