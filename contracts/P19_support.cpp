// P19: the support point belongs to the shape and no point of the shape is farther along the direction.
#include "shape.h"
// |d|^2 |e|^2 - (d.e)^2
template <int N> static double cross2(const V<N>& a, const V<N>& b) { if constexpr (N == 2) { double z = a[0] * b[1] - a[1] * b[0]; return z * z; } else { double x = a[1] * b[2] - a[2] * b[1], y = a[2] * b[0] - a[0] * b[2], z = a[0] * b[1] - a[1] * b[0]; return x * x + y * y + z * z; } }
LEMMA(P19_cauchy, (D, E, k, M, r, c), (0 <= c) & (D * E - k * k == c) & (M * M == D) & (0 <= M) & (0 <= r) & (E <= r * r), k <= r * M)
// e with |e| <= r has d.e <= r |d|
template <int N> static void reach(const V<N>& d, const V<N>& e, double r) { double D = vf_name(n2<N>(d)), E = vf_name(n2<N>(e)), k = vf_name(dot<N>(d, e)), M = vf_name(std::sqrt(n2<N>(d))), c = vf_name(cross2<N>(d, e)); vf_name(r); vf_lemma_eq(D * E - k * k, c, "Lagrange"); vf_lemma(0 <= c, "squares"); vf_lemma(0 <= M, "length"); vf_lemma_eq(M * M, D, "length"); use_P19_cauchy(D, E, k, M, r, c); }
template <int N> static V<N> dir() { V<N> d = pt<N>(); vf_assume(0 < n2<N>(d)); if (!vf_symbolic()) vf_assume(1e-3 < n2<N>(d)); return d; }
template <int N> static V<N> ball(double r) { V<N> e = pt<N>(); if (!vf_symbolic()) { double m = std::sqrt(n2<N>(e)); if (m > r) e *= r / m * 0.999; } else vf_assume(n2<N>(e) <= r * r); return e; }
template <int N> static void sphere() {
    V<N> c = pt<N>(), d = dir<N>(); double r = vf_real(); vf_assume(0 <= r); V<N> e = ball<N>(r), y = c + e; Sphere<double,N> s(c, r); V<N> x = s.convex_support(d); reach<N>(d, e, r);
    vf_eq(n2<N>(x - c), r * r, "support belongs to the sphere"); double L = vf_name(std::sqrt(n2<N>(d))), k = vf_name(dot<N>(d, e)), g = vf_name(dot<N>(d, x - c)); vf_lemma_eq(g, r * L, "reach"); vf_lemma(k <= g, "nothing reaches farther"); vf_le(dot<N>(d, y), dot<N>(d, x), "nothing reaches farther");
}
CONTRACT(P19_sphere2) { sphere<2>(); }
CONTRACT(P19_sphere3) { sphere<3>(); }
template <int N> static void capsule() {
    V<N> a = pt<N>(), b = pt<N>(), v = b - a, d = dir<N>(); double r = vf_real(), t = vf_real(); vf_assume(0 <= r); vf_assume(in(0, t, 1)); V<N> e = ball<N>(r), y = a + t * v + e; Capsule<double,N> s(a, b, r); V<N> x = s.convex_support(d); reach<N>(d, e, r);
    double dv = dot<N>(d, v), L = vf_name(std::sqrt(n2<N>(d))), k = vf_name(dot<N>(d, e)); bool far = 0 <= dv; V<N> p = far ? b : a; vf_eq(n2<N>(x - p), r * r, "support belongs to the capsule"); double g = vf_name(dot<N>(d, x - p)); vf_lemma_eq(g, r * L, "reach"); vf_lemma(k <= g, "nothing reaches farther"); if (far) { vf_lemma((1 - t) * dv >= 0, "farther end"); } else vf_lemma(t * dv <= 0, "farther end"); vf_lemma(dot<N>(d, a + t * v) <= dot<N>(d, p), "farther end"); vf_le(dot<N>(d, y), dot<N>(d, x), "nothing reaches farther");
}
CONTRACT(P19_capsule2) { capsule<2>(); }
CONTRACT(P19_capsule3) { capsule<3>(); }
template <int N> static void cylinder() {
    V<N> a = pt<N>(), b = pt<N>(), v = b - a, d = dir<N>(); double r = vf_real(), t = vf_real(), v2 = n2<N>(v); vf_assume(0 <= r); vf_assume(0 < v2); vf_assume(in(0, t, 1)); if (!vf_symbolic()) vf_assume(1e-2 < v2); V<N> e = ball<N>(r); e = e - (dot<N>(e, v) / v2) * v; if (vf_symbolic()) { e = pt<N>(); vf_assume(dot<N>(e, v) == 0); vf_assume(n2<N>(e) <= r * r); } V<N> y = a + t * v + e; Cylinder<double,N> s(a, b, r); V<N> x = s.convex_support(d);
    double dv = dot<N>(d, v), f = dv / v2; V<N> w = d - d.project_on(v); for (int i = 0; i < N; i++) vf_lemma_eq(w[i], d[i] - f * v[i], "perpendicular to the axis"); vf_lemma_eq(dot<N>(w, v), 0, "perpendicular to the axis"); double w2 = n2<N>(w); bool far = vf_pick(0, 1); if (far) vf_assume(0 < dv); else vf_assume(dv <= 0); V<N> p = far ? b : a; if (!vf_symbolic()) vf_assume(w2 > 1e-3); bool tilt = vf_pick(0, 1); if (tilt) vf_assume(0 < w2); else vf_assume(w2 <= 0);
    V<N> h, u; for (int i = 0; i < N; i++) { h[i] = vf_name(x[i] - p[i]); u[i] = vf_name(v[i]); vf_name(d[i]); }
    double F = vf_name(f), De = vf_name(dot<N>(d, e)), We = vf_name(dot<N>(w, e)), Ve = vf_name(dot<N>(v, e)), Dx = vf_name(dot<N>(d, x - p)), Wx = vf_name(dot<N>(w, x - p)), Vx = vf_name(dot<N>(v, x - p)); vf_lemma_eq(Ve, 0, "perpendicular to the axis"); vf_lemma_eq(De, We + F * Ve, "split along the axis"); vf_lemma_eq(Dx, Wx + F * Vx, "split along the axis");
    if (tilt) { reach<N>(w, e, r); double L = vf_name(std::sqrt(w2)); for (int i = 0; i < N; i++) vf_lemma_eq(x[i] - p[i], r * (w[i] / std::sqrt(w2)), "on the rim"); vf_lemma_eq(n2<N>(x - p), r * r, "support belongs to the cylinder"); vf_lemma_eq(Vx, 0, "support belongs to the cylinder"); vf_lemma_eq(Wx, r * L, "reach"); vf_lemma(We <= Wx, "nothing reaches farther"); }
    else { for (int i = 0; i < N; i++) { vf_lemma_eq(w[i], 0, "along the axis"); } vf_lemma_eq(We, 0, "along the axis"); vf_lemma(n2<N>(x - p) <= r * r, "support belongs to the cylinder"); vf_lemma_eq(Vx, 0, "support belongs to the cylinder"); vf_lemma_eq(Wx, 0, "along the axis"); }
    vf_lemma(De <= Dx, "nothing reaches farther"); double ya = vf_name(dot<N>(d, a + t * v)), pd = vf_name(dot<N>(d, p)); if (far) { vf_lemma((1 - t) * dv >= 0, "farther end"); vf_lemma_eq(pd - ya, (1 - t) * dv, "farther end"); } else { vf_lemma(t * dv <= 0, "farther end"); vf_lemma_eq(ya - pd, t * dv, "farther end"); } vf_lemma(ya <= pd, "farther end"); double Y = vf_name(dot<N>(d, y)), X = vf_name(dot<N>(d, x)); vf_lemma_eq(Y, ya + De, "reach"); vf_lemma_eq(X, pd + Dx, "reach"); vf_lemma(Y <= X, "nothing reaches farther"); vf_le(dot<N>(d, y), dot<N>(d, x), "nothing reaches farther");
}
CONTRACT(P19_cylinder2) { cylinder<2>(); }
CONTRACT(P19_cylinder3) { cylinder<3>(); }
template <int N> static void rect() { Rect<double,N> s = box<N>(); V<N> d = pt<N>(), y = pt<N>(); vf_assume(in<N>(s, y)); V<N> x = s.convex_support(d); vf_assert(in<N>(s, x), "support belongs to the box"); for (int i = 0; i < N; i++) vf_lemma(d[i] * y[i] <= d[i] * x[i], "nothing reaches farther"); vf_le(dot<N>(d, y), dot<N>(d, x), "nothing reaches farther"); }
CONTRACT(P19_rect2) { rect<2>(); }
CONTRACT(P19_rect3) { rect<3>(); }
CONTRACT(P19_extruded) {
    Base<2> b = base<2>(); R1 z = box<1>(); double h = vf_real(); vf_assume(in(z, h)); Extruded<Base<2>> s(b, z); V<3> d = pt<3>(), y(b.wit[0], b.wit[1], h), x = s.convex_support(d);
    eq<2>(V<2>(x[0], x[1]), s.base.sup, "support of the base shape"); vf_assert(in(z, x[2]), "support belongs to the extrusion"); vf_lemma(d[2] * h <= d[2] * x[2], "farther cap"); vf_le(dot<3>(d, y), dot<3>(d, x), "nothing reaches farther"); vf_lt(0, n2<2>(s.base.dir), "a direction");
}
CONTRACT(P19_frustum) {
    Base<2> b = base<2>(); R1 z = box<1>(); Frustum<Base<2>> s(b, z); R1 c = s.clipped_height(); double h = vf_real(); vf_assume(in(c, h)); V<3> d = pt<3>(), y(h * b.wit[0], h * b.wit[1], h), x = s.convex_support(d); V<2> u = s.base.sup;
    vf_assert(in(c, x[2]), "support belongs to the frustum"); vf_eq(x[0], x[2] * u[0], "support of the base shape"); vf_eq(x[1], x[2] * u[1], "support of the base shape"); vf_lt(0, n2<2>(s.base.dir), "a direction");
    double k = vf_name(d[0] * u[0] + d[1] * u[1] + d[2]), l = vf_name(d[0] * b.wit[0] + d[1] * b.wit[1] + d[2]); vf_name(h); if (c.lo < 0) vf_lemma(k <= l, "support of the base shape"); else vf_lemma(l <= k, "support of the base shape"); vf_lemma(h * l <= h * k, "support of the base shape"); vf_lemma(h * k <= x[2] * k, "farther cap"); vf_le(dot<3>(d, y), dot<3>(d, x), "nothing reaches farther");
}
template <int N> static void oriented() {
    Base<N> b = base<N>(); Xf<N> x = anyx<N>(); Oriented<Base<N>> s(b, x); V<N> d = pt<N>(), p = s.convex_support(d), y = fwd<N>(x, b.wit, 1); eq<N>(p, fwd<N>(x, s.shape.sup, 1), "support of the base shape"); 
    double k = dot<N>(d, fwd<N>(x, s.shape.sup, 0)), l = dot<N>(d, fwd<N>(x, b.wit, 0)); vf_lemma_eq(dot<N>(s.shape.dir, s.shape.sup), k, "direction carried back"); vf_lemma_eq(dot<N>(s.shape.dir, b.wit), l, "direction carried back"); vf_lemma(l <= k, "support of the base shape"); vf_lemma_eq(dot<N>(d, p) - dot<N>(d, y), k - l, "translation drops out"); vf_le(dot<N>(d, y), dot<N>(d, p), "nothing reaches farther");
}
CONTRACT(P19_oriented2) { oriented<2>(); }
CONTRACT(P19_oriented3) { oriented<3>(); }
template <int N> static void oriented_box() {
    Rect<double,N> b = box<N>(); V<N> w = pt<N>(); vf_assume(in<N>(b, w)); Xf<N> x = anyx<N>(); Oriented<Rect<double,N>> s(b, x); V<N> d = pt<N>(), p = s.convex_support(d), y = fwd<N>(x, w, 1), u; 
    V<N> q = fwd<N>(x, p, 1, true); double C[N]; for (int i = 0; i < N; i++) { double c = 0; for (int j = 0; j < N; j++) c += d[j] * x.mat(j, i); C[i] = vf_name(c); vf_name(w[i]); vf_name(b.lo[i]); vf_name(b.hi[i]); u[i] = vf_symbolic() ? (c < 0 ? b.lo[i] : b.hi[i]) : q[i]; vf_lemma(C[i] * w[i] <= C[i] * u[i] || !vf_symbolic(), "farther face"); }
    vf_assert(in<N>(b, u) || !vf_symbolic(), "support belongs to the box"); eq<N>(p, fwd<N>(x, u, 1), "support is a corner carried along"); double s0 = 0, s1 = 0; for (int i = 0; i < N; i++) { s0 += C[i] * w[i]; s1 += C[i] * u[i]; } vf_lemma(s0 <= s1 || !vf_symbolic(), "farther corner"); vf_lemma_eq(dot<N>(d, fwd<N>(x, u, 1)) - dot<N>(d, y), s1 - s0, "translation drops out"); vf_le(dot<N>(d, y), dot<N>(d, fwd<N>(x, u, 1)), "nothing reaches farther");
}
CONTRACT(P19_oriented_box2) { oriented_box<2>(); }
CONTRACT(P19_oriented_box3) { oriented_box<3>(); }
template <int N> static void dilated() {
    Base<N> b = base<N>(); double k = vf_real(); vf_assume(0 <= k); V<N> d = dir<N>(), e = ball<N>(k); Dilated<Base<N>> s(b, k); V<N> x = s.convex_support(d), y = b.wit + e, c = s.shape.sup; eq<N>(s.shape.dir, d, "support of the base shape"); reach<N>(d, e, k);
    vf_eq(n2<N>(x - c), k * k, "support belongs to the dilated shape"); double L = vf_name(std::sqrt(n2<N>(d))), m = vf_name(dot<N>(d, e)), g = vf_name(dot<N>(d, x - c)); vf_lemma_eq(g, k * L, "reach"); vf_lemma(m <= g, "nothing reaches farther"); vf_le(dot<N>(d, y), dot<N>(d, x), "nothing reaches farther");
}
CONTRACT(P19_dilated2) { dilated<2>(); }
CONTRACT(P19_dilated3) { dilated<3>(); }
//@@ P19_cauchy P19_sphere2 P19_sphere3 P19_capsule2 P19_capsule3 P19_cylinder2 P19_cylinder3 P19_rect2 P19_rect3 P19_extruded P19_frustum P19_oriented2 P19_oriented3 P19_oriented_box2 P19_oriented_box3 P19_dilated2 P19_dilated3
//@ P19_cylinder*: par=4
