// P17: ray parameters: s is in the reported interval exactly when origin + s * direction is in the shape.
#include "shape.h"
template <int N> static void raylike() {
    Ray<double,N> r = ray<N>(); double s = vf_real(); V<N> p = pt<N>(), v = r.direction, o = r.origin; double m = n2<N>(v);
    eq<N>(r.at_multiple(s), at<N>(r, s), "at_multiple"); eq<N>(r * s, at<N>(r, s), "ray * s"); eq<N>(s * r, at<N>(r, s), "s * ray"); Ray<double,N> g = -r; eq<N>(g.origin, o, "negated ray keeps the origin"); eq<N>(g.direction, -v, "negated ray reverses the direction");
    V<N> q = r.project(p); double k = dot<N>(p - o, v) / m; eq<N>(q, at<N>(r, k), "projection lies on the line"); vf_eq(dot<N>(p - q, v), 0, "projection is orthogonal"); vf_eq(r.dist2(p), n2<N>(p - q), "dist2 is the squared distance to the projection"); vf_le(r.dist2(p), n2<N>(p - at<N>(r, s)), "no point of the line is nearer");
    double d = r.sdf(p); vf_eq(d * d, r.dist2(p), "sdf is the distance"); vf_le(0, d, "sdf is the distance"); V<N> e = r.at_distance(s); vf_eq(n2<N>(e - o), s * s, "at_distance is at that distance"); V<N> f = at<N>(r, s / std::sqrt(m)); eq<N>(e, f, "at_distance lies along the direction");
    Ray<double,2> t = r.template resized<2>(); eq<2>(t.origin, V<2>(o[0], o[1]), "resized"); eq<2>(t.direction, V<2>(v[0], v[1]), "resized");
}
CONTRACT(P17_line2) { raylike<2>(); }
CONTRACT(P17_line3) { raylike<3>(); }
// quadratic_solve: its contract (proved on the real function by P17_quadratic) stands in for its body below
static double root_lo, root_hi, qa, qb, qc; static bool roots;
static bool quadratic_contract(double* r, double a, double b, double c) {
    qa = a = vf_name(a); qb = b = vf_name(b); qc = c = vf_name(c);
    if (b * b - 4 * a * c < 0 || (a == 0 && b == 0)) return false;
    double x = vf_real(), y = vf_real(); if (a == 0) { vf_assume(b * x == -c); vf_assume(y == x); } else { vf_assume(a * (x + y) == -b); vf_assume(a * x * y == c); } vf_assume(x <= y); root_lo = x; root_hi = y; roots = true; if (vf_bool()) { r[0] = x; r[1] = y; } else { r[0] = y; r[1] = x; } return true;
}
CONTRACT(P17_quadratic) {
    double a = vf_real(), b = vf_real(), c = vf_real(), r[2] = {7, 7}, D = b * b - 4 * a * c; bool k = quadratic_solve(r, a, b, c); vf_iff(k, !(D < 0 || (a == 0 && b == 0)), std::min(std::abs(D), std::abs(a) + std::abs(b)), "solvable exactly when there is a real root");
    if (!k) { vf_assert(r[0] == 7 && r[1] == 7, "no root leaves the results alone"); return; } if (!vf_symbolic()) vf_assume(std::abs(a) > 1e-3 && std::abs(b) > 1e-3); if (a == 0) { vf_eq(b * r[0], -c, "root of the linear equation"); vf_eq(r[0], r[1], "single root"); } else { vf_eq(a * (r[0] + r[1]), -b, "sum of the roots"); vf_eq(a * r[0] * r[1], c, "product of the roots"); }
}

LEMMA(P17_between, (a, b, c, s, l, h, f),
    (0 < a) & (l <= h) & (a * (l + h) == -b) & (a * l * h == c) & (f == a * s * s + b * s + c), (f <= 0) == ((l <= s) & (s <= h)))
LEMMA(P17_rootless, (a, b, c, s, f), (0 < a) & (b * b - 4 * a * c < 0) & (f == a * s * s + b * s + c), (0 < f) & (0 < c))
template <int N> static void sphere() {
    vf_replace((void*) (bool (*)(double*, double, double, double)) &quadratic_solve<double>, (void*) &quadratic_contract);
    Ray<double,N> r = ray<N>(); V<N> c = pt<N>(); double R = vf_real(), s = vf_real(); vf_assume(0 <= R); roots = false; R1 h = Sphere<double,N>(c, R).intersect(r);
    V<N> x = c - r.origin; double a = n2<N>(r.direction), b = -2 * dot<N>(r.direction, x), k = n2<N>(x) - R * R, D = b * b - 4 * a * k, f = n2<N>(at<N>(r, s) - c) - R * R;
    if (h.lo <= h.hi) {
        if (vf_symbolic()) { vf_assert(roots, "interval from the roots"); double A = vf_name(a), B = vf_name(b), K = vf_name(k), F = vf_name(f); vf_lemma_eq(F, A * s * s + B * s + K, "quadratic in the parameter"); vf_lemma(0 < A, "leading coefficient"); vf_lemma_eq(qa, A, "leading coefficient"); vf_lemma_eq(qb, B, "linear coefficient"); vf_lemma_eq(qc, K, "constant coefficient"); use_P17_between(A, B, K, s, root_lo, root_hi, F); vf_lemma((F <= 0) == (f <= 0), "named"); }
        vf_iff(f <= 0, in(h, s), f, "points of the sphere are exactly the interval"); }
    else { vf_lemma(D < 0, "no real roots"); vf_lemma_eq(4 * a * f, (2 * a * s + b) * (2 * a * s + b) - D, "square completed"); vf_lt(0, f, "a missed sphere has no point on the line"); }
}
CONTRACT(P17_sphere2) { sphere<2>(); }
CONTRACT(P17_sphere3) { sphere<3>(); }
template <int N> static void rect() {
    Ray<double,N> r = ray<N>(); Rect<double,N> b = box<N>(); double s = vf_real(); R1 h = b.intersect(r); bool all = true;
    for (int i = 0; i < N; i++) { double v = r.direction[i], o = r.origin[i], x = o + s * v; 
        if (v != 0) { double l = (b.lo[i] - o) / v, u = (b.hi[i] - o) / v; vf_lemma_eq(x - b.lo[i], v * (s - l), "slab"); vf_lemma_eq(b.hi[i] - x, v * (u - s), "slab"); vf_lemma_eq(b.hi[i] - b.lo[i], v * (u - l), "slab"); vf_lemma((v < 0) | (l <= u), "slab"); vf_lemma((0 < v) | (u <= l), "slab"); vf_lemma(in(b.lo[i], x, b.hi[i]) == (in(l, s, u) | in(u, s, l)), "slab"); } 
        all = all & in(b.lo[i], x, b.hi[i]); }
    V<N> p = at<N>(r, s); double m = 1; for (int i = 0; i < N; i++) m = std::min(m, gap(b.lo[i], p[i], b.hi[i]));
    vf_iff(all, in(h, s), m, "points of the box are exactly the interval");
}
CONTRACT(P17_rect2) { rect<2>(); }
CONTRACT(P17_rect3) { rect<3>(); }
// a x b by components: |a|^2 |b|^2 - (a.b)^2 is the sum of their squares
template <int N> static double cross2(const V<N>& a, const V<N>& b) { if constexpr (N == 2) { double z = a[0] * b[1] - a[1] * b[0]; return z * z; } else { double x = a[1] * b[2] - a[2] * b[1], y = a[2] * b[0] - a[0] * b[2], z = a[0] * b[1] - a[1] * b[0]; return x * x + y * y + z * z; } }
// (a x b) . (a x c)
template <int N> static double crossdot(const V<N>& a, const V<N>& b, const V<N>& c) { if constexpr (N == 2) return (a[0] * b[1] - a[1] * b[0]) * (a[0] * c[1] - a[1] * c[0]); else return (a[1] * b[2] - a[2] * b[1]) * (a[1] * c[2] - a[2] * c[1]) + (a[2] * b[0] - a[0] * b[2]) * (a[2] * c[0] - a[0] * c[2]) + (a[0] * b[1] - a[1] * b[0]) * (a[0] * c[1] - a[1] * c[0]); }
LEMMA(P17_slab, (d, m, w, z, s, x), (m != 0) & (0 < w) & (x == d + s * m) & (z == d - w), in(0, x, w) == (in(-d / m, s, -z / m) | in(-z / m, s, -d / m)))
template <int N> static void cylinder() {
    vf_replace((void*) (bool (*)(double*, double, double, double)) &quadratic_solve<double>, (void*) &quadratic_contract);
    V<N> p0 = pt<N>(), p1 = pt<N>(), a = p1 - p0; double R = vf_real(), s = vf_real(); vf_assume(0 <= R); vf_assume(0 < n2<N>(a)); if (!vf_symbolic()) vf_assume(n2<N>(a) > 1e-2); Ray<double,N> r = ray<N>();
    V<N> b = r.origin - p0, v = r.direction, q = at<N>(r, s) - p0; double a2 = n2<N>(a), d = dot<N>(a, b), m = dot<N>(v, a), k0 = n2<N>(v) - m * m / a2, k1 = 2 * (dot<N>(b, v) - d * m / a2), k2 = n2<N>(b) - d * (d / a2) - R * R, dq = dot<N>(a, q), f = n2<N>(q) - dq * dq / a2 - R * R;
    vf_lemma_eq(k0 * a2, cross2<N>(a, v), "Lagrange"); vf_lemma(0 <= cross2<N>(a, v), "squares"); vf_lemma(0 <= k0, "Cauchy-Schwarz");
    roots = false; R1 h = Cylinder<double,N>(p0, p1, R).intersect(r); vf_name(s); double F = vf_name(f), Q = vf_name(dq), A = vf_name(a2), D = vf_name(d), M = vf_name(m), Z = vf_name(dot<N>(a, r.origin - p1)), K0 = vf_name(k0), K1 = vf_name(k1), K2 = vf_name(k2);
    vf_lemma_eq(Q, D + s * M, "linear in the parameter"); vf_lemma_eq(F, K0 * s * s + K1 * s + K2, "quadratic in the parameter"); vf_lemma(0 < A, "axis"); vf_lemma(0 <= K0, "named");
    if (vf_symbolic()) { if (roots) { vf_lemma_eq(qa, K0, "leading coefficient"); vf_lemma_eq(qb, K1, "linear coefficient"); vf_lemma_eq(qc, K2, "constant coefficient"); use_P17_between(K0, K1, K2, s, root_lo, root_hi, F); }
        else if (k0 == 0) { vf_lemma_eq(k1 * a2, 2 * crossdot<N>(a, b, v), "Binet-Cauchy"); vf_lemma(k1 == 0, "parallel to the axis"); vf_lemma(K1 == 0, "parallel to the axis"); vf_lemma(F == K2, "constant distance to the axis"); vf_lemma_eq(m * m, n2<N>(v) * a2, "along the axis"); vf_lemma(0 < n2<N>(v) * a2, "along the axis"); vf_lemma(m != 0, "along the axis"); if (k2 <= 0) vf_lemma(K2 <= 0, "named"); else vf_lemma(0 < K2, "named"); } else { vf_lemma(0 < K0, "not parallel"); use_P17_rootless(K0, K1, K2, s, F); } 
        if (m != 0) { vf_lemma(M != 0, "not parallel to the caps"); vf_lemma_eq(Z, D - A, "far cap"); use_P17_slab(D, M, A, Z, s, Q); } else vf_lemma(M == 0, "parallel to the caps"); }
    else vf_assume((k0 == 0 || k0 > 1e-4) && (m == 0 || std::abs(m) > 1e-4) && std::abs(f) > 1e-6 && std::abs(dq) > 1e-6 && std::abs(dq - a2) > 1e-6);
    vf_iff((F <= 0) & (0 <= Q) & (Q <= A), in(h, s), vf_symbolic() ? 0 : std::min(std::abs(f), gap(0, dq, a2)), "points of the cylinder are exactly the interval");
}
CONTRACT(P17_cylinder2) { cylinder<2>(); }
CONTRACT(P17_cylinder3) { cylinder<3>(); }
CONTRACT(P17_extruded) {
    Base<2> g = base<2>(); R1 z = box<1>(); Extruded<Base<2>> e(g, z); Ray<double,3> r = ray<3>(); double s = vf_real(); R1 h = e.intersect(r); V<3> o = r.origin, v = r.direction; double y = o[2] + s * v[2]; bool flat;
    if (v[0] == 0 && v[1] == 0) { flat = g.member; eq<2>(e.base.asked, V<2>(o[0], o[1]), "base shape asked about the foot of the ray"); } else { flat = in(g.hit, s); eq<2>(e.base.seen.origin, V<2>(o[0], o[1]), "base shape asked about the projected ray"); eq<2>(e.base.seen.direction, V<2>(v[0], v[1]), "base shape asked about the projected ray"); }
    if (v[2] != 0) { double l = (z.lo - o[2]) / v[2], u = (z.hi - o[2]) / v[2]; vf_lemma_eq(y - z.lo, v[2] * (s - l), "slab"); vf_lemma_eq(z.hi - y, v[2] * (u - s), "slab"); vf_lemma_eq(z.hi - z.lo, v[2] * (u - l), "slab"); vf_lemma(in(z, y) == (in(l, s, u) | in(u, s, l)), "slab"); }
    vf_iff(flat & in(z, y), in(h, s), std::min(gap(z.lo, y, z.hi), gap(g.hit.lo, s, g.hit.hi)), "points of the extrusion are exactly the interval");
}
template <int N> static void carried(const Base<N>& b, const Ray<double,N>& r, const R1& h, const Xf<N>& x, const char* name) { eq<N>(fwd<N>(x, b.seen.origin, 1), r.origin, name); eq<N>(fwd<N>(x, b.seen.direction, 0), r.direction, name); vf_eq(h.lo, b.hit.lo, name); vf_eq(h.hi, b.hit.hi, name); }
template <int N> static void oriented() {
    Base<N> g = base<N>(); Xf<N> x = anyx<N>(); Ray<double,N> r = ray<N>(); Oriented<Base<N>> o(g, x); R1 h = o.intersect(r); carried<N>(o.shape, r, h, x, "base shape asked about the transformed ray");
    Oriented<Base<N>> w = x * g; h = w.intersect(r); carried<N>(w.shape, r, h, x, "transform * shape");
}
CONTRACT(P17_oriented2) { oriented<2>(); }
CONTRACT(P17_oriented3) { oriented<3>(); }
template <int N> static void oriented_box() {
    Rect<double,N> b = box<N>(); Xf<N> x = anyx<N>(); Ray<double,N> r = ray<N>(); Oriented<Rect<double,N>> o(b, x); R1 h = o.intersect(r); Ray<double,N> q(fwd<N>(x, r.origin, 1, true), fwd<N>(x, r.direction, 0, true)); R1 k = b.intersect(q); vf_eq(h.lo, k.lo, "box asked about the ray carried into its frame"); vf_eq(h.hi, k.hi, "box asked about the ray carried into its frame");
}
CONTRACT(P17_oriented_box2) { oriented_box<2>(); }
CONTRACT(P17_oriented_box3) { oriented_box<3>(); }
//@@ P17_oriented2 P17_oriented3 P17_oriented_box2 P17_oriented_box3 P17_rootless P17_quadratic P17_between P17_line2 P17_line3 P17_sphere2 P17_sphere3 P17_rect1 P17_rect2 P17_rect3 P17_slab P17_cylinder2 P17_cylinder3 P17_extruded
CONTRACT(P17_rect1) { double o = vf_real(), v = vf_real(), s = vf_real(); R1 b = box<1>(); vf_assume(v != 0); R1 h = b.intersect(Ray<double,1>(o, v)); vf_iff(in(b, o + s * v), in(h, s), gap(b.lo, o + s * v, b.hi), "points of the interval are exactly the interval"); }
