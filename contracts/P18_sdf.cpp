// P18: containment is the sign of the signed distance, whose magnitude is the distance to the projection; projections lie on the surface.
#include "shape.h"
// a shape's answers agree with each other: sd = sdf(p), q = project(p)
template <int N, typename S> static void agree(const S& s, const V<N>& p, double& sd, V<N>& q, bool same_clip = true) {
    sd = s.sdf(p); q = s.project(p); bool in = s.contains(p); vf_iff(in, sd <= 0, vf_symbolic() ? 0 : sd, "containment is the sign of the distance"); vf_eq(n2<N>(q - p), sd * sd, "distance to the projection");
    V<N> k = s.clip(p); if (in) eq<N>(k, p, "clip keeps points of the shape"); else eq<N>(k, q, "clip projects points outside");
}
template <int N> static void sphere() {
    V<N> c = pt<N>(), p = pt<N>(), q, x = p - c; double r = vf_real(), d; vf_assume(0 <= r); vf_assume(0 < n2<N>(x)); if (!vf_symbolic()) vf_assume(1e-3 < n2<N>(x)); Sphere<double,N> s(c, r);
    agree<N>(s, p, d, q); vf_eq(n2<N>(q - c), r * r, "projection on the surface"); vf_iff(s.contains(p), n2<N>(x) <= r * r, vf_symbolic() ? 0 : n2<N>(x) - r * r, "ball"); vf_eq((d + r) * (d + r), n2<N>(x), "distance to the surface"); vf_le(-r, d, "distance to the surface"); V<N> n = s.normal(p); vf_eq(n2<N>(n), 1, "unit normal"); eq<N>(q + d * n, p, "normal points from the projection");
    Sphere<double,N> k; eq<N>(k.center, V<N>(0.), "default sphere"); vf_eq(k.r, 1, "default sphere"); Sphere<double,N> m(r); eq<N>(m.center, V<N>(0.), "origin sphere"); vf_eq(m.r, r, "origin sphere"); vf_assert(m == Sphere<double,N>(V<N>(0.), r), "equality"); vf_assert((s == m) == ((c == V<N>(0.))), "equality");
}
CONTRACT(P18_sphere2) { sphere<2>(); }
CONTRACT(P18_sphere3) { sphere<3>(); }
template <int N> static void capsule() {
    V<N> a = pt<N>(), b = pt<N>(), p = pt<N>(), q, v = b - a; double r = vf_real(), d; vf_assume(0 <= r); vf_assume(0 < n2<N>(v)); if (!vf_symbolic()) vf_assume(1e-3 < n2<N>(v)); Capsule<double,N> s(a, b, r); double t = std::clamp(dot<N>(p - a, v) / n2<N>(v), 0., 1.); V<N> w = p - a - t * v; vf_assume(0 < n2<N>(w)); if (!vf_symbolic()) vf_assume(1e-3 < n2<N>(w));
    V<N> c = s.nearest_axis_point(p), e; double u = vf_real(); vf_assume(0 <= u); vf_assume(u <= 1); vf_name(t); vf_name(u); double al = vf_name(n2<N>(v)), be = vf_name(dot<N>(p - a, v)), ga = vf_name(n2<N>(p - a)), om = vf_name(n2<N>(w));
    eq<N>(c, a + t * v, "nearest point of the axis"); eq<N>(s.axis(), v, "axis"); vf_lemma_eq(om, ga - 2 * t * be + t * t * al, "distance to the axis"); vf_lemma_eq(n2<N>(p - a - u * v), ga - 2 * u * be + u * u * al, "distance to a point of the axis"); vf_lemma(0 < al, "axis"); vf_lemma(om <= ga - 2 * u * be + u * u * al, "no point of the axis is nearer");
    for (int i = 0; i < N; i++) { e[i] = vf_name(p[i] - c[i]); } vf_lemma_eq(om, n2<N>(e), "distance to the axis"); vf_lemma(0 < om, "off the axis"); vf_name(r);
    d = s.sdf(p); q = s.project(p); bool inside = s.contains(p); vf_iff(inside, d <= 0, vf_symbolic() ? 0 : d, "containment is the sign of the distance"); V<N> g, h, n = s.normal(p), k; double m = vf_name(std::sqrt(om)); d = vf_name(d); vf_lemma_eq(m * m, om, "distance to the axis"); vf_lemma(0 < m, "distance to the axis"); vf_lemma_eq(d, m - r, "distance to the surface");
    for (int i = 0; i < N; i++) { g[i] = vf_name(q[i] - c[i]); h[i] = vf_name(q[i] - p[i]); k[i] = vf_name(n[i]); vf_lemma_eq(k[i] * m, e[i], "normal along the radius"); vf_lemma_eq(g[i], r * k[i], "projection along the normal"); vf_lemma_eq(h[i], g[i] - e[i], "projection along the normal"); vf_lemma_eq(h[i], -d * k[i], "normal points from the projection"); }
    vf_lemma_eq(m * m, m * m * n2<N>(k), "unit normal"); vf_lemma_eq(n2<N>(k), 1, "unit normal"); vf_eq(n2<N>(h), d * d, "distance to the projection"); vf_eq(n2<N>(g), r * r, "projection on the surface");
    k = s.clip(p); if (inside) eq<N>(k, p, "clip keeps points of the shape"); else eq<N>(k, q, "clip projects points outside");
    Sphere<double,N> o(pt<N>(), 1); o.r = vf_real(); vf_assume(0 <= o.r); vf_iff(s.intersects(o), s.sdf(o.center) <= o.r, vf_symbolic() ? 0 : s.sdf(o.center) - o.r, "meets the spheres near enough");
}
CONTRACT(P18_capsule2) { capsule<2>(); }
CONTRACT(P18_capsule3) { capsule<3>(); }
template <int N> static void rect() {
    Rect<double,N> s = box<N>(); V<N> p = pt<N>(), q, y = pt<N>(); double d; vf_assume(in<N>(s, y)); agree<N>(s, p, d, q); vf_assert(in<N>(s, q), "projection on the surface"); bool face = false; for (int i = 0; i < N; i++) face = face | (q[i] == s.lo[i]) | (q[i] == s.hi[i]); vf_assert(face, "projection on the surface");
    if (!in<N>(s, p)) { for (int i = 0; i < N; i++) vf_lemma((p[i] - q[i]) * (p[i] - q[i]) <= (p[i] - y[i]) * (p[i] - y[i]), "nothing in the box is nearer"); vf_le(n2<N>(p - q), n2<N>(p - y), "nothing in the box is nearer"); } else for (int i = 0; i < N; i++) { vf_le(-d, p[i] - s.lo[i], "no face is nearer"); vf_le(-d, s.hi[i] - p[i], "no face is nearer"); }
    vf_eq(s.dist2(p), in<N>(s, p) ? 0 : d * d, "squared distance to the interior");
}
CONTRACT(P18_rect2) { rect<2>(); }
CONTRACT(P18_rect3) { rect<3>(); }
// a base shape whose answers satisfy P18: its distance and projection are any that agree with each other
template <int M> struct Body : Convex<double,M,Body<M>>, Projectable<double,M,Body<M>> {
    using point = V<M>; double ds; point proj, nrm; mutable point asked;
    double sdf(point p) const { asked = p; return ds; }
    bool contains(point p) const { asked = p; return ds <= 0; }
    point project(point p) const { asked = p; return proj; }
    point normal(point p) const { asked = p; return nrm; }
};
// asked about p
template <int M> static Body<M> body(const V<M>& p) { Body<M> b; b.ds = vf_real(); b.proj = pt<M>(); b.nrm = pt<M>(); vf_assume(n2<M>(b.proj - p) == b.ds * b.ds); if (!vf_symbolic()) { b.nrm = V<M>(0.); b.nrm[0] = 1; b.proj = p - b.ds * b.nrm; } else { vf_assume(n2<M>(b.nrm) == 1); for (int i = 0; i < M; i++) vf_assume(p[i] - b.proj[i] == b.ds * b.nrm[i]); } return b; }
template <int M> static V<M> low(const V<M + 1>& p) { V<M> q; for (int i = 0; i < M; i++) q[i] = p[i]; return q; }
CONTRACT(P18_extruded) {
    V<3> p = pt<3>(), q; V<2> f = low<2>(p); Body<2> b = body<2>(f); R1 z = box<1>(); Extruded<Body<2>> s(b, z); double h = p[2], ds = b.ds, dh = std::max(h - z.hi, z.lo - h), d; if (!vf_symbolic()) vf_assume(std::abs(h - z.lo) > 1e-6 && std::abs(h - z.hi) > 1e-6);
    d = s.sdf(p); q = s.project(p); bool inside = s.contains(p); eq<2>(s.base.asked, f, "base shape asked about the foot"); vf_iff(inside, (ds <= 0) & in(z, h), vf_symbolic() ? 0 : std::max(ds, dh), "in the extrusion"); vf_iff(inside, d <= 0, vf_symbolic() ? 0 : d, "containment is the sign of the distance"); vf_eq(n2<3>(q - p), d * d, "distance to the projection"); vf_assert(in(z, q[2]), "projection on the surface");
    bool wall = (q[0] == b.proj[0]) & (q[1] == b.proj[1]), cap = (q[2] == z.lo) | (q[2] == z.hi), foot = (q[0] == f[0]) & (q[1] == f[1]) & (ds <= 0); vf_assert(wall | (cap & foot), "projection on the surface");
    if (inside) { vf_le(-d, -ds, "no wall is nearer"); vf_le(-d, h - z.lo, "no cap is nearer"); vf_le(-d, z.hi - h, "no cap is nearer"); } else { vf_le(ds, d, "no wall is nearer"); vf_le(dh, d, "no cap is nearer"); if (ds <= 0) vf_eq(d, dh, "nearest point on the cap"); else if (in(z, h)) vf_eq(d, ds, "nearest point on the wall"); else vf_eq(d * d, ds * ds + dh * dh, "nearest point on the rim"); }
    V<3> c = s.clip(p); if (inside) eq<3>(c, p, "clip keeps points of the shape"); else eq<3>(c, q, "clip projects points outside");
    if (d != 0 && (!inside || (ds != dh && h - z.lo != z.hi - h))) { V<3> n = s.normal(p); vf_eq(n2<3>(n), 1, "unit normal"); eq<3>(q + d * n, p, "normal points from the projection"); }
    double h0 = vf_real(), h1 = vf_real(); Extruded<Body<2>> t(b, h0, h1); vf_eq(t.height.lo, std::min(h0, h1), "heights in order"); vf_eq(t.height.hi, std::max(h0, h1), "heights in order"); Extruded<Body<2>> w = extrude(b, h0, h1); vf_eq(w.height.lo, std::min(h0, h1), "extrude()"); vf_eq(w.height.hi, std::max(h0, h1), "extrude()"); vf_eq(w.base.ds, b.ds, "extrude()");
}
template <int N> static void dilated() {
    V<N> p = pt<N>(), q; Body<N> b = body<N>(p); double k = vf_real(), d; vf_assume(0 <= k); vf_assume(b.ds != 0); Dilated<Body<N>> s(b, k); d = s.sdf(p); q = s.project(p); bool inside = s.contains(p); vf_eq(d, b.ds - k, "distance less the dilation"); vf_iff(inside, d <= 0, vf_symbolic() ? 0 : d, "containment is the sign of the distance"); 
    eq<N>(q, b.proj + k * b.nrm, "surface moved along the normal"); eq<N>(s.normal(p), b.nrm, "same normal"); eq<N>(q + d * b.nrm, p, "normal points from the projection"); vf_eq(n2<N>(q - p), d * d, "distance to the projection"); V<N> c = s.clip(p); if (inside) eq<N>(c, p, "clip keeps points of the shape"); else eq<N>(c, q, "clip projects points outside");
    double e = vf_real(); Dilated<Body<N>> t = dilate(s, e); vf_eq(t.dilation, std::max(k + e, 0.), "dilations add"); vf_eq(t.shape.ds, b.ds, "dilations add"); Dilated<Body<N>> u = dilate(b, e); vf_eq(u.dilation, std::max(e, 0.), "dilate()"); vf_eq(u.shape.ds, b.ds, "dilate()"); Dilated<Body<N>> z(b); vf_eq(z.dilation, 0, "undilated"); vf_eq(z.sdf(p), b.ds, "undilated"); Dilated<Sphere<double,N>> y; vf_eq(y.dilation, 0, "undilated");
}
CONTRACT(P18_dilated2) { dilated<2>(); }
CONTRACT(P18_dilated3) { dilated<3>(); }
// special cases of dilate(): shapes that dilate to themselves
template <int N> static void dilates() {
    double k = vf_real(), r = vf_real(); V<N> c = pt<N>(), e = pt<N>(); vf_assume(0 <= r); vf_assume(0 <= k); if constexpr (requires { dilate(Sphere<double,N>(c, r), k).r; }) { Sphere<double,N> s = dilate(Sphere<double,N>(c, r), k); eq<N>(s.center, c, "dilated sphere"); vf_eq(s.r, r + k, "dilated sphere"); }
    if constexpr (requires { dilate(Capsule<double,N>(c, e, r), k).radius; }) { Capsule<double,N> s = dilate(Capsule<double,N>(c, e, r), k); eq<N>(s.p0, c, "dilated capsule"); eq<N>(s.p1, e, "dilated capsule"); vf_eq(s.radius, r + k, "dilated capsule"); }
}
CONTRACT(P18_dilates2) { dilates<2>(); }
CONTRACT(P18_dilates3) { dilates<3>(); }
// members every projectable shape inherits
template <int N> struct Bare : Projectable<double,N,Bare<N>> { bool member; V<N> proj; mutable V<N> asked; bool contains(V<N> p) const { asked = p; return member; } V<N> project(V<N> p) const { asked = p; return proj; } };
template <int N> struct Field : SdfEvaluable<double,N,Field<N>> { double ds; mutable V<N> asked; double sdf(V<N> p) const { asked = p; return ds; } };
template <int N> static void inherited() {
    V<N> p = pt<N>(); Bare<N> b; b.member = vf_bool(); b.proj = pt<N>(); vf_assume(0 < n2<N>(p - b.proj)); double d = b.sdf(p), g = b.member ? -1 : 1; vf_eq(d * d, n2<N>(p - b.proj), "distance to the projection"); vf_le(0, g * d, "containment is the sign of the distance"); V<N> n = b.normal(p); vf_eq(n2<N>(n), 1, "unit normal"); eq<N>(b.proj + d * n, p, "normal points from the projection"); V<N> c = b.clip(p); if (b.member) eq<N>(c, p, "clip keeps points of the shape"); else eq<N>(c, b.proj, "clip projects points outside"); eq<N>(b.asked, p, "shape asked about the point");
    Field<N> f; f.ds = vf_real(); vf_assert(f.contains(p) == (f.ds <= 0), "containment is the sign of the distance"); eq<N>(f.asked, p, "shape asked about the point");
}
CONTRACT(P18_inherited2) { inherited<2>(); }
CONTRACT(P18_inherited3) { inherited<3>(); }
// containment of the shapes without a distance of their own
template <int N> static void oriented() {
    V<N> p = pt<N>(), t; Xf<N> x = anyx<N>(); Base<N> g = base<N>(); Oriented<Base<N>> o(g, x); vf_assert(o.contains(p) == g.member, "base shape asked"); eq<N>(fwd<N>(x, o.shape.asked, 1), p, "base shape asked about the point carried back");
    Oriented<Base<N>> m = x * g; vf_assert(m.contains(p) == g.member, "transform * shape"); eq<N>(fwd<N>(x, m.shape.asked, 1), p, "transform * shape"); Oriented<Base<N>> d = g / x; vf_assert(d.contains(p) == g.member, "shape / transform"); eq<N>(d.shape.asked, fwd<N>(x, p, 1), "shape / transform"); 
    Oriented<Base<N>> u(g); AffineTransform<double,N> id; vf_assert(u.contains(p) == g.member, "untransformed"); eq<N>(u.shape.asked, p, "untransformed");
    Rect<double,N> b = box<N>(); Oriented<Rect<double,N>> ob(b, x); V<N> q = fwd<N>(x, p, 1, true); double e = 1; for (int i = 0; i < N; i++) e = std::min(e, gap(b.lo[i], q[i], b.hi[i])); vf_iff(ob.contains(p), in<N>(b, q), e, "box asked about the point carried back");
}
CONTRACT(P18_oriented2) { oriented<2>(); }
CONTRACT(P18_oriented3) { oriented<3>(); }
CONTRACT(P18_frustum) {
    V<3> p = pt<3>(); R1 z = box<1>(); Base<2> g = base<2>(); Frustum<Base<2>> f(g, z); double h = p[2]; bool k = f.contains(p), tall = in(z, h) & ((z.lo < 0) & (0 < z.hi) ? 0 <= h : true);
    if (h == 0) vf_iff(k, tall & (p[0] == 0) & (p[1] == 0), 1, "tip"); else if (tall) { vf_assert(k == g.member, "base shape asked"); eq<2>(f.base.asked * h, V<2>(p[0], p[1]), "base shape asked about the homogeneous projection"); } else vf_assert(!k, "height range");
    R1 c = f.clipped_height(); vf_iff(in(c, h), tall, vf_symbolic() ? 0 : std::min(std::abs(h), gap(z.lo, h, z.hi)), "clipped at the tip"); double h0 = vf_real(), h1 = vf_real(); Frustum<Base<2>> t(g, h0, h1); vf_eq(t.height.lo, std::min(h0, h1), "heights in order"); vf_eq(t.height.hi, std::max(h0, h1), "heights in order"); Frustum<Base<2>> w = frustum(g, h0, h1); vf_eq(w.height.lo, std::min(h0, h1), "frustum()"); vf_eq(w.height.hi, std::max(h0, h1), "frustum()");
}
// a point seen from a cylinder: t along the axis (0..1 between the caps), rd away from it; one path per region of space
template <int N> struct Cyl {
    V<N> p0, p1, p, a, b, W, u; double R, a2, d, t, g, w2, A, D_, T, G, rd, L, rw, S, P; int64_t region; bool inside, rim, cap;
    Cyl() {
        p0 = pt<N>(); p1 = pt<N>(); p = pt<N>(); a = p1 - p0; b = p - p0; R = vf_real(); vf_assume(0 <= R); a2 = n2<N>(a); vf_assume(0 < a2); d = dot<N>(a, b); t = d / a2; g = n2<N>(b) - d * t; W = b - t * a; w2 = n2<N>(W); vf_assume(0 < w2); double r = std::sqrt(g), l = std::sqrt(a2), e = vf_symbolic() ? 0 : 1e-3; if (!vf_symbolic()) { vf_assume(1e-2 < a2); vf_assume(1e-3 < w2); vf_assume(gap(0, t, 1) > e && std::abs(r - R) > e && std::abs(t - 0.5) > e && std::abs(l * std::min(t, 1 - t) - (R - r)) > e); }
        vf_lemma_eq(w2, g, "Pythagoras"); vf_lemma(0 < g, "off the axis"); vf_name(R); A = vf_name(a2); D_ = vf_name(d); T = vf_name(t); G = vf_name(g); rd = vf_name(r); L = vf_name(l); rw = vf_name(std::sqrt(w2));
        vf_lemma_eq(rw, rd, "distance to the axis"); vf_lemma(0 < A, "axis"); vf_lemma(0 < G, "off the axis"); vf_lemma_eq(rd * rd, G, "distance to the axis"); vf_lemma(0 < rd, "distance to the axis"); vf_lemma_eq(L * L, A, "length of the axis"); vf_lemma(0 < L, "length of the axis"); vf_lemma_eq(D_, T * A, "along the axis");
        double X = vf_name(d * d / a2), B = vf_name(n2<N>(b)); vf_lemma_eq(X, T * T * A, "along the axis"); vf_lemma_eq(G, B - X, "Pythagoras"); region = vf_pick(0, 8); inside = rim = cap = false; double m = t < 0.5 ? t : 1 - t;
        switch (region) {
            case 0: vf_assume(t < 0); vf_assume(r <= R); S = 0; P = rd; cap = true; break;
            case 1: vf_assume(t < 0); vf_assume(R < r); S = 0; P = R; rim = true; break;
            case 2: vf_assume(1 < t); vf_assume(r <= R); S = 1; P = rd; cap = true; break;
            case 3: vf_assume(1 < t); vf_assume(R < r); S = 1; P = R; rim = true; break;
            case 4: vf_assume(0 <= t); vf_assume(t <= 1); vf_assume(R <= r); S = T; P = R; break;
            case 5: vf_assume(0 <= t); vf_assume(t < 0.5); vf_lemma(!(1 - t < t), "nearer cap"); vf_lemma(!(t > 1), "nearer cap"); vf_assume(r < R); vf_assume(l * t < R - r); S = 0; P = rd; cap = inside = true; break;
            case 6: vf_assume(0.5 < t); vf_lemma(1 - t < t, "nearer cap"); vf_lemma(!(t < 0), "nearer cap"); vf_assume(t <= 1); vf_assume(r < R); vf_assume(l * (1 - t) < R - r); S = 1; P = rd; cap = inside = true; break;
            case 7: vf_assume(0 <= t); vf_assume(t <= 0.5); vf_lemma(!(1 - t < t), "nearer cap"); vf_lemma(!(t > 1), "nearer cap"); vf_assume(r < R); vf_assume(R - r <= l * t); S = T; P = R; inside = true; break;
            case 8: vf_assume(0.5 < t); vf_assume(t <= 1); vf_lemma(1 - t < t, "nearer cap"); vf_lemma(!(t < 0), "nearer cap"); vf_assume(r < R); vf_assume(R - r <= l * (1 - t)); S = T; P = R; inside = true; break;
        }
    }
    // the signed distance of that region
    double sd() const { return region == 0 ? -T * L : region == 2 ? (T - 1) * L : region == 4 || region == 7 ? rd - R : region == 5 ? -T * L : (T - 1) * L; }
};
template <int N> static void cylinder_sdf() {
    Cyl<N> c; Cylinder<double,N> s(c.p0, c.p1, c.R); double d = vf_name(s.sdf(c.p)), x = (c.S - c.T) * c.L, y = c.P - c.rd; bool in = s.contains(c.p); 
    vf_lemma_eq(d * d, x * x + y * y, "distance to the surface"); if (c.inside) vf_lemma(d <= 0, "negative inside"); else vf_lemma(0 <= d, "positive outside"); vf_assert(in == (c.inside | ((c.region == 4) & (c.rd == c.R))), "in the cylinder"); vf_iff(in, d <= 0, vf_symbolic() ? 0 : d, "containment is the sign of the distance");
}
template <int N> static void cylinder_project() {
    Cyl<N> c; Cylinder<double,N> s(c.p0, c.p1, c.R); V<N> q = s.project(c.p), k, h, al; vf_assert(in(0, c.S, 1) & (c.P <= c.R) & (0 <= c.P) & ((c.S == 0) | (c.S == 1) | (c.P == c.R)), "projection on the surface");
    for (int i = 0; i < N; i++) vf_eq(q[i] - c.p0[i], c.S * c.a[i] + c.P * (c.W[i] / std::sqrt(c.w2)), "projection on the surface");
}
// |S a + P u - (T a + rd u)|^2 for a unit u perpendicular to a
template <int N> static void cylinder_length() {
    V<N> a = pt<N>(), u = pt<N>(); double S = vf_real(), T = vf_real(), P = vf_real(), rd = vf_real(); if (!vf_symbolic()) { a = V<N>(0.); a[0] = S + 2; u = V<N>(0.); u[1] = 1; } vf_assume(dot<N>(a, u) == 0); vf_assume(n2<N>(u) == 1); V<N> h = (S - T) * a + (P - rd) * u; double x = S - T, y = P - rd; vf_lemma_eq(n2<N>(h), x * x * n2<N>(a) + 2 * x * y * dot<N>(a, u) + y * y * n2<N>(u), "squared length"); double A = vf_name(n2<N>(a)), B = vf_name(dot<N>(a, u)), C = vf_name(n2<N>(u)), H = vf_name(n2<N>(h)); vf_name(S); vf_name(T); vf_name(P); vf_name(rd); vf_lemma_eq(B, 0, "perpendicular"); vf_lemma_eq(C, 1, "unit"); vf_eq(H, x * x * A + y * y, "distance to the projection");
}
template <int N> static void cylinder_normal() {
    Cyl<N> c; Cylinder<double,N> s(c.p0, c.p1, c.R); V<N> q = s.project(c.p), n = s.normal(c.p); 
    if (c.cap) for (int i = 0; i < N; i++) vf_eq(n[i] * std::sqrt(c.a2), c.S == 0 ? -c.a[i] : c.a[i], "normal of the cap"); 
    else if (!c.rim) { V<N> u = c.W / std::sqrt(c.g); double m = n2<N>(u); vf_lemma_eq(m, c.w2 / c.g, "unit radius"); vf_lemma_eq(m, 1, "unit radius"); vf_lemma_eq(std::sqrt(m), 1, "unit radius"); for (int i = 0; i < N; i++) vf_eq(n[i] * std::sqrt(c.g), c.W[i], "normal of the wall"); }
}
CONTRACT(P18_cylinder_sdf2) { cylinder_sdf<2>(); }
CONTRACT(P18_cylinder_sdf3) { cylinder_sdf<3>(); }
CONTRACT(P18_cylinder_project2) { cylinder_project<2>(); }
CONTRACT(P18_cylinder_project3) { cylinder_project<3>(); }
CONTRACT(P18_cylinder_length2) { cylinder_length<2>(); }
CONTRACT(P18_cylinder_length3) { cylinder_length<3>(); }
CONTRACT(P18_cylinder_normal2) { cylinder_normal<2>(); }
CONTRACT(P18_cylinder_normal3) { cylinder_normal<3>(); }
//@@ P18_cylinder_sdf2 P18_cylinder_sdf3 P18_cylinder_project2 P18_cylinder_project3 P18_cylinder_length2 P18_cylinder_length3 P18_cylinder_normal2 P18_cylinder_normal3 P18_extruded P18_dilated2 P18_dilated3 P18_dilates2 P18_dilates3 P18_inherited2 P18_inherited3 P18_oriented2 P18_oriented3 P18_frustum P18_sphere2 P18_sphere3 P18_capsule2 P18_capsule3 P18_rect2 P18_rect3
//@ P18_capsule* P18_cylinder_sdf*: par=3
//@ P18_capsule*: forksel
