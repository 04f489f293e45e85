// P16: axis-aligned boxes as sets of points.
#include "vf.h"
#include <geomc/linalg/Matrix.h>
#include <geomc/shape/Rect.h>
#include <geomc/GeomException.cpp>
using namespace geom;
template <typename T, int N> struct B {
    typedef Rect<T,N> R; typedef typename R::point_t P; typedef PointType<T,N> PT;
    static constexpr bool I = std::is_integral<T>::value;
    static T& at(P& p, int i) { return PT::iterator(p)[i]; } static T at(const P& p, int i) { return PT::iterator(p)[i]; }
    static inline int64_t lim = 1000000;   // integer coordinates: no overflow of T
    static P pt() { P p; for (int i = 0; i < N; i++) if constexpr (I) at(p, i) = (T) vf_int(-lim, lim); else at(p, i) = vf_real(); return p; }
    static R any() { P l = pt(), h = pt(); return R(l, h); }
    static R filled() { P l = pt(), h = pt(); for (int i = 0; i < N; i++) vf_assume(at(l, i) <= at(h, i)); return R(l, h); }
    static bool in(const R& r, const P& p) { bool b = true; for (int i = 0; i < N; i++) b = b & (at(r.lo, i) <= at(p, i)) & (at(p, i) <= at(r.hi, i)); return b; }
    static bool full(const R& r) { bool b = true; for (int i = 0; i < N; i++) b = b & (at(r.lo, i) <= at(r.hi, i)); return b; }
    static bool sub(const R& a, const R& b) { bool k = true; for (int i = 0; i < N; i++) k = k & (at(b.lo, i) <= at(a.lo, i)) & (at(a.hi, i) <= at(b.hi, i)); return k; }   // a non-empty
    static void eq(const P& a, const P& b, const char* n) { for (int i = 0; i < N; i++) vf_same<T>(at(a, i), at(b, i), n); }
    static void eq(const R& a, const R& b, const char* n) { eq(a.lo, b.lo, n); eq(a.hi, b.hi, n); }
    // smallest box containing both
    static void join() {
        R a = filled(), b = filled(), c = any(), u = a | b, v = a; P p = pt(); v |= b; eq(u, v, "compound union"); vf_assert(sub(a, u) & sub(b, u), "union contains both boxes");
        vf_assert(!(sub(a, c) & sub(b, c)) | sub(u, c), "union is the smallest such box"); R e, l = a | e, r = e | a; eq(l, a, "union with the empty box"); eq(r, a, "union with the empty box"); eq(a | R::empty, a, "union with the empty box");
        R w = a | p, x = a; x |= p; eq(w, x, "compound union with a point"); vf_assert(sub(a, w) & in(w, p), "union contains the box and the point"); vf_assert(!(sub(a, c) & in(c, p)) | sub(w, c), "union with a point is the smallest such box"); eq(e | p, R(p, p), "union of nothing and a point");
    }
    static void meet() {
        R a = any(), b = any(), m = a & b, n = a; P p = pt(); n &= b; eq(m, n, "compound intersection"); vf_assert(in(m, p) == (in(a, p) & in(b, p)), "intersection holds exactly the common points");
        vf_assert(a.contains(p) == in(a, p), "contains(point)"); vf_assert(R::contains(a.lo, a.hi, p) == in(a, p), "contains(lo, hi, point)"); vf_assert(a.is_empty() == !full(a), "is_empty"); vf_assert(R().is_empty() && !R().contains(p), "the default box is empty"); vf_assert(R::empty.is_empty() && R::full.contains(p), "empty and full");
    }
    static void overlap() {
        R a = any(), b = any(); P p = pt(), q; for (int i = 0; i < N; i++) at(q, i) = at(a.lo, i) < at(b.lo, i) ? at(b.lo, i) : at(a.lo, i);
        if (a.intersects(b)) vf_assert(in(a, q) & in(b, q), "overlapping boxes share a point"); else vf_assert(!(in(a, p) & in(b, p)), "non-overlapping boxes share no point");
    }
    static void within() {
        R a = any(), b = any(); P p = pt(); bool k = a.contains(b);
        if (k) vf_assert(!in(b, p) | in(a, p), "a contained box has no point outside"); else vf_assert(in(b, b.lo) & in(b, b.hi) & !(in(a, b.lo) & in(a, b.hi)), "a box not contained has a point outside");
    }
    static void clip() { lim = 10000;
        R a = filled(); P p = pt(), q = pt(), c = a.clip(p); vf_assert(in(a, c), "clip returns a contained point"); if (in(a, p)) eq(c, p, "clip leaves contained points"); vf_assume(in(a, q));
        T d = 0, e = 0; for (int i = 0; i < N; i++) { T x = at(p, i) - at(c, i), y = at(p, i) - at(q, i); d += x * x; e += y * y; vf_lemma((x <= y && 0 <= x) || (y <= x && x <= 0), "per axis"); vf_lemma(x * x <= y * y, "per axis"); }
        vf_assert(d <= e, "clip returns the nearest contained point"); vf_same<T>(a.dist2(p), d, "dist2 is the squared distance to the nearest point");
    }
    static void move() {
        R a = any(); P d = pt(), p = pt(), s; R t = a + d, u = a - d, k = a, l = a; k += d; l -= d; eq(t, k, "compound translation"); eq(u, l, "compound translation"); eq(d + a, t, "translation commutes"); vf_assert(in(t, p + d) == in(a, p), "translation moves every point"); vf_assert(in(u, p - d) == in(a, p), "translation moves every point");
        R b = any(), m = a.minkowski_sum(b); P q = pt(); vf_assert(!(in(a, p) & in(b, q)) | in(m, p + q), "minkowski sum contains the sums"); eq(m.lo, a.lo + b.lo, "minkowski sum is tight"); eq(m.hi, a.hi + b.hi, "minkowski sum is tight"); eq(a.dilated(d), R(a.lo - d, a.hi + d), "dilated");
        vf_assert(in(a.abs(), p) == [&]{ bool k = true; for (int i = 0; i < N; i++) k = k & (((at(a.lo, i) <= at(p, i)) & (at(p, i) <= at(a.hi, i))) | ((at(a.hi, i) <= at(p, i)) & (at(p, i) <= at(a.lo, i)))); return k; }(), "abs orders the corners"); eq(a.bounds(), a, "bounds");
        vf_assert((a == b) == ([&]{ bool k = true; for (int i = 0; i < N; i++) k = k & (at(a.lo, i) == at(b.lo, i)) & (at(a.hi, i) == at(b.hi, i)); return k; }()), "equality"); vf_assert((a != b) == !(a == b), "inequality");
    }
    static void scale() { lim = 20000;
        R a = filled(); P s = pt(), p = pt(); vf_assume(in(a, p)); R m = a * s, k = a; k *= s; eq(m, k, "compound scaling"); vf_assert(full(m), "a scaled box is not empty");
        for (int i = 0; i < N; i++) { T x = at(s, i), l = at(a.lo, i), h = at(a.hi, i), q = at(p, i) * x; vf_lemma(x <= 0 || (l * x <= q && q <= h * x), "order"); vf_lemma(0 <= x || (h * x <= q && q <= l * x), "order"); vf_lemma(x != 0 || q == 0, "order"); vf_assert(at(m.lo, i) <= q && q <= at(m.hi, i), "scaling moves every point");
            vf_assert((at(m.lo, i) == l * x && at(m.hi, i) == h * x) || (at(m.lo, i) == h * x && at(m.hi, i) == l * x), "scaled faces are images of faces"); }
    }
    static void divide() {
        R a = filled(); P s = pt(); for (int i = 0; i < N; i++) vf_assume(at(s, i) != 0); R m = a / s, k = a; k /= s; eq(m, k, "compound division"); 
        for (int i = 0; i < N; i++) { T x = at(s, i), l = at(a.lo, i) / x, h = at(a.hi, i) / x; vf_assert(at(m.lo, i) <= at(m.hi, i), "a scaled box is not empty"); vf_assert((at(m.lo, i) == l && at(m.hi, i) == h) || (at(m.lo, i) == h && at(m.hi, i) == l), "scaled faces are images of faces"); }
    }
    static void build() {
        P a = pt(), b = pt(), d; for (int i = 0; i < N; i++) at(d, i) = I ? (T) vf_int(1, 1000000) : vf_any<T>(); R s = R::spanning_corners(a, b); vf_assert(in(s, a) & in(s, b) & full(s), "spanning box contains both corners"); for (int i = 0; i < N; i++) vf_assert((at(s.lo, i) == at(a, i) || at(s.lo, i) == at(b, i)) && (at(s.hi, i) == at(a, i) || at(s.hi, i) == at(b, i)), "spanning box touches the corners");
        R t = any(); t.set_corners(a, b); eq(t, s, "set_corners"); eq(R(a), R(a, a), "box of one point");
        R f = R::from_corner(a, d), c = R::from_center(a, d), z = R::from_size(d); vf_assert(in(f, a), "from_corner contains the corner"); eq(c.center(), a, "from_center has the center"); eq(z, R::from_center(P(), d), "from_size is centered on the origin"); eq(s.centered_on(a).center(), a, "centered_on"); eq(s.centered_on(a).dimensions(), s.dimensions(), "centered_on keeps the size");
        for (int i = 0; i < N; i++) { T m = at(d, i) < 0 ? -at(d, i) : at(d, i), h = I ? 1 : 0; vf_same<T>(at(f.hi, i) - at(f.lo, i) + h, m, "from_corner has the size"); vf_same<T>(at(c.hi, i) - at(c.lo, i) + h, m, "from_center has the size"); vf_same<T>(at(s.dimensions(), i), at(s.hi, i) - at(s.lo, i) + h, "dimensions"); }
        R g = s; P mid = g.center(); g.set_dimensions(d); eq(g.center(), mid, "set_dimensions keeps the center"); for (int i = 0; i < N; i++) vf_same<T>(at(g.dimensions(), i), at(d, i) < 0 ? -at(d, i) : at(d, i), "set_dimensions sets the size");
        if constexpr (!I) for (int i = 0; i < N; i++) vf_same<T>(2 * at(mid, i), at(s.lo, i) + at(s.hi, i), "center is the midpoint"); else for (int i = 0; i < N; i++) { T x = at(s.lo, i) + at(s.hi, i) + 1; vf_assert(2 * at(mid, i) == x || 2 * at(mid, i) == x - 1, "center is the middle cell"); vf_assert(at(s.lo, i) <= at(mid, i) && at(mid, i) <= at(s.hi, i), "the center cell belongs to the box"); }
    }
    static void measure() { lim = 600;
        R a = any(); T v = 1; for (int i = 0; i < N; i++) v *= at(a.hi, i) - at(a.lo, i) + (I ? 1 : 0); if (full(a)) vf_same<T>(a.volume(), v, "volume is the product of the dimensions"); else if constexpr (!I) vf_same<T>(a.volume(), 0, "an empty box has no volume");
        for (int i = 0; i < N; i++) { Rect<T,1> x = a.axis(i); vf_same<T>(x.lo, at(a.lo, i), "axis"); vf_same<T>(x.hi, at(a.hi, i), "axis"); }
        P q[3] = {pt(), pt(), pt()}; R c = any(), s = R::from_point_sequence(q, q + 3); vf_assert(in(s, q[0]) & in(s, q[1]) & in(s, q[2]), "bound of points contains them"); vf_assert(!(in(c, q[0]) & in(c, q[1]) & in(c, q[2])) | sub(s, c), "bound of points is the smallest"); vf_assert(R::from_point_sequence(q, q).is_empty(), "bound of nothing is empty");
    }
    static void support() { lim = 20000;  R a = filled(); P d = pt(), p = pt(), s = a.convex_support(d); vf_assert(in(a, s), "support point belongs to the box"); vf_assume(in(a, p)); T e = 0, f = 0; for (int i = 0; i < N; i++) { T x = at(d, i) * at(s, i), y = at(d, i) * at(p, i); vf_lemma(y <= x, "per axis"); e += x; f += y; } vf_assert(f <= e, "support point is extreme"); }
    static void map() { R a = any(); P p = pt(), q = pt(); for (int i = 0; i < N; i++) vf_assume(at(a.lo, i) != at(a.hi, i)); eq(a.remap(a.unmap(p)), p, "remap undoes unmap"); eq(a.unmap(a.remap(p)), p, "unmap undoes remap"); P m = a.remap(p); for (int i = 0; i < N; i++) vf_same<T>(at(m, i), at(a.lo, i) * (1 - at(p, i)) + at(a.hi, i) * at(p, i), "remap interpolates the corners");
        eq(a.remap(P(T(0))), a.lo, "remap(0)"); eq(a.remap(P(T(1))), a.hi, "remap(1)"); (void) q; }
    static void fit() {
        R a = filled(), b = filled(); for (int i = 0; i < N; i++) vf_assume(at(a.lo, i) < at(a.hi, i)); R f = a.fitted_to(b); P da = a.dimensions(), df = f.dimensions(), db = b.dimensions();
        eq(f.center(), b.center(), "fitted box is concentric"); T tight = 1; for (int i = 0; i < N; i++) { vf_eq(at(df, i) * at(da, 0), at(df, 0) * at(da, i), "fitted box has the same aspect"); vf_lemma(at(db, i) <= at(df, i), "fitted box is large enough"); tight *= at(df, i) - at(db, i); } 
        vf_eq(tight, 0, "fitted box is as small as possible"); for (int i = 0; i < N; i++) { vf_le(at(f.lo, i), at(b.lo, i), "fitted box contains the other"); vf_le(at(b.hi, i), at(f.hi, i), "fitted box contains the other"); }
    }
    static void contact() {
        R a = filled(), b = filled(); auto [v, over] = a.contact_vector(b); vf_assert(over == a.intersects(b), "contact flag is the overlap test"); R m = a + v; T depth = 0; for (int i = 0; i < N; i++) { T x = at(m.hi, i) - at(b.lo, i), y = at(b.hi, i) - at(m.lo, i), d = x < y ? x : y; if (i == 0 || d < depth) depth = d; } vf_eq(depth, 0, "moved box touches the other with no interior overlap"); int moved = 0; for (int i = 0; i < N; i++) { T g = at(b.lo, i) - at(a.hi, i), h = at(b.hi, i) - at(a.lo, i), x = at(v, i); bool lap = (g <= 0) & (0 <= h); if (x != 0) moved++; if (!over) vf_assert(x == (lap ? (T) 0 : 0 < g ? g : h), "moves just the axes apart"); else for (int j = 0; j < N; j++) { T y = at(v, j); vf_assert(((y < 0 ? -y : y) <= (g < 0 ? -g : g)) & ((y < 0 ? -y : y) <= (h < 0 ? -h : h)), "out by the nearest face"); } } if (over) vf_assert(moved <= 1, "out along one axis");
        for (int i = 0; i < N; i++) for (int s = 0; s < 2; s++) if (over) { T e = s ? at(b.hi, i) - at(a.lo, i) : at(b.lo, i) - at(a.hi, i), d = 0; for (int j = 0; j < N; j++) d += at(v, j) < 0 ? -at(v, j) : at(v, j); vf_le(d, e < 0 ? -e : e, "contact vector is the shortest axis translation"); }
    }
};
#define K(NAME, T, N, F) CONTRACT(P16_##F##_##NAME) { B<T,N>::F(); }
#define KI(F) K(d1,double,1,F) K(d2,double,2,F) K(d3,double,3,F) K(i1,int,1,F) K(i2,int64_t,2,F) K(i3,int,3,F)
#define KD(F) K(d1,double,1,F) K(d2,double,2,F) K(d3,double,3,F)
KI(join) KI(meet) KI(overlap) KI(within) KI(move) KI(scale) KI(build) KI(measure) KI(support) KI(clip)
KD(divide) KD(map) KD(fit) KD(contact)
template <typename T> static void slices() {
    typedef B<T,3> b3; Rect<T,3> a = b3::any(); Rect<T,2> b = B<T,2>::any(); auto s = a(2, 0); static_assert(std::is_same_v<decltype(s), Rect<T,2>>); B<T,2>::eq(s, Rect<T,2>(Vec<T,2>(a.lo[2], a.lo[0]), Vec<T,2>(a.hi[2], a.hi[0])), "slice takes the named axes"); auto o = a(1); vf_same<T>(o.lo, a.lo[1], "slice of one axis"); vf_same<T>(o.hi, a.hi[1], "slice of one axis"); B<T,3>::eq(a(0, 1, 2), a, "slice of all axes");
    auto p = b * B<T,1>::any(); auto q = a.axis(2) * b; for (int i = 0; i < 2; i++) { vf_same<T>(p.lo[i], b.lo[i], "product"); vf_same<T>(p.hi[i], b.hi[i], "product"); vf_same<T>(q.lo[i + 1], b.lo[i], "product"); vf_same<T>(q.hi[i + 1], b.hi[i], "product"); } vf_same<T>(q.lo[0], a.lo[2], "product"); vf_same<T>(q.hi[0], a.hi[2], "product");
    Vec<T,3> x = b3::pt(); vf_assert(q.contains(x) == (a.axis(2).contains(x[0]) && b.contains(Vec<T,2>(x[1], x[2]))), "product holds exactly the pairs");
}
//@@ P16_join_d1 P16_join_d2 P16_join_d3 P16_join_i1 P16_join_i2 P16_join_i3 P16_meet_d1 P16_meet_d2 P16_meet_d3 P16_meet_i1 P16_meet_i2 P16_meet_i3 P16_overlap_d1 P16_overlap_d2 P16_overlap_d3 P16_overlap_i1 P16_overlap_i2 P16_overlap_i3 P16_within_d1 P16_within_d2 P16_within_d3 P16_within_i1 P16_within_i2 P16_within_i3 P16_move_d1 P16_move_d2 P16_move_d3 P16_move_i1 P16_move_i2 P16_move_i3 P16_scale_d1 P16_scale_d2 P16_scale_d3 P16_scale_i1 P16_scale_i2 P16_scale_i3 P16_build_d1 P16_build_d2 P16_build_d3 P16_build_i1 P16_build_i2 P16_build_i3 P16_measure_d1 P16_measure_d2 P16_measure_d3 P16_measure_i1 P16_measure_i2 P16_measure_i3 P16_support_d1 P16_support_d2 P16_support_d3 P16_support_i1 P16_support_i2 P16_support_i3 P16_clip_d1 P16_clip_d2 P16_clip_d3 P16_clip_i1 P16_clip_i2 P16_clip_i3 P16_divide_d1 P16_divide_d2 P16_divide_d3 P16_map_d1 P16_map_d2 P16_map_d3 P16_fit_d1 P16_fit_d2 P16_fit_d3 P16_contact_d1 P16_contact_d2 P16_contact_d3
CONTRACT(P16_slices_d) { slices<double>(); }
CONTRACT(P16_slices_i) { slices<int>(); }
