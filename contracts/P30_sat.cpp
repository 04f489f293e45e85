// P30: box-box overlap by separating axes.
#include "xf.h"
#include <geomc/shape/Rect.h>
#include <geomc/shape/Oriented.h>
template <int N> using V = Vc<N>; template <int N> using Box = Rect<double,N>; template <int N> using OBox = Oriented<Rect<double,N>>; template <int N> using Helper = detail::RectAxisHelper<double,N>;
template <int N> static double dt(const V<N>& a, const V<N>& b) { double s = 0; for (int i = 0; i < N; i++) s += a[i] * b[i]; return s; }
template <int N> static Box<N> anybox() { V<N> l = anyv<N>(), h; for (int i = 0; i < N; i++) { double w = vf_real(); vf_assume(0 <= w); h[i] = l[i] + w; } return Box<N>(l, h); }
template <int N> static V<N> corner(const Box<N>& b, int c) { V<N> p; for (int i = 0; i < N; i++) p[i] = (c >> i & 1) ? b.hi[i] : b.lo[i]; return p; }
// the axes beyond the world's: the normals of the oriented box, and in 3-D the cross products of the edges
template <int N> static V<N> expect(const Xf<N>& x, int i) { V<N> a; if constexpr (N == 3) if (i >= 3) { V<N> e, c; e[i / 3 - 1] = 1; for (int k = 0; k < N; k++) c[k] = x.mat(k, i % 3); a[0] = e[1] * c[2] - e[2] * c[1]; a[1] = e[2] * c[0] - e[0] * c[2]; a[2] = e[0] * c[1] - e[1] * c[0]; return a; } for (int k = 0; k < N; k++) a[k] = x.inv(i, k); return a; }
static constexpr int axes(int n) { return n == 2 ? 2 : 12; }
template <int N> static void axis() { Xf<N> x = anyx<N>(); Helper<N> h(x); int n = 0; for (; !h.done() && n < 100; h.next(), n++) { V<N> a = h.axis(), b = expect<N>(x, n); for (int k = 0; k < N; k++) vf_eq(a[k], b[k], "the axis"); if (n < N) for (int j = 0; j < N; j++) { V<N> c; for (int k = 0; k < N; k++) c[k] = x.mat(k, j); vf_eq(dt<N>(a, c), j == n, "perpendicular to the other edges"); } } vf_assert(n == axes(N), "every axis"); }
CONTRACT(P30_axis2) { axis<2>(); }
CONTRACT(P30_axis3) { axis<3>(); }
extern "C" {
Vec<double,2> raw_axis2(void*) __asm__("_ZN4geom6detail14RectAxisHelperIdLl2EE4axisEv"); Vec<double,3> raw_axis3(void*) __asm__("_ZN4geom6detail14RectAxisHelperIdLl3EE4axisEv");
bool raw_done2(void*) __asm__("_ZN4geom6detail14RectAxisHelperIdLl2EE4doneEv"); bool raw_done3(void*) __asm__("_ZN4geom6detail14RectAxisHelperIdLl3EE4doneEv");
double raw_dot2(const void*, const Vec<double,2>&) __asm__("_ZNK4geom6detail9VecCommonIdLl2ENS_3VecIdLl2EEEE3dotERKS3_"); double raw_dot3(const void*, const Vec<double,3>&) __asm__("_ZNK4geom6detail9VecCommonIdLl3ENS_3VecIdLl3EEEE3dotERKS3_");
Vec<double,2> raw_apply2(const void*, const Vec<double,2>&) __asm__("_ZNK4geom15AffineTransformIdLl2EE5applyERKNS_3VecIdLl2EEE"); Vec<double,3> raw_apply3(const void*, const Vec<double,3>&) __asm__("_ZNK4geom15AffineTransformIdLl3EE5applyERKNS_3VecIdLl3EEE");
bool raw_sat2(const void*, const void*) __asm__("_ZN4geom6detail15RectIntersectorIdLl2EvE9intersectERKNS_8OrientedINS_4RectIdLl2EEEEERKS5_"); bool raw_sat3(const void*, const void*) __asm__("_ZN4geom6detail15RectIntersectorIdLl3EvE9intersectERKNS_8OrientedINS_4RectIdLl3EEEEERKS5_");
}
// the projections of two point sets are apart
template <int M> static bool apart(const double* p, const double* q, double& margin) { double pl = p[0], ph = p[0], ql = q[0], qh = q[0]; for (int c = 1; c < M; c++) { pl = std::min(pl, p[c]); ph = std::max(ph, p[c]); ql = std::min(ql, q[c]); qh = std::max(qh, q[c]); } margin = std::min(margin, std::min(std::abs(ph - ql), std::abs(qh - pl))); if (margin == 0) margin = 1e-12; return ph < ql || qh < pl; }
// by the contract of the transform, any images of the corners
template <int N> struct W { static inline Box<N> shape; static inline V<N> p[1 << N], q[1 << N]; static inline double s[1 << N], t[1 << N]; static inline V<N> a; static inline int at; 
    static V<N> apply(const void*, const V<N>& v) { for (int c = 0; c < 1 << N; c++) if (v == corner<N>(shape, c)) return p[c]; vf_assert(false, "a corner of the box"); return v; }
    static bool done(void*) { return true; }
    static V<N> axis(void* h) { return ((Helper<N>*) h)->i == at ? a : V<N>(); }
    static double dot(const void* u, const V<N>& v) { vf_assert(*(const V<N>*) u == a, "projected on the axis"); for (int c = 0; c < 1 << N; c++) { if (v == p[c]) return s[c]; if (v == q[c]) return t[c]; } vf_assert(false, "a corner is projected"); return 0; } };
template <int N> static bool worldapart(const V<N>* p, const V<N>* q, double& margin) { bool sep = false; for (int k = 0; k < N; k++) { double s[1 << N], t[1 << N]; for (int c = 0; c < 1 << N; c++) { s[c] = p[c][k]; t[c] = q[c][k]; } if (apart<1 << N>(s, t, margin)) sep = true; } return sep; }
// on the world's axes: the corners of b are its extremes
template <int N> static void world(bool flat) { typedef W<N> S; constexpr int M = 1 << N; double margin = 1; V<N> l = anyv<N>(), h = l; int flatten = flat ? vf_pick(1, M - 1) : 0; for (int i = 0; i < N; i++) if (!(flatten >> i & 1)) { double w = vf_real(); vf_assume(0 < w); h[i] += w; } S::shape = Box<N>(l, h); Box<N> b = anybox<N>(); 
    Xf<N> x; if (!vf_symbolic()) x = anyx<N>(); OBox<N> o(S::shape, x); for (int c = 0; c < M; c++) { S::q[c] = corner<N>(b, c); S::p[c] = vf_symbolic() ? (c & flatten ? S::p[c & ~flatten] : anyv<N>()) : x * corner<N>(o.shape, c); for (int k = 0; k < N; k++) vf_assume(-1e300 < S::p[c][k] && S::p[c][k] < 1e300); }
    if (vf_symbolic()) { if constexpr (N == 2) vf_replace((const void*) raw_apply2, (const void*) S::apply); else vf_replace((const void*) raw_apply3, (const void*) S::apply); if constexpr (N == 2) vf_replace((const void*) raw_done2, (const void*) S::done); else vf_replace((const void*) raw_done3, (const void*) S::done); }
    bool sep = worldapart<N>(S::p, S::q, margin), r = o.intersects(b); if (vf_symbolic()) vf_iff(r, !sep, margin, "no world axis separates"); else if (sep) vf_iff(r, false, margin, "no world axis separates"); }
CONTRACT(P30_world2) { world<2>(false); }
CONTRACT(P30_world2f) { world<2>(true); }
CONTRACT(P30_world3) { world<3>(false); }
CONTRACT(P30_world3f) { world<3>(true); }
// on every other axis: any projections of the corners of two overlapping boxes on the k-th axis, no other axis
template <int N> static void along(int k0, int k1) { typedef W<N> S; constexpr int M = 1 << N; V<N> z, one, two; for (int i = 0; i < N; i++) { one[i] = 1; two[i] = 2; } S::at = vf_pick(k0, k1); double margin = 1; 
    if (vf_symbolic()) { Xf<N> x; for (int i = 0; i < N; i++) { x.mat(i, i) = 2; x.mat(i, N) = .5; } OBox<N> o(Box<N>(z, one), x); Box<N> b(one, two); for (int c = 0; c < M; c++) { S::p[c] = x * corner<N>(o.shape, c); S::q[c] = corner<N>(b, c); S::s[c] = vf_real(); S::t[c] = vf_real(); vf_assume(-1e300 < S::s[c] && S::s[c] < 1e300); vf_assume(-1e300 < S::t[c] && S::t[c] < 1e300); } for (int i = 0; i < N; i++) S::a[i] = 3 + i;
        if constexpr (N == 2) vf_replace((const void*) raw_axis2, (const void*) S::axis); else vf_replace((const void*) raw_axis3, (const void*) S::axis); if constexpr (N == 2) vf_replace((const void*) raw_dot2, (const void*) S::dot); else vf_replace((const void*) raw_dot3, (const void*) S::dot); bool sep = apart<M>(S::s, S::t, margin); vf_iff(o.intersects(b), !sep, margin, "this axis does not separate"); }
    else { OBox<N> o(anybox<N>(), anyx<N>()); Box<N> b = anybox<N>(); for (int c = 0; c < M; c++) { S::p[c] = o.xf * corner<N>(o.shape, c); S::q[c] = corner<N>(b, c); } bool sep = worldapart<N>(S::p, S::q, margin); for (int i = 0; i < axes(N); i++) { V<N> a = expect<N>(o.xf, i); if (a == V<N>()) continue; for (int c = 0; c < M; c++) { S::s[c] = dt<N>(a, S::p[c]); S::t[c] = dt<N>(a, S::q[c]); } if (apart<M>(S::s, S::t, margin)) sep = true; } vf_iff(o.intersects(b), !sep, margin, "this axis does not separate"); } }
CONTRACT(P30_along2) { along<2>(0, 1); }
CONTRACT(P30_along3) { along<3>(0, 11); }
// an axis that separates the corners separates the boxes: no point is in both
LEMMA(P30_edge, (a, l, h, x), (l <= x) & (x <= h), ((a * l <= a * x) & (a * x <= a * h)) | ((a * h <= a * x) & (a * x <= a * l)))
template <int N> static void shared() { constexpr int M = 1 << N; Box<N> u = anybox<N>(), b = anybox<N>(); V<N> m = anyv<N>(), a = anyv<N>(), x = anyv<N>(), y = anyv<N>(); double s[M], t[M], X = vf_real(), Y = 0, margin = 1, k = X, f[N][2], g[N][2]; vf_assume(-1e300 < X);
    for (int i = 0; i < N; i++) { vf_assume(u.lo[i] <= x[i]); vf_assume(x[i] <= u.hi[i]); vf_assume(b.lo[i] <= y[i]); vf_assume(y[i] <= b.hi[i]); use_P30_edge(m[i], u.lo[i], u.hi[i], x[i]); use_P30_edge(a[i], b.lo[i], b.hi[i], y[i]); f[i][0] = vf_name(m[i] * u.lo[i]); f[i][1] = vf_name(m[i] * u.hi[i]); g[i][0] = vf_name(a[i] * b.lo[i]); g[i][1] = vf_name(a[i] * b.hi[i]); X += vf_name(m[i] * x[i]); Y += vf_name(a[i] * y[i]); }
    for (int c = 0; c < M; c++) { s[c] = k; t[c] = 0; for (int i = 0; i < N; i++) { s[c] += f[i][c >> i & 1]; t[c] += g[i][c >> i & 1]; } } if (apart<M>(s, t, margin)) vf_assert(X != Y, "no shared point"); }
CONTRACT(P30_shared2) { shared<2>(); }
CONTRACT(P30_shared3) { shared<3>(); }
// a box with no points overlaps nothing
template <int N> static void empty() { Box<N> u = anybox<N>(), b = anybox<N>(); int k = vf_pick(0, N - 1); Box<N>& e = vf_pick(0, 1) ? u : b; double w = vf_real(); vf_assume(0 < w); e.hi[k] = e.lo[k] - w; OBox<N> o(u, anyx<N>()); vf_assert(!o.intersects(b), "an empty box"); vf_assert(!b.intersects(o), "an empty box"); }
CONTRACT(P30_empty2) { empty<2>(); }
CONTRACT(P30_empty3) { empty<3>(); }
// two oriented boxes: the same test in the frame of one of them
template <int N> struct F { static inline OBox<N> o; static inline Box<N> b; static inline bool r; static bool sat(const void* p, const void* q) { o = *(const OBox<N>*) p; b = *(const Box<N>*) q; return r; } };
template <int N> static void framed() { typedef F<N> S; OBox<N> o(anybox<N>(), anyx<N>()), w(anybox<N>(), anyx<N>()); if (vf_symbolic()) { if constexpr (N == 2) vf_replace((const void*) raw_sat2, (const void*) S::sat); else vf_replace((const void*) raw_sat3, (const void*) S::sat); S::r = vf_bool(); vf_assert(o.intersects(w) == S::r, "the test in the box's frame"); 
        for (int i = 0; i < N; i++) { vf_eq(S::b.lo[i], o.shape.lo[i], "this box"); vf_eq(S::b.hi[i], o.shape.hi[i], "this box"); vf_eq(S::o.shape.lo[i], w.shape.lo[i], "the other box"); vf_eq(S::o.shape.hi[i], w.shape.hi[i], "the other box"); }
        V<N> x = anyv<N>(), y = fwd<N>(o.xf, fwd<N>(S::o.xf, x, 1), 1), z = fwd<N>(w.xf, x, 1); for (int i = 0; i < N; i++) vf_eq(y[i], z[i], "moved to the frame of this box"); S::r = vf_bool(); Box<N> b = anybox<N>(); vf_assert(b.intersects(o) == S::r, "the same test from the rectangle"); vf_assert(o.intersects(b) == S::r, "the same test"); } 
    else { OBox<N> v = w / o.xf; vf_assert(o.intersects(w) == v.intersects(o.shape), "the test in the box's frame"); vf_assert(o.shape.intersects(v) == v.intersects(o.shape), "the same test from the rectangle"); } }
CONTRACT(P30_frame2) { framed<2>(); }
CONTRACT(P30_frame3) { framed<3>(); }
//@@ P30_axis2 P30_axis3 P30_world2 P30_world2f P30_world3 P30_world3f P30_along2 P30_along3 P30_shared2 P30_shared3 P30_frame2 P30_frame3 P30_empty2 P30_empty3
//@assume the separating axis theorem (two convex boxes share a point exactly when no face normal or edge cross product separates them) is taken as proved; that the code's answer is exactly "no such axis separates" is discharged
//@ P30_along*: bounded="corner coordinates fixed, any projections of them on the axis"
