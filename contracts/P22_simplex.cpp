// P22: simplex queries match the convex hull of the vertices.
#include "shape.h"
#include <geomc/shape/Simplex.h>
template <int N> using S = Simplex<double,N>;
template <int N> static double cross2(const V<N>& a, const V<N>& b) { return n2<N>(a) * n2<N>(b) - dot<N>(a, b) * dot<N>(a, b); }
template <int N> static double det(const V<N>* e) { if constexpr (N == 2) return e[0][0] * e[1][1] - e[0][1] * e[1][0]; else return e[0][0] * (e[1][1] * e[2][2] - e[1][2] * e[2][1]) - e[0][1] * (e[1][0] * e[2][2] - e[1][2] * e[2][0]) + e[0][2] * (e[1][0] * e[2][1] - e[1][1] * e[2][0]); }
// Gram determinant of the edges from the first vertex
template <int N> static double gram(const S<N>& s) {
    V<N> e[N]; for (int i = 1; i < s.n; i++) e[i - 1] = s.pts[i] - s.pts[0];
    if (s.n == 1) return 1; if (s.n == 2) return n2<N>(e[0]); if (s.n == N + 1) { double d = det<N>(e); return d * d; } return cross2<N>(e[0], e[1]);
}
template <int N> static S<N> simplex(int n) { S<N> s; s.n = n; for (int i = 0; i <= N; i++) s.pts[i] = pt<N>(); double g = gram<N>(s); vf_assume(0 < g); if (!vf_symbolic()) vf_assume(1e-2 < g); return s; }
// point with the given weights
template <int N> static V<N> mix(const S<N>& s, const double* w) { V<N> p(0.); for (int i = 0; i < s.n; i++) for (int k = 0; k < N; k++) p[k] += w[i] * s.pts[i][k]; return p; }
template <int N> static void weights(int n, double* w) { double t = 0; for (int i = 1; i < n; i++) { w[i] = vf_real(); t += w[i]; } w[0] = 1 - t; }
template <int N> static bool inside(const double* w, int n) { bool b = true; for (int i = 0; i < n; i++) b = b & (0 <= w[i]); return b; }
static double wgap(const double* w, int n) { double g = vf_symbolic() ? 0 : 1e-300; if (!vf_symbolic()) { g = 1e9; for (int i = 0; i < n; i++) g = std::min(g, std::abs(w[i]) + 1e-300); } return g; }

// linear_solve by its contract (proved on the real function by P10): a regular system has exactly one solution, so the known one is the one returned
static double sol[2][4]; static bool solved;
template <int K, class At> static void regular(At m) {
    V<K == 4 ? 3 : K> e[K]; double d;
    if constexpr (K == 4) { V<3> c[3]; d = 0; for (int j = 0; j < 4; j++) { for (int q = 0, t = 0; q < 4; q++) if (q != j) { for (int k = 1; k < 4; k++) c[t][k - 1] = m(q, k); t++; } d += (j % 2 ? -1 : 1) * m(j, 0) * det<3>(c); } }
    else { for (int q = 0; q < K; q++) for (int k = 0; k < K; k++) e[q][k] = m(q, k); d = det<K>(e); }
    vf_lemma(d != 0, "the system is regular");
}
template <int K> static bool raw_contract(double* a, index_t n, index_t m, double* x, index_t skip) {
    vf_assert(n == K && m == 1 && skip < K, "square system"); regular<K>([&](int q, int k) { return a[q * K + k]; }); for (int k = 0; k < K; k++) { double s = 0; for (int q = 0; q < K; q++) s += a[q * K + k] * sol[0][q]; vf_lemma_eq(x[k], s, "the known solution solves the system"); } for (int q = 0; q < K; q++) x[q] = q < skip ? vf_real() : sol[0][q]; solved = true; return true;
}
template <int K> static bool vec_contract(V<K>* b, index_t m, V<K>* x, index_t skip) {
    regular<K>([&](int q, int k) { return b[q][k]; }); for (int r = 0; r < m; r++) { for (int k = 0; k < K; k++) { double s = 0; for (int q = 0; q < K; q++) s += b[q][k] * sol[r][q]; vf_lemma_eq(x[r][k], s, "the known solution solves the system"); } for (int q = 0; q < K; q++) x[r][q] = q < skip ? vf_real() : sol[r][q]; } solved = true; return true;
}
template <int K> static void by_contract() { solved = false; vf_replace((void*) (bool (*)(double*, index_t, index_t, double*, index_t)) &linear_solve<double,false>, (void*) &raw_contract<K>); vf_replace((void*) (bool (*)(V<K>*, index_t, V<K>*, index_t)) &linear_solve<double,K>, (void*) &vec_contract<K>); }

// any point is a weighting of the vertices of a full simplex: contained exactly when all weights are non-negative
template <int N> static void contained() { by_contract<N + 1>(); S<N> s = simplex<N>(N + 1); double w[N + 1]; weights<N>(N + 1, w); for (int i = 0; i <= N; i++) sol[0][i] = w[i]; V<N> p = mix<N>(s, w); bool c = s.contains(p); vf_iff(c, inside<N>(w, N + 1), wgap(w, N + 1), "contains exactly the points with non-negative weights"); }
CONTRACT(P22_contains2) { contained<2>(); }
CONTRACT(P22_contains3) { contained<3>(); }
LEMMA(P22_slab, (p, k, s, w), (k != 0) & (w == p + k * s), in(0, w, 1) == (in(-p / k, s, (1 - p) / k) | in((1 - p) / k, s, -p / k)))
// a line through a full simplex: the points at origin + s direction have weights w + s k
template <int N> static void crossed() {
    by_contract<N + 1>(); S<N> s = simplex<N>(N + 1); double w[N + 1], k[N + 1], x = vf_real(), t = 0; weights<N>(N + 1, w); V<N> o = mix<N>(s, w), v; for (int i = 1; i <= N; i++) { k[i] = vf_real(); t += k[i]; v = v + k[i] * (s.pts[i] - s.pts[0]); } k[0] = -t; for (int i = 0; i <= N; i++) { sol[0][i] = w[i]; sol[1][i] = k[i]; vf_name(w[i]); vf_name(k[i]); }
    R1 h = s.intersect(Ray<double,N>(o, v)); bool all = true; for (int i = 0; i <= N; i++) { double y = vf_name(w[i] + x * k[i]); if (k[i] != 0) use_P22_slab(w[i], k[i], x, y); w[i] = y; all = all & in(0, y, 1); } vf_lemma(all == inside<N>(w, N + 1) || !vf_symbolic(), "weights add up"); double g = wgap(w, N + 1); if (!vf_symbolic()) for (int i = 0; i <= N; i++) if (std::abs(k[i]) < 1e-6) g = 1e-300;
    vf_iff(in(h, x), inside<N>(w, N + 1), g, "interval is exactly the points of the simplex");
}
CONTRACT(P22_ray2) { crossed<2>(); }
CONTRACT(P22_ray3) { crossed<3>(); }
// a facet: hit once, where the line crosses it
template <int N> static void facet() {
    by_contract<N>(); S<N> s = simplex<N>(N); V<N> v = pt<N>(), e[N]; double u[N], t = vf_real(); weights<N>(N, u); for (int i = 1; i < N; i++) { e[i - 1] = s.pts[i] - s.pts[0]; sol[0][i - 1] = u[i]; } e[N - 1] = v; sol[0][N - 1] = t; double d = det<N>(e); vf_assume(d != 0); if (!vf_symbolic()) vf_assume(std::abs(d) > 1e-2);
    V<N> q = mix<N>(s, u), o = q - t * v; R1 h = s.intersect(Ray<double,N>(o, v)); bool hit = h.lo <= h.hi; vf_iff(hit, inside<N>(u, N), wgap(u, N), "hit exactly when the line crosses the facet"); if (hit) { vf_eq(h.lo, t, "hit where the line crosses"); vf_eq(h.hi, t, "hit where the line crosses"); }
    V<N - 1> uv; double at = 0; bool r = trace_simplex<double,N>(s.pts, Ray<double,N>(o, v), &uv, &at); vf_iff(r, inside<N>(u, N), wgap(u, N), "traced exactly when the line crosses the facet"); if (r) { vf_eq(at, t, "hit where the line crosses"); for (int i = 0; i < N - 1; i++) vf_eq(uv[i], u[i + 1], "surface coordinates of the hit"); }
}
CONTRACT(P22_facet2) { facet<2>(); }
CONTRACT(P22_facet3) { facet<3>(); }
template <int N> static void unfaceted() { for (int n = 0; n < N; n++) { S<N> s; s.n = n; for (int i = 0; i < n; i++) s.pts[i] = pt<N>(); R1 h = s.intersect(ray<N>()); vf_assert(!(h.lo <= h.hi), "lower-dimensional simplices are never hit"); } }
CONTRACT(P22_unfaceted) { unfaceted<2>(); unfaceted<3>(); }
// orthogonal projection onto the simplex' span: facing exactly when its weights are non-negative
template <int N> static void facing(int n) {
    by_contract<N>(); S<N> s = simplex<N>(n); double u[N + 1]; weights<N>(n, u); V<N> q = mix<N>(s, u), c(0.); int k = N - (n - 1);
    if (n > 1) { if (k > 0) { double t = vf_real(); if (n == 2) { c = pt<N>(); if (vf_symbolic()) { vf_assume(dot<N>(c, s.pts[1] - s.pts[0]) == 0); } else c = c - (dot<N>(c, s.pts[1] - s.pts[0]) / n2<N>(s.pts[1] - s.pts[0])) * (s.pts[1] - s.pts[0]); } else if constexpr (N == 3) { c = t * ((s.pts[1] - s.pts[0]) ^ (s.pts[2] - s.pts[0])); } sol[0][0] = t; } for (int i = 1; i < n; i++) sol[0][k + i - 1] = u[i]; }
    V<N> par(0.); bool f = s.is_facing(n == 1 ? pt<N>() : q + c, &par); vf_iff(f, inside<N>(u, n), n == 1 ? 1 : wgap(u, n), "faces exactly the points that project inside"); if (f) for (int i = 1; i < n; i++) vf_eq(par[i - 1], u[i], "surface parameters");
}
CONTRACT(P22_facing2) { int n = (int) vf_pick(1, 3); facing<2>(n); S<2> z; vf_assert(!z.is_facing(pt<2>()), "nothing faces an empty simplex"); }
CONTRACT(P22_facing3) { int n = (int) vf_pick(1, 4); facing<3>(n); }
template <int N> static void partial() { for (int n = 0; n <= N; n++) { S<N> s; s.n = n; for (int i = 0; i < n; i++) s.pts[i] = pt<N>(); vf_assert(!s.contains(pt<N>()), "a simplex without volume contains nothing"); vf_eq(s.volume(), 0, "a simplex without volume has none"); } }
CONTRACT(P22_partial) { partial<2>(); partial<3>(); }
CONTRACT(P22_degenerate) { S<2> s; s.n = 3; V<2> a = pt<2>(), b = pt<2>(), o = pt<2>(); double t = vf_real(); s.pts[0] = o; s.pts[1] = o + a; s.pts[2] = o + t * a; if (vf_symbolic()) vf_assert(!s.contains(b), "a flat simplex contains nothing"); }

template <int N> static void measured(int n) {
    S<N> s = simplex<N>(n); double m = s.measure(), g = gram<N>(s), f = n == 2 ? 1 : n == 3 ? 2 : 6; vf_le(0, m, "measure is positive"); vf_eq(f * f * m * m, g, "measure is the Gram volume"); if (n == N + 1) { V<N> e[N]; for (int i = 0; i < N; i++) e[i] = s.pts[i + 1] - s.pts[0]; vf_eq(f * s.volume(), det<N>(e), "signed volume"); }
}
CONTRACT(P22_measure2) { measured<2>(2); measured<2>(3); }
CONTRACT(P22_measure3) { measured<3>(2); measured<3>(3); measured<3>(4); }
static double det_contract(double* m, index_t n) { vf_assert(n == 2, "Gram matrix of two edges"); return m[0] * m[3] - m[1] * m[2]; }  // proved on the real function by P09
CONTRACT(P22_measure4) { vf_replace((void*) (double (*)(double*, index_t)) &det_destructive<double>, (void*) &det_contract); S<4> s; s.n = 3; for (int i = 0; i < 3; i++) s.pts[i] = pt<4>(); double g = cross2<4>(s.pts[1] - s.pts[0], s.pts[2] - s.pts[0]); vf_assume(0 < g); if (!vf_symbolic()) vf_assume(1e-2 < g); double m = s.measure(); vf_le(0, m, "measure is positive"); vf_eq(4 * m * m, g, "measure is the Gram volume"); }

template <int N> static void support(int n) { S<N> s; s.n = n; for (int i = 0; i <= N; i++) s.pts[i] = pt<N>(); V<N> d = pt<N>(), x = s.convex_support(d); bool vertex = false; for (int i = 0; i < n; i++) { bool e = true; for (int k = 0; k < N; k++) e = e & (x[k] == s.pts[i][k]); vertex = vertex | e; vf_le(dot<N>(d, s.pts[i]), dot<N>(d, x), "no vertex is farther"); } vf_assert(vertex, "support is a vertex"); }
CONTRACT(P22_support2) { int n = (int) vf_pick(1, 3); support<2>(n); }
CONTRACT(P22_support3) { int n = (int) vf_pick(1, 4); support<3>(n); }

template <int N> static void edit(int n) {
    S<N> s; s.n = n; for (int i = 0; i <= N; i++) s.pts[i] = pt<N>(); V<N> p = pt<N>(); S<N> a = s, b = s | p, c = s; a.insert(p); c |= p; int m = n <= N ? n + 1 : n; vf_assert(a.n == m && b.n == m && c.n == m, "one more vertex unless full");
    for (int i = 0; i < n; i++) { eq<N>(a.pts[i], s.pts[i], "other vertices unchanged"); eq<N>(b.pts[i], s.pts[i], "other vertices unchanged"); eq<N>(c.pts[i], s.pts[i], "other vertices unchanged"); } if (n <= N) { eq<N>(a.pts[n], p, "new vertex last"); eq<N>(b.pts[n], p, "new vertex last"); eq<N>(c.pts[n], p, "new vertex last"); }
    for (int k = 0; k < n; k++) { S<N> x = s.excluded(k), y = s; y.exclude(k); vf_assert(x.n == n - 1 && y.n == n - 1, "one vertex fewer"); for (int i = 0; i < n - 1; i++) { eq<N>(x.pts[i], s.pts[i < k ? i : i + 1], "the others keep their order"); eq<N>(y.pts[i], s.pts[i < k ? i : i + 1], "the others keep their order"); } }
    S<N> q(s.pts, n); vf_assert(q.n == n, "copied"); vf_assert(q == s, "equal"); vf_assert(!(q != s), "equal"); for (int i = 0; i < n; i++) eq<N>(q.pts[i], s.pts[i], "copied");
    if (n > 0) { int k = (int) vf_pick(0, n - 1), j = (int) vf_pick(0, N - 1); q.pts[k][j] = vf_real(); vf_iff(q == s, q.pts[k][j] == s.pts[k][j], 0, "equal exactly when all vertices are"); } 
    Xf<N> t = anyx<N>(); S<N> f = s, g = s; f *= t; g /= t; vf_assert(f.n == n && g.n == n, "same vertex count"); for (int i = 0; i < n; i++) { eq<N>(f.pts[i], fwd<N>(t, s.pts[i], 1), "vertex carried along"); eq<N>(g.pts[i], fwd<N>(t, s.pts[i], 1, true), "vertex carried back"); }
}
CONTRACT(P22_edit2) { int n = (int) vf_pick(0, 3); edit<2>(n); S<2> z = S<2>::standard_simplex(); vf_assert(z.n == 3, "standard simplex"); for (int i = 0; i < 3; i++) for (int k = 0; k < 2; k++) vf_eq(z.pts[i][k], i == k + 1, "standard simplex"); V<2> a = pt<2>(), b = pt<2>(); S<2> l{a, b}; vf_assert(l.n == 2, "listed"); eq<2>(l[0], a, "listed"); eq<2>(l[1], b, "listed"); }
CONTRACT(P22_edit3) { int n = (int) vf_pick(0, 4); edit<3>(n); }
// q lies in the face f (the hull of its vertices)
template <int N> static void in_face(const S<N>& f, const V<N>& p, const V<N>& q) {
    if (f.n == 1) eq<N>(q, f.pts[0], "nearest point is the vertex");
    else if (f.n == 2) { V<N> v = f.pts[0] - f.pts[1]; double t = dot<N>(p - f.pts[1], v) / n2<N>(v); vf_le(0, t, "nearest point belongs to the edge"); vf_le(t, 1, "nearest point belongs to the edge"); for (int i = 0; i < N; i++) vf_lemma_eq(q[i], f.pts[1][i] + t * v[i], "nearest point belongs to the edge"); eq<N>(q, f.pts[1] + t * v, "nearest point belongs to the edge"); }
    else if constexpr (N == 3) { if (f.n == 3) { V<3> n = (f.pts[1] - f.pts[0]) ^ (f.pts[2] - f.pts[0]); vf_eq(dot<3>(q - f.pts[0], n), 0, "nearest point belongs to the plane of the face"); for (int i = 0; i < 3; i++) { V<3> a = f.pts[i], b = f.pts[(i + 1) % 3]; vf_le(0, dot<3>((b - a) ^ (p - a), n), "nearest point belongs to the face"); vf_eq(dot<3>(p - q, b - a), 0, "straight above the face"); } } }
}
template <int N> static void is_face(const S<N>& s, const S<N>& f) { for (int i = 0; i < f.n; i++) { bool known = false; for (int k = 0; k < s.n; k++) { bool e = true; for (int j = 0; j < N; j++) e = e & (f.pts[i][j] == s.pts[k][j]); known = known | e; } vf_assert(known, "face of the simplex"); } }
template <int N> static void nearest(const S<N>& s) {
    S<N> on, pf; V<N> p = pt<N>(), q = s.clip(p, &on), r = s.project(p, &pf); is_face<N>(s, on); is_face<N>(s, pf); bool full = on.n == N + 1; double d = s.sdf(p);
    if (full) { eq<N>(q, p, "points inside stay"); vf_assert(s.contains(p) || !vf_symbolic(), "only points inside stay"); vf_eq(d * d, n2<N>(p - r), "distance to the projection"); vf_le(d, 0, "negative inside");
        in_face<N>(pf, p, r); vf_assert(pf.n == N, "inside projects to a facet"); for (int k = 0; k <= N; k++) { S<N> g = s.excluded(k); V<N> m; if constexpr (N == 2) m = (g.pts[1] - g.pts[0]).left_perpendicular(); else m = (g.pts[1] - g.pts[0]) ^ (g.pts[2] - g.pts[0]); double h = dot<N>(m, p - g.pts[0]); vf_le(n2<N>(p - r) * n2<N>(m), h * h, "no facet is nearer"); } return; }
    in_face<N>(on, p, q); for (int k = 0; k < s.n; k++) vf_le(dot<N>(p - q, s.pts[k] - q), 0, "no point of the simplex is nearer"); eq<N>(r, q, "projection is the nearest point"); vf_eq(d * d, n2<N>(p - q), "distance to the projection"); vf_le(0, d, "positive outside");
    if (s.n <= 3) { V<N> m = s.normal(p), m2; s.sdf(p, &m2); eq<N>(m2, m, "same normal"); double c = dot<N>(m, p - q); vf_le(0, c, "normal points away from the face"); vf_eq(n2<N>(m) * n2<N>(p - q), c * c, "normal along the offset"); }
}
static S<2> tri(double a, double b, double c, double d, double e, double f) { return {V<2>(a, b), V<2>(c, d), V<2>(e, f)}; }
CONTRACT(P22_nearest2) { vf_one_of([] { nearest<2>({V<2>(1, 2)}); }, [] { nearest<2>({V<2>(0, 1), V<2>(2, -1)}); }, [] { nearest<2>(tri(0, 0, 1, 0, 0, 1)); }, [] { nearest<2>(tri(0, 1, 1, 0, 0, 0)); }, [] { nearest<2>(tri(0, 0, 4, 0, -2, 1)); }, [] { nearest<2>(tri(1, 1, 5, 2, 2, -3)); }); }
static S<3> tet(V<3> a, V<3> b, V<3> c, V<3> d) { return {a, b, c, d}; }
CONTRACT(P22_nearest3) { vf_one_of([] { nearest<3>({V<3>(1, 2, 0)}); }, [] { nearest<3>({V<3>(0, 1, 2), V<3>(2, -1, 0)}); }, [] { nearest<3>({V<3>(0, 0, 0), V<3>(1, 0, 0), V<3>(0, 1, 0)}); }, [] { nearest<3>({V<3>(0, 0, 1), V<3>(4, 0, 0), V<3>(-2, 1, 1)}); }); }
CONTRACT(P22_nearest4) { nearest<3>(tet(V<3>(0, 0, 0), V<3>(1, 0, 0), V<3>(0, 1, 0), V<3>(0, 0, 1))); }
CONTRACT(P22_nearest5) { nearest<3>(tet(V<3>(0, 0, 1), V<3>(4, 0, 0), V<3>(-2, 1, 1), V<3>(1, -1, 0))); }
//@ P22_nearest5: thorough, par=8
//@ P22_nearest2: bounded="six point sets in the plane, any query point"
//@ P22_nearest3: bounded="four point sets in space, any query point"
//@ P22_nearest4 P22_nearest5: bounded="two tetrahedra, any query point"
//@ P22_nearest4: par=6
//@ P22_nearest2: par=2
//@ P22_ray3: par=3
//@@ P22_nearest2 P22_nearest3 P22_nearest4 P22_nearest5 P22_slab P22_contains2 P22_contains3 P22_ray2 P22_ray3 P22_facet2 P22_facet3 P22_unfaceted P22_facing2 P22_facing3 P22_partial P22_degenerate P22_measure2 P22_measure3 P22_measure4 P22_support2 P22_support3 P22_edit2 P22_edit3
