// P31: rasters: grid order, edge rules, sampling.
#include "vf.h"
#include <geomc/function/Raster.h>
#include <cmath>
using namespace geom;
template <int M> using G = typename PointType<index_t,M>::point_t;
template <typename T> static T& at(T& v, int) { return v; }
template <int M> static index_t& ax(G<M>& g, int i) { return PointType<index_t,M>::iterator(g)[i]; }
// the edge rules, for every coordinate and extent
CONTRACT(P31_clamp) { index_t c = vf_int(-1000000000, 1000000000), e = vf_int(1, 1000000000); index_t r = detail::_ImplEdge<EDGE_CLAMP>::coord(c, e); vf_assert(r == (c < 0 ? 0 : c >= e ? e - 1 : c), "the nearest grid coordinate"); }
CONTRACT(P31_periodic) { index_t e = vf_int(1, 1000000), r0 = vf_int(0, 1000000), k = vf_int(-1000, 1000); vf_assume(r0 < e); index_t r = detail::_ImplEdge<EDGE_PERIODIC>::coord(r0 + k * e, e); vf_assert(r == r0, "the coordinate in the first period"); }
CONTRACT(P31_constant) { index_t c = vf_int(-1000000000, 1000000000), e = vf_int(1, 1000000000); vf_assert(detail::_ImplEdge<EDGE_CONSTANT>::coord(c, e) == c, "unchanged"); }
// c = 2 k (e - 1) + r or 2 k (e - 1) - r
CONTRACT(P31_mirror) { index_t q = vf_int(1, 1000000), r0 = vf_int(0, 1000000), k = vf_int(0, 1000); vf_assume(r0 <= q); bool neg = vf_pick(0, 1), back = vf_pick(0, 1); index_t c = back ? 2 * k * q - r0 : 2 * k * q + r0; if (neg) c = -c; index_t r = detail::_ImplEdge<EDGE_MIRROR>::coord(c, q + 1); vf_assert(r == r0, "the reflected coordinate"); }
CONTRACT(P31_mirror1) { index_t c = vf_int(-1000000000, 1000000000); vf_assert(detail::_ImplEdge<EDGE_MIRROR>::coord(c, 1) == 0, "the only sample"); }
static index_t rule(EdgeBehavior b, index_t c, index_t e) { if (b == EDGE_CLAMP) return c < 0 ? 0 : c >= e ? e - 1 : c; if (b == EDGE_PERIODIC) return (c % e + e) % e; if (b == EDGE_MIRROR) { if (e == 1) return 0; index_t p = 2 * (e - 1), m = (c % p + p) % p; return m < e ? m : p - m; } return c; }
// rasters of any contents
template <int M, int N> struct Ras { typedef Raster<double,double,M,N> R; typedef typename R::sample_t S; G<M> e; int n; double src[27 * N]; S abyss;
    Ras(int lo, int hi) { n = 1; for (int i = 0; i < M; i++) { index_t x = vf_pick(lo, hi); ax<M>(e, i) = x; n *= (int) x; } for (int i = 0; i < n * N; i++) src[i] = vf_real(); for (int j = 0; j < N; j++) PointType<double,N>::iterator(abyss)[j] = vf_real(); }
    Ras(const index_t (&x)[M]) { n = 1; for (int i = 0; i < M; i++) { ax<M>(e, i) = x[i]; n *= (int) x[i]; } for (int i = 0; i < n * N; i++) src[i] = vf_real(); for (int j = 0; j < N; j++) PointType<double,N>::iterator(abyss)[j] = vf_real(); }
    bool in(const G<M>& g) const { for (int i = 0; i < M; i++) { index_t c = PointType<index_t,M>::iterator(g)[i]; if (c < 0 || c >= PointType<index_t,M>::iterator(e)[i]) return false; } return true; }
    // first dimension consecutive, channels innermost
    S expect(EdgeBehavior b, const G<M>& g) const { S s; if (b == EDGE_CONSTANT && !in(g)) return abyss; index_t k = 0, d = 1; for (int i = 0; i < M; i++) { index_t x = PointType<index_t,M>::iterator(e)[i]; k += d * rule(b, PointType<index_t,M>::iterator(g)[i], x); d *= x; } for (int j = 0; j < N; j++) PointType<double,N>::iterator(s)[j] = src[k * N + j]; return s; } };
template <int N> static void same(const typename PointType<double,N>::point_t& a, const typename PointType<double,N>::point_t& b, const char* m) { for (int j = 0; j < N; j++) { double x = PointType<double,N>::iterator(a)[j], y = PointType<double,N>::iterator(b)[j]; vf_eq(x, y, m); } }
template <int M, int N, EdgeBehavior B> static void discrete(const Ras<M,N>& s, const typename Ras<M,N>::R& r, const G<M>& g) { auto x = s.expect(B, g); same<N>(r.template sample_discrete<B>(g), x, "the sample the edge rule selects"); same<N>(r.sample_discrete(g, B), x, "the run-time rule agrees"); }
template <int M> static G<M> gridpt(int lo, int hi) { G<M> g; for (int i = 0; i < M; i++) ax<M>(g, i) = vf_pick(lo, hi); return g; }
template <int M, int N> static void discretes(int e0, int e1, int lo, int hi) { Ras<M,N> s(e0, e1); typename Ras<M,N>::R r(s.e, s.src); r.setAbyss(s.abyss); G<M> g = gridpt<M>(lo, hi); vf_assert(r.contains_gridpt(g) == s.in(g), "in range"); discrete<M,N,EDGE_CLAMP>(s, r, g); discrete<M,N,EDGE_PERIODIC>(s, r, g); discrete<M,N,EDGE_MIRROR>(s, r, g); discrete<M,N,EDGE_CONSTANT>(s, r, g); }
CONTRACT(P31_discrete_1) { discretes<1,1>(1, 5, -12, 14); }
CONTRACT(P31_discrete_1v) { discretes<1,2>(1, 4, -6, 8); }
CONTRACT(P31_discrete_2) { discretes<2,1>(1, 3, -3, 5); }
CONTRACT(P31_discrete_2v) { discretes<2,3>(1, 3, -2, 4); }
CONTRACT(P31_discrete_3) { discretes<3,1>(1, 3, -1, 3); }
// whatever the extents, the rules stay inside the data and distinct grid points have distinct places
template <int M, EdgeBehavior B> static void inside() { G<M> e, c; index_t k = 0, d = 1; for (int i = 0; i < M; i++) { index_t x = vf_int(1, 1000), y = vf_int(-1000000, 1000000); ax<M>(e, i) = x; ax<M>(c, i) = y; if (B == EDGE_CONSTANT) vf_assume(0 <= y && y < x); index_t z = detail::_ImplEdge<B>::coord(y, x); vf_lemma(0 <= z && z < x, "in the extent"); k += z * d; d *= x; } index_t r = detail::_ImplRasterIndex<G<M>,M,B>::index(e, c); vf_assert(r == k, "first dimension consecutive"); }
CONTRACT(P31_index) { inside<1,EDGE_CLAMP>(); inside<2,EDGE_CLAMP>(); inside<3,EDGE_CLAMP>(); inside<1,EDGE_PERIODIC>(); inside<2,EDGE_PERIODIC>(); inside<1,EDGE_MIRROR>(); inside<2,EDGE_MIRROR>(); inside<1,EDGE_CONSTANT>(); inside<2,EDGE_CONSTANT>(); inside<3,EDGE_CONSTANT>(); }
// construction, description, and setting one sample
template <int M, int N> static void made(int e1, int lo, int hi) { Ras<M,N> s(1, e1); typedef typename Ras<M,N>::R R; R z(s.e); for (int i = 0; i < s.n * N; i++) vf_eq(z.m_data[i], 0, "zero"); R r(s.e, s.src); vf_assert(r.dataExtents() == s.e && z.dataExtents() == s.e, "extents"); vf_assert(r.m_size == s.n * N && r.inputDimension() == M && r.outputDimension() == N, "sizes"); Rect<double,M> dom = r.domain(); for (int i = 0; i < M; i++) { vf_eq(PointType<double,M>::iterator(dom.lo)[i], 0, "origin"); vf_eq(PointType<double,M>::iterator(dom.hi)[i], (double) (ax<M>(s.e, i) - 1), "last sample"); }
    G<M> g = gridpt<M>(lo, hi); typename R::sample_t v; for (int j = 0; j < N; j++) PointType<double,N>::iterator(v)[j] = vf_real(); r.set(g, v); index_t k = -1; if (s.in(g)) { k = 0; index_t d = 1; for (int i = 0; i < M; i++) { k += d * ax<M>(g, i); d *= ax<M>(s.e, i); } } for (int i = 0; i < s.n; i++) for (int j = 0; j < N; j++) vf_eq(r.m_data[i * N + j], i == k ? PointType<double,N>::iterator(v)[j] : s.src[i * N + j], "only that sample changes"); }
CONTRACT(P31_set_1) { made<1,1>(4, -1, 4); }
CONTRACT(P31_set_1v) { made<1,3>(3, -1, 3); }
CONTRACT(P31_set_2) { made<2,1>(3, -1, 3); }
CONTRACT(P31_set_2v) { made<2,2>(3, -1, 3); }
CONTRACT(P31_set_3) { made<3,1>(2, -1, 2); }
// copies of a region, in grid order
template <int M, int N, EdgeBehavior B> static void copied() { const index_t x3[3] = {3, 2, 2}; index_t x[M]; for (int i = 0; i < M; i++) x[i] = x3[i]; Ras<M,N> s(x); typename Ras<M,N>::R r(s.e, s.src); r.setAbyss(s.abyss); G<M> lo = gridpt<M>(-1, 2), n = gridpt<M>(0, 1), hi; int m = 1; for (int i = 0; i < M; i++) { ax<M>(hi, i) = ax<M>(lo, i) + ax<M>(n, i); m *= (int) ax<M>(n, i) + 1; } typename Ras<M,N>::S a[9], b[9]; typename Ras<M,N>::S mark; for (int j = 0; j < N; j++) PointType<double,N>::iterator(mark)[j] = vf_real(); a[m] = b[m] = mark; r.template copy<B>(a, Rect<index_t,M>(lo, hi)); r.copy(b, Rect<index_t,M>(lo, hi), B); for (int k = 0; k < m; k++) { G<M> g; int q = k; for (int i = 0; i < M; i++) { int w = (int) ax<M>(n, i) + 1; ax<M>(g, i) = ax<M>(lo, i) + q % w; q /= w; } auto y = s.expect(B, g); same<N>(a[k], y, "first dimension consecutive"); same<N>(b[k], y, "run-time rule agrees"); } same<N>(a[m], mark, "nothing beyond"); same<N>(b[m], mark, "nothing beyond"); }
CONTRACT(P31_copy_1a) { copied<1,1,EDGE_CLAMP>(); }
CONTRACT(P31_copy_1b) { copied<1,1,EDGE_PERIODIC>(); }
CONTRACT(P31_copy_1c) { copied<1,1,EDGE_MIRROR>(); }
CONTRACT(P31_copy_1d) { copied<1,1,EDGE_CONSTANT>(); }
CONTRACT(P31_copy_1v) { copied<1,2,EDGE_CLAMP>(); }
CONTRACT(P31_copy_2a) { copied<2,1,EDGE_CLAMP>(); }
CONTRACT(P31_copy_2b) { copied<2,1,EDGE_PERIODIC>(); }
CONTRACT(P31_copy_2c) { copied<2,1,EDGE_CONSTANT>(); }
CONTRACT(P31_copy_2v) { copied<2,2,EDGE_MIRROR>(); }
// continuous sampling, by the contract of the conversion to grid coordinates
extern "C" { double raw_grid11(const void*, const double&) __asm__("_ZNK4geom6RasterIddLl1ELl1EE11toGridSpaceERKd"); double raw_grid12(const void*, const double&) __asm__("_ZNK4geom6RasterIddLl1ELl2EE11toGridSpaceERKd"); Vec<double,2> raw_grid21(const void*, const Vec<double,2>&) __asm__("_ZNK4geom6RasterIddLl2ELl1EE11toGridSpaceERKNS_3VecIdLl2EEE"); Vec<double,2> raw_grid22(const void*, const Vec<double,2>&) __asm__("_ZNK4geom6RasterIddLl2ELl2EE11toGridSpaceERKNS_3VecIdLl2EEE"); }
static double gp1; static Vec<double,2> gp2;
static double grid1(const void*, const double&) { return gp1; }
static Vec<double,2> grid2(const void*, const Vec<double,2>&) { return gp2; }
static void conv(const double& p) { gp1 = p; if (vf_symbolic()) { vf_replace((const void*) raw_grid11, (const void*) grid1); vf_replace((const void*) raw_grid12, (const void*) grid1); } }
static void conv(const Vec<double,2>& p) { gp2 = p; if (vf_symbolic()) { vf_replace((const void*) raw_grid21, (const void*) grid2); vf_replace((const void*) raw_grid22, (const void*) grid2); } }
// the raster's domain runs from the first to the last sample on each axis
template <int M> static void domain() { typedef Raster<double,double,M,1> R; typedef typename R::coord_t C; G<M> one; for (int i = 0; i < M; i++) ax<M>(one, i) = 1; C a, b, p; for (int i = 0; i < M; i++) { double l = vf_real(), w = vf_real(); vf_assume(0 < w); PointType<double,M>::iterator(a)[i] = l; PointType<double,M>::iterator(b)[i] = l + w; PointType<double,M>::iterator(p)[i] = vf_real(); } R r(one, Rect<double,M>(a, b)); for (int i = 0; i < M; i++) ax<M>(r.m_extent, i) = vf_int(2, 1000000); C q = r.toGridSpace(p); for (int i = 0; i < M; i++) { double l = PointType<double,M>::iterator(a)[i], h = PointType<double,M>::iterator(b)[i]; vf_eq(PointType<double,M>::iterator(q)[i] * (h - l), (double) (ax<M>(r.m_extent, i) - 1) * (PointType<double,M>::iterator(p)[i] - l), "proportional position"); } vf_assert(r.domain() == Rect<double,M>(a, b), "domain"); }
template <int M, int N, EdgeBehavior B> static void sampled(int lo, int hi) { const index_t x3[3] = {3, 4, 2}; index_t x[M]; for (int i = 0; i < M; i++) x[i] = x3[i]; Ras<M,N> s(x); typedef typename Ras<M,N>::R R; typedef typename R::coord_t C; G<M> g = gridpt<M>(lo, hi); C t, p; for (int i = 0; i < M; i++) { double f = vf_real(); vf_assume(0 <= f); vf_assume(f < 1); PointType<double,M>::iterator(t)[i] = f; PointType<double,M>::iterator(p)[i] = (double) ax<M>(g, i) + f; } conv(p);
    R r(s.e, s.src); r.setAbyss(s.abyss); if (!vf_symbolic()) for (int i = 0; i < M; i++) { double f = PointType<double,M>::iterator(t)[i]; vf_assume(1e-6 < f && f < 1 - 1e-6 && std::abs(f - .5) > 1e-6); }
    G<M> near; for (int i = 0; i < M; i++) ax<M>(near, i) = ax<M>(g, i) + (PointType<double,M>::iterator(t)[i] >= .5); auto y = s.expect(B, near); same<N>(r.template sample<B,INTERP_NEAREST>(p), y, "the nearest sample"); same<N>(r.sample(p, B, INTERP_NEAREST), y, "run-time rule agrees");
    typename R::sample_t z[1 << M], c[1 << (2 * M)]; for (int k = 0; k < 1 << M; k++) { G<M> h; for (int i = 0; i < M; i++) ax<M>(h, i) = ax<M>(g, i) + (k >> i & 1); z[k] = s.expect(B, h); } for (int k = 0; k < 1 << (2 * M); k++) { G<M> h; for (int i = 0; i < M; i++) ax<M>(h, i) = ax<M>(g, i) - 1 + (k >> (2 * i) & 3); c[k] = s.expect(B, h); }
    typename R::sample_t L = interp_linear(PointType<double,M>::iterator(t), z, M), Q = interp_cubic(PointType<double,M>::iterator(t), c, M);
    same<N>(r.template sample<B,INTERP_LINEAR>(p), L, "linear interpolation of the cell"); same<N>(r.sample(p, B, INTERP_LINEAR), L, "run-time rule agrees"); same<N>(r.template sample<B,INTERP_CUBIC>(p), Q, "cubic interpolation of the neighbourhood"); same<N>(r.sample(p, B, INTERP_CUBIC), Q, "run-time rule agrees"); }
CONTRACT(P31_sample_1a) { sampled<1,1,EDGE_CLAMP>(-2, 3); }
CONTRACT(P31_sample_1b) { sampled<1,1,EDGE_CONSTANT>(-2, 3); }
CONTRACT(P31_sample_1c) { sampled<1,2,EDGE_MIRROR>(-2, 3); }
CONTRACT(P31_sample_1d) { sampled<1,1,EDGE_PERIODIC>(-2, 3); }
CONTRACT(P31_sample_2a) { sampled<2,1,EDGE_CLAMP>(-1, 3); }
CONTRACT(P31_sample_2b) { sampled<2,1,EDGE_PERIODIC>(-1, 2); }
CONTRACT(P31_sample_2c) { sampled<2,2,EDGE_MIRROR>(0, 1); }
CONTRACT(P31_sample_2d) { sampled<2,1,EDGE_CONSTANT>(-1, 2); }
CONTRACT(P31_sample_2e) { sampled<2,1,EDGE_CONSTANT>(-2, 3); }
CONTRACT(P31_domain) { domain<1>(); domain<2>(); domain<3>(); }
// every constructor: its samples and its domain (the grid itself when none is given)
template <int M, int N> static void built() { typedef Raster<double,double,M,N> R; typedef typename R::coord_t C; const index_t x3[3] = {3, 2, 2}; index_t x[M]; for (int i = 0; i < M; i++) x[i] = x3[i]; Ras<M,N> s(x); C a, b, z, last; for (int i = 0; i < M; i++) { double l = vf_real(), w = vf_real(); vf_assume(0 < w); PointType<double,M>::iterator(a)[i] = l; PointType<double,M>::iterator(b)[i] = l + w; PointType<double,M>::iterator(z)[i] = 0; PointType<double,M>::iterator(last)[i] = (double) (x[i] - 1); }
    Rect<double,M> d(a, b), whole(z, last); R r[4] = {R(s.e), R(s.e, d), R(s.e, s.src), R(s.e, s.src, d)}; for (int k = 0; k < 4; k++) { vf_assert(r[k].domain() == (k & 1 ? d : whole), "its domain"); vf_assert(r[k].dataExtents() == s.e, "its extent"); GridIterator<index_t,M> g = GridIterator<index_t,M>(Rect<index_t,M>(s.e * (index_t) 0, s.e - (index_t) 1)), end = g.end(); for (; g != end; ++g) { typename R::sample_t y = s.expect(EDGE_CLAMP, *g), v = r[k].template sample_discrete<EDGE_CLAMP>(*g), zero(0.); same<N>(v, k < 2 ? zero : y, "its samples"); } } }
CONTRACT(P31_built_1) { built<1,1>(); }
CONTRACT(P31_built_1v) { built<1,3>(); }
CONTRACT(P31_built_2) { built<2,1>(); }
CONTRACT(P31_built_2v) { built<2,2>(); }
CONTRACT(P31_built_3) { built<3,1>(); }
//@@ P31_clamp P31_periodic P31_constant P31_mirror P31_mirror1 P31_discrete_1 P31_discrete_1v P31_discrete_2 P31_discrete_2v P31_discrete_3 P31_index P31_set_1 P31_set_1v P31_set_2 P31_set_2v P31_set_3 P31_copy_1a P31_copy_1b P31_copy_1c P31_copy_1d P31_copy_1v P31_copy_2a P31_copy_2b P31_copy_2c P31_copy_2v P31_sample_1a P31_sample_1b P31_sample_1c P31_sample_1d P31_sample_2a P31_sample_2b P31_sample_2c P31_sample_2d P31_sample_2e P31_domain P31_built_1 P31_built_1v P31_built_2 P31_built_2v P31_built_3
//@ P31_discrete_* P31_set_* P31_copy_* P31_sample_*: bounded="extents up to 5 (one axis), 4 (two axes), 3 (three axes), grid points within one or two periods; any sample values and any position in a cell"
