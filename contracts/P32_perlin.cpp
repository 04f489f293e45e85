// P32: Perlin noise: value, gradient, lattice zeros, continuity; the gradient table.
#include "vf.h"
#include <geomc/function/PerlinNoise.h>
#include <geomc/random/Random.cpp>
#include <geomc/random/LCRand.cpp>
#include <geomc/random/RandomTools.cpp>
#include <geomc/random/MTRand.cpp>
#include <cmath>
#include <new>
using namespace geom;
template <int N> using P = typename PointType<double,N>::point_t;
template <int N> using G = typename PointType<index_t,N>::point_t;
template <int N> static double co(const P<N>& p, int i) { return PointType<double,N>::iterator(p)[i]; }
template <int N> static index_t gco(const G<N>& p, int i) { return PointType<index_t,N>::iterator(p)[i]; }
extern "C" {
const double&        raw_gg1(const void*, const index_t&) __asm__("_ZNK4geom11PerlinNoiseIdLl1EE17get_grid_gradientERKl");
const Vec<double,2>& raw_gg2(const void*, const Vec<index_t,2>&) __asm__("_ZNK4geom11PerlinNoiseIdLl2EE17get_grid_gradientERKNS_3VecIlLl2EEE");
const Vec<double,3>& raw_gg3(const void*, const Vec<index_t,3>&) __asm__("_ZNK4geom11PerlinNoiseIdLl3EE17get_grid_gradientERKNS_3VecIlLl3EEE");
const Vec<double,4>& raw_gg4(const void*, const Vec<index_t,4>&) __asm__("_ZNK4geom11PerlinNoiseIdLl4EE17get_grid_gradientERKNS_3VecIlLl4EEE");
}
template <int N> struct Raw; template <> struct Raw<1> { static constexpr auto f = raw_gg1; }; template <> struct Raw<2> { static constexpr auto f = raw_gg2; }; template <> struct Raw<3> { static constexpr auto f = raw_gg3; }; template <> struct Raw<4> { static constexpr auto f = raw_gg4; };
// contract of the gradient lookup: a function of the lattice point
template <int N> static P<N> table[1 << N];
template <int N> static index_t base[N];
template <int N> static const P<N>& lookup(const void*, const G<N>& g) { int c = 0; for (int i = 0; i < N; i++) { index_t d = gco<N>(g, i) - base<N>[i]; vf_assert(d == 0 || d == 1, "lookup at a corner of the cell"); if (d == 1) c |= 1 << i; } return table<N>[c]; }
alignas(16) static char store[256];
// a noise object with any gradients at the corners of the cell at b
template <int N> static const PerlinNoise<double,N>& noise(const index_t* b) {
    typedef PerlinNoise<double,N> X; const X* x = (const X*) store;
    for (int i = 0; i < N; i++) base<N>[i] = b[i];
    if (vf_symbolic()) { for (int c = 0; c < 1 << N; c++) for (int i = 0; i < N; i++) PointType<double,N>::iterator(table<N>[c])[i] = vf_real(); vf_replace((const void*) Raw<N>::f, (const void*) lookup<N>); }
    else { static Random* r = new LCRand(1234); x = new X(r); for (int c = 0; c < 1 << N; c++) { G<N> g; for (int i = 0; i < N; i++) PointType<index_t,N>::iterator(g)[i] = b[i] + (c >> i & 1); table<N>[c] = Raw<N>::f(x, g); } }
    return *x; }
static double fade(double t) { return 6 * t * t * t * t * t - 15 * t * t * t * t + 10 * t * t * t; }
static double dfade(double t) { return 30 * t * t * t * t - 60 * t * t * t + 30 * t * t; }
template <int N> static double planes(const double* f, int c) { double d = 0; for (int i = 0; i < N; i++) d += (f[i] - (c >> i & 1)) * co<N>(table<N>[c], i); return d; }
// the weight of corner c, without axis j when j >= 0
template <int N> static double weight(const double* f, int c, int j) { double w = 1; for (int i = 0; i < N; i++) if (i != j) w *= (c >> i & 1) ? fade(f[i]) : 1 - fade(f[i]); return w; }
template <int N> static double value(const double* f) { double s = 0; for (int c = 0; c < 1 << N; c++) s += weight<N>(f, c, -1) * planes<N>(f, c); return s; }
template <int N> static double slope(const double* f, int j) { double s = 0; for (int c = 0; c < 1 << N; c++) s += weight<N>(f, c, -1) * co<N>(table<N>[c], j) + ((c >> j & 1) ? dfade(f[j]) : -dfade(f[j])) * weight<N>(f, c, j) * planes<N>(f, c); return s; }
template <int N> struct At { P<N> p; double f[N]; index_t b[N]; At() { for (int i = 0; i < N; i++) { double x = vf_real(); vf_assume(-1e6 < x); vf_assume(x < 1e6); PointType<double,N>::iterator(p)[i] = x; double l = std::floor(x); f[i] = x - l; b[i] = (index_t) l; } } };
template <int N> static void evals() { At<N> a; auto& n = noise<N>(a.b); vf_eq(n.eval(a.p), value<N>(a.f), "blend of the corner planes"); }
template <int N> static void gradients() { At<N> a; auto& n = noise<N>(a.b); auto r = n.gradient(a.p); vf_eq(r.first, value<N>(a.f), "same value as eval"); for (int j = 0; j < N; j++) vf_eq(co<N>(r.second, j), slope<N>(a.f, j), "partial derivative"); }
template <int N> static void zeros() { index_t b[N]; P<N> p; for (int i = 0; i < N; i++) { b[i] = vf_int(-1000000, 1000000); PointType<double,N>::iterator(p)[i] = (double) b[i]; } auto& n = noise<N>(b); vf_eq(n.eval(p), 0, "zero on the lattice"); auto r = n.gradient(p); vf_eq(r.first, 0, "zero on the lattice"); for (int j = 0; j < N; j++) vf_eq(co<N>(r.second, j), co<N>(table<N>[0], j), "the lattice gradient"); }
CONTRACT(P32_eval_1) { evals<1>(); }
CONTRACT(P32_eval_2) { evals<2>(); }
CONTRACT(P32_eval_3) { evals<3>(); }
CONTRACT(P32_gradient_1) { gradients<1>(); }
CONTRACT(P32_gradient_2) { gradients<2>(); }
CONTRACT(P32_gradient_3) { gradients<3>(); }
CONTRACT(P32_lattice_1) { zeros<1>(); }
CONTRACT(P32_lattice_2) { zeros<2>(); }
CONTRACT(P32_lattice_3) { zeros<3>(); }
// the blend of two cells agrees on the face they share, with its derivatives (f_j = 1 in one is f_j = 0 in the other)
template <int N> static void faces(int j) { double f[N]; for (int i = 0; i < N; i++) f[i] = vf_real(); P<N> t[1 << N]; for (int c = 0; c < 1 << N; c++) for (int i = 0; i < N; i++) { PointType<double,N>::iterator(table<N>[c])[i] = vf_real(); PointType<double,N>::iterator(t[c])[i] = vf_real(); }
    f[j] = 1; double v = value<N>(f), d[N]; for (int i = 0; i < N; i++) d[i] = slope<N>(f, i);
    for (int c = 0; c < 1 << N; c++) if (c >> j & 1) { t[c & ~(1 << j)] = table<N>[c]; } for (int c = 0; c < 1 << N; c++) table<N>[c] = t[c];
    f[j] = 0; vf_eq(value<N>(f), v, "continuous"); for (int i = 0; i < N; i++) vf_eq(slope<N>(f, i), d[i], "continuous slope"); }
CONTRACT(P32_face_1) { faces<1>(0); }
CONTRACT(P32_face_2) { faces<2>(0); faces<2>(1); }
CONTRACT(P32_face_3) { faces<3>(0); faces<3>(1); faces<3>(2); }
// the gradient table: filled by the constructor, and the lookup is one entry of it for each lattice point
extern "C" { double raw_rand(void*, double, double) __asm__("_ZN4geom6Random4randIdEET_S2_S2_"); Vec<double,2> raw_unit2(void*) __asm__("_ZN4geom7SamplerIdE4unitILl2EEENS_3VecIdXT_EEEv"); Vec<double,3> raw_unit3(void*) __asm__("_ZN4geom7SamplerIdE4unitILl3EEENS_3VecIdXT_EEEv"); void raw_permute(index_t*, size_t, Random&) __asm__("_ZN4geom7permuteIlEEvPT_mRNS_6RandomE"); }
static int drawn; static double any[3];
static double draw(void*, double lo, double hi) { vf_assert(lo == -1 && hi == 1, "slopes between -1 and 1"); drawn++; return any[0]; }
static Vec<double,2> unit2(void*) { drawn++; return Vec<double,2>(any[0], any[1]); }
static Vec<double,3> unit3(void*) { drawn++; return Vec<double,3>(any[0], any[1], any[2]); }
static void nopermute(index_t* p, size_t n, Random&) { vf_assert(n == PERLIN_NUM_GRADIENTS, "the whole table"); }
// in the run-time check the real generator fills the table
template <int N> static void tables() { typedef PerlinNoise<double,N> X; drawn = 0; for (int i = 0; i < 3; i++) any[i] = vf_real(); double l = 0; for (int i = 0; i < N; i++) l += any[i] * any[i]; vf_assume(N == 1 ? l <= 1 : l == 1 || !vf_symbolic());
    if (vf_symbolic()) { if (N == 1) vf_replace((const void*) raw_rand, (const void*) draw); else { vf_replace((const void*) (N == 2 ? (const void*) raw_unit2 : (const void*) raw_unit3), (const void*) (N == 2 ? (const void*) unit2 : (const void*) unit3)); vf_replace((const void*) raw_permute, (const void*) nopermute); } }
    LCRand r(5); X x(&r); if (vf_symbolic()) vf_assert(drawn == PERLIN_NUM_GRADIENTS, "one draw for each entry");
    G<N> g; for (int i = 0; i < N; i++) PointType<index_t,N>::iterator(g)[i] = vf_int(-1000000000, 1000000000); const P<N>& v = Raw<N>::f(&x, g); index_t k = &v - x.gradients.get(); vf_assert(0 <= k && k < PERLIN_NUM_GRADIENTS, "an entry of the table"); vf_assert(&Raw<N>::f(&x, g) == &v, "the same entry each time"); 
    for (int i = 0; i < PERLIN_NUM_GRADIENTS; i++) { double m = 0; for (int j = 0; j < N; j++) m += co<N>(x.gradients[i], j) * co<N>(x.gradients[i], j); if (N == 1) vf_assert(m <= 1 + 1e-9, "bounded slope"); else vf_eq(m, 1, "unit gradient"); } }
CONTRACT(P32_table_1) { tables<1>(); }
CONTRACT(P32_table_2) { tables<2>(); }
CONTRACT(P32_table_3) { tables<3>(); }
//@@ P32_eval_1 P32_eval_2 P32_eval_3 P32_gradient_1 P32_gradient_2 P32_gradient_3 P32_lattice_1 P32_lattice_2 P32_lattice_3 P32_face_1 P32_face_2 P32_face_3 P32_table_1 P32_table_2 P32_table_3
