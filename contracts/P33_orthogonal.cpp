// P33: orthogonal polynomials equal their explicit coefficient formulas.
#include "vf.h"
#include <geomc/function/Basis.h>
#include <geomc/function/SphericalHarmonics.h>
#include <cmath>
using namespace geom;
static double binom(int n, int k) { double r = 1; for (int i = 1; i <= k; i++) r = r * (n - k + i) / i; return r; }
static double ipow(double x, int k) { double r = 1; for (int i = 0; i < k; i++) r *= x; return r; }
// coefficients of the Legendre polynomial, exact in double up to degree 25 or so (dyadic rationals)
template <int N> struct Leg { double c[N + 1] = {}; Leg() { for (int k = 0; 2 * k <= N; k++) c[N - 2 * k] = (k & 1 ? -1 : 1) * binom(N, k) * binom(2 * N - 2 * k, N) / ipow(2, N); } };
template <int N> static double leg(double x) { Leg<N> l; double s = 0; for (int i = N; i >= 0; i--) s = s * x + l.c[i]; return s; }
template <int N> static void legendres(double x) { vf_eq(legendre((index_t) N, x), leg<N>(x), "Legendre polynomial"); Leg<N> l; double s = 0; for (int i = 0; i <= N; i++) s += l.c[i] * (ipow(x, i + 1) - (i & 1 ? 1 : -1)) / (i + 1); vf_eq(legendre_integral((index_t) N, x), s, "integral from -1"); }
template <int N> static void upto(double x) { legendres<N>(x); if constexpr (N > 0) upto<N - 1>(x); }
CONTRACT(P33_legendre) { double x = vf_real(); upto<20>(x); }
template <int N> static void cheb(double x) { double t = 0, u = 0; for (int k = 0; 2 * k <= N; k++) t += binom(N, 2 * k) * ipow(x * x - 1, k) * ipow(x, N - 2 * k); for (int k = 0; 2 * k <= N; k++) u += binom(N + 1, 2 * k + 1) * ipow(x * x - 1, k) * ipow(x, N - 2 * k); vf_eq(chebyshev((index_t) 1, (index_t) N, x), t, "first kind"); vf_eq(chebyshev((index_t) 2, (index_t) N, x), u, "second kind"); if constexpr (N > 0) cheb<N - 1>(x); }
CONTRACT(P33_chebyshev) { double x = vf_real(); cheb<20>(x); }
// below degree zero: the constant
CONTRACT(P33_low) { double x = vf_real(); vf_eq(legendre((index_t) -1, x), 1, "constant"); vf_eq(chebyshev((index_t) 1, (index_t) -1, x), 1, "constant"); }
// T_n(cos t) = cos(n t), U_n(cos t) sin t = sin((n+1) t)
CONTRACT(P33_angles) { double t = vf_real(); double c = std::cos(t), s = std::sin(t); double re = 1, im = 0; for (int n = 0; n <= 8; n++) { vf_eq(chebyshev((index_t) 1, (index_t) n, c), re, "cosine of the multiple angle"); double r1 = re * c - im * s, i1 = re * s + im * c; vf_eq(chebyshev((index_t) 2, (index_t) n, c) * s, i1, "sine of the multiple angle"); re = r1; im = i1; } }
// associated: (-1)^m (1-x^2)^(m/2) times the m-th derivative
template <int L, int M> static double assoc(double x, double r) { Leg<L> l; double s = 0; for (int i = L; i >= M; i--) { double f = 1; for (int j = 0; j < M; j++) f *= i - j; s = s * x + f * l.c[i]; } return (M & 1 ? -1 : 1) * ipow(r, M) * s; }
template <int L, int M> static void assocs(double x, double r) { double v = legendre((index_t) L, (index_t) M, x); vf_eq(v, assoc<L,M>(x, r), "associated Legendre function"); if constexpr (M > 0) assocs<L, M - 1>(x, r); }
template <int L> static void bands(double x, double r) { assocs<L,L>(x, r); if constexpr (L > 0) bands<L - 1>(x, r); }
CONTRACT(P33_associated) { double x = vf_real(); vf_assume(-1 < x && x < 1); bands<6>(x, std::sqrt(1 - x * x)); }
template <int N> struct Column { template <int M> static void run(SphericalHarmonics<double,N>& h, double x) { legendre(&h, (index_t) M, x); for (int l = M; l < N; l++) { double v = legendre((index_t) l, (index_t) M, x); vf_eq(h.coeff(l, M), v, "batch evaluation agrees"); vf_eq(h.coeff(l, -M), v, "batch evaluation agrees"); } if constexpr (M > 0) run<M - 1>(h, x); } };
CONTRACT(P33_batch) { double x = vf_real(); vf_assume(-1 < x && x < 1); SphericalHarmonics<double,5> h; Column<5>::run<4>(h, x); }
//@@ P33_legendre P33_chebyshev P33_low P33_angles P33_associated P33_batch
//@ P33_legendre P33_chebyshev P33_angles P33_associated P33_batch: bounded="degrees up to 20 (associated 6, batch 4, angles 8), every argument"
