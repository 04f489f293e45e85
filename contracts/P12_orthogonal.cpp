// P12: orthogonal complements, null spaces and Gram-Schmidt.
#include "mtx.h"
#include <geomc/linalg/Orthogonal.h>
#include <geomc/GeomException.cpp>
//@@ P12_orth2 P12_orth3 P12_orth4 P12_null3 P12_null4 P12_null4_3 P12_null4_2 P12_alias P12_gs P12_gs2 P12_on P12_project P12_null_more P12_orth5
//@ *: time=200 order=up forksel
template <int N> Vec<double,N> any() { Vec<double,N> v; for (int i = 0; i < N; i++) v[i] = vf_real(); return v; }
// all n x n minors of n vectors vanish: they are linearly dependent
template <int N> void dependent(const Vec<double,N>* v, int n, const char* name) {
    for (int mask = 0; mask < 1 << N; mask++) { if (__builtin_popcount(mask) != n) continue; int col[N], k = 0; for (int i = 0; i < N; i++) if (mask >> i & 1) col[k++] = i;
        double total = 0; auto rec = [&](auto& self, int i, int used, double term) -> void { if (i == n) { total += term; return; } int inv = 0; for (int j = n; j-- > 0; ) { if (used >> j & 1) { inv++; continue; } self(self, i + 1, used | 1 << j, inv & 1 ? -(term * v[i][col[j]]) : term * v[i][col[j]]); } };
        rec(rec, 0, 0, 1.0); vf_eq(total, 0, name); }
}
template <int N> void orth(Vec<double,N>* v) {
    Vec<double,N> keep[N]; for (int i = 0; i < N - 1; i++) keep[i] = v[i];
    Vec<double,N> o = orthogonal(v); bool zero = true; for (int i = 0; i < N; i++) zero = zero && o[i] == 0;
    for (int k = 0; k < N - 1; k++) { double s = 0; for (int i = 0; i < N; i++) { s += o[i] * keep[k][i]; vf_eq(v[k][i], keep[k][i], "the operands are unchanged"); } vf_eq(s, 0, "the result is perpendicular to every operand"); }
    if (zero) dependent<N>(keep, N - 1, "the result is zero only for dependent vectors");
}
// for dependent vectors the result is zero
template <int N> void orth_dep() {
    Vec<double,N> v[N - 1]; int which = (int) vf_pick(0, N - 2); for (int k = 0; k < N - 1; k++) if (k != which) v[k] = any<N>(); Vec<double,N> s; for (int k = 0; k < N - 1; k++) if (k != which) { double t = vf_real(); for (int i = 0; i < N; i++) s[i] += t * v[k][i]; } v[which] = s;
    Vec<double,N> o = orthogonal(v); for (int i = 0; i < N; i++) vf_eq(o[i], 0, "the result is zero for dependent vectors");
}
CONTRACT(P12_orth2) { Vec<double,2> v[1] = { any<2>() }; orth<2>(v); }
CONTRACT(P12_orth3) { vf_one_of([] { Vec<double,3> v[2] = { any<3>(), any<3>() }; orth<3>(v); }, [] { orth_dep<3>(); }); }
CONTRACT(P12_orth4) { Vec<double,4> v[3] = { any<4>(), any<4>(), any<4>() }; orth<4>(v); }
//@ P12_orth5: bounded="five-dimensional vectors with ten free entries"
CONTRACT(P12_orth5) { Vec<double,5> v[4]; for (int k = 0; k < 4; k++) for (int i = 0; i < 5; i++) v[k][i] = (i == k + 1 || i == 0 || (k == 3 && i == 2) || (k == 2 && i == 1)) ? vf_real() : 0; orth<5>(v); }
template <int N> void null_(int n, bool alias) {
    Vec<double,N> v[N], keep[N], x[N]; for (int k = 0; k < n; k++) v[k] = keep[k] = any<N>(); for (int k = 0; k < N; k++) x[k] = any<N>();
    Vec<double,N>* out = alias ? v : x; bool ok = nullspace<double,N>(v, n, out);
    for (int b = 0; b < N - n; b++) for (int k = 0; k < n; k++) { double s = 0; for (int i = 0; i < N; i++) s += out[b][i] * keep[k][i]; vf_eq(s, 0, "every null vector is perpendicular to every basis vector"); }
    if (!alias) for (int k = 0; k < n; k++) for (int i = 0; i < N; i++) vf_eq(v[k][i], keep[k][i], "the basis is unchanged");
    if (!ok) { dependent<N>(keep, n, "failure is reported only for dependent vectors"); for (int b = 0; b < N - n; b++) for (int i = 0; i < N; i++) vf_eq(out[b][i], 0, "for dependent vectors the null basis is filled with zeros"); }
    else if (N - n == 2) { // the two null vectors are independent: some 2x2 minor is non-zero
        bool indep = false; for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) indep = indep || out[0][i] * out[1][j] - out[0][j] * out[1][i] != 0; vf_assert(indep, "the null vectors are linearly independent");
    } else if (N - n == 1) { bool nz = false; for (int i = 0; i < N; i++) nz = nz || out[0][i] != 0; vf_assert(nz, "the null vector is non-zero"); }
    if (!alias) for (int b = std::max(0, N - n); b < N; b++) { Vec<double,N> y = x[b]; (void) y; }
}
CONTRACT(P12_null3) { null_<3>((int) vf_pick(1, 2), false); }
CONTRACT(P12_null4) { null_<4>(1, false); }
CONTRACT(P12_null4_3) { null_<4>(3, false); }
//@ P12_null4_3: thorough
CONTRACT(P12_null4_2) { null_<4>(2, false); }
CONTRACT(P12_alias) { vf_one_of([] { null_<3>(1, true); }, [] { null_<3>(2, true); }, [] { null_<4>(2, true); }); }
CONTRACT(P12_null_more) { Vec<double,3> v[3] = { any<3>(), any<3>(), any<3>() }, x[1] = { any<3>() }, y = x[0]; vf_assert(nullspace<double,3>(v, 3, x), "a full basis has an empty null basis"); for (int i = 0; i < 3; i++) vf_eq(x[0][i], y[i], "nothing is written for a full basis"); }
template <int N> double dotp(const Vec<double,N>& a, const Vec<double,N>& b) { double s = 0; for (int i = 0; i < N; i++) s += a[i] * b[i]; return s; }
template <int N> void gs(int n) {
    Vec<double,N> v[N], o[N]; for (int k = 0; k < n; k++) v[k] = o[k] = any<N>();
    // linear independence, by the Gram determinants of the leading vectors
    double g = dotp<N>(o[0], o[0]); vf_assume(g > 0); if (n > 1) vf_assume(g * dotp<N>(o[1], o[1]) - dotp<N>(o[0], o[1]) * dotp<N>(o[0], o[1]) > 0);
    orthogonalize<double,N>(v, n);
    for (int i = 0; i < N; i++) vf_eq(v[0][i], o[0][i], "the first vector does not change");
    if (n > 1) { double c = dotp<N>(o[1], o[0]) / g; for (int i = 0; i < N; i++) vf_eq(v[1][i], o[1][i] - c * o[0][i], "the second vector differs from the original by a multiple of the first"); double m1 = dotp<N>(v[1], v[1]); vf_lemma_eq(m1 * g, g * dotp<N>(o[1], o[1]) - dotp<N>(o[0], o[1]) * dotp<N>(o[0], o[1]), "squared length of the second vector"); vf_lt(0, m1, "an independent vector stays non-zero"); }
    for (int a = 0; a < n; a++) for (int b = 0; b < a; b++) vf_eq(dotp<N>(v[a], v[b]), 0, "the vectors are mutually perpendicular");
    if (n > 2) { double c0 = dotp<N>(o[2], v[0]) / dotp<N>(v[0], v[0]), c1 = dotp<N>(o[2], v[1]) / dotp<N>(v[1], v[1]); for (int i = 0; i < N; i++) vf_eq(v[2][i], o[2][i] - c0 * v[0][i] - c1 * v[1][i], "the third vector differs from the original by the earlier directions"); }
}
CONTRACT(P12_gs) { vf_one_of([] { gs<3>((int) vf_pick(1, 3)); }, [] { gs<4>(2); }); }
//@ P12_gs P12_on P12_project: order=free
CONTRACT(P12_gs2) { Vec<double,2> v[2] = { any<2>(), any<2>() }, o = v[0]; orthogonalize(v, 2); vf_eq(v[0].x, o.x, "first unchanged"); vf_eq(v[0].y, o.y, "first unchanged"); vf_eq(v[0].x * v[1].x + v[0].y * v[1].y, 0, "perpendicular"); vf_eq(v[1].x * v[1].x + v[1].y * v[1].y, o.x * o.x + o.y * o.y, "non-zero when the first is"); }
CONTRACT(P12_on) {
    int n = (int) vf_pick(1, 2); Vec<double,3> v[3], o[3]; for (int k = 0; k < n; k++) v[k] = o[k] = any<3>();
    double g = dotp<3>(o[0], o[0]); vf_assume(g > 0); if (n > 1) vf_assume(g * dotp<3>(o[1], o[1]) - dotp<3>(o[0], o[1]) * dotp<3>(o[0], o[1]) > 0);
    Vec<double,3> w[3]; for (int k = 0; k < n; k++) w[k] = o[k]; orthogonalize<double,3>(w, n); if (n > 1) { double m1 = dotp<3>(w[1], w[1]); vf_lemma_eq(m1 * g, g * dotp<3>(o[1], o[1]) - dotp<3>(o[0], o[1]) * dotp<3>(o[0], o[1]), "squared length of the second vector"); vf_lemma(m1 > 0, "an independent vector stays non-zero"); }
    orthonormalize<double,3>(v, n); double m0 = std::sqrt(g);
    for (int i = 0; i < 3; i++) vf_eq(v[0][i] * m0, o[0][i], "the first vector keeps its direction");
    for (int a = 0; a < n; a++) { vf_eq(dotp<3>(v[a], v[a]), 1, "unit length"); for (int b = 0; b < a; b++) vf_eq(dotp<3>(v[a], v[b]), 0, "mutually perpendicular"); }
}
CONTRACT(P12_project) {
    vf_one_of([] { Vec<double,3> b[2] = { any<3>(), any<3>() }, w = b[1], x = any<3>(); double g = dotp<3>(b[0], b[0]), h = dotp<3>(b[0], w); vf_assume(g > 0);
        for (int i = 0; i < 3; i++) b[1][i] = g * w[i] - h * b[0][i];  // every vector perpendicular to b[0] has this form
        vf_assume(dotp<3>(b[1], b[1]) > 0);
        Vec<double,3> p = project_to_orthogonal_subspace(b, x, 2); for (int k = 0; k < 2; k++) { double s = 0; for (int i = 0; i < 3; i++) s += (x[i] - p[i]) * b[k][i]; vf_eq(s, 0, "the residual is perpendicular to the subspace"); }
        double c0 = dotp<3>(x, b[0]) / dotp<3>(b[0], b[0]), c1 = dotp<3>(x, b[1]) / dotp<3>(b[1], b[1]); for (int i = 0; i < 3; i++) vf_eq(p[i], c0 * b[0][i] + c1 * b[1][i], "the projection lies in the subspace"); },
    [] { Vec<double,3> b[1] = { any<3>() }, o = b[0], x = any<3>(); double g = dotp<3>(o, o); vf_assume(g > 0); Vec<double,3> p = project_to_subspace<double,3>(b, x, 1); for (int i = 0; i < 3; i++) vf_eq(p[i] * g, dotp<3>(x, o) * o[i], "projection onto one vector"); });
}
