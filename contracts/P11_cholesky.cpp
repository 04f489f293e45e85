// P11: Cholesky factorisation. Positive definiteness is decided by the reference quotients of leading minors
// r_k = d_k / d_(k-1) (all positive exactly when all leading minors are positive: Sylvester's criterion).
#include "mtx.h"
#include <geomc/linalg/Cholesky.h>
#include <geomc/GeomException.cpp>
//@@ P11_raw P11_col P11_static P11_dynamic P11_raw4 P11_nonsquare
//@ *: time=200 order=up forksel
inline double minor_(const Ref& r, int n) {
    double total = 0; auto rec = [&](auto& self, int i, int used, double term) -> void { if (i == n) { total += term; return; } int inv = 0; for (int j = n; j-- > 0; ) { if (used >> j & 1) { inv++; continue; } self(self, i + 1, used | 1 << j, inv & 1 ? -(term * r.e[i][j]) : term * r.e[i][j]); } };
    rec(rec, 0, 0, 1.0); return total;
}
inline bool positive_definite(const Ref& A) { double prev = 1; for (int k = 1; k <= A.r; k++) { double d = minor_(A, k); if (!(d / prev > 0)) return false; vf_assert(d > 0, "the leading minors are positive"); prev = d; } return true; }
template <typename G> void factor(int n, const Ref& A, bool pd, bool ok, G at) {
    if (ok) {
        for (int i = 0; i < n; i++) {
            vf_lt(0, at(i, i), "the diagonal of the factor is positive");
            for (int j = i + 1; j < n; j++) vf_eq(at(i, j), 0, "the upper part is zero");
            for (int j = 0; j <= i; j++) { double s = 0; for (int k = 0; k <= j; k++) s += at(i, k) * at(j, k); vf_eq(s, A.e[i][j], "the factor times its transpose is the matrix"); }
        }
        vf_assert(pd, "only positive definite matrices are factored");
    } else vf_assert(!pd, "factorisation fails only for matrices that are not positive definite");
}
template <typename F> void sym(int n, Ref& A, F set) { A.r = A.c = n; for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { double v = vf_real(); A.e[i][j] = A.e[j][i] = v; set(i, j, v); if (i != j) set(j, i, v); } }
template <bool RM> void raw(int n) {
    double m[16]; Ref A; auto at = [&](int i, int j) -> double& { return m[RM ? i * n + j : j * n + i]; }; sym(n, A, [&](int i, int j, double v) { at(i, j) = v; });
    bool pd = positive_definite(A); bool ok = cholesky<double,RM>(m, n); factor(n, A, pd, ok, at);
}
template <typename M> void mat(int n) { M m = Any<M>::make(n, n); Ref A; sym(n, A, [&](int i, int j, double v) { m(i, j) = v; }); bool pd = positive_definite(A); bool ok = cholesky(&m); factor(n, A, pd, ok, [&](int i, int j) { return m(i, j); }); }
CONTRACT(P11_raw) { raw<true>((int) vf_pick(1, 3)); }
CONTRACT(P11_col) { raw<false>((int) vf_pick(1, 3)); }
CONTRACT(P11_raw4) { raw<true>(4); }
CONTRACT(P11_static) { vf_one_of([] { mat<M22>(2); }, [] { mat<M33>(3); }, [] { mat<C33>(3); }); }
CONTRACT(P11_dynamic) { vf_one_of([] { mat<MX0>((int) vf_pick(1, 3)); }, [] { mat<CX0>(2); }, [] { mat<MX3>(3); }); }
CONTRACT(P11_nonsquare) { MX0 m(2, 3); Ref A; Any<MX0>::fill(m, A); vf_assert(!cholesky(&m), "a nonsquare matrix is not factored"); is(m, A, "a nonsquare matrix is unchanged"); }
