// P10: pivoted LU decomposition and linear solving.
#include "mtx.h"
#include <geomc/GeomException.cpp>
//@@ P10_plu P10_plu_col P10_lup P10_lup_col P10_backsolve P10_backsolve_lu P10_solve2 P10_solve3 P10_solve_col P10_basis2 P10_basis3 P10_basis4 P10_basis5 P10_solve4 P10_apply P10_skip
//@ *: time=200 order=up forksel
//@ P10_plu P10_plu_col: par=2
inline double leibniz(const Ref& r, int n) {
    double total = 0; int p[5];
    auto rec = [&](auto& self, int i, int used, double term) -> void { if (i == n) { total += term; return; } int inv = 0; for (int j = n; j-- > 0; ) { if (used >> j & 1) { inv++; continue; } self(self, i + 1, used | 1 << j, inv & 1 ? -(term * r.e[i][j]) : term * r.e[i][j]); } };
    rec(rec, 0, 0, 1.0); return total;
}
// is p a permutation of 0..n-1, and is its parity odd
inline void perm_ok(const index_t* p, int n, bool odd) {
    int inv = 0; for (int i = 0; i < n; i++) vf_assert(p[i] >= 0 && p[i] < n, "permutation entries are in range");
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { vf_assert(p[i] != p[j], "permutation entries are distinct"); inv += p[j] > p[i]; }
    vf_assert((inv & 1) == (odd ? 1 : 0), "the reported parity is the parity of the permutation");
}
template <bool RowMajor, bool Rows> void decomposes(int r, int c) {
    double m[12]; Ref A; A.r = r; A.c = c; auto at = [&](int i, int j) -> double& { return m[RowMajor ? i * c + j : j * r + i]; };
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) at(i, j) = A.e[i][j] = vf_real();
    index_t p[5]; bool odd = true; index_t deg = Rows ? decomp_plu<double,RowMajor>(m, r, c, p, &odd) : decomp_lup<double,RowMajor>(m, r, c, p, &odd);
    perm_ok(p, Rows ? r : c, odd); vf_assert(deg >= 0 && deg <= std::min(r, c), "the degeneracy is a number of pivots"); int n = std::min(r, c);
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
        double s = 0; for (int k = 0; k < n; k++) { double l = i == k ? 1 : i > k ? at(i, k) : 0, u = k <= j ? at(k, j) : 0; s += l * u; }
        if (Rows || deg == 0) vf_eq(s, Rows ? A.e[p[i]][j] : A.e[i][p[j]], "L times U is the permuted matrix");
    }
    if (r == c) { int z = 0; double d = odd ? -1 : 1; for (int i = 0; i < n; i++) { z += at(i, i) == 0; d *= at(i, i); } vf_assert(z == deg, "the reported degeneracy counts the zero pivots"); vf_eq(d, leibniz(A, n), "the determinant is the signed product of the pivots"); }
    for (int i = 0; i < r; i++) for (int j = 0; j < i && j < n; j++) if (Rows) vf_le(std::abs(at(i, j)), 1.0, "pivoting keeps the multipliers at most one");
}
template <bool RM, bool Rows> void shapes() { vf_one_of([] { decomposes<RM,Rows>(1, 1); }, [] { decomposes<RM,Rows>(2, 2); }, [] { decomposes<RM,Rows>(3, 3); }, [] { decomposes<RM,Rows>(2, 3); }, [] { decomposes<RM,Rows>(3, 2); }, [] { decomposes<RM,Rows>(2, 4); }, [] { decomposes<RM,Rows>(1, 3); }, [] { decomposes<RM,Rows>(3, 1); }, [] { decomposes<RM,Rows>(4, 2); }); }
CONTRACT(P10_plu) { shapes<true,true>(); }
CONTRACT(P10_plu_col) { shapes<false,true>(); }
CONTRACT(P10_lup) { shapes<true,false>(); }
CONTRACT(P10_lup_col) { shapes<false,false>(); }
// triangular solvers: for any packed LU with a non-zero diagonal
template <bool RM> void backsolves(bool perm) {
    int n = (int) vf_pick(1, 3), m = (int) vf_pick(1, 2); double lu[9], x[6], b[6]; index_t p[3]; if (perm) any_perm(p, n); else for (int i = 0; i < n; i++) p[i] = i;
    auto at = [&](int i, int j) -> double& { return lu[RM ? i * n + j : j * n + i]; }; auto ix = [&](int i, int k) { return RM ? i * m + k : k * n + i; };
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { at(i, j) = vf_real(); if (i == j) vf_assume(at(i, i) != 0); }
    for (int i = 0; i < n * m; i++) { b[i] = vf_real(); x[i] = perm ? vf_real() : b[i]; }
    double keep[9]; for (int i = 0; i < 9; i++) if (i < n * n) keep[i] = lu[i];
    if (perm) backsolve_plu<double,RM>(lu, p, n, m, x, b); else backsolve_lu<double,RM>(lu, n, m, x);
    for (int i = 0; i < n * n; i++) vf_eq(lu[i], keep[i], "the factors are unchanged");
    for (int k = 0; k < m; k++) for (int i = 0; i < n; i++) {
        double s = 0; for (int q = 0; q <= i; q++) { double y = 0; for (int j = q; j < n; j++) y += at(q, j) * x[ix(j, k)]; s += (q == i ? 1 : at(i, q)) * y; }
        vf_eq(s, b[ix(p[i], k)], "L U x is the permuted right-hand side");
    }
}
CONTRACT(P10_backsolve) { vf_one_of([] { backsolves<true>(true); }, [] { backsolves<false>(true); }); }
CONTRACT(P10_backsolve_lu) { vf_one_of([] { backsolves<true>(false); }, [] { backsolves<false>(false); }); }
template <bool RM> void solves(int n, int m, Ref A) {
    double a[16], x[8], b[8]; auto ix = [&](int i, int k) { return RM ? i * m + k : k * n + i; };
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[RM ? i * n + j : j * n + i] = A.e[i][j];
    for (int i = 0; i < n * m; i++) x[i] = b[i] = vf_real();
    bool ok = linear_solve<double,RM>(a, n, m, x);
    if (ok) { vf_assert(true, "solved"); for (int k = 0; k < m; k++) for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) s += A.e[i][j] * x[ix(j, k)]; vf_eq(s, b[ix(i, k)], "the solution satisfies the system"); } }
    else { vf_eq(leibniz(A, n), 0, "solving fails only when the determinant is zero"); for (int i = 0; i < n * m; i++) vf_eq(x[i], b[i], "a failed solve leaves the right-hand side unchanged"); }
}
inline Ref any(int n) { Ref A; A.r = A.c = n; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A.e[i][j] = vf_real(); return A; }
CONTRACT(P10_solve2) { int n = (int) vf_pick(1, 2), m = (int) vf_pick(1, 2); solves<true>(n, m, any(n)); }
CONTRACT(P10_solve3) { solves<true>(3, 1, any(3)); }
CONTRACT(P10_solve_col) { vf_one_of([] { solves<false>(2, 2, any(2)); }, [] { solves<false>(3, 2, any(3)); }); }
//@ P10_solve4: bounded="4x4 systems with zeros below the first subdiagonal (upper Hessenberg)"
CONTRACT(P10_solve4) { Ref A = any(4); for (int i = 0; i < 4; i++) for (int j = 0; j < i - 1; j++) A.e[i][j] = 0; solves<true>(4, 1, A); }
// solving in terms of basis vectors: sum_i bases[i] * x_j[i] = b_j
template <int N> void basis(int m, bool sparse) {
    Vec<double,N> v[N], keep[N], x[2], b[2]; Ref A; A.r = A.c = N;
    for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) { v[j][i] = sparse && !(i == j || (j == 0 && i == N - 1) || (i == 0 && j == N - 1)) ? 0 : vf_real(); A.e[i][j] = v[j][i]; }
    for (int k = 0; k < m; k++) for (int i = 0; i < N; i++) b[k][i] = x[k][i] = vf_real();
    bool ok = linear_solve<double,N>(v, m, x);
    if (ok) for (int k = 0; k < m; k++) for (int i = 0; i < N; i++) { double s = 0; for (int j = 0; j < N; j++) s += A.e[i][j] * x[k][j]; vf_eq(s, b[k][i], "the vectors are expressed in the basis"); }
    else { vf_eq(leibniz(A, N), 0, "solving fails only for dependent bases"); for (int k = 0; k < m; k++) for (int i = 0; i < N; i++) vf_eq(x[k][i], b[k][i], "a failed solve leaves the vectors unchanged"); }
}
CONTRACT(P10_basis2) { basis<2>((int) vf_pick(1, 2), false); }
CONTRACT(P10_basis3) { basis<3>((int) vf_pick(1, 2), false); }
CONTRACT(P10_basis4) { basis<4>((int) vf_pick(1, 2), false); }
//@ P10_basis5: bounded="5x5 bases with seven free entries"
CONTRACT(P10_basis5) { basis<5>(2, true); }
CONTRACT(P10_apply) {
    vf_one_of([] { int n = (int) vf_pick(1, 4); index_t p[5], q[5]; any_perm(p, n); double a[5], o[5]; for (int i = 0; i < n; i++) { q[i] = p[i]; a[i] = o[i] = vf_real(); } detail::destructive_apply_permutation<double,true>(p, a, n, 1); for (int i = 0; i < n; i++) vf_eq(a[i], o[q[i]], "row i comes from its source row"); },
              [] { int n = (int) vf_pick(1, 3); index_t p[5], q[5]; any_perm(p, n); double a[6], o[6]; for (int i = 0; i < 2 * n; i++) a[i] = o[i] = vf_real(); for (int i = 0; i < n; i++) q[i] = p[i]; detail::destructive_apply_permutation<double,false>(p, a, n, 2); for (int i = 0; i < n; i++) for (int k = 0; k < 2; k++) vf_eq(a[k * n + i], o[k * n + q[i]], "row i comes from its source row (column-major)"); });
}
// skipping leading unknowns leaves the others exact
CONTRACT(P10_skip) {
    double a[9], x[3], b[3]; Ref A = any(3); for (int i = 0; i < 9; i++) a[i] = A.e[i / 3][i % 3]; for (int i = 0; i < 3; i++) x[i] = b[i] = vf_real(); int skip = (int) vf_pick(1, 2); double a2[9], y[3]; for (int i = 0; i < 9; i++) a2[i] = a[i]; for (int i = 0; i < 3; i++) y[i] = b[i];
    bool ok = linear_solve(a, 3, 1, x, skip), ok2 = linear_solve(a2, 3, 1, y); vf_assert(ok == ok2, "skipping does not change success"); if (ok) for (int i = skip; i < 3; i++) vf_eq(x[i], y[i], "the unknowns that are not skipped agree with the full solution");
}
