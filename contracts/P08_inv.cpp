// P08: matrix inversion is exact and fails exactly on singular input.
// A successful inversion is checked against both products being the identity (which implies that the determinant is
// non-zero); a failed one against the Leibniz determinant being zero and the destination being untouched.
#include "mtx.h"
#include <geomc/GeomException.cpp>
//@@ P08_raw2 P08_raw3 P08_raw4 P08_lu P08_lu_fixed P08_static2 P08_static3 P08_static4 P08_dynamic P08_alias P08_ret P08_diag P08_diag_dyn P08_perm P08_big
//@ *: time=200 order=up forksel
inline double leibniz(const Ref& r, int n) {
    double total = 0; int p[5];
    auto rec = [&](auto& self, int i, int used, double term) -> void { if (i == n) { total += term; return; } int inv = 0; for (int j = n; j-- > 0; ) { if (used >> j & 1) { inv++; continue; } self(self, i + 1, used | 1 << j, inv & 1 ? -(term * r.e[i][j]) : term * r.e[i][j]); } };
    rec(rec, 0, 0, 1.0); return total;
}
// the outcome `ok` of inverting A, with result X and previous destination contents D
inline void outcome(bool ok, const Ref& A, const Ref& X, const Ref& D, int n) {
    if (ok) {
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) vf_eq(prod(A, X, i, j), i == j ? 1 : 0, "matrix times inverse is the identity");
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) vf_eq(prod(X, A, i, j), i == j ? 1 : 0, "inverse times matrix is the identity");
    } else {
        vf_eq(leibniz(A, n), 0, "inversion fails only when the determinant is zero");
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) vf_eq(X.e[i][j], D.e[i][j], "a failed inversion leaves the destination unchanged");
    }
}
inline Ref raw(const double* p, int n) { Ref r; r.r = r.c = n; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r.e[i][j] = p[i * n + j]; return r; }
template <typename M> Ref entries(const M& m) { Ref r; r.r = m.rows(); r.c = m.cols(); for (int i = 0; i < r.r; i++) for (int j = 0; j < r.c; j++) r.e[i][j] = m(i, j); return r; }
template <typename F> void raws(int n, F f, bool keeps) {
    double m[16], o[16]; for (int i = 0; i < n * n; i++) m[i] = vf_real(); for (int i = 0; i < n * n; i++) o[i] = vf_real();
    Ref A = raw(m, n), D = raw(o, n); bool ok = f(o, m); outcome(ok, A, raw(o, n), D, n);
    if (keeps) for (int i = 0; i < n * n; i++) vf_eq(m[i], A.e[i / n][i % n], "the operand is unchanged");
}
CONTRACT(P08_raw2) { raws(2, [](double* o, double* m) { return inv2x2(o, m); }, true); }
CONTRACT(P08_raw3) { raws(3, [](double* o, double* m) { return inv3x3(o, m); }, true); }
CONTRACT(P08_raw4) { raws(4, [](double* o, double* m) { return inv4x4(o, m); }, true); }
CONTRACT(P08_lu) { int n = (int) vf_pick(1, 3); raws(n, [n](double* o, double* m) { return invNxN(o, m, n); }, false); }
CONTRACT(P08_lu_fixed) { vf_one_of([] { raws(2, [](double* o, double* m) { return invNxN<double,2>(o, m); }, false); }, [] { raws(3, [](double* o, double* m) { return invNxN<double,3>(o, m); }, false); }); }
template <typename Md, typename Mx> void inverts(int n) {
    Mx m = Any<Mx>::make(n, n); Md d = Any<Md>::make(n, n); Ref A, D; Any<Mx>::fill(m, A); Any<Md>::fill(d, D);
    bool ok = inv(&d, m); outcome(ok, A, entries(d), D, n); is(m, A, "the operand is unchanged");
}
template <typename M> void self(int n) { M m = Any<M>::make(n, n); Ref A; Any<M>::fill(m, A); bool ok = inv(&m, m); outcome(ok, A, entries(m), A, n); }
template <typename M> void returned(int n) {
    M m = Any<M>::make(n, n); Ref A; Any<M>::fill(m, A); bool ok = false; auto x = inv(m, &ok); Ref X = entries(x); vf_assert(X.r == n && X.c == n, "the returned inverse has the right dimensions");
    outcome(ok, A, X, X, n); is(m, A, "the operand is unchanged");
}
typedef SimpleMatrix<double,2,2,COL_MAJOR> C22; typedef SimpleMatrix<double,4,4,COL_MAJOR> C44;
CONTRACT(P08_static2) { vf_one_of([] { inverts<M22,M22>(2); }, [] { inverts<M22,C22>(2); }, [] { inverts<C22,M22>(2); }, [] { inverts<C22,C22>(2); }); }
CONTRACT(P08_static3) { vf_one_of([] { inverts<M33,M33>(3); }, [] { inverts<M33,C33>(3); }, [] { inverts<C33,M33>(3); }, [] { inverts<C33,C33>(3); }, [] { inverts<M33,MX3>(3); }, [] { inverts<MX0,C33>(3); }); }
CONTRACT(P08_static4) { vf_one_of([] { inverts<M44,M44>(4); }, [] { inverts<M44,C44>(4); }, [] { inverts<C44,M44>(4); }); }
CONTRACT(P08_dynamic) { vf_one_of([] { inverts<MX0,MX0>((int) vf_pick(1, 4)); }, [] { inverts<CX0,MX0>((int) vf_pick(1, 3)); }, [] { inverts<MX0,CX0>((int) vf_pick(1, 3)); }, [] { inverts<M33,MX0>(3); }); }
CONTRACT(P08_alias) { vf_one_of([] { self<M22>(2); }, [] { self<M33>(3); }, [] { self<C33>(3); }, [] { self<M44>(4); }, [] { self<MX0>((int) vf_pick(1, 3)); }, [] { self<D33>(3); }, [] { self<DX0>(2); }, [] { self<P3>(3); }); }
CONTRACT(P08_ret) { vf_one_of([] { returned<M22>(2); }, [] { returned<C33>(3); }, [] { returned<M44>(4); }, [] { returned<MX0>((int) vf_pick(1, 4)); }, [] { returned<M3X>(3); }); }
CONTRACT(P08_diag) { vf_one_of([] { inverts<D33,D33>(3); }, [] { inverts<M33,D33>(3); }, [] { inverts<C33,D33>(3); }, [] { returned<D33>(3); }); }
CONTRACT(P08_diag_dyn) { vf_one_of([] { inverts<DX0,DX0>((int) vf_pick(1, 3)); }, [] { inverts<MX0,DX0>(2); }, [] { inverts<DX0,D33>(3); }, [] { returned<DX0>(3); }, [] { returned<DiagMatrix<double,3,0>>(3); }); }
CONTRACT(P08_perm) { vf_one_of([] { inverts<P3,P3>(3); }, [] { inverts<PX0,PX0>((int) vf_pick(1, 3)); }, [] { returned<P3>(3); }, [] { returned<PX0>(3); }, [] { inverts<PermutationMatrix<4>,PermutationMatrix<4>>(4); }); }
//@ P08_big: bounded="5x5 matrices with six free off-diagonal entries"
CONTRACT(P08_big) {
    typedef SimpleMatrix<double,5,5> M; M m, d; Ref A, D; Any<M>::fill(m, A); Any<M>::fill(d, D); for (int i = 1; i < 5; i++) for (int j = 0; j < i; j++) if (i != 4 || j != 0) { m(i, j) = 0; A.e[i][j] = 0; }
    for (int i = 0; i < 4; i++) for (int j = i + 1; j < 5; j++) if (i > 1 || j > 2) { m(i, j) = 0; A.e[i][j] = 0; }
    bool ok = inv(&d, m); outcome(ok, A, entries(d), D, 5);
}
