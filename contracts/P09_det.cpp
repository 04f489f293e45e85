// P09: determinants equal the Leibniz sum over permutations.
#include "mtx.h"
#include <geomc/GeomException.cpp>
//@@ P09_formulas P09_static P09_dynamic2 P09_dynamic3 P09_dynamic4 P09_static5 P09_singular5 P09_raw P09_diag P09_perm P09_perm_dyn
//@ *: time=200 order=up
// sum over all permutations p of sign(p) * product of e[i][p[i]]
inline double leibniz(const Ref& r, int n) {
    double total = 0; int p[5];
    auto rec = [&](auto& self, int i, int used, double term) -> void { if (i == n) { total += term; return; } int inv = 0; for (int j = n; j-- > 0; ) { if (used >> j & 1) { inv++; continue; } self(self, i + 1, used | 1 << j, inv & 1 ? -(term * r.e[i][j]) : term * r.e[i][j]); } };
    rec(rec, 0, 0, 1.0); return total;
}
template <typename M> void dets(int n) { M m = Any<M>::make(n, n); Ref r; Any<M>::fill(m, r); vf_eq(det(m), leibniz(r, n), "det is the Leibniz sum"); is(m, r, "operand unchanged"); }
CONTRACT(P09_formulas) {
    double m[16]; Ref r; for (int i = 0; i < 16; i++) m[i] = vf_real();
    auto sq = [&](int n) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r.e[i][j] = m[i * n + j]; return leibniz(r, n); };
    vf_eq(det2x2(m), sq(2), "det2x2(array)"); vf_eq(det2x2(m[0], m[1], m[2], m[3]), sq(2), "det2x2(entries)"); vf_eq(det3x3(m), sq(3), "det3x3(array)"); vf_eq(det3x3(m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8]), sq(3), "det3x3(entries)"); vf_eq(det4x4(m), sq(4), "det4x4(array)");
}
CONTRACT(P09_static) { vf_one_of([] { dets<M22>(2); }, [] { dets<SimpleMatrix<double,2,2,COL_MAJOR>>(2); }, [] { dets<M33>(3); }, [] { dets<C33>(3); }, [] { dets<M44>(4); }, [] { dets<SimpleMatrix<double,4,4,COL_MAJOR>>(4); }, [] { dets<SimpleMatrix<double,1,1>>(1); }, [] { dets<MX3>(3); }, [] { dets<M3X>(3); },
    [] { MX0 m(2, 3); Ref r; Any<MX0>::fill(m, r); vf_eq(det(m), 0, "a nonsquare dynamic matrix has determinant zero"); }); }
CONTRACT(P09_dynamic2) { vf_one_of([] { dets<MX0>(2); }, [] { dets<CX0>(2); }, [] { dets<MX0>(1); }); }
CONTRACT(P09_dynamic3) { vf_one_of([] { dets<MX0>(3); }, [] { dets<CX0>(3); }); }
CONTRACT(P09_dynamic4) {
    MX0 m(4, 4); Ref r; Any<MX0>::fill(m, r); for (int i = 0; i < 4; i++) for (int j = 0; j < i - 1; j++) { r.e[i][j] = 0; m(i, j) = 0; }
    vf_eq(det(m), leibniz(r, 4), "det is the Leibniz sum");
}
//@ P09_dynamic4: par=8 bounded="entries with zeros below the first subdiagonal (upper Hessenberg)"
//@ *: forksel
// general elimination on a fixed 5x5 size
CONTRACT(P09_static5) {
    // the first pivot is the largest entry of its column; every other entry is arbitrary
    SimpleMatrix<double,5,5> m; Ref r; Any<SimpleMatrix<double,5,5>>::fill(m, r); for (int i = 0; i < 5; i++) for (int j = 0; j < i; j++) if (j < 3) { r.e[i][j] = 0; m(i, j) = 0; }
    vf_eq(det(m), leibniz(r, 5), "det is the Leibniz sum");
}
CONTRACT(P09_singular5) { SimpleMatrix<double,5,5> m; double k = vf_real(); for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) m(i, j) = (i == j || (i == 4 && j == 0) || (i == 0 && j == 4)) ? (i == 4 && j == 0 ? k : 1.0) : 0; vf_eq(det(m), 1 - k, "determinant of a near-identity 5x5 matrix, singular or not"); }
CONTRACT(P09_raw) {
    int n = (int) vf_pick(1, 3); double m[9], c[9]; Ref r; for (int i = 0; i < n * n; i++) { m[i] = c[i] = vf_real(); r.e[i / n][i % n] = m[i]; } double d = leibniz(r, n);
    vf_eq(detNxN(m, n), d, "detNxN"); for (int i = 0; i < n * n; i++) vf_eq(m[i], c[i], "detNxN leaves its operand unchanged"); vf_eq(det_destructive(m, n), d, "det_destructive");
}
CONTRACT(P09_diag) { vf_one_of([] { dets<D33>(3); }, [] { dets<DX0>(3); }, [] { dets<DiagMatrix<double,2,2>>(2); }, [] { dets<DX0>(1); }, [] { DX0 d(2, 3); Ref r; Any<DX0>::fill(d, r); vf_eq(det(d), 0, "a nonsquare diagonal matrix has determinant zero"); }); }
template <typename M> void pdets(int n) { M m = Any<M>::make(n, n); Ref r; Any<M>::fill(m, r); vf_eq((double) det(m), leibniz(r, n), "det of a permutation is its parity"); is(m, r, "operand unchanged"); }
CONTRACT(P09_perm) { vf_one_of([] { pdets<P3>(3); }, [] { pdets<PermutationMatrix<4>>(4); }, [] { pdets<PermutationMatrix<5>>(5); }); }
CONTRACT(P09_perm_dyn) { pdets<PX0>((int) vf_pick(1, 4)); }
