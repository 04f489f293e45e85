// Arbitrary matrices of every representation together with their mathematical entries.
#pragma once
#include "vf.h"
#include <geomc/linalg/Matrix.h>
#include <geomc/linalg/Vec.h>
using namespace geom;
constexpr int MX = 5;
struct Ref { int r, c; double e[MX][MX]; };

template <typename M> struct Any;
template <typename T, index_t M, index_t N, MatrixLayout L, StoragePolicy P> struct Any<SimpleMatrix<T,M,N,L,P>> {
    typedef SimpleMatrix<T,M,N,L,P> Mx;
    static Mx make(index_t r, index_t c) { return Mx(r, c); }
    static void fill(Mx& m, Ref& R) { R.r = m.rows(); R.c = m.cols();
        for (int i = 0; i < R.r; i++) for (int j = 0; j < R.c; j++) { double v = vf_real(); R.e[i][j] = v; m.data_begin()[L == ROW_MAJOR ? i * R.c + j : j * R.r + i] = v; } }
};
template <typename T, index_t M, index_t N> struct Any<DiagMatrix<T,M,N>> {
    typedef DiagMatrix<T,M,N> Mx;
    static Mx make(index_t r, index_t c) { return Mx(r, c); }
    static void fill(Mx& m, Ref& R) { R.r = m.rows(); R.c = m.cols();
        for (int i = 0; i < R.r; i++) for (int j = 0; j < R.c; j++) { R.e[i][j] = 0; if (i == j) { double v = vf_real(); R.e[i][i] = v; m.diagonal_begin()[i] = v; } } }
};
// any permutation of n elements
inline void any_perm(index_t* p, int n) {
    bool used[6] = {false, false, false, false, false, false};
    for (int i = 0; i < n; i++) { int64_t k = vf_pick(0, n - 1 - i); int j = 0; for (;; j++) { if (used[j]) continue; if (k == 0) break; k--; } used[j] = true; p[i] = j; }
}
template <index_t N> struct Any<PermutationMatrix<N>> {
    typedef PermutationMatrix<N> Mx;
    static Mx make(index_t r, index_t c) { return Mx(r); }
    static void fill(Mx& m, Ref& R) { R.r = m.rows(); R.c = m.cols(); index_t p[6]; any_perm(p, R.r); m.setRowSources(p);
        for (int i = 0; i < R.r; i++) for (int j = 0; j < R.c; j++) R.e[i][j] = p[i] == j; }
};
// matrix M equals the entries E
template <typename M, typename F> void is(const M& m, int rows, int cols, F f, const char* name) {
    vf_assert(m.rows() == rows && m.cols() == cols, name);
    for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) vf_eq((double) m(i, j), f(i, j), name);
}
template <typename M> void is(const M& m, const Ref& R, const char* name) { is(m, R.r, R.c, [&](int i, int j) { return R.e[i][j]; }, name); }
inline double prod(const Ref& a, const Ref& b, int i, int j) { double s = 0; for (int k = 0; k < a.c; k++) s += a.e[i][k] * b.e[k][j]; return s; }

typedef SimpleMatrix<double,2,3> M23; typedef SimpleMatrix<double,3,2> M32; typedef SimpleMatrix<double,3,3> M33; typedef SimpleMatrix<double,2,2> M22; typedef SimpleMatrix<double,4,4> M44;
typedef SimpleMatrix<double,2,3,COL_MAJOR> C23; typedef SimpleMatrix<double,3,2,COL_MAJOR> C32; typedef SimpleMatrix<double,3,3,COL_MAJOR> C33;
typedef SimpleMatrix<double,0,0> MX0; typedef SimpleMatrix<double,0,3> MX3; typedef SimpleMatrix<double,3,0> M3X; typedef SimpleMatrix<double,0,0,COL_MAJOR> CX0;
typedef DiagMatrix<double,3,3> D33; typedef DiagMatrix<double,2,3> D23; typedef DiagMatrix<double,3,2> D32; typedef DiagMatrix<double,0,0> DX0;
typedef PermutationMatrix<3> P3; typedef PermutationMatrix<0> PX0;
