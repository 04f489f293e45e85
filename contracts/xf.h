// Any affine transform: linear part with non-zero determinant, any translation; its inverse is determined.
#pragma once
#include "vf.h"
#include <iostream>
#include <geomc/linalg/AffineTransform.h>
using namespace geom;
template <int N> using Xf = AffineTransform<double,N>;
template <int N> using Vc = Vec<double,N>;
template <int N> Vc<N> anyv() { Vc<N> v; for (int i = 0; i < N; i++) v[i] = vf_real(); return v; }
// non-zero (natively: well away from zero)
static void nz(double d) { vf_assume(d != 0); if (!vf_symbolic()) vf_assume(std::fabs(d) > 0.05); }
// determinant and adjugate
template <int N> double detadj(const double (&a)[N][N], double (&j)[N][N]) {
    if constexpr (N == 2) { j[0][0] = a[1][1]; j[0][1] = -a[0][1]; j[1][0] = -a[1][0]; j[1][1] = a[0][0]; return a[0][0] * a[1][1] - a[0][1] * a[1][0]; }
    else {
        for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) { int r1 = (r + 1) % 3, r2 = (r + 2) % 3, c1 = (c + 1) % 3, c2 = (c + 2) % 3; j[c][r] = a[r1][c1] * a[r2][c2] - a[r1][c2] * a[r2][c1]; }
        return a[0][0] * j[0][0] + a[0][1] * j[1][0] + a[0][2] * j[2][0];
    }
}
// any transform satisfying the invariant: linear part L with non-zero determinant, translation t; its inverse is determined
template <int N> Xf<N> anyx() {
    Xf<N> x; double a[N][N], j[N][N], t[N];
    for (int i = 0; i < N; i++) { for (int k = 0; k < N; k++) a[i][k] = vf_real(); t[i] = vf_real(); }
    double d = detadj<N>(a, j); nz(d);
    for (int r = 0; r < N; r++) {
        double s = 0;
        for (int c = 0; c < N; c++) { x.mat(r, c) = a[r][c]; x.inv(r, c) = j[r][c] / d; s += j[r][c] / d * t[c]; x.mat(N, c) = x.inv(N, c) = 0; }
        x.mat(r, N) = t[r]; x.inv(r, N) = -s;
    }
    x.mat(N, N) = x.inv(N, N) = 1;
    return x;
}
template <int N> Vc<N> fwd(const Xf<N>& x, const Vc<N>& p, double w, bool inv = false) { Vc<N> o; auto& m = inv ? x.inv : x.mat; for (int r = 0; r < N; r++) { double s = 0; for (int c = 0; c < N; c++) s += m(r, c) * p[c]; o[r] = s + w * m(r, N); } return o; }
