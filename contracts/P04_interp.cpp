// P04: multilinear and multicubic interpolation.
#include "vf.h"
#include <geomc/linalg/Vec.h>
#include <geomc/function/Utils.h>
using namespace geom;
//@assume interpolation dimension enumerated: linear 1..4, cubic 1..3
//@@ P04_linear1 P04_linear2 P04_linear3 P04_linear4 P04_cubic2 P04_cubic3
//@ P04_linear*: bounded="dimension enumerated up to 4"
//@ P04_cubic*: bounded="dimension enumerated up to 3"

template <int D> static void lin() {
    double s[D], p[1 << D];
    for (int i = 0; i < D; i++) s[i] = vf_real();
    for (int i = 0; i < (1 << D); i++) p[i] = vf_real();
    double spec = 0;
    for (int c = 0; c < (1 << D); c++) {
        double w = 1;
        for (int k = 0; k < D; k++) w *= ((c >> k) & 1) ? s[k] : 1 - s[k];      // the first axis varies fastest
        spec += w * p[c];
    }
    vf_eq(interp_linear(s, p, D), spec, "multilinear interpolation is the weighted corner sum, first axis fastest");
    for (int c = 0; c < (1 << D); c++) {
        double t[D]; for (int k = 0; k < D; k++) t[k] = (c >> k) & 1;
        vf_eq(interp_linear(t, p, D), p[c], "interpolation returns the sample at each corner");
    }
}
CONTRACT(P04_linear1) { lin<1>(); }
CONTRACT(P04_linear2) { lin<2>(); }
CONTRACT(P04_linear3) { lin<3>(); }
CONTRACT(P04_linear4) { lin<4>(); }

static double cub(double s, const double* p) {   // the cubic through p1,p2 with slopes (p2-p0)/2, (p3-p1)/2
    double m1 = (p[2] - p[0]) / 2, m2 = (p[3] - p[1]) / 2;
    return (2*s*s*s - 3*s*s + 1) * p[1] + (s*s*s - 2*s*s + s) * m1 + (-2*s*s*s + 3*s*s) * p[2] + (s*s*s - s*s) * m2;
}
CONTRACT(P04_cubic1) {
    double s = vf_real(), p[4]; for (int i = 0; i < 4; i++) p[i] = vf_real();
    double r = interp_cubic(s, p);
    vf_eq(r, cub(s, p), "cubic interpolation is the Hermite cubic with central-difference slopes");
    vf_eq(interp_cubic(&s, p, 1), r, "one-dimensional form agrees");
    vf_eq(interp_cubic(0.0, p), p[1], "sample at 0"); vf_eq(interp_cubic(1.0, p), p[2], "sample at 1");
    // quadratics are reproduced
    double a = vf_real(), b = vf_real(), c = vf_real(), q[4];
    for (int i = 0; i < 4; i++) { double x = i - 1; q[i] = a * x * x + b * x + c; }
    vf_eq(interp_cubic(s, q), a * s * s + b * s + c, "quadratic sequences are reproduced");
}
template <int D> static void cubn() {
    double s[D], p[1 << (2 * D)], t[1 << (2 * D)];
    for (int i = 0; i < D; i++) s[i] = vf_real();
    for (int i = 0; i < (1 << (2 * D)); i++) p[i] = t[i] = vf_real();
    double r = interp_cubic(s, p, D);
    for (int k = 0, n = 1 << (2 * D); k < D; k++, n /= 4)       // collapse the fastest axis first
        for (int j = 0; j < n / 4; j++) { double b[4] = {t[4*j], t[4*j+1], t[4*j+2], t[4*j+3]}; t[j] = cub(s[k], b); }
    vf_eq(r, t[0], "multicubic interpolation separates over the axes, first axis fastest");
}
CONTRACT(P04_cubic2) { cubn<2>(); }
CONTRACT(P04_cubic3) { cubn<3>(); }
