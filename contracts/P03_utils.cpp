// P03: scalar helpers.
#include "vf.h"
#include <geomc/linalg/Vec.h>
#include <geomc/function/Utils.h>
#include <complex>
using namespace geom;
//@assume the double constant 2*M_PI is the period of the trigonometric functions
//@@ P03_imod P03_idiv P03_imod32

template <typename T> static void imod(int64_t M) {
    T a = vf_int(-M, M), b = vf_int(1, M);
    T r = positive_mod<T>(a, b);
    vf_assert(0 <= r && r < b, "positive_mod lies in [0,b)");
    vf_assert((a - r) % b == 0, "positive_mod is congruent to its argument");
}
CONTRACT(P03_imod) { imod<int64_t>(1000000000); }
CONTRACT(P03_imod32) { imod<int32_t>(1000000); }
CONTRACT(P03_idiv) {
    int64_t a = vf_int(-1000000000, 1000000000), b = vf_int(-1000000000, 1000000000);
    vf_assume(b != 0);
    int64_t f = floor_div<int64_t>(a, b), c = ceil_div<int64_t>(a, b), s = snap<int64_t>(a, b);
    int64_t rf = a - f * b, rc = c * b - a;
    vf_assert(b > 0 ? (0 <= rf && rf < b) : (b < rf && rf <= 0), "floor_div is the floor of the quotient");
    vf_assert(b > 0 ? (0 <= rc && rc < b) : (b < rc && rc <= 0), "ceil_div is the ceiling of the quotient");
    vf_assert(s == c * b, "snap is the ceiling multiple");
}
CONTRACT(P03_fdiv) {
    double a = vf_real(), b = vf_real();
    vf_assume(b > 0);
    double f = floor_div<double>(a, b), c = ceil_div<double>(a, b), s = snap<double>(a, b), m = positive_mod<double>(a, b);
    vf_le(f * b, a, "floor_div(real)"); vf_lt(a, (f + 1) * b, "floor_div(real)");
    vf_le(a, c * b, "ceil_div(real)"); vf_lt((c - 1) * b, a, "ceil_div(real)");
    vf_eq(s, b * c, "snap(real)"); vf_le(a, s, "snap is at least its argument"); vf_lt(s, a + b, "snap is the nearest multiple above");
    vf_eq(f, std::floor(f), "floor_div(real) is an integer"); vf_eq(c, std::floor(c), "ceil_div(real) is an integer");
    vf_le(0, m, "positive_mod(real) >= 0"); vf_lt(m, b, "positive_mod(real) < b"); vf_eq((a - m) / b, f, "positive_mod(real) is congruent to its argument");
}
CONTRACT(P03_fused) {
    double a = vf_real(), b = vf_real(), c = vf_real(), d = vf_real();
    vf_eq(diff_of_products(a, b, c, d), a * b - c * d, "diff_of_products"); vf_eq(sum_of_products(a, b, c, d), a * b + c * d, "sum_of_products"); vf_eq(multiply_add(a, b, c), a * b + c, "multiply_add");
    int64_t i = vf_int(-1000, 1000), j = vf_int(-1000, 1000), k = vf_int(-1000, 1000), l = vf_int(-1000, 1000);
    vf_assert(diff_of_products(i, j, k, l) == i * j - k * l, "diff_of_products(int)"); vf_assert(sum_of_products(i, j, k, l) == i * j + k * l, "sum_of_products(int)");
    vf_assert(multiply_add(i, j, k) == i * j + k, "multiply_add(int)");
    double e = vf_real(), f = vf_real(), g = vf_real(), h = vf_real();
    std::complex<double> x(a, b), y(c, d), z(e, f), w(g, h);
    std::complex<double> p = diff_of_products(x, y, z, w), q = sum_of_products(x, y, z, w), r = multiply_add(x, y, z);
    double xyr = a * c - b * d, xyi = a * d + b * c, zwr = e * g - f * h, zwi = e * h + f * g;
    vf_eq(p.real(), xyr - zwr, "diff_of_products(complex)"); vf_eq(p.imag(), xyi - zwi, "diff_of_products(complex)");
    vf_eq(q.real(), xyr + zwr, "sum_of_products(complex)"); vf_eq(q.imag(), xyi + zwi, "sum_of_products(complex)");
    vf_eq(r.real(), xyr + e, "multiply_add(complex)"); vf_eq(r.imag(), xyi + f, "multiply_add(complex)");
}
CONTRACT(P03_clamp_mix) {
    double v = vf_real(), lo = vf_real(), hi = vf_real(), t = vf_real(), a = vf_real(), b = vf_real();
    vf_assume(lo <= hi);
    double c = clamp(v, lo, hi);
    vf_assert(c == (v < lo ? lo : v > hi ? hi : v), "clamp is the nearest value of the range");
    int64_t iv = vf_int(-1000000, 1000000), il = vf_int(-1000000, 1000000), ih = vf_int(-1000000, 1000000); vf_assume(il <= ih);
    vf_assert(clamp(iv, il, ih) == (iv < il ? il : iv > ih ? ih : iv), "clamp (integer)");
    vf_eq(mix(t, a, b), (1 - t) * a + t * b, "mix"); vf_eq(mix(0.0, a, b), a, "mix at 0"); vf_eq(mix(1.0, a, b), b, "mix at 1");
    vf_eq(radians(t), t * M_PI / 180, "radians"); vf_eq(degrees(radians(t)), t, "degrees inverts radians");
}
CONTRACT(P03_quadratic) {
    double a = vf_real(), b = vf_real(), c = vf_real(), x = vf_real(), r[2] = {0, 0};
    double disc = b * b - 4 * a * c;
    bool ok = quadratic_solve(r, a, b, c);
    vf_iff(ok, disc >= 0 && !(a == 0 && b == 0), disc, "quadratic_solve succeeds exactly when there is a real root");
    if (ok) {
        if (a != 0) {
            // a (x - r0)(x - r1) is the polynomial: both are roots and there are no others
            vf_eq(a * (r[0] + r[1]), -b, "sum of the roots"); vf_eq(a * r[0] * r[1], c, "product of the roots");
            vf_eq(a * (x - r[0]) * (x - r[1]), a * x * x + b * x + c, "the roots factor the polynomial");
        } else { vf_eq(b * r[0], -c, "root of the linear equation"); vf_eq(b * r[1], -c, "root of the linear equation"); }
    } else if (a != 0) {
        vf_lemma_eq(4 * a * (a * x * x + b * x + c), (2 * a * x + b) * (2 * a * x + b) - disc, "completing the square");
        vf_assert(a * x * x + b * x + c != 0, "no root when failure is reported");
    }
}
CONTRACT(P03_angle_to) {
    double a = vf_real(), b = vf_real();
    double d = angle_to(a, b);
    vf_le(-M_PI, d, "angle_to at least minus half a turn"); vf_le(d, M_PI, "angle_to at most half a turn");
    double k = (b - a - d) / (2 * M_PI);
    vf_eq(k, std::floor(k + 0.25), "a plus angle_to(a,b) is b up to whole turns");
}
//@ P03_pow2: bv
CONTRACT(P03_pow2) {
    uint64_t x = vf_u64();
    bool one = false;
    for (int i = 0; i < 64; i++) if (x == (1ull << i)) one = true;
    vf_assert(is_power_of_two(x) == one, "is_power_of_two");
    vf_assert(is_power_of_two((int64_t) x) == (one && (int64_t) x > 0), "is_power_of_two (signed)");
}
