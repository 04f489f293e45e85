// P05: dual numbers carry exact derivatives.
#include "vf.h"
#include <geomc/linalg/Vec.h>
#include <geomc/function/Dual.h>
#include <geomc/function/Utils.h>
using namespace geom;
//@assume pow is an uninterpreted function with d/dx x^y = y x^y / x and d/dy x^y = x^y log x for x > 0
//@@ P05_arith_right P05_arith_left P05_arith_avg P05_arith_inf P05_arith_nan P05_funcs_right P05_funcs_left P05_funcs_avg P05_funcs_nan P05_kink_right P05_kink_left P05_kink_avg
typedef DiscontinuityPolicy DP;

template <typename D> static void is(const D& d, double x, double dx, const char* n) { vf_eq(d.x, x, n); vf_eq(d.dx, dx, n); }

template <DP P> static void arith() {
    typedef Dual<double,P> D;
    double a = vf_real(), da = vf_real(), b = vf_real(), db = vf_real(), s = vf_real();
    D x(a, da), y(b, db);
    is(D(s), s, 0, "scalar has zero derivative"); { D z; z = s; is(z, s, 0, "assign scalar"); }
    is(x * y, a * b, da * b + a * db, "dual * dual"); is(x * s, a * s, da * s, "dual * scalar"); is(s * x, s * a, s * da, "scalar * dual");
    is(x + y, a + b, da + db, "dual + dual"); is(x + s, a + s, da, "dual + scalar"); is(s + x, a + s, da, "scalar + dual");
    is(x - y, a - b, da - db, "dual - dual"); is(x - s, a - s, da, "dual - scalar"); is(s - x, s - a, -da, "scalar - dual");
    is(-x, -a, -da, "unary -");
    { D z = x; z *= y; is(z, a * b, da * b + a * db, "*= dual"); } { D z = x; z *= s; is(z, a * s, da * s, "*= scalar"); }
    { D z = x; z += y; is(z, a + b, da + db, "+= dual"); } { D z = x; z += s; is(z, a + s, da, "+= scalar"); }
    { D z = x; z -= y; is(z, a - b, da - db, "-= dual"); } { D z = x; z -= s; is(z, a - s, da, "-= scalar"); }
    { D z = x; z *= z; is(z, a * a, 2 * a * da, "*= itself"); } { D z = x; z += z; is(z, 2 * a, 2 * da, "+= itself"); } { D z = x; z -= z; is(z, 0, 0, "-= itself"); }
    { D z = x; is(z++, a, da, "post-increment"); is(z, a + 1, da, "post-increment"); is(++z, a + 2, da, "pre-increment"); is(z--, a + 2, da, "post-decrement"); is(--z, a, da, "pre-decrement"); }
    double c = vf_real(), dc = vf_real(), d = vf_real(), dd = vf_real();
    D z(c, dc), w(d, dd);
    is(diff_of_products(x, y, z, w), a * b - c * d, da * b + a * db - dc * d - c * dd, "diff_of_products");
    is(sum_of_products(x, y, z, w), a * b + c * d, da * b + a * db + dc * d + c * dd, "sum_of_products");
    is(multiply_add(x, y, z), a * b + c, da * b + a * db + dc, "multiply_add"); is(std::fma(x, y, z), a * b + c, da * b + a * db + dc, "fma");
    is(Dual<double,DP::Left>(x), a, da, "policy conversion"); is(Dual<double,DP::Average>(x), a, da, "policy conversion");
    vf_assert((x == y) == (a == b), "== compares values"); vf_assert((x < y) == (a < b), "< compares values"); vf_assert((x <= y) == (a <= b), "<= compares values");
    vf_assert((x > y) == (a > b), "> compares values"); vf_assert((x >= y) == (a >= b), ">= compares values"); vf_assert((x != y) == (a != b), "!= compares values");
    vf_assume(b != 0); vf_assume(s != 0); vf_assume(a != 0);
    is(x / y, a / b, (da * b - a * db) / (b * b), "dual / dual"); is(x / s, a / s, da / s, "dual / scalar"); is(s / x, s / a, -s * da / (a * a), "scalar / dual");
    { D q = x; q /= y; is(q, a / b, (da * b - a * db) / (b * b), "/= dual"); } { D q = x; q /= s; is(q, a / s, da / s, "/= scalar"); } { D q = x; q /= q; is(q, 1, 0, "/= itself"); }
}
CONTRACT(P05_arith_right) { arith<DP::Right>(); }
CONTRACT(P05_arith_left) { arith<DP::Left>(); }
CONTRACT(P05_arith_avg) { arith<DP::Average>(); }
CONTRACT(P05_arith_inf) { arith<DP::Inf>(); }
CONTRACT(P05_arith_nan) { arith<DP::NaN>(); }

template <DP P> static void funcs() {
    typedef Dual<double,P> D;
    double a = vf_real(), da = vf_real(), b = vf_real(), db = vf_real(), s = vf_real();
    D x(a, da), y(b, db);
    is(std::sin(x), std::sin(a), da * std::cos(a), "sin"); is(std::cos(x), std::cos(a), -da * std::sin(a), "cos");
    is(std::exp(x), std::exp(a), da * std::exp(a), "exp"); is(std::atan(x), std::atan(a), da / (1 + a * a), "atan");
    if (std::cos(a) != 0) { D t = std::tan(x); vf_eq(t.x, std::tan(a), "tan"); vf_eq(t.dx * std::cos(a) * std::cos(a), da, "tan derivative"); }
    if (a > 0) {
        is(std::log(x), std::log(a), da / a, "log");
        D r = std::sqrt(x); vf_eq(r.x * r.x, a, "sqrt"); vf_le(0, r.x, "sqrt"); vf_eq(2 * r.x * r.dx, da, "sqrt derivative");
        double p = std::pow(a, b), ps = std::pow(a, s);
        is(std::pow(x, y), p, da * b * p / a + db * p * std::log(a), "pow(dual, dual)");
        is(std::pow(x, s), ps, da * s * ps / a, "pow(dual, scalar)");
        is(std::pow(a, y), p, db * p * std::log(a), "pow(scalar, dual)");
    }
    if (-1 < a && a < 1) {
        double q = std::sqrt(1 - a * a);
        D u = std::asin(x), v = std::acos(x);
        vf_eq(u.x, std::asin(a), "asin"); vf_eq(u.dx * q, da, "asin derivative"); vf_eq(v.x, std::acos(a), "acos"); vf_eq(v.dx * q, -da, "acos derivative");
    }
    if (a != 0 || b != 0) is(std::atan2(y, x), std::atan2(b, a), (db * a - b * da) / (a * a + b * b), "atan2");
    // piecewise functions away from their kinks
    if (a != 0) is(std::abs(x), a < 0 ? -a : a, a < 0 ? -da : da, "abs away from the kink");
    if (a != b) {
        is(std::min(x, y), a < b ? a : b, a < b ? da : db, "min away from the kink"); is(std::max(x, y), a > b ? a : b, a > b ? da : db, "max away from the kink");
    }
    if (a != std::floor(a)) { is(std::floor(x), std::floor(a), 0, "floor away from the jumps"); is(std::ceil(x), std::ceil(a), 0, "ceil away from the jumps"); }
    vf_eq(std::floor(x).x, std::floor(a), "floor value"); vf_eq(std::ceil(x).x, std::ceil(a), "ceil value");
    vf_eq(std::abs(x).x, a < 0 ? -a : a, "abs value"); vf_eq(std::min(x, y).x, a < b ? a : b, "min value"); vf_eq(std::max(x, y).x, a > b ? a : b, "max value");
}
CONTRACT(P05_funcs_right) { funcs<DP::Right>(); }
CONTRACT(P05_funcs_left) { funcs<DP::Left>(); }
CONTRACT(P05_funcs_avg) { funcs<DP::Average>(); }
CONTRACT(P05_funcs_nan) { funcs<DP::NaN>(); }

template <DP P> static void kink() {
    typedef Dual<double,P> D;
    double a = vf_real(), da = vf_real(), db = vf_real();
    D z(0, da), x(a, da), y(a, db);
    double lo = da < db ? da : db, hi = da < db ? db : da;
    if (P == DP::Right) { is(std::abs(z), 0, da, "abs at the kink, from the right"); is(std::min(x, y), a, lo, "min at a tie, from the right"); is(std::max(x, y), a, hi, "max at a tie, from the right"); }
    if (P == DP::Left) { is(std::abs(z), 0, -da, "abs at the kink, from the left"); is(std::min(x, y), a, hi, "min at a tie, from the left"); is(std::max(x, y), a, lo, "max at a tie, from the left"); }
    if (P == DP::Average) { is(std::abs(z), 0, 0, "abs at the kink, average"); is(std::min(x, y), a, (da + db) / 2, "min at a tie, average"); is(std::max(x, y), a, (da + db) / 2, "max at a tie, average"); }
}
CONTRACT(P05_kink_right) { kink<DP::Right>(); }
CONTRACT(P05_kink_left) { kink<DP::Left>(); }
CONTRACT(P05_kink_avg) { kink<DP::Average>(); }
