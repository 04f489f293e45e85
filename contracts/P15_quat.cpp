// P15: quaternions: Hamilton product, norm, conjugation, rotation, axis-angle, slerp, exp/log/pow.
#include "vf.h"
#include "unit3.h"
#include <geomc/linalg/Quaternion.h>
using namespace geom;
typedef Quat<double> Q; typedef Vec<double,3> V3; typedef Vec<double,4> V4;
static V3 any3() { double x = vf_real(), y = vf_real(), z = vf_real(); return V3(x, y, z); }
static Q anyq() { double x = vf_real(), y = vf_real(), z = vf_real(), w = vf_real(); return Q(x, y, z, w); }
static double dot(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static double n2(const Q& q) { return q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w; }
static bool zero(const V3& a) { return a[0] == 0 && a[1] == 0 && a[2] == 0; }
static void eq(const V3& a, const V3& b, const char* n) { for (int i = 0; i < 3; i++) vf_eq(a[i], b[i], n); }
static void eq(const Q& a, const Q& b, const char* n) { for (int i = 0; i < 4; i++) vf_eq(a[i], b[i], n); }
static Q hamilton(const Q& a, const Q& b) { return Q(a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x, a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w, a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z); }
// the rotation matrix of a unit quaternion applied to v (times |q|^2 for any quaternion)
static V3 conjugated(const Q& q, const V3& v) { double x = q.x, y = q.y, z = q.z, w = q.w;
    return V3((w*w + x*x - y*y - z*z) * v.x + 2 * (x*y - z*w) * v.y + 2 * (x*z + y*w) * v.z, 2 * (x*y + z*w) * v.x + (w*w - x*x + y*y - z*z) * v.y + 2 * (y*z - x*w) * v.z, 2 * (x*z - y*w) * v.x + 2 * (y*z + x*w) * v.y + (w*w - x*x - y*y + z*z) * v.z); }
static Q unitq() { Q q = anyq(); vf_assume(0 < n2(q)); return q.unit(); }
// right-handed rotation of p by the angle with cosine C, sine S about a (n2 = |a|^2, n = |a|)
static void turned(const V3& p, const V3& a, double C, double S, const V3& r, const char* name, bool unit = false) {
    double n2 = unit ? 1 : dot(a, a), n = unit ? 1 : std::sqrt(n2), ap = dot(a, p);
    double cr[3] = {a.y * p.z - a.z * p.y, a.z * p.x - a.x * p.z, a.x * p.y - a.y * p.x};
    for (int i = 0; i < 3; i++) vf_eq(r[i] * n2, p[i] * C * n2 + cr[i] * S * n + a[i] * ap * (1 - C), name);
}
CONTRACT(P15_product) {
    Q a = anyq(), b = anyq(), c = anyq(); Q p = a * b;
    eq(p, hamilton(a, b), "multiplication is the Hamilton product"); eq(a.mult(b), hamilton(a, b), "mult is the Hamilton product");
    eq((a * b) * c, a * (b * c), "multiplication is associative"); vf_eq(n2(p), n2(a) * n2(b), "the norm is multiplicative"); vf_eq(p.mag2(), n2(p), "mag2 is the squared norm");
    eq(a * Q::identity(), a, "identity is neutral"); eq(Q::identity() * a, a, "identity is neutral"); eq(a * (b + c), a * b + a * c, "multiplication distributes"); eq((a + b) * c, a * c + b * c, "multiplication distributes");
    Q k = a.conj(); vf_eq(k.x, -a.x, "conj"); vf_eq(k.y, -a.y, "conj"); vf_eq(k.z, -a.z, "conj"); vf_eq(k.w, a.w, "conj"); eq(std::conj(a), k, "std::conj");
    eq(a * k, Q(0, 0, 0, n2(a)), "q q* = |q|^2"); eq(k * a, Q(0, 0, 0, n2(a)), "q* q = |q|^2"); eq((a * b).conj(), b.conj() * a.conj(), "conjugation reverses products"); eq(a.conj().conj(), a, "conjugation is an involution");
    eq(a.imag(), V3(a.x, a.y, a.z), "imag"); vf_eq(a.real(), a.w, "real"); eq(Q(a.imag(), a.w), a, "construct from parts"); double e[4] = {a.x, a.y, a.z, a.w}; eq(Q(e), a, "construct from array"); eq(Q(V4(a.x, a.y, a.z, a.w)), a, "construct from a vector");
    double s = vf_real(); eq(a * s, Q(a.x * s, a.y * s, a.z * s, a.w * s), "scaling"); eq(s * a, Q(a.x * s, a.y * s, a.z * s, a.w * s), "scaling"); eq(a + b, Q(a.x + b.x, a.y + b.y, a.z + b.z, a.w + b.w), "sum"); eq(a - b, Q(a.x - b.x, a.y - b.y, a.z - b.z, a.w - b.w), "difference"); eq(-a, Q(-a.x, -a.y, -a.z, -a.w), "negation");
    vf_eq(a.dot(b), a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w, "dot product"); Quat<float> f = a; for (int i = 0; i < 4; i++) vf_eq(f[i], a[i], "cast");
}
CONTRACT(P15_conjugation) {
    Q q = anyq(), r = anyq(); V3 v = any3(), u = any3();
    eq(q * v, conjugated(q, v), "q * v is q v q*"); eq(v * q, conjugated(Q(-q.x, -q.y, -q.z, q.w), v), "v * q is q* v q");
    double n = n2(q); vf_eq(dot(q * v, q * u), n * n * dot(v, u), "conjugation scales dot products by |q|^4"); V3 back = (q * v) * q; eq(back, v * (n * n), "inverse conjugation undoes conjugation");
    eq((r * q) * v, r * (q * v), "composing rotations is multiplying quaternions"); eq(v * (r * q), (v * r) * q, "composing inverse rotations reverses the product");
    eq((-q) * v, q * v, "q and -q are the same rotation"); eq(q * q.imag(), q.imag() * n, "the axis is fixed"); eq(Q::identity() * v, v, "identity rotates nothing");
}
CONTRACT(P15_unit) {
    Q q = unitq(); V3 v = any3(); vf_eq(n2(q), 1, "unit() has unit norm"); vf_eq(dot(q * v, q * v), dot(v, v), "rotation by a unit quaternion preserves length"); eq((q * v) * q, v, "v * q undoes q * v");
    Q p = anyq(); vf_assume(!(p.x == 0 && p.y == 0 && p.z == 0 && p.w == 0)); Q k = p.conj() / n2(p); eq(p * k, Q::identity(), "conj / norm is the inverse"); eq(k * p, Q::identity(), "conj / norm is the inverse");
}
CONTRACT(P15_axis_angle) {
    V3 a = any3(), p = any3(); double h = vf_real(), t = 2 * h, C = std::cos(h), S = std::sin(h); vf_assume(!zero(a));
    Q q = Q::rotation_from_axis_angle(a, t); vf_eq(n2(q), 1, "rotation quaternion is unit");
    turned(p, a, C * C - S * S, 2 * S * C, q * p, "rotation by the angle about the axis"); turned(p, a, C * C - S * S, -2 * S * C, p * q, "v * q is the inverse rotation");
    eq(q.imag() * std::sqrt(dot(a, a)), a * S, "vector part is the axis times the sine of half the angle"); vf_eq(q.w, C, "real part is the cosine of half the angle");
    Q e = Q::rotation_from_axis_angle(V3(0, 0, 0), t); eq(e, Q::identity(), "zero axis gives the identity");
}
// axis and angle recovered from a unit quaternion give the same rotation
CONTRACT(P15_to_axis_angle) {
    Q q = unitq(); V3 i = q.imag(), p = any3();
    vf_lemma_eq(i.x * i.x + i.y * i.y + i.z * i.z, (1 - q.w) * (1 + q.w), "unit"); vf_lemma(q.w <= 1, "unit"); vf_lemma(-1 <= q.w, "unit");
    V4 r = q.to_axis_angle_rotation(); V3 n(r.x, r.y, r.z); vf_eq(dot(n, n), 1, "the axis is a unit vector");
    double h = r.w / 2; vf_eq(std::cos(h) * std::cos(h), q.w * q.w, "cosine of half the angle, up to the sign of the quaternion"); eq(n * (std::sin(h) * std::cos(h)), i * q.w, "same rotation (axis and angle)"); vf_eq(std::sin(h) * std::sin(h), dot(i, i), "sine of half the angle");
    vf_le(0, r.w, "angle range"); vf_le(r.w, 2 * M_PI + 1e-6, "angle range");
    V3 w = q.to_angular_velocity(); if (!zero(i)) { eq(w, n * r.w, "angular velocity is the axis times the angle"); vf_eq(std::cos(h), q.w, "cosine of half the angle"); eq(n * std::sin(h), i, "axis times the sine of half the angle"); } else eq(w, V3(), "no rotation has zero angular velocity");
}
CONTRACT(P15_align) { V3 d, e; unit3(d, e); Q q = Q::rotation_direction_align(d, e); vf_eq(n2(q), 1, "aligning quaternion is unit"); eq(q * d, e, "aligning rotation carries the direction onto the target"); eq(e * q, d, "inverse aligning rotation carries it back"); }
CONTRACT(P15_scale) {   // a fraction t of the rotation, about the same axis
    V3 a = any3(); double h = vf_real(), t = vf_real(); vf_assume(!zero(a)); vf_assume(0 < h); vf_assume(h < 3); (void) h;
    Q q = unitq(); V3 i = q.imag(); vf_lemma_eq(i.x * i.x + i.y * i.y + i.z * i.z, (1 - q.w) * (1 + q.w), "unit"); vf_lemma(q.w <= 1, "unit"); vf_lemma(-1 <= q.w, "unit");
    Q r = q.rotation_scale(t); vf_eq(n2(r), 1, "scaled rotation is a unit quaternion");
    if (!zero(i)) { double o = std::acos(q.w); vf_eq(r.w, std::cos(o * t), "scaled rotation has a fraction of the angle"); eq(r.imag() * std::sqrt(dot(i, i)), i * std::sin(o * t), "scaled rotation keeps the axis"); } else eq(r, Q::identity(), "scaling no rotation");
}
// q0 at t = 0, on the unit sphere, at angle t*omega from q0 along the shorter arc toward +-q1
static void slerp(double g, int what) {
    Q a = unitq(), b = unitq(); double t = vf_real(), c = a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w, C = g * c;
    if (g < 0) vf_assume(c < 0); else vf_assume(0 <= c); if (!vf_symbolic()) vf_assume(C > 1e-6);
    Q m(g * b.x - a.x * C, g * b.y - a.y * C, g * b.z - a.z * C, g * b.w - a.w * C); vf_assume(0 < n2(m)); if (!vf_symbolic()) vf_assume(n2(m) > 1e-6);     // not equal or opposite
    vf_lemma_eq((1 - C) * (1 + C), n2(m), "orthogonal part"); vf_lemma(C < 1, "Cauchy-Schwarz");
    double o = std::acos(C), L = std::sqrt(n2(m)); vf_lemma(0 < L, "not parallel");
    if (what == 1) { vf_lemma_eq(L, std::sin(o), "the orthogonal part has length sin(omega)"); eq(a.slerp(b, 1), b * g, "slerp at 1 is the second rotation"); }
    else if (what == 2) eq(a.slerp(b, 0), a, "slerp at 0 is the first rotation");
    else {
        double S = std::sin(o * t), K = std::cos(o * t); Q e(a.x * K + m.x / L * S, a.y * K + m.y / L * S, a.z * K + m.z / L * S, a.w * K + m.w / L * S); eq(a.slerp(b, t), e, "slerp is the great-circle arc");
        vf_eq(n2(e), 1, "slerp stays on the unit sphere"); vf_eq(e.dot(a), std::cos(o * t), "slerp advances by the fraction of the angle"); }
}
CONTRACT(P15_slerp) { slerp(1, 0); }
CONTRACT(P15_slerp_flip) { slerp(-1, 0); }
CONTRACT(P15_slerp_ends) { slerp(1, (int) vf_pick(1, 2)); }
CONTRACT(P15_slerp_ends_flip) { slerp(-1, (int) vf_pick(1, 2)); }
CONTRACT(P15_slerp_equal) { Q a = unitq(); double t = vf_real(), u = n2(a); vf_lemma_eq(u, 1, "unit"); Q r = a.slerp(a, t), f = a.slerp(-a, t); if (vf_symbolic()) { eq(r, a, "slerp between equal rotations"); eq(f, a, "slerp between equal rotations"); } }
CONTRACT(P15_exp_log) {
    Q q = anyq(); V3 v = q.imag(); double m2 = dot(v, v), m = std::sqrt(m2), k = std::exp(q.w);
    Q e = q.exp(); vf_eq(n2(e), k * k, "norm of exp"); if (!zero(v)) { eq(e.imag() * m, v * (k * std::sin(m)), "exp rotates about the imaginary part"); vf_eq(e.w, k * std::cos(m), "exp scales by e^real"); }
    if (zero(v)) eq(e, Q(0, 0, 0, k), "exp of a real"); eq(std::exp(q), e, "std::exp");
}
CONTRACT(P15_log) {
    Q q = anyq(); V3 v = q.imag(); double N2 = n2(q); vf_assume(!(q.x == 0 && q.y == 0 && q.z == 0 && q.w == 0)); double N = std::sqrt(N2);
    vf_lemma_eq((1 - q.w / N) * (1 + q.w / N) * N2, dot(v, v), "cosine in range"); vf_lemma(q.w / N <= 1, "cosine in range"); vf_lemma(-1 <= q.w / N, "cosine in range");
    Q l = q.log(); double th = std::acos(q.w / N);
    vf_eq(l.w, std::log(N), "real part of log is the log of the norm"); vf_eq(dot(l.imag(), l.imag()), th * th, "length of log is the angle"); 
    if (!zero(v)) eq(l.imag() * std::sqrt(dot(v, v)), v * th, "log is along the axis");
    double a = vf_real(); Q p = std::pow(q, a); vf_eq(p.w, std::pow(N, a) * std::cos(a * th), "pow: real part");
    if (!zero(v)) eq(p.imag() * std::sqrt(dot(v, v)), v * (std::pow(N, a) * std::sin(a * th)), "pow: turns by the multiple of the angle"); else vf_eq(dot(p.imag(), p.imag()), std::pow(N, a) * std::sin(a * th) * (std::pow(N, a) * std::sin(a * th)), "pow of a real");
}
//@@ P15_product P15_conjugation P15_unit P15_axis_angle P15_to_axis_angle P15_align P15_scale P15_slerp P15_slerp_flip P15_slerp_ends P15_slerp_ends_flip P15_slerp_equal P15_exp_log P15_log
//@ P15_slerp*: forksel qtmo=15
