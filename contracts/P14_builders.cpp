// P14: transform builders produce the geometry they name.
#include "vf.h"
#include "unit3.h"
#include <iostream>
#include <geomc/linalg/AffineTransform.h>
using namespace geom;
typedef Vec<double,3> V3; typedef Vec<double,2> V2; typedef AffineTransform<double,3> X3; typedef AffineTransform<double,2> X2;
static V3 any3() { double x = vf_real(), y = vf_real(), z = vf_real(); return V3(x, y, z); }
static V2 any2() { double x = vf_real(), y = vf_real(); return V2(x, y); }
static double dot(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static bool zero(const V3& a) { return a[0] == 0 && a[1] == 0 && a[2] == 0; }
static void eq(const V3& a, const V3& b, const char* n) { for (int i = 0; i < 3; i++) vf_eq(a[i], b[i], n); }
static void eq(const V2& a, const V2& b, const char* n) { for (int i = 0; i < 2; i++) vf_eq(a[i], b[i], n); }
// r is p turned right-handedly by t about the line through c along a
static void turned(const V3& p0, const V3& a, const V3& c, double C, double S, const V3& r0, const char* name, bool unit = false) {
    V3 p = p0 - c, r = r0 - c; double n2 = unit ? 1 : dot(a, a), n = unit ? 1 : std::sqrt(n2), ap = dot(a, p);
    double cr[3] = {a.y * p.z - a.z * p.y, a.z * p.x - a.x * p.z, a.x * p.y - a.y * p.x};
    for (int i = 0; i < 3; i++) vf_eq(r[i] * n2, p[i] * C * n2 + cr[i] * S * n + a[i] * ap * (1 - C), name);
}
CONTRACT(P14_translation) {
    V3 o = any3(), p = any3(); V2 q = any2(), s = any2();
    eq(translation(o).apply(p), p + o, "translation adds its offset"); eq(translation(o[0], o[1], o[2]).apply(p), p + o, "translation adds its offset"); eq(translation(o).apply_vector(p), p, "translation leaves vectors alone"); eq(translation(o).apply_inverse(p), p - o, "inverse translation subtracts it");
    eq(translation(s).apply(q), q + s, "translation adds its offset"); eq(translation(s[0], s[1]).apply(q), q + s, "translation adds its offset");
}
CONTRACT(P14_scale) {
    V3 s = any3(), p = any3(); V2 q = any2();
    for (int i = 0; i < 3; i++) { vf_assume(s[i] != 0); if (!vf_symbolic()) vf_assume(std::fabs(s[i]) > 1e-3); }
    X3 x = scale(s), y = scale(s[0], s[1], s[2]); X2 z = scale(V2(s[0], s[1])), w = scale(s[0], s[1]); V3 e(p[0] * s[0], p[1] * s[1], p[2] * s[2]); V2 f(q[0] * s[0], q[1] * s[1]);
    eq(x.apply(p), e, "scaling multiplies each coordinate"); eq(y.apply(p), e, "scaling multiplies each coordinate"); eq(z.apply(q), f, "scaling multiplies each coordinate"); eq(w.apply(q), f, "scaling multiplies each coordinate");
    eq(x.apply_vector(p), e, "scaling scales vectors"); eq(x.apply_inverse(e), p, "inverse scaling divides"); eq(z.apply_inverse(f), q, "inverse scaling divides");
}
CONTRACT(P14_rotation2d) {
    V2 p = any2(); double t = vf_real(), C = std::cos(t), S = std::sin(t); X2 x = rotation(t);
    eq(x.apply(p), V2(C * p.x - S * p.y, S * p.x + C * p.y), "counterclockwise rotation by the angle"); eq(x.apply_inverse(p), V2(C * p.x + S * p.y, -S * p.x + C * p.y), "inverse rotation turns back"); eq(x.apply_vector(p), x.apply(p), "no translation");
}
CONTRACT(P14_axis) {
    V3 a = any3(), p = any3(); double t = vf_real(); vf_assume(!zero(a));
    turned(p, a, V3(), std::cos(t), std::sin(t), rotation(a, t).apply(p), "rotation by the angle about the axis");
    turned(p, a, V3(), std::cos(t), -std::sin(t), rotation(a, t).apply_inverse(p), "inverse rotation turns back");
}
CONTRACT(P14_axis_center) {
    V3 a = any3(), p = any3(), c = any3(); double t = vf_real(); vf_assume(!zero(a));
    X3 x = rotation(a, c, t);
    turned(p, a, c, std::cos(t), std::sin(t), x.apply(p), "rotation by the angle about the axis through the centre");
    turned(p, a, c, std::cos(t), -std::sin(t), x.apply_inverse(p), "inverse rotation turns back");
    eq(x.apply(c), c, "the centre is fixed"); eq(x.apply(c + a), c + a, "the axis is fixed");
}
// the matrix-only form about a centre, unit axis
CONTRACT(P14_rotmat_center) {
    V3 a = any3(), p = any3(), c = any3(); double t = vf_real(); vf_assume(!zero(a)); a = a.unit();
    X3 x; rotmat(&x.mat, a, c, t); eq(x.apply(c), c, "the centre is fixed");
    turned(p, a, c, std::cos(t), std::sin(t), x.apply(p), "rotmat about an axis through a centre", true);
    X3 y; rotmat(&y.mat, a, t); turned(p, a, V3(), std::cos(t), std::sin(t), y.apply(p), "rotmat about an axis", true);
    X3 z; rotmat(&z.mat, &z.inv, a, c, t); turned(p, a, c, std::cos(t), std::sin(t), z.apply(p), "rotmat with inverse", true); turned(p, a, c, std::cos(t), -std::sin(t), z.apply_inverse(p), "rotmat with inverse", true);
}
static void by3(const SimpleMatrix<double,3,3>& m, const V3& p, const V3& e, const char* n) { for (int i = 0; i < 3; i++) vf_eq(m(i, 0) * p[0] + m(i, 1) * p[1] + m(i, 2) * p[2], e[i], n); }
CONTRACT(P14_axes) {
    V3 p = any3(); double t = vf_real(), C = std::cos(t), S = std::sin(t);
    V3 x(p.x, C * p.y - S * p.z, S * p.y + C * p.z), y(C * p.x + S * p.z, p.y, -S * p.x + C * p.z), z(C * p.x - S * p.y, S * p.x + C * p.y, p.z);
    eq(rotation_x(t).apply(p), x, "rotation_x"); eq(rotation_y(t).apply(p), y, "rotation_y"); eq(rotation_z(t).apply(p), z, "rotation_z");
    by3(rotmat_x(t), p, x, "rotmat_x"); by3(rotmat_y(t), p, y, "rotmat_y"); by3(rotmat_z(t), p, z, "rotmat_z");
}
CONTRACT(P14_quat) {
    double x = vf_real(), y = vf_real(), z = vf_real(), w = vf_real(); vf_assume(!(x == 0 && y == 0 && z == 0 && w == 0));
    Quat<double> q(x, y, z, w); V3 p = any3();
    Quat<double> u = q.unit(); eq(rotation(q).apply(p), u * p, "rotation by a quaternion is conjugation by the unit quaternion"); eq(rotation(q).apply_inverse(p), p * u, "inverse rotation by a quaternion");
}
// r(d) == e, lengths and handedness preserved (rotation: right-handed triple goes to right-handed triple)
template <typename F> static void aligns(F r, const V3& d, const V3& e, const char* name) {
    V3 p = any3();
    eq(r(d), e, name); V3 q = r(p); vf_eq(dot(q, q), dot(p, p), "aligning rotation preserves length");
    V3 X = r(V3(1, 0, 0)), Y = r(V3(0, 1, 0)), Z = r(V3(0, 0, 1));
    eq(V3(X.y * Y.z - X.z * Y.y, X.z * Y.x - X.x * Y.z, X.x * Y.y - X.y * Y.x), Z, "aligning rotation preserves handedness");
}
// opposite directions
static void opposite(V3& d, V3& e) { d = any3(); vf_assume(!zero(d)); d = d.unit(); e = -d; }
CONTRACT(P14_align) { V3 d, e; unit3(d, e); X3 x = direction_align(d, e); aligns([&](const V3& p) { return x.apply(p); }, d, e, "direction_align carries the direction onto the target"); eq(x.apply(V3()), V3(), "no translation"); }
CONTRACT(P14_align33) { V3 d, e; unit3(d, e); SimpleMatrix<double,3,3> m = rotmat_direction_align(d, e); aligns([&](const V3& p) { return V3(m * p); }, d, e, "rotmat_direction_align carries the direction onto the target"); }
CONTRACT(P14_align33_into) { V3 d, e; unit3(d, e); SimpleMatrix<double,3,3> m; rotmat_direction_align(&m, d, e); aligns([&](const V3& p) { return V3(m * p); }, d, e, "rotmat_direction_align (3x3) carries the direction onto the target"); }
CONTRACT(P14_align_vec) { V3 d, e; unit3(d, e); aligns([&](V3 p) { return p.align(d, e); }, d, e, "Vec::align carries the direction onto the target"); }
CONTRACT(P14_align_opposite) {
    V3 d, e; opposite(d, e); X3 x = direction_align(d, e); SimpleMatrix<double,3,3> m = rotmat_direction_align(d, e), n; rotmat_direction_align(&n, d, e);
    eq(x.apply(d), e, "direction_align onto the opposite direction"); by3(m, d, e, "rotmat_direction_align onto the opposite direction"); by3(n, d, e, "rotmat_direction_align onto the opposite direction"); V3 c = d; eq(c.align(d, e), e, "Vec::align onto the opposite direction");
    V3 u = d.any_perpendicular(); vf_eq(dot(u, d), 0, "any_perpendicular is perpendicular"); vf_eq(dot(u, u), 1, "any_perpendicular is unit");
}
CONTRACT(P14_basis) {
    SimpleMatrix<double,3,3> m; for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) m(i, k) = vf_real();
    V3 p = any3(); X3 x = transformation(m);
    by3(m, p, x.apply(p), "transformation by a matrix applies the matrix");
    for (int k = 0; k < 3; k++) { V3 e; e[k] = 1; eq(x.apply(e), V3(m(0, k), m(1, k), m(2, k)), "the columns are the images of the standard basis"); }
}
// the homogeneous row: every 4x4 / 3x3 a builder fills is affine (mat and inv)
template <typename X, int N> static void row(const X& m) { for (int k = 0; k < N; k++) vf_eq(m(N - 1, k), k == N - 1 ? 1 : 0, "the last row of a transform is affine"); }
static void rows(const X3& x) { row<decltype(x.mat),4>(x.mat); row<decltype(x.inv),4>(x.inv); }
static void rows(const X2& x) { row<decltype(x.mat),3>(x.mat); row<decltype(x.inv),3>(x.inv); }
static void smear(SimpleMatrix<double,4,4>& m) { for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) m(i, k) = vf_real(); }
CONTRACT(P14_rows) {
    V3 o = any3(), c = any3(), a = any3(), s = any3(); double t = vf_real(); vf_assume(!zero(a));
    for (int i = 0; i < 3; i++) { vf_assume(s[i] != 0); if (!vf_symbolic()) vf_assume(std::fabs(s[i]) > 1e-3); }
    rows(translation(o)); rows(translation(o[0], o[1], o[2])); rows(translation(o[0], o[1])); rows(translation(V2(o[0], o[1])));
    rows(scale(s)); rows(scale(s[0], s[1], s[2])); rows(scale(s[0], s[1])); rows(scale(V2(s[0], s[1])));
    rows(rotation(t)); rows(rotation(a, t)); rows(rotation(a, c, t)); rows(rotation_x(t)); rows(rotation_y(t)); rows(rotation_z(t));
    Quat<double> q(a[0], a[1], a[2], t); rows(rotation(q));
    SimpleMatrix<double,4,4> m, v; typedef SimpleMatrix<double,4,4> M4;
    smear(m); rotmat(&m, a, t); row<M4,4>(m); smear(m); rotmat(&m, a, c, t); row<M4,4>(m); smear(m); smear(v); rotmat(&m, &v, a, c, t); row<M4,4>(m); row<M4,4>(v);
    smear(m); rotmat(&m, q); row<M4,4>(m); smear(m); rotmat_x(&m, t); row<M4,4>(m); smear(m); rotmat_y(&m, t); row<M4,4>(m); smear(m); rotmat_z(&m, t); row<M4,4>(m);
    SimpleMatrix<double,3,3> b; for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) b(i, k) = vf_real(); rows(transformation(b));
}
CONTRACT(P14_align_rows) { V3 d, e; unit3(d, e); rows(direction_align(d, e)); }
// the no-inverse matrices also place points: quaternion matrix and the 4x4 axis rotations written into a used matrix
CONTRACT(P14_into) {
    V3 p = any3(); double t = vf_real(), C = std::cos(t), S = std::sin(t); X3 x; smear(x.mat);
    V3 ex(p.x, C * p.y - S * p.z, S * p.y + C * p.z), ey(C * p.x + S * p.z, p.y, -S * p.x + C * p.z), ez(C * p.x - S * p.y, S * p.x + C * p.y, p.z);
    rotmat_x(&x.mat, t); eq(x.apply(p), ex, "rotmat_x fills a used matrix"); smear(x.mat); rotmat_y(&x.mat, t); eq(x.apply(p), ey, "rotmat_y fills a used matrix"); smear(x.mat); rotmat_z(&x.mat, t); eq(x.apply(p), ez, "rotmat_z fills a used matrix");
}
//@@ P14_translation P14_scale P14_rotation2d P14_axis P14_axis_center P14_rotmat_center P14_axes P14_quat P14_align P14_align33 P14_align33_into P14_align_vec P14_align_opposite P14_basis P14_rows P14_align_rows P14_into
