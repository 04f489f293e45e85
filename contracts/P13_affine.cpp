// P13: affine transforms hold a mutually inverse pair of affine matrices; every operation preserves that, composition applies its
// operands in the documented order, inverse application undoes application, vectors ignore translation, normals stay perpendicular.
#include "vf.h"
#include "unit3.h"
#include "xf.h"
// the invariant
template <int N> void valid(const Xf<N>& x, const char* name) {
    for (int c = 0; c <= N; c++) { vf_eq(x.mat(N, c), c == N, name); vf_eq(x.inv(N, c), c == N, name); }
    for (int r = 0; r < N; r++) for (int c = 0; c <= N; c++) {
        double s = 0, t = 0; for (int k = 0; k <= N; k++) { s += x.mat(r, k) * x.inv(k, c); t += x.inv(r, k) * x.mat(k, c); }
        vf_eq(s, r == c, name); vf_eq(t, r == c, name);
    }
}
template <int N> void same(const Vc<N>& a, const Vc<N>& b, const char* name) { for (int i = 0; i < N; i++) vf_eq(a[i], b[i], name); }
template <int N> double dot(const Vc<N>& a, const Vc<N>& b) { double s = 0; for (int i = 0; i < N; i++) s += a[i] * b[i]; return s; }

template <int N> void apply_ops() {
    Xf<N> x = anyx<N>(); Vc<N> p = anyv<N>(), v = anyv<N>();
    same<N>(x.apply(p), fwd<N>(x, p, 1), "apply is L p + t"); same<N>(x * p, fwd<N>(x, p, 1), "operator*(transform, point) applies");
    same<N>(x.apply_inverse(p), fwd<N>(x, p, 1, true), "apply_inverse uses the inverse"); same<N>(p / x, fwd<N>(x, p, 1, true), "operator/(point, transform) applies the inverse");
    same<N>(x.apply_vector(v), fwd<N>(x, v, 0), "vectors ignore translation"); same<N>(x.apply_inverse_vector(v), fwd<N>(x, v, 0, true), "vectors ignore translation");
    same<N>(x.apply(p + v) - x.apply(p), x.apply_vector(v), "vectors are differences of points");
    same<N>(x.apply_inverse(x.apply(p)), p, "inverse undoes application (point)"); same<N>(x.apply(x.apply_inverse(p)), p, "application undoes inverse (point)");
    same<N>(x.apply_inverse_vector(x.apply_vector(v)), v, "inverse undoes application (vector)"); same<N>(x.apply_vector(x.apply_inverse_vector(v)), v, "application undoes inverse (vector)");
    same<N>(x.apply_inverse_normal(x.apply_normal(v)), v, "inverse undoes application (normal)"); same<N>(x.apply_normal(x.apply_inverse_normal(v)), v, "application undoes inverse (normal)");
    vf_eq(dot<N>(x.apply_normal(p), x.apply_vector(v)), dot<N>(p, v), "normals stay perpendicular to transformed tangents");
    vf_eq(dot<N>(x.apply_inverse_normal(p), x.apply_inverse_vector(v)), dot<N>(p, v), "normals stay perpendicular to tangents (inverse)");
    Ray<double,N> r(p, v), f = x * r, b = r / x, g = f / x, h = x * b;
    same<N>(f.origin, x.apply(p), "rays transform origin as a point"); same<N>(f.direction, x.apply_vector(v), "rays transform direction as a vector");
    same<N>(b.origin, x.apply_inverse(p), "ray / transform applies the inverse"); same<N>(b.direction, x.apply_inverse_vector(v), "ray / transform applies the inverse");
    same<N>(g.origin, p, "ray round trip"); same<N>(g.direction, v, "ray round trip"); same<N>(h.origin, p, "ray round trip"); same<N>(h.direction, v, "ray round trip");
    SimpleMatrix<double,N,N> dm = x.direction_matrix(); for (int i = 0; i < N; i++) for (int k = 0; k < N; k++) vf_eq(dm(i, k), x.mat(i, k), "direction_matrix is the linear part");
    Xf<N> i = x.inverse(); valid<N>(i, "inverse() is a valid transform"); same<N>(i.apply(p), x.apply_inverse(p), "inverse() applies the inverse"); same<N>(i.apply_inverse(p), x.apply(p), "inverse of inverse applies forward");
    Xf<N> e; valid<N>(e, "default transform is valid"); same<N>(e.apply(p), p, "default transform is the identity");
    AffineTransform<float,N> y = (AffineTransform<float,N>) x; for (int a = 0; a <= N; a++) for (int k = 0; k <= N; k++) { vf_eq(y.mat(a, k), x.mat(a, k), "cast keeps the matrix"); vf_eq(y.inv(a, k), x.inv(a, k), "cast keeps the inverse"); }
}
CONTRACT(P13_apply2) { apply_ops<2>(); }
CONTRACT(P13_apply3) { apply_ops<3>(); }

template <int N> void compose(const Xf<N>& r, const Vc<N>& p, const Vc<N>& expect, const Vc<N>& back, const char* name, bool full) {
    same<N>(r.apply(p), expect, name); same<N>(r.apply_inverse(p), back, name);
    if (full) valid<N>(r, name);
}
// composition: order and validity
template <int N> void compose_ops(int lo, int hi) {
    Xf<N> x = anyx<N>(), y = anyx<N>(); Vc<N> p = anyv<N>();
    int64_t k = vf_pick(lo, hi);
    if (k == 0) compose<N>(x * y, p, x.apply(y.apply(p)), y.apply_inverse(x.apply_inverse(p)), "x * y applies y, then x", true);
    if (k == 1) compose<N>(x.apply(y), p, y.apply(x.apply(p)), x.apply_inverse(y.apply_inverse(p)), "x.apply(y) applies x, then y", true);
    if (k == 2) compose<N>(x / y, p, y.apply_inverse(x.apply(p)), x.apply_inverse(y.apply(p)), "x / y applies x, then the inverse of y", true);
    if (k == 3) compose<N>(x.apply_inverse(y), p, y.apply_inverse(x.apply(p)), x.apply_inverse(y.apply(p)), "x.apply_inverse(y) applies x, then the inverse of y", true);
    if (k == 4) { Xf<N> z = x; z *= y; compose<N>(z, p, y.apply(x.apply(p)), x.apply_inverse(y.apply_inverse(p)), "x *= y applies x, then y", true); }
    if (k == 5) { Xf<N> z = x; z /= y; compose<N>(z, p, y.apply_inverse(x.apply(p)), x.apply_inverse(y.apply(p)), "x /= y applies x, then the inverse of y", true); }
    if (k == 6) { Xf<N> z = x; z *= z; compose<N>(z, p, x.apply(x.apply(p)), x.apply_inverse(x.apply_inverse(p)), "x *= x applies x twice", true); }
    if (k == 7) { Xf<N> z = x; z /= z; compose<N>(z, p, p, p, "x /= x is the identity", true); }
}
CONTRACT(P13_compose2) { compose_ops<2>(0, 7); }
CONTRACT(P13_compose3a) { compose_ops<3>(0, 3); }
CONTRACT(P13_compose3b) { compose_ops<3>(4, 7); }
CONTRACT(P13_resized) {
    Xf<2> x = anyx<2>(); Xf<3> y = x.resized<3>(); valid<3>(y, "enlarged transform is valid");
    Vc<3> p = anyv<3>(), q = y.apply(p); Vc<2> s = x.apply(Vc<2>(p[0], p[1]));
    vf_eq(q[0], s[0], "enlarged transform acts as before on the original coordinates"); vf_eq(q[1], s[1], "enlarged transform acts as before on the original coordinates"); vf_eq(q[2], p[2], "enlarged transform keeps the new coordinate");
    Xf<2> z = x.resized<2>(); valid<2>(z, "resizing to the same size keeps the transform"); same<2>(z.apply(s), x.apply(s), "resizing to the same size keeps the transform");
}
// transforms built by the library's constructors satisfy the invariant
CONTRACT(P13_builders) {
    Vc<3> a = anyv<3>(), c = anyv<3>(); double t = vf_real(), u = vf_real(), w = vf_real();
    Vc<2> b(vf_real(), vf_real());
    valid<3>(translation(a), "translation"); valid<2>(translation(b), "translation"); valid<3>(translation(t, u, w), "translation"); valid<2>(translation(t, u), "translation");
    valid<2>(rotation(t), "rotation by an angle"); valid<3>(rotation_x(t), "rotation_x"); valid<3>(rotation_y(t), "rotation_y"); valid<3>(rotation_z(t), "rotation_z");
}
CONTRACT(P13_scale) {
    Vc<3> a = anyv<3>(); double t = a[0], u = a[1], w = a[2]; vf_assume(t != 0); vf_assume(u != 0); vf_assume(w != 0);
    valid<3>(scale(a), "scale"); valid<3>(scale(t, u, w), "scale"); valid<2>(scale(t, u), "scale");
}
CONTRACT(P13_axis) {
    Vc<3> a = anyv<3>(); double t = vf_real(); vf_assume(!(a[0] == 0 && a[1] == 0 && a[2] == 0));
    valid<3>(rotation(a, t), "rotation about an axis");
}
CONTRACT(P13_axis_center) {
    Vc<3> a = anyv<3>(), c = anyv<3>(); double t = vf_real(); vf_assume(!(a[0] == 0 && a[1] == 0 && a[2] == 0));
    valid<3>(rotation(a, c, t), "rotation about an axis and centre");
}
CONTRACT(P13_quat) {
    double x = vf_real(), y = vf_real(), z = vf_real(), w = vf_real(); vf_assume(!(x == 0 && y == 0 && z == 0 && w == 0));
    valid<3>(rotation(Quat<double>(x, y, z, w)), "rotation by a quaternion");
}
CONTRACT(P13_align) {
    Vc<3> d, e; unit3(d, e);
    valid<3>(direction_align(d, e), "direction_align");
}
CONTRACT(P13_basis) {
    SimpleMatrix<double,2,2> m; double a = vf_real(), b = vf_real(), c = vf_real(), d = vf_real(); nz(a * d - b * c); m(0,0) = a; m(0,1) = b; m(1,0) = c; m(1,1) = d;
    valid<2>(transformation(m), "transformation by a 2x2 matrix");
}
CONTRACT(P13_basis3) {
    SimpleMatrix<double,3,3> m; double a[3][3], j[3][3]; for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) m(i, k) = a[i][k] = vf_real();
    nz(detadj<3>(a, j));
    valid<3>(transformation(m), "transformation by a 3x3 matrix");
}
//@@ P13_apply2 P13_apply3 P13_compose2 P13_compose3a P13_compose3b P13_resized P13_builders P13_scale P13_axis P13_axis_center P13_quat P13_align P13_basis P13_basis3
