// P02: rotations of vectors are rigid, with the right angle, axis and handedness (Rodrigues' formula); polar/spherical coordinates.
#include "vf.h"
#include "unit3.h"
#include <geomc/linalg/Vec.h>
using namespace geom;
typedef Vec<double,2> V2; typedef Vec<double,3> V3;
static V2 any2() { double x = vf_real(), y = vf_real(); return V2(x, y); }
static V3 any3() { double x = vf_real(), y = vf_real(), z = vf_real(); return V3(x, y, z); }
static double dot(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }

CONTRACT(P02_rotate2d) {
    V2 p = any2(), c = any2(), q = any2(); double t = vf_real(), C = std::cos(t), S = std::sin(t);
    V2 r = p.rotated(t), rc = p.rotate(c, t), qc = q.rotate(c, t), cc = c.rotate(c, t);
    vf_eq(r.x, C * p.x - S * p.y, "rotated: counterclockwise by the angle"); vf_eq(r.y, S * p.x + C * p.y, "rotated: counterclockwise by the angle");
    vf_eq(r.x * r.x + r.y * r.y, p.x * p.x + p.y * p.y, "rotation preserves length");
    vf_eq(cc.x, c.x, "centre is fixed"); vf_eq(cc.y, c.y, "centre is fixed");
    vf_eq(rc.x - c.x, C * (p.x - c.x) - S * (p.y - c.y), "rotate about centre"); vf_eq(rc.y - c.y, S * (p.x - c.x) + C * (p.y - c.y), "rotate about centre");
    double dx = rc.x - qc.x, dy = rc.y - qc.y, ex = p.x - q.x, ey = p.y - q.y;
    vf_eq(dx * dx + dy * dy, ex * ex + ey * ey, "rotation about a centre preserves distances");
}
CONTRACT(P02_perp2d) {
    V2 p = any2(); V2 l = p.left_perpendicular(), r = p.right_perpendicular();
    vf_eq(l.x, -p.y, "left perpendicular is a counterclockwise quarter turn"); vf_eq(l.y, p.x, "left perpendicular is a counterclockwise quarter turn");
    vf_eq(r.x, p.y, "right perpendicular is a clockwise quarter turn"); vf_eq(r.y, -p.x, "right perpendicular is a clockwise quarter turn");
}
CONTRACT(P02_polar) {
    V2 p = any2();
    vf_assume(!(p.x == 0 && p.y == 0));
    V2 q = p.to_polar();
    double m2 = p.x * p.x + p.y * p.y;
    vf_eq(q[0] * q[0], m2, "to_polar radius"); vf_le(0, q[0], "to_polar radius is non-negative");
    vf_le(0, q[1], "angle at least zero"); vf_lt(q[1], 2 * M_PI + 1e-9, "angle at most a full turn");
    vf_eq(q[0] * std::cos(q[1]), p.x, "to_polar angle"); vf_eq(q[0] * std::sin(q[1]), p.y, "to_polar angle");
    V2 b = q.from_polar();
    vf_eq(b.x, p.x, "from_polar(to_polar(p)) == p"); vf_eq(b.y, p.y, "from_polar(to_polar(p)) == p");
    V2 f = V2(p.x, p.y).from_polar();
    vf_eq(f.x, p.x * std::cos(p.y), "from_polar"); vf_eq(f.y, p.x * std::sin(p.y), "from_polar");
    vf_eq(p.angle(), q[1], "angle()");
}
CONTRACT(P02_spherical) {
    V3 p = any3(); double m2 = dot(p, p);
    vf_assume(!(p.x == 0 && p.y == 0));
    V3 s = p.to_spherical();
    vf_eq(s[0] * s[0], m2, "to_spherical radius"); vf_le(0, s[0], "radius non-negative");
    vf_lemma_eq((1 - p.z / s[0]) * s[0] * (1 + p.z / s[0]) * s[0], p.x * p.x + p.y * p.y, "cos of elevation within [-1,1]");
    vf_eq(s[0] * std::cos(s[1]), p.z, "elevation is the angle from +z"); vf_le(0, s[1], "elevation range"); vf_le(s[1], M_PI + 1e-6, "elevation range");
    vf_eq(std::cos(s[2]) * std::sqrt(p.x * p.x + p.y * p.y), p.x, "azimuth from +x"); vf_eq(std::sin(s[2]) * std::sqrt(p.x * p.x + p.y * p.y), p.y, "azimuth about +z");
    double r = vf_real(), e = vf_real(), a = vf_real();
    V3 f = V3::from_spherical(r, e, a);
    vf_eq(f.x, r * std::sin(e) * std::cos(a), "from_spherical x"); vf_eq(f.y, r * std::sin(e) * std::sin(a), "from_spherical y"); vf_eq(f.z, r * std::cos(e), "from_spherical z");
    vf_eq(dot(f, f), r * r, "from_spherical has radius r");
}
// Rodrigues' formula about the unit axis n = a/|a|, for every non-zero axis a
static void rodrigues(const V3& p, const V3& a, double t, const V3& r) {
    double n2 = dot(a, a), n = std::sqrt(n2), C = std::cos(t), S = std::sin(t), ap = dot(a, p);
    double cr[3] = {a.y * p.z - a.z * p.y, a.z * p.x - a.x * p.z, a.x * p.y - a.y * p.x};
    for (int i = 0; i < 3; i++) vf_eq(r[i] * n2, p[i] * C * n2 + cr[i] * S * n + a[i] * ap * (1 - C), "rotation by the angle about the axis (right-handed)");
    vf_eq(dot(r, r), dot(p, p), "rotation preserves length");
    vf_eq(dot(r, a), ap, "rotation keeps the axial component");
}
CONTRACT(P02_rotate3d) {
    V3 p = any3(), a = any3(); double t = vf_real();
    vf_assume(dot(a, a) != 0);
    rodrigues(p, a, t, p.rotate(a, t));
    rodrigues(p, a, t, p.rotate(a.x, a.y, a.z, t));
    double k = vf_real(); V3 x(a.x * k, a.y * k, a.z * k), xr = x.rotate(a, t);
    for (int i = 0; i < 3; i++) vf_eq(xr[i], x[i], "points of the axis are fixed");
}
CONTRACT(P02_rotate3d_center) {
    V3 p = any3(), a = any3(), c = any3(); double t = vf_real();
    vf_assume(dot(a, a) != 0);
    V3 r = p.rotate(a, c, t), r2 = p.rotate(a.x, a.y, a.z, c.x, c.y, c.z, t);
    V3 d(p.x - c.x, p.y - c.y, p.z - c.z);
    rodrigues(d, a, t, V3(r.x - c.x, r.y - c.y, r.z - c.z));
    rodrigues(d, a, t, V3(r2.x - c.x, r2.y - c.y, r2.z - c.z));
    double k = vf_real(); V3 x(c.x + a.x * k, c.y + a.y * k, c.z + a.z * k), xr = x.rotate(a, c, t);
    for (int i = 0; i < 3; i++) vf_eq(xr[i], x[i], "points of the axis are fixed");
}
CONTRACT(P02_align) {
    V3 p = any3(), f, g; unit3(f, g); bool opposite = f.x == -g.x && f.y == -g.y && f.z == -g.z;
    V3 r = p.align(f, g), q = f.align(f, g);
    for (int i = 0; i < 3; i++) vf_eq(q[i], g[i], "align carries from onto to");
    vf_eq(dot(r, r), dot(p, p), "align preserves length");
    V3 w(f.y * g.z - f.z * g.y, f.z * g.x - f.x * g.z, f.x * g.y - f.y * g.x), wr = w.align(f, g);
    for (int i = 0; i < 3; i++) if (!opposite) vf_eq(wr[i], w[i], "align fixes the common perpendicular");
}
