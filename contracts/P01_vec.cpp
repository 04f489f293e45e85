// P01: vectors form a Euclidean vector space.
// Contract of every VecCommon / VecN / free operator: result == coordinatewise definition.
#include "vf.h"
#include <geomc/linalg/Vec.h>
using namespace geom;
//@@ P01_arith_d2 P01_arith_d3 P01_arith_d4 P01_arith_d5 P01_arith_i2 P01_arith_i3
//@@ P01_metric_d2 P01_metric_d3 P01_metric_d4 P01_metric_d5
//@@ P01_select_d2 P01_select_d3 P01_select_d4 P01_select_d5 P01_select_i3
//@@ P01_construct_d2 P01_construct_d3 P01_construct_d4 P01_construct_d5

template <typename V> V anyv() { V v; for (index_t i = 0; i < V::DIM; i++) v[i] = vf_any<typename V::elem_t>(); return v; }

template <typename T, index_t N> void arith() {
    typedef Vec<T,N> V;
    T a[N], b[N]; V u, v;
    for (index_t i = 0; i < N; i++) { a[i] = vf_any<T>(); b[i] = vf_any<T>(); u[i] = a[i]; v[i] = b[i]; }
    T s = vf_any<T>();
    const V uc = u, vc = v;
    V sum = u + v, dif = u - v, neg = -u, sc1 = u * s, sc2 = s * u, had = u * v, sm = u.add(v), df = u.sub(v), sv = u.scale(v), ss = u.scale(s);
    V pe = u; pe += v; V me = u; me -= v; V se = u; se *= s; V he = u; he *= v;
    T dot = u.dot(v), m2 = u.mag2(), d2 = u.dist2(v);
    T rdot = 0, rm2 = 0, rd2 = 0;
    bool alleq = true, allz = true;
    for (index_t i = 0; i < N; i++) {
        rdot += a[i] * b[i]; rm2 += a[i] * a[i]; rd2 += (a[i] - b[i]) * (a[i] - b[i]);
        if (!(a[i] == b[i])) alleq = false;
        if (!(a[i] == 0)) allz = false;
        vf_same<T>(sum[i], a[i] + b[i], "operator+"); vf_same<T>(dif[i], a[i] - b[i], "operator-"); vf_same<T>(neg[i], -a[i], "unary -");
        vf_same<T>(sc1[i], a[i] * s, "vec * scalar"); vf_same<T>(sc2[i], s * a[i], "scalar * vec"); vf_same<T>(had[i], a[i] * b[i], "vec * vec");
        vf_same<T>(sm[i], a[i] + b[i], "add"); vf_same<T>(df[i], a[i] - b[i], "sub"); vf_same<T>(sv[i], a[i] * b[i], "scale(vec)"); vf_same<T>(ss[i], a[i] * s, "scale(scalar)");
        vf_same<T>(pe[i], a[i] + b[i], "+="); vf_same<T>(me[i], a[i] - b[i], "-="); vf_same<T>(se[i], a[i] * s, "*= scalar"); vf_same<T>(he[i], a[i] * b[i], "*= vec");
        vf_same<T>(u[i], a[i], "operands unchanged"); vf_same<T>(v[i], b[i], "operands unchanged");
    }
    vf_same<T>(dot, rdot, "dot"); vf_same<T>(m2, rm2, "mag2"); vf_same<T>(d2, rd2, "dist2");
    vf_assert((uc == vc) == alleq, "operator=="); vf_assert((uc != vc) == !alleq, "operator!=");
    vf_assert(uc.is_zero() == allz, "is_zero");
    if constexpr (N == 2) {
        V r = u.add(b[0], b[1]); vf_same<T>(r.x, a[0] + b[0], "add2"); vf_same<T>(r.y, a[1] + b[1], "add2");
        r = u.sub(b[0], b[1]); vf_same<T>(r.x, a[0] - b[0], "sub2"); vf_same<T>(r.y, a[1] - b[1], "sub2");
        r = u.scale(b[0], b[1]); vf_same<T>(r.x, a[0] * b[0], "scale2"); vf_same<T>(r.y, a[1] * b[1], "scale2");
        vf_same<T>(u.dot(b[0], b[1]), rdot, "dot2");
        r = u.reflected_x(); vf_same<T>(r.x, -a[0], "reflected_x"); vf_same<T>(r.y, a[1], "reflected_x");
        r = u.reflected_y(); vf_same<T>(r.x, a[0], "reflected_y"); vf_same<T>(r.y, -a[1], "reflected_y");
    }
    if constexpr (N == 3) {
        V r = u.add(b[0], b[1], b[2]), q = u.sub(b[0], b[1], b[2]), t = u.scale(b[0], b[1], b[2]);
        V c = u ^ v, c2 = u.cross(v);
        for (int i = 0; i < 3; i++) {
            vf_same<T>(r[i], a[i] + b[i], "add3"); vf_same<T>(q[i], a[i] - b[i], "sub3"); vf_same<T>(t[i], a[i] * b[i], "scale3");
            int j = (i + 1) % 3, k = (i + 2) % 3;
            vf_same<T>(c[i], a[j] * b[k] - a[k] * b[j], "cross ^"); vf_same<T>(c2[i], a[j] * b[k] - a[k] * b[j], "cross");
            V x = u.reflected_x(), y = u.reflected_y(), z = u.reflected_z();
            vf_same<T>(x[i], i == 0 ? -a[i] : a[i], "reflected_x"); vf_same<T>(y[i], i == 1 ? -a[i] : a[i], "reflected_y"); vf_same<T>(z[i], i == 2 ? -a[i] : a[i], "reflected_z");
        }
        vf_same<T>(u.dot(b[0], b[1], b[2]), rdot, "dot3");
    }
    if constexpr (N == 4) {
        V r = u.add(b[0], b[1], b[2], b[3]), q = u.sub(b[0], b[1], b[2], b[3]), t = u.scale(b[0], b[1], b[2], b[3]);
        for (int i = 0; i < 4; i++) { vf_same<T>(r[i], a[i] + b[i], "add4"); vf_same<T>(q[i], a[i] - b[i], "sub4"); vf_same<T>(t[i], a[i] * b[i], "scale4"); }
        vf_same<T>(u.dot(b[0], b[1], b[2], b[3]), rdot, "dot4");
    }
    if constexpr (std::is_floating_point_v<T>) {
        vf_assume(s != 0);
        V dv = u / s, de = u; de /= s;
        T k = vf_any<T>();
        V mx = u.mix(v, k);
        for (index_t i = 0; i < N; i++) {
            vf_eq(dv[i], a[i] / s, "vec / scalar"); vf_eq(de[i], a[i] / s, "/= scalar");
            vf_eq(mx[i], (1 - k) * a[i] + k * b[i], "mix");
        }
        for (index_t i = 0; i < N; i++) vf_assume(b[i] != 0);
        V hd = u / v, sd = s / v;
        for (index_t i = 0; i < N; i++) { vf_eq(hd[i], a[i] / b[i], "vec / vec"); vf_eq(sd[i], s / b[i], "scalar / vec"); }
    }
}
CONTRACT(P01_arith_d2) { arith<double,2>(); }
CONTRACT(P01_arith_d3) { arith<double,3>(); }
CONTRACT(P01_arith_d4) { arith<double,4>(); }
CONTRACT(P01_arith_d5) { arith<double,5>(); }
CONTRACT(P01_arith_i2) { arith<int64_t,2>(); }
CONTRACT(P01_arith_i3) { arith<int64_t,3>(); }

// lengths, unit vectors, projections, reflections
template <index_t N> void metric() {
    typedef Vec<double,N> V;
    V u = anyv<V>(), v = anyv<V>();
    double m2 = 0, d2 = 0, uv = 0, v2 = 0;
    for (index_t i = 0; i < N; i++) { m2 += u[i] * u[i]; v2 += v[i] * v[i]; d2 += (u[i] - v[i]) * (u[i] - v[i]); uv += u[i] * v[i]; }
    double m = u.mag();
    vf_eq(m * m, m2, "mag squared"); vf_le(0, m, "mag >= 0");
    double d = u.dist(v);
    vf_eq(d * d, d2, "dist squared"); vf_le(0, d, "dist >= 0");
    // projection: residual orthogonal, result parallel to the axis
    V p = u.project_on(v);
    double res = 0; for (index_t i = 0; i < N; i++) res += (u[i] - p[i]) * v[i];
    if (v2 != 0) {
        vf_eq(res, 0, "projection residual is orthogonal to the axis");
        for (index_t i = 0; i < N; i++) vf_eq(p[i] * v2, v[i] * uv, "projection is along the axis");
        vf_eq(u.fraction_on(v) * v2, uv, "fraction_on");
    } else {
        for (index_t i = 0; i < N; i++) vf_eq(p[i], v[i], "projection on zero axis is zero");
    }
    double len = vf_real();
    V w = u.with_length(len);
    if (m2 != 0) {
        V n = u.unit();
        double n2 = 0; for (index_t i = 0; i < N; i++) { n2 += n[i] * n[i]; vf_eq(n[i] * m, u[i], "unit keeps the direction"); }
        vf_eq(n2, 1, "unit has length one");
        for (index_t i = 0; i < N; i++) vf_eq(w[i] * m, len * u[i], "with_length keeps direction and sets length");
    } else {
        for (index_t i = 0; i < N; i++) vf_eq(w[i], 0, "with_length of zero vector is zero");
    }
    if (v2 != 0) {
        V r = u.reflect_about(v), bo = u.bounce_on(v);
        double r2 = 0, rn = 0;
        for (index_t i = 0; i < N; i++) {
            vf_eq(r[i] * v2, 2 * v[i] * uv - u[i] * v2, "reflect_about keeps the normal component and negates the rest");
            vf_eq(bo[i] * v2, u[i] * v2 - 2 * v[i] * uv, "bounce_on negates the normal component and keeps the rest");
            r2 += bo[i] * bo[i];
        }
        vf_eq(r2, m2, "reflection preserves length");
        if (m2 != 0) {
            // Cauchy-Schwarz, as lemmas over the unit vectors
            V a = u.unit(), b = v.unit();
            double dm = 0, dp = 0, ab = b.dot(a);
            for (index_t i = 0; i < N; i++) { dm += (a[i] - b[i]) * (a[i] - b[i]); dp += (a[i] + b[i]) * (a[i] + b[i]); }
            vf_lemma_eq(2 - 2 * ab, dm, "Cauchy-Schwarz (upper)"); vf_lemma_eq(2 + 2 * ab, dp, "Cauchy-Schwarz (lower)");
            vf_lemma(dm >= 0, "sum of squares"); vf_lemma(dp >= 0, "sum of squares");
            double th = u.angle_to(v);
            vf_eq(std::cos(th), ab, "angle_to: cosine is the normalised dot product");
            vf_eq(ab * m * v.mag(), uv, "normalised dot product");
            vf_le(0, th, "angle_to >= 0");
        }
    }
}
CONTRACT(P01_metric_d2) { metric<2>(); }
CONTRACT(P01_metric_d3) { metric<3>(); }
CONTRACT(P01_metric_d4) { metric<4>(); }
CONTRACT(P01_metric_d5) { metric<5>(); }

// coordinate selection: min/max/clamp/abs/floor/ceil/argmax/argmin
template <typename T, index_t N> void select() {
    typedef Vec<T,N> V;
    V u = anyv<V>(), v = anyv<V>();
    V mn = u.min(v), mx = u.max(v);
    V ab = u.abs();
    T lo = u.min(), hi = u.max();
    index_t am = u.argmax(), an = u.argmin();
    vf_assert(0 <= am && am < N, "argmax in range"); vf_assert(0 <= an && an < N, "argmin in range");
    bool lo_hit = false, hi_hit = false;
    for (index_t i = 0; i < N; i++) {
        vf_assert(mn[i] == (u[i] < v[i] ? u[i] : v[i]), "min(vec)"); vf_assert(mx[i] == (u[i] > v[i] ? u[i] : v[i]), "max(vec)");
        vf_assert(ab[i] == (u[i] < 0 ? -u[i] : u[i]), "abs");
        vf_assert(lo <= u[i], "min() is a lower bound"); vf_assert(hi >= u[i], "max() is an upper bound");
        lo_hit = lo_hit | (lo == u[i]); hi_hit = hi_hit | (hi == u[i]);
        vf_assert(ab[am] >= ab[i], "argmax has the largest magnitude"); vf_assert(ab[an] <= ab[i], "argmin has the smallest magnitude");
    }
    vf_assert(lo_hit, "min() is attained"); vf_assert(hi_hit, "max() is attained");
}
CONTRACT(P01_select_d2) { select<double,2>(); }
CONTRACT(P01_select_d3) { select<double,3>(); }
CONTRACT(P01_select_d4) { select<double,4>(); }
CONTRACT(P01_select_d5) { select<double,5>(); }
CONTRACT(P01_select_i3) { select<int64_t,3>(); }

CONTRACT(P01_clamp_round) {
    typedef Vec<double,3> V;
    V u = anyv<V>(), a = anyv<V>(), b = anyv<V>();
    for (int i = 0; i < 3; i++) vf_assume(a[i] <= b[i]);
    V c = u.clamp(a, b), f = u.floor(), ce = u.ceil();
    for (int i = 0; i < 3; i++) {
        vf_assert(c[i] == (u[i] < a[i] ? a[i] : u[i] > b[i] ? b[i] : u[i]), "clamp");
        vf_assert(f[i] <= u[i] && u[i] < f[i] + 1, "floor"); vf_assert(ce[i] >= u[i] && u[i] > ce[i] - 1, "ceil");
        vf_assert(f[i] == (double)(int64_t) f[i] && ce[i] == (double)(int64_t) ce[i], "floor/ceil are integers");
    }
}

// construction, element access, resizing, iteration
template <index_t N> void construct() {
    typedef Vec<double,N> V;
    double a[N]; for (index_t i = 0; i < N; i++) a[i] = vf_real();
    double s = vf_real();
    V z, f(s), p(a);
    V e; for (index_t i = 0; i < N; i++) e[i] = a[i];
    for (index_t i = 0; i < N; i++) {
        vf_eq(z[i], 0, "default is zero"); vf_eq(f[i], s, "fill constructor"); vf_eq(p[i], a[i], "array constructor");
        vf_eq(e.get(i), a[i], "element write then read"); vf_eq(*(e.begin() + i), a[i], "begin() addresses the elements in order");
        vf_eq(V::ones[i], 1, "ones"); vf_eq(V::zeros[i], 0, "zeros"); vf_eq(V::unit_x[i], i == 0, "unit_x");
    }
    vf_assert(e.end() - e.begin() == N, "end()"); vf_assert(e.size() == N, "size()");
    // writing one coordinate changes that coordinate only
    int64_t k = vf_pick(0, N - 1);
    V w = p; w[k] = s;
    for (index_t i = 0; i < N; i++) vf_eq(w[i], i == k ? s : a[i], "writing one coordinate changes it only");
    auto big = p.template resized<N + 1>();
    for (index_t i = 0; i < N; i++) vf_eq(big[i], a[i], "resized up keeps coordinates");
    vf_eq(big[N], 0, "resized up pads with zero");
    if constexpr (N > 2) { auto sm = p.template resized<N - 1>(); for (index_t i = 0; i < N - 1; i++) vf_eq(sm[i], a[i], "resized down drops the tail"); }
    if constexpr (N > 2) {
        Vec<double,N-1> h(a);
        V x(h, s);
        for (index_t i = 0; i < N - 1; i++) vf_eq(x[i], a[i], "append constructor"); vf_eq(x[N - 1], s, "append constructor");
    }
    if constexpr (N == 2) { V x(a[0], a[1]); vf_eq(x.x, a[0], "x"); vf_eq(x.y, a[1], "y"); vf_eq(x[0], x.s, "s"); vf_eq(x[1], x.t, "t"); vf_eq(V::X_AXIS.x, 1, "X_AXIS"); vf_eq(V::X_AXIS.y, 0, "X_AXIS"); vf_eq(V::Y_AXIS.x, 0, "Y_AXIS"); vf_eq(V::Y_AXIS.y, 1, "Y_AXIS"); }
    if constexpr (N == 3) { V x(a[0], a[1], a[2]); vf_eq(x.x, a[0], "x"); vf_eq(x.y, a[1], "y"); vf_eq(x.z, a[2], "z");
        for (int i = 0; i < 3; i++) { vf_eq(V::X_AXIS[i], i == 0, "X_AXIS"); vf_eq(V::Y_AXIS[i], i == 1, "Y_AXIS"); vf_eq(V::Z_AXIS[i], i == 2, "Z_AXIS"); } }
    if constexpr (N == 4) { V x(a[0], a[1], a[2], a[3]); vf_eq(x.x, a[0], "x"); vf_eq(x.y, a[1], "y"); vf_eq(x.z, a[2], "z"); vf_eq(x.w, a[3], "w");
        V y(Vec<double,2>(a[0], a[1]), a[2], a[3]); for (int i = 0; i < 4; i++) vf_eq(y[i], a[i], "two-coordinate append constructor");
        for (int i = 0; i < 4; i++) { vf_eq(V::X_AXIS[i], i == 0, "X_AXIS"); vf_eq(V::Y_AXIS[i], i == 1, "Y_AXIS"); vf_eq(V::Z_AXIS[i], i == 2, "Z_AXIS"); vf_eq(V::W_AXIS[i], i == 3, "W_AXIS"); } }

}
CONTRACT(P01_construct_d2) { construct<2>(); }
CONTRACT(P01_construct_d3) { construct<3>(); }
CONTRACT(P01_construct_d4) { construct<4>(); }
CONTRACT(P01_construct_d5) { construct<5>(); }
