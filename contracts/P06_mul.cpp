// P06: every matrix product equals the sum of row-column products of the represented entries, for every combination of
// dense (both layouts, fixed and dynamic), diagonal and permutation operands, every kind of destination, in place or not.
#include "mtx.h"
#include <geomc/GeomException.cpp>
//@@ P06_dense P06_dense_dyn P06_dense44 P06_diag_dense P06_diag_diag P06_perm_dense P06_perm_diag P06_perm_perm P06_vec P06_vec_special
//@@ P06_inplace_dense P06_inplace_special P06_inplace_overlap P06_aliases P06_inplace_vec P06_accumulate P06_mismatch P06_mismatch_into P06_mismatch_vec
//@ *: time=200 order=up
//@ P06_inplace_overlap P06_aliases: order=free
//@ P06_perm_*: par=4

// product of an R x K and a K x C matrix, returned and written into each destination type
template <typename Ma, typename Mb, typename... Md> void product(int R, int K, int C) {
    Ma a = Any<Ma>::make(R, K); Mb b = Any<Mb>::make(K, C);
    Ref ra, rb; Any<Ma>::fill(a, ra); Any<Mb>::fill(b, rb);
    auto f = [&](int i, int j) { return prod(ra, rb, i, j); };
    { auto p = a * b; is(p, R, C, f, "a * b"); }
    { auto p = mul(a, b); is(p, R, C, f, "mul(a, b)"); }
    ([&] { Md d = Any<Md>::make(R, C); auto& q = mul(&d, a, b); is(d, R, C, f, "mul(&d, a, b)"); vf_assert(&q == &d, "mul returns its destination"); }(), ...);
    is(a, ra, "left operand unchanged"); is(b, rb, "right operand unchanged");
}
CONTRACT(P06_dense) {
    product<M23, M32, M22, MX0>(2, 3, 2); product<M32, M23, M33, C33, MX0, CX0>(3, 2, 3);
    product<C23, M32, M22>(2, 3, 2); product<C32, C23, C33, M33>(3, 2, 3); product<M33, C33, M33, C33>(3, 3, 3);
}
CONTRACT(P06_dense_dyn) {
    vf_one_of(
        [] { product<MX0, MX0, MX0, M22, CX0>(2, 3, 2); },
        [] { product<CX0, MX0, MX0, M33>(3, 2, 3); },
        [] { product<M23, MX0, MX0>(2, 3, 3); },
        [] { product<MX0, C33, CX0, M23>(2, 3, 3); },
        [] { product<MX3, M3X, MX0>(3, 3, 3); },
        [] { product<M3X, MX3, M33>(3, 2, 3); },
        [] { product<MX0, MX0, MX0>(1, 4, 1); },
        [] { product<MX0, MX0, MX0>(4, 1, 4); });
}
CONTRACT(P06_dense44) { product<M44, M44, M44>(4, 4, 4); }
CONTRACT(P06_diag_dense) {
    vf_one_of(
        [] { product<D33, M33, M33, C33, MX0>(3, 3, 3); },
        [] { product<M33, D33, M33, C33>(3, 3, 3); },
        [] { product<D23, M32, M22, MX0>(2, 3, 2); },
        [] { product<D32, M23, M33>(3, 2, 3); },
        [] { product<M23, D32, M22>(2, 3, 2); },
        [] { product<M32, D23, M33, CX0>(3, 2, 3); },
        [] { product<DX0, MX0, MX0, M33>(3, 2, 3); },
        [] { product<MX0, DX0, MX0>(2, 2, 4); },
        [] { product<DX0, MX0, MX0>(2, 4, 3); },
        [] { product<C33, D33, M33>(3, 3, 3); },
        [] { product<MX0, DX0, MX0>(3, 4, 2); },
        [] { product<D23, C33, M23>(2, 3, 3); },
        [] { product<M23, DX0, MX0>(2, 3, 4); });
}
CONTRACT(P06_diag_diag) {
    vf_one_of(
        [] { product<D33, D33, D33, M33, DX0, MX0>(3, 3, 3); },
        [] { product<D23, D32, M22, MX0>(2, 3, 2); },
        [] { product<D32, D23, D33, M33>(3, 2, 3); },
        [] { product<DX0, DX0, DX0, MX0>(3, 2, 3); },
        [] { product<DX0, DX0, DX0>(2, 3, 4); },
        [] { product<D33, DX0, D33, DX0>(3, 3, 3); },
        [] { product<D33, D32, D32, M32>(3, 3, 2); });
}
CONTRACT(P06_perm_dense) {
    vf_one_of(
        [] { product<P3, M33, M33, C33>(3, 3, 3); },
        [] { product<M33, P3, M33, C33>(3, 3, 3); },
        [] { product<P3, M32, M32, MX0>(3, 3, 2); },
        [] { product<M23, P3, M23>(2, 3, 3); },
        [] { product<PX0, MX0, MX0>(3, 3, 2); },
        [] { product<C23, PX0, MX0, C23>(2, 3, 3); },
        [] { product<C33, P3, M33, C33>(3, 3, 3); },
        [] { product<P3, C32, M32, C32>(3, 3, 2); },
        [] { product<MX0, P3, M33>(3, 3, 3); },
        [] { product<PX0, M33, M33>(3, 3, 3); });
}
CONTRACT(P06_perm_diag) {
    vf_one_of(
        [] { product<P3, D33, M33>(3, 3, 3); },
        [] { product<D33, P3, M33, C33>(3, 3, 3); },
        [] { product<P3, D32, M32>(3, 3, 2); },
        [] { product<D23, P3, M23>(2, 3, 3); },
        [] { product<PX0, DX0, MX0>(3, 3, 4); },
        [] { product<DX0, PX0, MX0>(2, 3, 3); });
}
CONTRACT(P06_perm_perm) {
    vf_one_of(
        [] { product<P3, P3, P3, M33, C33, PX0, MX0>(3, 3, 3); },
        [] { product<PX0, PX0, PX0, P3, MX0>(3, 3, 3); },
        [] { product<P3, PX0, PX0, P3, M33>(3, 3, 3); },
        [] { product<PX0, P3, P3>(3, 3, 3); });
}

// matrix * column vector and row vector * matrix
template <typename M, index_t VR, index_t VC> void vecs(int R, int C) {
    M m = Any<M>::make(R, C); Ref rm; Any<M>::fill(m, rm);
    Vec<double,VC> v; double e[VC]; for (int i = 0; i < VC; i++) v[i] = e[i] = vf_real();
    Vec<double,VR> w; double f[VR]; for (int i = 0; i < VR; i++) w[i] = f[i] = vf_real();
    double rv[VR], rw[VC];
    for (int i = 0; i < VR; i++) { rv[i] = 0; for (int j = 0; j < VC; j++) rv[i] += rm.e[i][j] * e[j]; }
    for (int j = 0; j < VC; j++) { rw[j] = 0; for (int i = 0; i < VR; i++) rw[j] += rm.e[i][j] * f[i]; }
    auto a = m * v; auto b = w * m;
    if constexpr (detail::IsMatrix<decltype(a)>::val) is(a, VR, 1, [&](int i, int) { return rv[i]; }, "matrix * vector (column)");
    else { static_assert(decltype(a)::DIM == VR); for (int i = 0; i < VR; i++) vf_eq(a[i], rv[i], "matrix * vector"); }
    if constexpr (detail::IsMatrix<decltype(b)>::val) is(b, 1, VC, [&](int, int j) { return rw[j]; }, "vector * matrix (row)");
    else { static_assert(decltype(b)::DIM == VC); for (int j = 0; j < VC; j++) vf_eq(b[j], rw[j], "vector * matrix"); }
    if constexpr (M::ROWDIM == VR && M::COLDIM == VC) {
        Vec<double,VR> x; Vec<double,VC> y; mul(&x, m, v); mul(&y, w, m);
        for (int i = 0; i < VR; i++) vf_eq(x[i], rv[i], "mul(&vec, matrix, vec)"); for (int j = 0; j < VC; j++) vf_eq(y[j], rw[j], "mul(&vec, vec, matrix)");
        SimpleMatrix<double,VR,1> xc; SimpleMatrix<double,1,VC> yr; mul(&xc, m, v); mul(&yr, w, m);
        for (int i = 0; i < VR; i++) vf_eq(xc(i, 0), rv[i], "mul(&column, matrix, vec)"); for (int j = 0; j < VC; j++) vf_eq(yr(0, j), rw[j], "mul(&row, vec, matrix)");
        MX0 xd(VR, 1), yd(1, VC); mul(&xd, m, v); mul(&yd, w, m);
        for (int i = 0; i < VR; i++) vf_eq(xd(i, 0), rv[i], "mul(&dynamic, matrix, vec)"); for (int j = 0; j < VC; j++) vf_eq(yd(0, j), rw[j], "mul(&dynamic, vec, matrix)");
    }
    is(m, rm, "operand unchanged"); for (int i = 0; i < VC; i++) vf_eq(v[i], e[i], "operand unchanged"); for (int i = 0; i < VR; i++) vf_eq(w[i], f[i], "operand unchanged");
}
CONTRACT(P06_vec) { vf_one_of([] { vecs<M23,2,3>(2, 3); }, [] { vecs<M32,3,2>(3, 2); }, [] { vecs<C23,2,3>(2, 3); }, [] { vecs<M33,3,3>(3, 3); }, [] { vecs<M44,4,4>(4, 4); }, [] { vecs<MX0,2,3>(2, 3); }, [] { vecs<CX0,3,2>(3, 2); }); }
CONTRACT(P06_vec_special) { vf_one_of([] { vecs<D33,3,3>(3, 3); }, [] { vecs<D23,2,3>(2, 3); }, [] { vecs<D32,3,2>(3, 2); }, [] { vecs<P3,3,3>(3, 3); }, [] { vecs<DX0,2,3>(2, 3); }, [] { vecs<PX0,3,3>(3, 3); }); }

// products written over one of their operands
template <typename M> void inplace_dense(int n) { vf_one_of(
    [&] { M a = Any<M>::make(n, n), b = Any<M>::make(n, n); Ref ra, rb; Any<M>::fill(a, ra); Any<M>::fill(b, rb);
      mul(&a, a, b); is(a, n, n, [&](int i, int j) { return prod(ra, rb, i, j); }, "mul(&a, a, b)"); is(b, rb, "other operand unchanged"); },
    [&] { M a = Any<M>::make(n, n), b = Any<M>::make(n, n); Ref ra, rb; Any<M>::fill(a, ra); Any<M>::fill(b, rb);
      mul(&b, a, b); is(b, n, n, [&](int i, int j) { return prod(ra, rb, i, j); }, "mul(&b, a, b)"); is(a, ra, "other operand unchanged"); },
    [&] { M a = Any<M>::make(n, n); Ref ra; Any<M>::fill(a, ra);
      mul(&a, a, a); is(a, n, n, [&](int i, int j) { return prod(ra, ra, i, j); }, "mul(&a, a, a)"); });
}
CONTRACT(P06_inplace_dense) { vf_one_of([] { inplace_dense<M33>(3); }, [] { inplace_dense<C33>(3); }, [] { inplace_dense<MX0>(3); }, [] { inplace_dense<M22>(2); }, [] { inplace_dense<D33>(3); }, [] { inplace_dense<DX0>(3); }); }
CONTRACT(P06_inplace_special) {
    vf_one_of(
    [] { inplace_dense<P3>(3); },
    [] { inplace_dense<PX0>(3); },
    [] { M33 a; D33 d; Ref ra, rd; Any<M33>::fill(a, ra); Any<D33>::fill(d, rd); M33 b = a, c = a;
      auto f = [&](int i, int j) { return prod(ra, rd, i, j); };
      mul(&a, a, d); is(a, 3, 3, f, "mul(&a, a, diag)"); b *= d; is(b, 3, 3, f, "a *= diag");
      mul(&c, d, c); is(c, 3, 3, [&](int i, int j) { return prod(rd, ra, i, j); }, "mul(&a, diag, a)"); is(d, rd, "diagonal operand unchanged"); },
    [] { M33 a; P3 p; Ref ra, rp; Any<M33>::fill(a, ra); Any<P3>::fill(p, rp); M33 c = a;
      mul(&a, a, p); is(a, 3, 3, [&](int i, int j) { return prod(ra, rp, i, j); }, "mul(&a, a, perm)");
      mul(&c, p, c); is(c, 3, 3, [&](int i, int j) { return prod(rp, ra, i, j); }, "mul(&a, perm, a)"); is(p, rp, "permutation operand unchanged"); },
    [] { MX0 a(2, 3); DX0 d(3, 3); Ref ra, rd; Any<MX0>::fill(a, ra); Any<DX0>::fill(d, rd); a *= d; is(a, 2, 3, [&](int i, int j) { return prod(ra, rd, i, j); }, "dynamic a *= diag"); },
    [] { D33 a, d; Ref ra, rd; Any<D33>::fill(a, ra); Any<D33>::fill(d, rd); a *= d; is(a, 3, 3, [&](int i, int j) { return prod(ra, rd, i, j); }, "diag *= diag"); });
}
// destination sharing part of its memory with an operand
CONTRACT(P06_inplace_overlap) {
    typedef SimpleMatrix<double,2,2,ROW_MAJOR,STORAGE_WRAPPED> W;
    for (int off = 0; off <= 3; off++) for (int side = 0; side < 2; side++) {
        double buf[8]; W a(side ? buf + off : buf), d(side ? buf : buf + off); M22 b; Ref ra, rb; Any<W>::fill(a, ra); Any<M22>::fill(b, rb);
        vf_assert(mtx_aliases_storage(a, d) && mtx_aliases_storage(d, a), "overlapping storage is reported as aliasing");
        vf_assert(!mtx_aliases_storage(a, b) && !mtx_aliases_storage(b, d), "separate storage is not aliasing");
        mul(&d, a, b); is(d, 2, 2, [&](int i, int j) { return prod(ra, rb, i, j); }, "mul into overlapping storage (left operand)");
        Any<W>::fill(a, ra);
        mul(&d, b, a); is(d, 2, 2, [&](int i, int j) { return prod(rb, ra, i, j); }, "mul into overlapping storage (right operand)");
    }
}
// the overlap test itself, wherever the allocator puts the two objects
CONTRACT(P06_aliases) {
    M22 a, b; MX0 c(2, 2), e(c); Vec<double,4> v, w; D33 d, f; SimpleMatrix<double,2,2,ROW_MAJOR,STORAGE_WRAPPED> va(v.begin()), vb(v.begin() + 2); P3 p, q;
    vf_assert(mtx_aliases_storage(a, a) && mtx_aliases_storage(c, c) && mtx_aliases_storage(d, d) && mtx_aliases_storage(p, p), "a matrix aliases itself");
    vf_assert(!mtx_aliases_storage(a, b) && !mtx_aliases_storage(c, e) && !mtx_aliases_storage(d, f) && !mtx_aliases_storage(p, q) && !mtx_aliases_storage(a, d) && !mtx_aliases_storage(c, a) && !mtx_aliases_storage(p, a), "separate objects do not alias");
    vf_assert(mtx_aliases_storage(va, v) && mtx_aliases_storage(v, va) && mtx_aliases_storage(va, vb) && mtx_aliases_storage(vb, v) && !mtx_aliases_storage(w, va) && !mtx_aliases_storage(v, w) && mtx_aliases_storage(v, v), "matrices wrapping a vector alias it");
}
CONTRACT(P06_inplace_vec) {
    M33 m; Vec<double,3> v; double e[3]; Ref rm; Any<M33>::fill(m, rm); for (int i = 0; i < 3; i++) v[i] = e[i] = vf_real();
    Vec<double,3> w = v; mul(&v, m, v); mul(&w, w, m);
    for (int i = 0; i < 3; i++) { vf_eq(v[i], rm.e[i][0] * e[0] + rm.e[i][1] * e[1] + rm.e[i][2] * e[2], "mul(&v, m, v)"); vf_eq(w[i], rm.e[0][i] * e[0] + rm.e[1][i] * e[1] + rm.e[2][i] * e[2], "mul(&v, v, m)"); }
    P3 p; Ref rp; Any<P3>::fill(p, rp); Vec<double,3> x, y; for (int i = 0; i < 3; i++) x[i] = y[i] = e[i];
    mul(&x, p, x); mul(&y, y, p);
    for (int i = 0; i < 3; i++) { vf_eq(x[i], rp.e[i][0] * e[0] + rp.e[i][1] * e[1] + rp.e[i][2] * e[2], "mul(&v, perm, v)"); vf_eq(y[i], rp.e[0][i] * e[0] + rp.e[1][i] * e[1] + rp.e[2][i] * e[2], "mul(&v, v, perm)"); }
    // a vector wrapped as a matrix shares the vector's memory
    Vec<double,3> z; for (int i = 0; i < 3; i++) z[i] = e[i]; SimpleMatrix<double,3,1,ROW_MAJOR,STORAGE_WRAPPED> zw(z.begin());
    mul(&zw, m, z); for (int i = 0; i < 3; i++) vf_eq(z[i], rm.e[i][0] * e[0] + rm.e[i][1] * e[1] + rm.e[i][2] * e[2], "mul into a matrix wrapping the vector");
}
CONTRACT(P06_accumulate) {
    vf_one_of(
    [] { M23 a; M32 b; M22 d; Ref ra, rb, rd; Any<M23>::fill(a, ra); Any<M32>::fill(b, rb); Any<M22>::fill(d, rd); mul_acc(&d, a, b); is(d, 2, 2, [&](int i, int j) { return rd.e[i][j] + prod(ra, rb, i, j); }, "mul_acc(&d, a, b)"); },
    [] { MX0 a(2, 3), b(3, 2), d(2, 2); Ref ra, rb, rd; Any<MX0>::fill(a, ra); Any<MX0>::fill(b, rb); Any<MX0>::fill(d, rd); mul_acc(&d, a, b); is(d, 2, 2, [&](int i, int j) { return rd.e[i][j] + prod(ra, rb, i, j); }, "mul_acc dynamic"); },
    [] { M33 a, b; Ref ra, rb; Any<M33>::fill(a, ra); Any<M33>::fill(b, rb); M33 c = a; mul_acc(&a, a, b); is(a, 3, 3, [&](int i, int j) { return ra.e[i][j] + prod(ra, rb, i, j); }, "mul_acc(&a, a, b)");
      mul_acc(&b, c, b); is(b, 3, 3, [&](int i, int j) { return rb.e[i][j] + prod(ra, rb, i, j); }, "mul_acc(&b, a, b)"); },
    [] { D33 a, b, d; Ref ra, rb, rd; Any<D33>::fill(a, ra); Any<D33>::fill(b, rb); Any<D33>::fill(d, rd); M33 m; Ref rm; Any<M33>::fill(m, rm); mul_acc(&d, a, b); is(d, 3, 3, [&](int i, int j) { return rd.e[i][j] + prod(ra, rb, i, j); }, "mul_acc diagonal");
      mul_acc(&m, a, b); is(m, 3, 3, [&](int i, int j) { return rm.e[i][j] + prod(ra, rb, i, j); }, "mul_acc(dense, diag, diag)"); },
    [] { M23 m; Ref rm; Any<M23>::fill(m, rm); Vec<double,3> v; Vec<double,2> w; double e[3], f[2]; for (int i = 0; i < 3; i++) v[i] = e[i] = vf_real(); for (int i = 0; i < 2; i++) w[i] = f[i] = vf_real();
      Vec<double,2> x = w; Vec<double,3> y = v; mul_acc(&x, m, v); mul_acc(&y, w, m);
      for (int i = 0; i < 2; i++) vf_eq(x[i], f[i] + rm.e[i][0] * e[0] + rm.e[i][1] * e[1] + rm.e[i][2] * e[2], "mul_acc(&v, m, v)"); for (int j = 0; j < 3; j++) vf_eq(y[j], e[j] + rm.e[0][j] * f[0] + rm.e[1][j] * f[1], "mul_acc(&v, v, m)");
      SimpleMatrix<double,2,1> xc; xc(0, 0) = f[0]; xc(1, 0) = f[1]; mul_acc(&xc, m, v); for (int i = 0; i < 2; i++) vf_eq(xc(i, 0), f[i] + rm.e[i][0] * e[0] + rm.e[i][1] * e[1] + rm.e[i][2] * e[2], "mul_acc(&column, m, v)");
      SimpleMatrix<double,1,3> yr; for (int j = 0; j < 3; j++) yr(0, j) = e[j]; mul_acc(&yr, w, m); for (int j = 0; j < 3; j++) vf_eq(yr(0, j), e[j] + rm.e[0][j] * f[0] + rm.e[1][j] * f[1], "mul_acc(&row, v, m)"); },
    [] { M33 m; Ref rm; Any<M33>::fill(m, rm); Vec<double,3> v; double e[3]; for (int i = 0; i < 3; i++) v[i] = e[i] = vf_real(); mul_acc(&v, m, v); for (int i = 0; i < 3; i++) vf_eq(v[i], e[i] + rm.e[i][0] * e[0] + rm.e[i][1] * e[1] + rm.e[i][2] * e[2], "mul_acc(&v, m, v) in place"); });
}
// dynamic sizes that do not fit are rejected, and nothing is written
template <typename F> bool throws(F f) { try { f(); } catch (DimensionMismatchException& e) { return true; } return false; }
CONTRACT(P06_mismatch) {
    int r = vf_pick(1, 3), k1 = vf_pick(1, 3), k2 = vf_pick(1, 3), c = vf_pick(1, 3);
    MX0 a(r, k1), b(k2, c); Ref ra, rb; Any<MX0>::fill(a, ra); Any<MX0>::fill(b, rb);
    vf_assert(throws([&] { auto p = a * b; }) == (k1 != k2), "product rejected exactly when the inner dimensions differ");
    is(a, ra, "operands unchanged"); is(b, rb, "operands unchanged");
    M33 s; Ref rs; Any<M33>::fill(s, rs);
    vf_assert(throws([&] { auto p = s * b; }) == (3 != k2), "fixed * dynamic"); vf_assert(throws([&] { auto p = a * s; }) == (3 != k1), "dynamic * fixed");
    DX0 d(k2, c); PX0 q(k2);
    vf_assert(throws([&] { auto p = a * d; }) == (k1 != k2), "dense * diagonal"); vf_assert(throws([&] { auto p = a * q; }) == (k1 != k2), "dense * permutation");
    DX0 d2(r, k1); PX0 q2(k1); vf_assert(throws([&] { auto p = d2 * b; }) == (k1 != k2), "diagonal * dense"); vf_assert(throws([&] { auto p = q2 * b; }) == (k1 != k2), "permutation * dense");
    vf_assert(throws([&] { auto p = d2 * d; }) == (k1 != k2), "diagonal * diagonal"); vf_assert(throws([&] { auto p = q2 * q; }) == (k1 != k2), "permutation * permutation");
    vf_assert(throws([&] { a *= d; }) == (k1 != k2 || k1 != c), "a *= diag rejected exactly when the product does not fit into a"); if (k1 != k2 || k1 != c) is(a, ra, "rejected destination unchanged");
}
//@ P06_mismatch: par=4
CONTRACT(P06_mismatch_into) {
    int r = vf_pick(1, 2), k1 = vf_pick(1, 3), k2 = vf_pick(1, 3), c = vf_pick(1, 2), dr = vf_pick(1, 2), dc = vf_pick(1, 2);
    MX0 a(r, k1), b(k2, c), d(dr, dc); Ref ra, rb, rd; Any<MX0>::fill(a, ra); Any<MX0>::fill(b, rb); Any<MX0>::fill(d, rd);
    bool bad = k1 != k2 || dr != r || dc != c;
    vf_assert(throws([&] { mul(&d, a, b); }) == bad, "mul rejected exactly when the sizes do not fit");
    if (bad) is(d, rd, "rejected destination unchanged");
    is(a, ra, "operands unchanged"); is(b, rb, "operands unchanged");
    MX0 e(dr, dc); Ref re; Any<MX0>::fill(e, re); vf_assert(throws([&] { mul_acc(&e, a, b); }) == bad, "mul_acc rejected exactly when the sizes do not fit"); if (bad) is(e, re, "rejected destination unchanged");
    M22 s; Ref rs; Any<M22>::fill(s, rs); bool bads = k1 != k2 || r != 2 || c != 2;
    vf_assert(throws([&] { mul(&s, a, b); }) == bads, "mul into fixed size rejected exactly when the sizes do not fit"); if (bads) is(s, rs, "rejected destination unchanged");
    M22 t; Ref rt; Any<M22>::fill(t, rt); vf_assert(throws([&] { mul_acc(&t, a, b); }) == bads, "mul_acc into fixed size rejected"); if (bads) is(t, rt, "rejected destination unchanged");
}
//@ P06_mismatch_into: par=4
CONTRACT(P06_mismatch_vec) {
    int r = vf_pick(1, 4), c = vf_pick(1, 4); MX0 m(r, c); Ref rm; Any<MX0>::fill(m, rm); Vec<double,3> v; double e[3]; for (int i = 0; i < 3; i++) v[i] = e[i] = vf_real();
    vf_assert(throws([&] { auto p = m * v; }) == (c != 3), "dynamic * vector"); vf_assert(throws([&] { auto p = v * m; }) == (r != 3), "vector * dynamic");
    Vec<double,2> w; bool bad = c != 3 || r != 2; vf_assert(throws([&] { mul(&w, m, v); }) == bad, "mul(&vec, dynamic, vec)");
    if (!bad) for (int i = 0; i < 2; i++) vf_eq(w[i], rm.e[i][0] * e[0] + rm.e[i][1] * e[1] + rm.e[i][2] * e[2], "mul(&vec, dynamic, vec)"); else for (int i = 0; i < 2; i++) vf_eq(w[i], 0, "rejected destination unchanged");
    Vec<double,2> u; bool badu = r != 3 || c != 2; vf_assert(throws([&] { mul(&u, v, m); }) == badu, "mul(&vec, vec, dynamic)");
    if (!badu) for (int i = 0; i < 2; i++) vf_eq(u[i], rm.e[0][i] * e[0] + rm.e[1][i] * e[1] + rm.e[2][i] * e[2], "mul(&vec, vec, dynamic)"); else for (int i = 0; i < 2; i++) vf_eq(u[i], 0, "rejected destination unchanged");
    is(m, rm, "operands unchanged");
}
