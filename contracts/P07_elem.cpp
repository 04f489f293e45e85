// P07: element-wise matrix operations act on the represented matrix, whatever its storage order, size kind or representation.
#include "mtx.h"
#include <geomc/GeomException.cpp>
//@@ P07_access P07_construct P07_add P07_add_special P07_add_inplace P07_scale P07_transpose P07_transpose_special P07_transpose_inplace P07_equal P07_equal_special P07_unequal_size P07_copy P07_copy_special P07_copy_vec P07_iter P07_iter_special P07_mismatch
//@ *: time=200 order=up
template <typename F> bool throws(F f) { try { f(); } catch (DimensionMismatchException& e) { return true; } return false; }

// one matrix: element access, writing one element, rows, columns, begin/end, as_transpose, identity and zero
template <typename M> void access(int R, int C) {
    M m = Any<M>::make(R, C);
    is(m, R, C, [](int i, int j) { return i == j ? 1.0 : 0.0; }, "a new matrix is the identity");
    Ref r; Any<M>::fill(m, r); const M& cm = m;
    is(m, r, "entry (r, c)"); is(cm, r, "const entry (r, c)");
    for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) {
        vf_eq(m[i][j], r.e[i][j], "m[r][c]"); vf_eq(cm[i][j], r.e[i][j], "const m[r][c]");
        vf_eq(*(m.row(i) + j), r.e[i][j], "row(r)[c]"); vf_eq(*(m.col(j) + i), r.e[i][j], "col(c)[r]"); vf_eq(*(cm.col(j) + i), r.e[i][j], "const col(c)[r]"); vf_eq(*(cm.row(i) + j), r.e[i][j], "const row(r)[c]");
        vf_eq(*(m.begin() + (i * C + j)), r.e[i][j], "begin() + n is row-major"); }
    vf_assert(m.data_end() - m.data_begin() == R * C && cm.data_end() - cm.data_begin() == R * C, "as many elements as rows * columns");
    { int n = 0; for (auto i = m.begin(); i != m.end(); ++i, ++n) { if (n >= R * C) break; vf_eq(*i, r.e[n / C][n % C], "iteration is row-major"); } vf_assert(n == R * C, "begin..end visits every element"); }
    { int n = 0; for (auto i = cm.begin(); i != cm.end(); ++i, ++n) { if (n >= R * C) break; vf_eq(*i, r.e[n / C][n % C], "const iteration is row-major"); } vf_assert(n == R * C, "const begin..end visits every element"); }
    for (int j = 0; j < C; j++) { auto i = m.col(j); for (int k = 0; k < R; k++) { vf_eq(*i, r.e[k][j], "column iteration"); ++i; } for (int k = R; k-- > 0; ) { --i; vf_eq(*i, r.e[k][j], "reverse column iteration"); } if (j + 1 < C) vf_assert(m.col(j + 1) - m.col(j) == R, "column end is the next column"); }
    for (int i = 0; i < R; i++) { auto p = m.row(i); for (int k = 0; k < C; k++) { vf_eq(*p, r.e[i][k], "row iteration"); ++p; } }
    int a = (int) vf_pick(0, R - 1), b = (int) vf_pick(0, C - 1); double v = vf_real(), w = vf_real(), z = vf_real();
    auto only = [&](double x) { return [&r, a, b, x](int i, int j) { return i == a && j == b ? x : r.e[i][j]; }; };
    m.set(a, b, v); is(m, R, C, only(v), "set changes one element"); m(a, b) = w; is(m, R, C, only(w), "m(r, c) = v changes one element"); m[a][b] = z; is(m, R, C, only(z), "m[r][c] = v changes one element");
    *(m.col(b) + a) = v; is(m, R, C, only(v), "writing through a column"); *(m.row(a) + b) = w; is(m, R, C, only(w), "writing through a row"); *(m.begin() + (a * C + b)) = z; is(m, R, C, only(z), "writing through begin()");
    M c = m; is(c, R, C, only(z), "copy construction"); c.set_identity(); is(c, R, C, [](int i, int j) { return i == j ? 1.0 : 0.0; }, "set_identity"); is(m, R, C, only(z), "a copy is independent");
    c = m; is(c, R, C, only(z), "copy assignment"); c.set_zero(); is(c, R, C, [](int, int) { return 0.0; }, "set_zero"); is(m, R, C, only(z), "an assigned copy is independent");
    double k = vf_real(); m *= k; is(m, R, C, [&](int i, int j) { return (i == a && j == b ? z : r.e[i][j]) * k; }, "m *= k");
}
CONTRACT(P07_access) { vf_one_of([] { access<M23>(2, 3); }, [] { access<M32>(3, 2); }, [] { access<C23>(2, 3); }, [] { access<C32>(3, 2); }, [] { access<MX0>(3, 2); }, [] { access<CX0>(2, 3); }, [] { access<MX3>(2, 3); }, [] { access<M3X>(3, 2); }, [] { access<MX0>(1, 4); }, [] { access<CX0>(4, 1); }); }
CONTRACT(P07_construct) {
    double a[6]; for (int i = 0; i < 6; i++) a[i] = vf_real();
    vf_one_of(
    [&] { M23 m(a); MX0 d(a, 3, 2); C23 c(a); SimpleMatrix<double,2,3> k(static_cast<const double*>(a));
      is(m, 2, 3, [&](int i, int j) { return a[i * 3 + j]; }, "from an array, row major"); is(d, 3, 2, [&](int i, int j) { return a[i * 2 + j]; }, "from an array, dynamic"); is(c, 2, 3, [&](int i, int j) { return a[i + j * 2]; }, "from an array, column major"); is(k, 2, 3, [&](int i, int j) { return a[i * 3 + j]; }, "from a const array"); },
    [&] { M23 m({a[0], a[1], a[2], a[3], a[4], a[5]}); MX0 d({a[0], a[1], a[2], a[3], a[4], a[5]}, 3, 2); is(m, 2, 3, [&](int i, int j) { return a[i * 3 + j]; }, "from a list"); is(d, 3, 2, [&](int i, int j) { return a[i * 2 + j]; }, "from a list, dynamic"); },
    [&] { SimpleMatrix<double,2,3,ROW_MAJOR,STORAGE_WRAPPED> w(a); SimpleMatrix<double,0,0,COL_MAJOR,STORAGE_WRAPPED> v(a, 3, 2); SimpleMatrix<double,2,0,ROW_MAJOR,STORAGE_WRAPPED> u(a, 3);
      is(w, 2, 3, [&](int i, int j) { return a[i * 3 + j]; }, "wrapped, row major"); is(v, 3, 2, [&](int i, int j) { return a[i + j * 3]; }, "wrapped, column major"); is(u, 2, 3, [&](int i, int j) { return a[i * 3 + j]; }, "wrapped, one dynamic size"); w(1, 2) = 7; vf_eq(a[5], 7, "a wrapped matrix writes to the wrapped memory"); },
    [&] { DiagMatrix<double,3,3> d(a); DX0 e(a, 3); is(d, 3, 3, [&](int i, int j) { return i == j ? a[i] : 0; }, "diagonal from an array"); is(e, 3, 3, [&](int i, int j) { return i == j ? a[i] : 0; }, "dynamic diagonal from an array"); D23 f(a); is(f, 2, 3, [&](int i, int j) { return i == j ? a[i] : 0; }, "nonsquare diagonal from an array"); },
    [&] { D33 d; DX0 e(2, 3); P3 p; PX0 q(3); auto id = [](int i, int j) { return i == j ? 1.0 : 0.0; }; is(d, 3, 3, id, "new diagonal matrix"); is(e, 2, 3, id, "new dynamic diagonal matrix"); is(p, 3, 3, id, "new permutation"); is(q, 3, 3, id, "new dynamic permutation"); d.set_zero(); is(d, 3, 3, [](int, int) { return 0.0; }, "diagonal set_zero"); d.diagonal(1) = a[0]; vf_eq(d.diagonal(1), a[0], "diagonal(i)"); is(d, 3, 3, [&](int i, int j) { return i == 1 && j == 1 ? a[0] : 0.0; }, "diagonal(i) = v"); d.set_identity(); is(d, 3, 3, id, "diagonal set_identity"); });
}

template <typename Ma, typename Mb, typename... Md> void sums(int R, int C) {
    Ma a = Any<Ma>::make(R, C); Mb b = Any<Mb>::make(R, C); Ref ra, rb; Any<Ma>::fill(a, ra); Any<Mb>::fill(b, rb);
    auto p = [&](int i, int j) { return ra.e[i][j] + rb.e[i][j]; }; auto m = [&](int i, int j) { return ra.e[i][j] - rb.e[i][j]; };
    { auto s = a + b; is(s, R, C, p, "a + b"); auto d = a - b; is(d, R, C, m, "a - b"); } { auto s = add(a, b); is(s, R, C, p, "add(a, b)"); auto d = sub(a, b); is(d, R, C, m, "sub(a, b)"); }
    ([&] { Md s = Any<Md>::make(R, C), d = Any<Md>::make(R, C); Ref junk; Any<Md>::fill(s, junk); Any<Md>::fill(d, junk); add(&s, a, b); is(s, R, C, p, "add(&d, a, b)"); sub(&d, a, b); is(d, R, C, m, "sub(&d, a, b)"); }(), ...);
    is(a, ra, "left operand unchanged"); is(b, rb, "right operand unchanged");
}
CONTRACT(P07_add) { vf_one_of([] { sums<M23, M23, M23, MX0, C23>(2, 3); }, [] { sums<M23, C23, M23, C23, CX0>(2, 3); }, [] { sums<C32, M32, C32, MX0>(3, 2); }, [] { sums<C32, C32, M32, CX0>(3, 2); }, [] { sums<MX0, MX0, MX0, CX0, M23>(2, 3); }, [] { sums<CX0, MX0, MX0, M32>(3, 2); }, [] { sums<MX0, M23, M23>(2, 3); }, [] { sums<M23, MX0, MX0>(2, 3); }, [] { sums<MX3, M3X, M33>(3, 3); }, [] { sums<M3X, M32, M32>(3, 2); }, [] { sums<CX0, CX0, MX0>(1, 4); }); }
CONTRACT(P07_add_special) { vf_one_of([] { sums<D33, D33, D33, DX0, M33, C33>(3, 3); }, [] { sums<D23, D23, D23, M23>(2, 3); }, [] { sums<DX0, DX0, DX0, MX0>(3, 2); }, [] { sums<D32, DX0, DX0, D32>(3, 2); }, [] { sums<D33, M33, M33, C33>(3, 3); }, [] { sums<M23, D23, M23, C23>(2, 3); }, [] { sums<MX0, DX0, MX0>(3, 2); }, [] { sums<DX0, C23, CX0>(2, 3); },
    [] { sums<M33, P3, M33, C33>(3, 3); }, [] { sums<MX0, P3, M33>(3, 3); }, [] { sums<C33, PX0, MX0>(3, 3); }); }
template <typename M> void sum_inplace(int R, int C) {
    M a = Any<M>::make(R, C), b = Any<M>::make(R, C); Ref ra, rb; Any<M>::fill(a, ra); Any<M>::fill(b, rb); M c = a, d = b, e = a, f = b, g = a;
    add(&a, a, b); is(a, R, C, [&](int i, int j) { return ra.e[i][j] + rb.e[i][j]; }, "add(&a, a, b)"); sub(&c, c, b); is(c, R, C, [&](int i, int j) { return ra.e[i][j] - rb.e[i][j]; }, "sub(&a, a, b)");
    add(&d, e, d); is(d, R, C, [&](int i, int j) { return ra.e[i][j] + rb.e[i][j]; }, "add(&b, a, b)"); sub(&f, e, f); is(f, R, C, [&](int i, int j) { return ra.e[i][j] - rb.e[i][j]; }, "sub(&b, a, b)"); add(&g, g, g); is(g, R, C, [&](int i, int j) { return 2 * ra.e[i][j]; }, "add(&a, a, a)");
}
CONTRACT(P07_add_inplace) { vf_one_of([] { sum_inplace<M23>(2, 3); }, [] { sum_inplace<C32>(3, 2); }, [] { sum_inplace<MX0>(2, 3); }, [] { sum_inplace<D33>(3, 3); }, [] { sum_inplace<D23>(2, 3); }, [] { sum_inplace<DX0>(3, 2); }); }

template <typename M, typename... Md> void scaled(int R, int C) {
    M m = Any<M>::make(R, C); Ref r; Any<M>::fill(m, r); double k = vf_real(); auto f = [&](int i, int j) { return k * r.e[i][j]; };
    { auto a = k * m; is(a, R, C, f, "k * m"); auto b = m * k; is(b, R, C, f, "m * k"); auto c = scale(k, m); is(c, R, C, f, "scale(k, m)"); }
    ([&] { Md d = Any<Md>::make(R, C); Ref junk; Any<Md>::fill(d, junk); scale(&d, k, m); is(d, R, C, f, "scale(&d, k, m)"); }(), ...);
    is(m, r, "operand unchanged"); scale(&m, k, m); is(m, R, C, f, "scale(&m, k, m)");
}
CONTRACT(P07_scale) { vf_one_of([] { scaled<M23, M23, C23, MX0>(2, 3); }, [] { scaled<C32, M32, C32>(3, 2); }, [] { scaled<MX0, M32, CX0>(3, 2); }, [] { scaled<CX0, MX0>(2, 3); }, [] { scaled<MX3, MX0>(2, 3); }, [] { scaled<D33, D33, M33>(3, 3); }, [] { scaled<D23, D23, C23, DX0>(2, 3); }, [] { scaled<DX0, DX0, MX0>(3, 2); }); }

template <typename M, typename... Md> void transposed(int R, int C) {
    M m = Any<M>::make(R, C); Ref r; Any<M>::fill(m, r); auto f = [&](int i, int j) { return r.e[j][i]; };
    { auto t = transpose(m); is(t, C, R, f, "transpose(m)"); }
    ([&] { Md d = Any<Md>::make(C, R); Ref junk; Any<Md>::fill(d, junk); transpose(&d, m); is(d, C, R, f, "transpose(&d, m)"); }(), ...);
    is(m, r, "operand unchanged");
}
CONTRACT(P07_transpose) { vf_one_of([] { transposed<M23, M32, C32, MX0, CX0>(2, 3); }, [] { transposed<C32, C23, M23, MX0>(3, 2); }, [] { transposed<MX0, MX0, M23, CX0, C23>(3, 2); }, [] { transposed<CX0, CX0, M32, MX0>(2, 3); }, [] { transposed<M33, M33, C33, MX0>(3, 3); }, [] { transposed<MX3, M3X, MX0>(2, 3); }, [] { transposed<MX0, MX0, CX0>(1, 4); }, [] { transposed<M44, M44>(4, 4); }); }
CONTRACT(P07_transpose_special) { vf_one_of([] { transposed<D33, D33, M33, C33, MX0>(3, 3); }, [] { transposed<D23, D32, M32, MX0>(2, 3); }, [] { transposed<DX0, DX0, MX0, M23>(3, 2); }, [] { transposed<P3, P3, M33, PX0, MX0>(3, 3); }, [] { transposed<PX0, PX0, P3, MX0>(3, 3); }); }
template <typename M> void transpose_inplace(int R, int C) {
    M m = Any<M>::make(R, C); Ref r; Any<M>::fill(m, r); transpose(&m, m); is(m, C, R, [&](int i, int j) { return r.e[j][i]; }, "transpose(&m, m)");
}
CONTRACT(P07_transpose_inplace) { vf_one_of([] { transpose_inplace<M33>(3, 3); }, [] { transpose_inplace<C33>(3, 3); }, [] { transpose_inplace<MX0>(3, 3); }, [] { transpose_inplace<D33>(3, 3); }, [] { transpose_inplace<DX0>(2, 2); }, [] { transpose_inplace<P3>(3, 3); }, [] { transpose_inplace<PX0>(3, 3); },
    [] { // onto memory shared with the operand
      double a[6], b[6]; for (int i = 0; i < 6; i++) a[i] = b[i] = vf_real(); SimpleMatrix<double,2,3,ROW_MAJOR,STORAGE_WRAPPED> m(a); SimpleMatrix<double,3,2,ROW_MAJOR,STORAGE_WRAPPED> t(a); transpose(&t, m); is(t, 3, 2, [&](int i, int j) { return b[j * 3 + i]; }, "transpose onto the same memory, reshaped"); },
    [] { double a[6], b[6]; for (int i = 0; i < 6; i++) a[i] = b[i] = vf_real(); typedef SimpleMatrix<double,0,0,ROW_MAJOR,STORAGE_WRAPPED> W; W m(a, 2, 3), t(a, 3, 2); transpose(&t, m); is(t, 3, 2, [&](int i, int j) { return b[j * 3 + i]; }, "transpose onto the same memory, dynamic"); },
    [] { double a[5], b[5]; for (int i = 0; i < 5; i++) a[i] = b[i] = vf_real(); typedef SimpleMatrix<double,2,2,ROW_MAJOR,STORAGE_WRAPPED> W; W m(a), t(a + 1); transpose(&t, m); is(t, 2, 2, [&](int i, int j) { return b[j * 2 + i]; }, "transpose onto overlapping memory"); },
    [] { M33 m; Ref r; Any<M33>::fill(m, r); SimpleMatrix<double,3,3,COL_MAJOR,STORAGE_WRAPPED> v(m.data_begin()); transpose(&m, v); is(m, r, "transpose of a transposed view onto its own memory"); },
    [] { double a[16], b[16]; for (int i = 0; i < 16; i++) a[i] = b[i] = vf_real(); transpose_square_matrix(a, 3); for (int i = 0; i < 9; i++) vf_eq(a[i], b[i % 3 * 3 + i / 3], "transpose_square_matrix(m, n)"); for (int i = 9; i < 16; i++) vf_eq(a[i], b[i], "nothing else changes"); for (int i = 0; i < 16; i++) a[i] = b[i]; transpose_square_matrix<double,4>(a); for (int i = 0; i < 16; i++) vf_eq(a[i], b[i % 4 * 4 + i / 4], "transpose_square_matrix<N>"); }); }

// equality holds exactly when all entries are equal
template <typename Ma, typename Mb> void equality(int R, int C) {
    Ma a = Any<Ma>::make(R, C); Mb b = Any<Mb>::make(R, C); Ref ra, rb; Any<Ma>::fill(a, ra); Any<Mb>::fill(b, rb);
    bool same = true; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) if (ra.e[i][j] != rb.e[i][j]) same = false;
    vf_assert((a == b) == same, "a == b exactly when all entries are equal"); vf_assert((a != b) == !same, "a != b exactly when some entry differs"); vf_assert(a == a && !(a != a), "a matrix equals itself");
    { Ma c = a; vf_assert(a == c, "a matrix equals its copy"); }
}
CONTRACT(P07_equal) { vf_one_of([] { equality<M23, M23>(2, 3); }, [] { equality<C23, M23>(2, 3); }, [] { equality<M32, C32>(3, 2); }, [] { equality<MX0, M23>(2, 3); }, [] { equality<MX0, CX0>(3, 2); }, [] { equality<CX0, CX0>(2, 2); }, [] { equality<M22, MX0>(2, 2); }); }
//@ P07_equal: par=4
CONTRACT(P07_equal_special) { vf_one_of([] { equality<D33, D33>(3, 3); }, [] { equality<D23, D23>(2, 3); }, [] { equality<DX0, DX0>(3, 2); }, [] { equality<D33, M33>(3, 3); }, [] { equality<M23, D23>(2, 3); }, [] { equality<DX0, MX0>(2, 2); }, [] { equality<P3, P3>(3, 3); }, [] { equality<PX0, PX0>(3, 3); }, [] { equality<P3, PX0>(3, 3); }, [] { equality<P3, M33>(3, 3); }, [] { equality<D33, P3>(3, 3); }); }
//@ P07_equal_special: par=4
CONTRACT(P07_unequal_size) {
    int r1 = vf_pick(1, 3), c1 = vf_pick(1, 3), r2 = vf_pick(1, 3), c2 = vf_pick(1, 3); bool same = r1 == r2 && c1 == c2;
    MX0 a(r1, c1), b(r2, c2); vf_assert((a == b) == same && (a != b) == !same, "matrices of different size are unequal"); CX0 c(r2, c2); vf_assert((a == c) == same, "layout does not matter"); M23 m; MX0 i(r1, c1); vf_assert((m == i) == (r1 == 2 && c1 == 3), "fixed and dynamic"); 
    DX0 d(r1, c1), e(r2, c2); vf_assert((d == e) == same && (d == b) == same, "diagonal matrices of different size are unequal"); PX0 p(r1), q(r2); vf_assert((p == q) == (r1 == r2), "permutations of different size are unequal"); M32 n; vf_assert(!(m == n) && m != n, "statically different sizes are unequal");
}

template <typename Ms, typename... Md> void copies(int R, int C) {
    Ms m = Any<Ms>::make(R, C); Ref r; Any<Ms>::fill(m, r);
    ([&] { Md d = Any<Md>::make(R, C); Ref junk; Any<Md>::fill(d, junk); mtxcopy(&d, m); is(d, r, "mtxcopy"); }(), ...);
    if constexpr (!std::is_same_v<typename Ms::elem_t, bool>) { SimpleMatrix<double,0,0> a(m); is(a, r, "conversion to dynamic"); SimpleMatrix<double,Ms::ROWDIM,Ms::COLDIM> b(m); is(b, r, "conversion to row-major"); SimpleMatrix<double,Ms::ROWDIM,Ms::COLDIM,COL_MAJOR> c(m); is(c, r, "conversion to column-major"); } else { SimpleMatrix<double,0,0> a(m); is(a, r, "conversion to dynamic"); SimpleMatrix<double,Ms::ROWDIM,Ms::COLDIM> b(m); is(b, r, "conversion to row-major"); }
    is(m, r, "source unchanged");
}
CONTRACT(P07_copy) { vf_one_of([] { copies<M23, M23, C23, MX0, CX0>(2, 3); }, [] { copies<C32, M32, C32, MX0>(3, 2); }, [] { copies<MX0, M32, C32, MX0, CX0>(3, 2); }, [] { copies<CX0, MX0, M23, C23>(2, 3); }, [] { copies<MX3, M3X, M33>(3, 3); }); }
CONTRACT(P07_copy_special) { vf_one_of([] { copies<D33, D33, DX0, M33, C33, MX0>(3, 3); }, [] { copies<D23, D23, M23>(2, 3); }, [] { copies<DX0, DX0, MX0, D32, M32>(3, 2); }, [] { copies<P3, P3, PX0, M33, C33, MX0>(3, 3); }, [] { copies<PX0, P3, PX0, MX0>(3, 3); }); }
CONTRACT(P07_copy_vec) {
    Vec<double,3> v, w; double e[3]; for (int i = 0; i < 3; i++) v[i] = e[i] = vf_real();
    SimpleMatrix<double,3,1> c; SimpleMatrix<double,1,3> r; mtxcopy(&c, v); mtxcopy(&r, v); for (int i = 0; i < 3; i++) { vf_eq(c(i, 0), e[i], "vector to column"); vf_eq(r(0, i), e[i], "vector to row"); }
    mtxcopy(&w, c); for (int i = 0; i < 3; i++) vf_eq(w[i], e[i], "column to vector"); w = Vec<double,3>(0.); mtxcopy(&w, r); for (int i = 0; i < 3; i++) vf_eq(w[i], e[i], "row to vector");
    MX0 dc(3, 1), dr(1, 3), bad(2, 2); mtxcopy(&dc, v); mtxcopy(&dr, v); for (int i = 0; i < 3; i++) { vf_eq(dc(i, 0), e[i], "vector to dynamic column"); vf_eq(dr(0, i), e[i], "vector to dynamic row"); } w = Vec<double,3>(0.); mtxcopy(&w, dr); for (int i = 0; i < 3; i++) vf_eq(w[i], e[i], "dynamic row to vector");
    vf_assert(throws([&] { mtxcopy(&bad, v); }), "a copy between different sizes is rejected"); is(bad, 2, 2, [](int i, int j) { return i == j ? 1.0 : 0.0; }, "rejected destination unchanged");
}
// iteration over the elements of diagonal and permutation matrices
template <typename M> void iterate(int R, int C) {
    M m = Any<M>::make(R, C); Ref r; Any<M>::fill(m, r); const M& cm = m;
    int n = 0; for (auto i = cm.begin(); i != cm.end(); ++i, ++n) { if (n >= R * C) break; vf_eq((double) *i, r.e[n / C][n % C], "iteration is row-major"); } vf_assert(n == R * C, "begin..end visits every element");
    for (int i = 0; i < R; i++) { n = 0; for (auto p = cm.row(i); n < C; ++p, ++n) { vf_eq((double) *p, r.e[i][n], "row iteration"); vf_assert((p == cm.row(i)) == (n == 0), "row iterators compare by position"); vf_assert(p - cm.row(i) == n, "row iterator difference"); } vf_eq((double) cm[i][C - 1], r.e[i][C - 1], "m[r][c]"); }
    for (int j = 0; j < C; j++) { n = 0; for (auto p = cm.col(j); n < R; ++p, ++n) { vf_eq((double) *p, r.e[n][j], "column iteration"); vf_assert((p == cm.col(j)) == (n == 0), "column iterators compare by position"); vf_assert(p - cm.col(j) == n, "column iterator difference"); } }
}
CONTRACT(P07_iter_special) { vf_one_of([] { iterate<D33>(3, 3); }, [] { iterate<D23>(2, 3); }, [] { iterate<DX0>(3, 2); }, [] { iterate<P3>(3, 3); }, [] { iterate<PX0>(2, 2); }); }
// rectangular regions
template <typename M> void regions(int R, int C) {
    M m = Any<M>::make(R, C); Ref r; Any<M>::fill(m, r); int r0 = vf_pick(0, R - 1), r1 = vf_pick(r0, R - 1), c0 = vf_pick(0, C - 1), c1 = vf_pick(c0, C - 1);
    MatrixRegion g(Vec<index_t,2>(r0, c0), Vec<index_t,2>(r1, c1)); const M& cm = m; int n = 0, W = c1 - c0 + 1, N = W * (r1 - r0 + 1);
    for (auto i = cm.region_begin(g); i != cm.region_end(g); ++i, ++n) { if (n >= N) break; vf_eq((double) *i, r.e[r0 + n / W][c0 + n % W], "region iteration is row-major over the region"); } vf_assert(n == N, "region iteration visits every element of the region");
    if constexpr (requires { *m.region_begin(g) = 1.0; }) { double v[16]; n = 0; for (auto i = m.region_begin(g); i != m.region_end(g); ++i, ++n) { if (n >= N) break; v[n] = vf_real(); *i = v[n]; } is(m, R, C, [&](int i, int j) { return i >= r0 && i <= r1 && j >= c0 && j <= c1 ? v[(i - r0) * W + j - c0] : r.e[i][j]; }, "writing a region changes exactly the region"); }
}
CONTRACT(P07_iter) { vf_one_of([] { regions<M23>(2, 3); }, [] { regions<C32>(3, 2); }, [] { regions<MX0>(2, 2); }, [] { regions<D33>(3, 3); }); }
CONTRACT(P07_mismatch) {
    int r1 = vf_pick(1, 2), c1 = vf_pick(1, 2), r2 = vf_pick(1, 2), c2 = vf_pick(1, 2), r3 = vf_pick(1, 2), c3 = vf_pick(1, 2); MX0 a(r1, c1), b(r2, c2), d(r3, c3); Ref ra, rb, rd; Any<MX0>::fill(a, ra); Any<MX0>::fill(b, rb); Any<MX0>::fill(d, rd);
    bool ab = r1 != r2 || c1 != c2, ad = r1 != r3 || c1 != c3, t = r1 != c3 || c1 != r3;
    vf_assert(throws([&] { auto s = a + b; }) == ab && throws([&] { auto s = a - b; }) == ab, "sums of different sizes are rejected");
    MX0 x = d; vf_assert(throws([&] { add(&x, a, b); }) == (ab || ad), "add rejected exactly on a size mismatch"); if (ab || ad) is(x, rd, "rejected destination unchanged"); x = d; vf_assert(throws([&] { sub(&x, a, b); }) == (ab || ad), "sub rejected exactly on a size mismatch"); if (ab || ad) is(x, rd, "rejected destination unchanged");
    x = d; vf_assert(throws([&] { scale(&x, 2.0, a); }) == ad, "scale rejected exactly on a size mismatch"); if (ad) is(x, rd, "rejected destination unchanged"); x = d; vf_assert(throws([&] { mtxcopy(&x, a); }) == ad, "copy rejected exactly on a size mismatch"); if (ad) is(x, rd, "rejected destination unchanged"); else is(x, ra, "copy");
    x = d; vf_assert(throws([&] { transpose(&x, a); }) == t, "transpose rejected exactly on a size mismatch"); if (t) is(x, rd, "rejected destination unchanged"); is(a, ra, "operand unchanged"); is(b, rb, "operand unchanged");
}
