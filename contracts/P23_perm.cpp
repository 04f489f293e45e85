// P23: permutation matrices. Every operation is checked from an arbitrary state satisfying the representation
// invariant (maps mutually inverse; cached sign unknown or the parity), and shown to re-establish it.
#include "mtx.h"
#include <geomc/GeomException.cpp>
//@@ P23_set P23_set4 P23_swap P23_swap4 P23_identity P23_transpose P23_copy P23_mul P23_inv P23_apply P23_sign P23_dyn_set P23_dyn_ops P23_vec P23_dyn_copy
//@ *: time=200 order=up bounded="permutations of up to four elements"
inline int parity(const index_t* p, int n) { int inv = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) inv += p[j] > p[i]; return inv & 1 ? -1 : 1; }
// the matrix has row sources q (and everything that follows from them)
template <typename M> void has(M& m, const index_t* q, int n, const char* name) {
    vf_assert(m.rows() == n && m.cols() == n, "dimensions");
    for (int i = 0; i < n; i++) {
        vf_assert(m.getRowSources()[i] == q[i] && m.getColDestinations()[i] == q[i], name);
        vf_assert(m.getRowDestinations()[q[i]] == i && m.getColSources()[q[i]] == i, "sources and destinations are mutually inverse");
        for (int j = 0; j < n; j++) vf_assert(m(i, j) == (q[i] == j), "entries agree with the row sources");
    }
    vf_assert(m.sign() == parity(q, n), "the sign is the parity"); vf_assert(m.sign() == parity(q, n), "the sign is the parity when asked again");
    for (int i = 0; i < n; i++) vf_assert(m.getRowSources()[i] == q[i] && m.getRowDestinations()[q[i]] == i, "asking for the sign changes nothing");
    const M& c = m; vf_assert(det(c) == parity(q, n), "the determinant is the sign");
}
// any state: any permutation, with the sign cached or not, and either buffer orientation
template <typename M> M state(int n, index_t* q) {
    M m = Any<M>::make(n, n); any_perm(q, n);
    if (vf_bool()) { index_t inv[6]; for (int i = 0; i < n; i++) inv[q[i]] = i; m.setRowSources(inv); m.transpose(); } else m.setRowSources(q);
    if (vf_bool()) m.sign(); return m;
}
template <typename M> void sets(int n) {
    index_t q[6], p[6], inv[6]; M m = state<M>(n, q); any_perm(p, n); for (int i = 0; i < n; i++) inv[p[i]] = i;
    switch (vf_pick(0, 3)) { case 0: m.setRowSources(p); break; case 1: m.setColDestinations(p); break; case 2: m.setColSources(inv); break; default: m.setRowDestinations(inv); }
    has(m, p, n, "the permutation that was set");
}
template <typename M> void self_sets(int n) {
    index_t q[6], inv[6]; M m = state<M>(n, q); for (int i = 0; i < n; i++) inv[q[i]] = i; 
    switch (vf_pick(0, 3)) { case 0: m.setRowSources(m.getRowSources()); has(m, q, n, "own row sources"); break; case 1: m.setRowSources(m.getColSources()); has(m, inv, n, "own column sources as row sources"); break; case 2: m.setColSources(m.getColSources()); has(m, q, n, "own column sources"); break; default: m.setColSources(m.getRowSources()); has(m, inv, n, "own row sources as column sources"); }
}
template <typename M> void swaps(int n) {
    index_t q[6]; M m = state<M>(n, q); int a = (int) vf_pick(0, n - 1), b = (int) vf_pick(0, n - 1);
    if (vf_bool()) { m.swap_rows(a, b); std::swap(q[a], q[b]); has(m, q, n, "exactly the two rows are exchanged"); }
    else { m.swap_cols(a, b); for (int i = 0; i < n; i++) q[i] = q[i] == a ? b : q[i] == b ? a : q[i]; has(m, q, n, "exactly the two columns are exchanged"); }
}
CONTRACT(P23_set) { vf_one_of([] { sets<P3>(3); }, [] { self_sets<P3>(3); }, [] { sets<PermutationMatrix<1>>(1); }); }
CONTRACT(P23_set4) { index_t q[4]; any_perm(q, 4); PermutationMatrix<4> m; m.setRowSources(q); has(m, q, 4, "four elements"); }
CONTRACT(P23_swap) { swaps<P3>(3); }
CONTRACT(P23_swap4) { index_t q[4]; any_perm(q, 4); PermutationMatrix<4> m; m.setRowSources(q); int a = (int) vf_pick(0, 3), b = (int) vf_pick(0, 3); m.swap_rows(a, b); std::swap(q[a], q[b]); has(m, q, 4, "exactly the two rows are exchanged"); }
CONTRACT(P23_identity) { P3 d; index_t id[3] = {0, 1, 2}; has(d, id, 3, "default is the identity"); index_t q[6]; P3 m = state<P3>(3, q); m.set_identity(); has(m, id, 3, "identity"); PX0 x(3); has(x, id, 3, "default dynamic is the identity"); }
CONTRACT(P23_transpose) { vf_one_of([] { index_t q[6], inv[6]; P3 m = state<P3>(3, q); for (int i = 0; i < 3; i++) inv[q[i]] = i; m.transpose(); has(m, inv, 3, "transposed in place"); m.transpose(); has(m, q, 3, "transposed twice"); },
    [] { index_t q[6], inv[6]; P3 m = state<P3>(3, q); for (int i = 0; i < 3; i++) inv[q[i]] = i; auto t = transpose(m); has(t, inv, 3, "transposed copy"); has(m, q, 3, "operand unchanged"); },
    [] { index_t q[6], inv[6]; PX0 m = state<PX0>(3, q); for (int i = 0; i < 3; i++) inv[q[i]] = i; auto t = transpose(m); has(t, inv, 3, "transposed dynamic copy"); m.transpose(); has(m, inv, 3, "dynamic transposed in place"); }); }
CONTRACT(P23_copy) { vf_one_of([] { index_t q[6], r[6]; P3 m = state<P3>(3, q); P3 c(m); has(c, q, 3, "copy"); c.swap_rows(0, 1); has(m, q, 3, "the original is independent of the copy"); P3 d = state<P3>(3, r); d = m; has(d, q, 3, "assigned"); },
    [] { index_t q[6], r[6]; P3 m = state<P3>(3, q); P3 d = state<P3>(3, r); vf_assert((m == d) == (q[0] == r[0] && q[1] == r[1] && q[2] == r[2]), "equality"); vf_assert((m != d) != (m == d), "inequality"); }); }
CONTRACT(P23_dyn_copy) { index_t q[6], r[6]; int n = (int) vf_pick(1, 3); PX0 m = state<PX0>(n, q); PX0 c(m); has(c, q, n, "dynamic copy"); c.set_identity(); has(m, q, n, "the original is independent of the copy"); PX0 d = state<PX0>(n, r); d = m; has(d, q, n, "assigned"); PX0 e(std::move(d)); has(e, q, n, "moved"); }
template <typename M> void muls(int n) { index_t q[6], r[6], s[6]; M a = state<M>(n, q), b = Any<M>::make(n, n); any_perm(r, n); b.setRowSources(r); for (int i = 0; i < n; i++) s[i] = r[q[i]]; auto c = a * b; has(c, s, n, "product"); has(a, q, n, "left operand unchanged"); M d = Any<M>::make(n, n); mul(&d, a, b); has(d, s, n, "product into a destination"); mul(&a, a, b); has(a, s, n, "product over its left operand"); }
CONTRACT(P23_mul) { vf_one_of([] { muls<P3>(3); }, [] { muls<PX0>(2); }, [] { index_t q[6], r[6], s[6]; P3 a = state<P3>(3, q), b = state<P3>(3, r); for (int i = 0; i < 3; i++) s[i] = r[q[i]]; mul(&b, a, b); has(b, s, 3, "product over its right operand"); }); }
CONTRACT(P23_inv) { vf_one_of([] { index_t q[6], iv[6]; P3 m = state<P3>(3, q); for (int i = 0; i < 3; i++) iv[q[i]] = i; P3 d; vf_assert(inv(&d, m), "permutations are invertible"); has(d, iv, 3, "inverse"); bool ok = false; auto e = inv(m, &ok); vf_assert(ok, "permutations are invertible"); has(e, iv, 3, "returned inverse"); },
    [] { index_t q[6], iv[6]; PX0 m = state<PX0>(3, q); for (int i = 0; i < 3; i++) iv[q[i]] = i; PX0 d(3); vf_assert(inv(&d, m), "permutations are invertible"); has(d, iv, 3, "dynamic inverse"); }); }
CONTRACT(P23_apply) { int n = (int) vf_pick(0, 4); index_t p[6], q[6]; if (n) any_perm(p, n); double v[5], o[5]; for (int i = 0; i < n; i++) { q[i] = p[i]; v[i] = o[i] = vf_real(); } permutation_apply(p, n, v); for (int i = 0; i < n; i++) vf_eq(v[i], o[q[i]], "element i comes from its source"); }
CONTRACT(P23_sign) { int n = (int) vf_pick(0, 4); index_t p[6], q[6]; if (n) any_perm(p, n); for (int i = 0; i < n; i++) q[i] = p[i]; vf_assert(permutation_sign(p, n) == parity(q, n), "sign of a permutation array"); for (int i = 0; i < n; i++) vf_assert(p[i] == i, "the array becomes the identity, as documented"); }
CONTRACT(P23_dyn_set) { int n = (int) vf_pick(1, 3); vf_one_of([n] { sets<PX0>(n); }, [n] { self_sets<PX0>(n); }); }
CONTRACT(P23_dyn_ops) { int n = (int) vf_pick(1, 3); swaps<PX0>(n); }
CONTRACT(P23_vec) { vf_one_of([] { index_t q[6]; P3 m = state<P3>(3, q); Vec<double,3> x(vf_real(), vf_real(), vf_real()), y = m * x, z = x * m; for (int i = 0; i < 3; i++) { vf_eq(y[i], x[q[i]], "row i of the product is its source"); vf_eq(z[q[i]], x[i], "column destinations"); } },
    [] { index_t q[6]; P3 m = state<P3>(3, q); M32 a; Ref A; Any<M32>::fill(a, A); auto b = m * a; for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) vf_eq(b(i, j), A.e[q[i]][j], "rows move to their destinations"); M23 c; Ref C; Any<M23>::fill(c, C); auto d = c * m; for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) vf_eq(d(i, q[j]), C.e[i][j], "columns move to their destinations"); }); }
