// P27: grid iteration is a bijection between indices and cells.
#include "vf.h"
#include <geomc/shape/Rect.h>
#include <geomc/linalg/Matrix.h>
#include <geomc/shape/GridIterator.h>
#include <type_traits>
using namespace geom;
// k-th axis in order of increasing stride
template <int N, bool F> constexpr int axis(int k) { return F ? k : N - 1 - k; }
template <typename T, int N, ArrayOrder O> struct G {
    static constexpr bool F = O == ARRAYORDER_FIRST_DIM_CONSECUTIVE;
    typedef GridIterator<T,N,O> It; typedef Vec<T,N> V;
    Rect<T,N> r; V d;
    G(int64_t R) { for (int i = 0; i < N; i++) { r.lo[i] = (T) vf_int(-R, R); d[i] = (T) vf_int(1, 2 * R); r.hi[i] = r.lo[i] + d[i] - 1; } }
    V cell() { V p; for (int i = 0; i < N; i++) { T o = (T) vf_int(0, 2000000); vf_assume(o < d[i]); p[i] = r.lo[i] + o; } return p; }
    bool in(V p) { bool b = true; for (int i = 0; i < N; i++) b = b & (r.lo[i] <= p[i]) & (p[i] <= r.hi[i]); return b; }
    int64_t volume() { int64_t v = 1; for (int i = 0; i < N; i++) v *= d[i]; return v; }
    // the position of a cell in the documented order (mixed radix, least significant axis first)
    int64_t index(V p) { int64_t k = 0; for (int i = N - 1; i >= 0; i--) { int a = axis<N,F>(i); k = k * d[a] + (p[a] - r.lo[a]); } return k; }
    V last() { V p; for (int i = 0; i < N; i++) p[i] = r.hi[i]; return p; }
    V past() { V p; for (int i = 0; i < N; i++) p[i] = r.lo[i]; int a = axis<N,F>(N - 1); p[a] = r.hi[a] + 1; return p; }
    static bool eq(V a, V b) { bool e = true; for (int i = 0; i < N; i++) e = e & (a[i] == b[i]); return e; }
    // successor and predecessor in the documented order
    V succ(V p) { if (eq(p, last())) return past(); for (int i = 0; i < N; i++) { int a = axis<N,F>(i); if (p[a] < r.hi[a]) { p[a]++; return p; } p[a] = r.lo[a]; } return p; }
};
template <typename T, int N, ArrayOrder O> static void step(int64_t R) { G<T,N,O> g(R); typedef G<T,N,O> GG; auto p = g.cell(); typename GG::It i(g.r, p), b(g.r);
    vf_assert(GG::eq(*b, g.r.lo) && b == i.begin(), "starts at the first cell"); vf_assert(GG::eq(*i.end(), g.past()), "end is one past the last cell"); vf_assert(GG::eq(*i, p), "at the given cell");
    vf_assert((i == i.end()) == false, "a cell is not the end");
    auto q = g.succ(p); auto j = i; ++j; vf_assert(GG::eq(*j, q), "next cell in order"); vf_assert((j == i.end()) == GG::eq(p, g.last()), "the end follows the last cell"); vf_assert(g.in(q) || j == i.end(), "stays inside");
    auto k = i; auto old = k++; vf_assert(GG::eq(*old, p) && k == j, "postfix increment");
    --j; vf_assert(GG::eq(*j, p) && j == i, "decrement undoes increment"); auto m = k--; vf_assert(k == i && GG::eq(*m, q), "postfix decrement"); }
template <typename T, int N, ArrayOrder O> static void dist(int64_t R) { G<T,N,O> g(R); typedef G<T,N,O> GG; auto p = g.cell(), q = g.cell(); typename GG::It i(g.r, p), j(g.r, q);
    int64_t ip = g.index(p), iq = g.index(q); vf_assert(j - i == iq - ip, "difference of positions"); vf_assert(i - i.begin() == ip, "position"); vf_assert(i.end() - i.begin() == g.volume(), "one position per cell"); vf_assert(i.end() - i == g.volume() - ip, "cells left"); }
CONTRACT(P27_step2) { step<index_t,2,ARRAYORDER_FIRST_DIM_CONSECUTIVE>(1000000); }
CONTRACT(P27_step2c) { step<index_t,2,ARRAYORDER_LAST_DIM_CONSECUTIVE>(1000000); }
CONTRACT(P27_step3) { step<int,3,ARRAYORDER_FIRST_DIM_CONSECUTIVE>(1000000); }
CONTRACT(P27_step3c) { step<index_t,3,ARRAYORDER_LAST_DIM_CONSECUTIVE>(1000000); }
CONTRACT(P27_step4) { step<int,4,ARRAYORDER_FIRST_DIM_CONSECUTIVE>(1000000); }
CONTRACT(P27_dist2) { dist<index_t,2,ARRAYORDER_FIRST_DIM_CONSECUTIVE>(1000000); }
CONTRACT(P27_dist2c) { dist<index_t,2,ARRAYORDER_LAST_DIM_CONSECUTIVE>(1000000); }
CONTRACT(P27_dist3) { dist<index_t,3,ARRAYORDER_FIRST_DIM_CONSECUTIVE>(100000); }
CONTRACT(P27_dist3c) { dist<index_t,3,ARRAYORDER_LAST_DIM_CONSECUTIVE>(100000); }
// advancing to any position: the cell whose index is the sum (q is that cell; n its distance)
template <typename T, int N, ArrayOrder O> static void adv(int64_t R) { G<T,N,O> g(R); typedef G<T,N,O> GG; auto p = g.cell(), q = g.cell(); typename GG::It i(g.r, p);
    int64_t n = g.index(q) - g.index(p); auto j = i; j += n; vf_assert(GG::eq(*j, q), "advance reaches the cell at that distance"); }
template <typename T, int N, ArrayOrder O> static void advback(int64_t R) { G<T,N,O> g(R); typedef G<T,N,O> GG; auto p = g.cell(), q = g.cell(); typename GG::It i(g.r, p);
    int64_t n = g.index(q) - g.index(p); vf_assert(GG::eq(*(i + n), q), "i + n"); vf_assert(GG::eq(*(i - (-n)), q), "i - n"); auto k = i; k -= -n; vf_assert(GG::eq(*k, q), "i -= n"); vf_assert(GG::eq(i[n], q), "i[n]"); }
template <typename T, int N, ArrayOrder O> static void advend(int64_t R) { G<T,N,O> g(R); typedef G<T,N,O> GG; auto p = g.cell(); typename GG::It i(g.r, p);
    auto k = i; k += g.volume() - g.index(p); vf_assert(k == i.end(), "advance to the end"); auto e = i.end(); e -= g.volume() - g.index(p); vf_assert(e == i, "back from the end"); }
CONTRACT(P27_adv2) { adv<index_t,2,ARRAYORDER_FIRST_DIM_CONSECUTIVE>(1000000); }
CONTRACT(P27_adv2c) { adv<index_t,2,ARRAYORDER_LAST_DIM_CONSECUTIVE>(1000000); }
CONTRACT(P27_adv3) { adv<index_t,3,ARRAYORDER_FIRST_DIM_CONSECUTIVE>(100000); }
CONTRACT(P27_adv3c) { adv<index_t,3,ARRAYORDER_LAST_DIM_CONSECUTIVE>(100000); }
CONTRACT(P27_advback2) { advback<index_t,2,ARRAYORDER_FIRST_DIM_CONSECUTIVE>(1000000); }
CONTRACT(P27_advback2c) { advback<index_t,2,ARRAYORDER_LAST_DIM_CONSECUTIVE>(1000000); }
CONTRACT(P27_advend2) { advend<index_t,2,ARRAYORDER_FIRST_DIM_CONSECUTIVE>(1000000); }
CONTRACT(P27_advend3c) { advend<index_t,3,ARRAYORDER_LAST_DIM_CONSECUTIVE>(100000); }
CONTRACT(P27_bounds2) { Vec<int,2> lo((int) vf_int(-1000000, 1000000), (int) vf_int(-1000000, 1000000)), hi((int) vf_int(-1000000, 1000000), (int) vf_int(-1000000, 1000000)); GridIterator<int,2,ARRAYORDER_FIRST_DIM_CONSECUTIVE> i(lo, hi);
    for (int a = 0; a < 2; a++) vf_assert(i.region.lo[a] == lo[a] && i.region.hi[a] == hi[a] - 1 && (*i)[a] == lo[a], "half-open bounds"); }
CONTRACT(P27_line) { typedef GridIterator<int,1,ARRAYORDER_FIRST_DIM_CONSECUTIVE> It; int lo = (int) vf_int(-1000000, 1000000), hi = (int) vf_int(-1000000, 1000000), n = (int) vf_int(-1000000, 1000000); vf_assume(lo <= hi); It a(Rect<int,1>(lo, hi)), h(lo, hi);
    vf_assert(*a == lo && *a.begin() == lo && *a.end() == hi + 1 && a.end() - a.begin() == hi - lo + 1, "interval of cells"); vf_assert(*h == lo && *h.end() == hi && h.end() - h.begin() == hi - lo, "half-open interval");
    It b = a + n; vf_assert(*b == lo + n && b - a == n, "advance"); ++b; vf_assert(*b == lo + n + 1, "increment"); --b; vf_assert(*b == lo + n && (b == a) == (n == 0), "decrement"); b -= n; vf_assert(b == a && *b.begin() == lo, "back"); }
// iterators over matrices: random access over the elements of a region, a row, a column
template <typename M> static void region(const M& m, int R, int C) { int r0 = (int) vf_pick(0, R - 1), c0 = (int) vf_pick(0, C - 1), r1 = (int) vf_pick(r0, R - 1), c1 = (int) vf_pick(c0, C - 1); MatrixRegion g({r0, c0}, {r1, c1});
    int W = c1 - c0 + 1, N = W * (r1 - r0 + 1); auto b = m.region_begin(g), e = m.region_end(g); vf_assert(e - b == N, "as many positions as elements"); auto i = b;
    for (int k = 0; k < N; k++) { auto j = b; j += k; vf_assert(j == i && i - b == k && e - i == N - k, "advance agrees with increment"); auto p = i.point(); vf_assert(p.row == r0 + k / W && p.col == c0 + k % W, "addressed element"); vf_eq((double) *i, (double) m(p.row, p.col), "dereference");
        vf_assert(e - (N - k) == i, "advance back from the end"); auto f = i; ++i; auto h = i; --h; vf_assert(h == f && h != i, "decrement undoes increment"); auto q = i; q -= k + 1; vf_assert(q == b, "back to the beginning"); }
    vf_assert(i == e, "ends after the last element"); }
template <typename M> static void lines(const M& m, int R, int C) { int a = (int) vf_pick(0, R - 1), b = (int) vf_pick(0, C - 1); auto r = m.row(a); auto c = m.col(b); auto i = r; auto j = c;
    for (int k = 0; k < C; k++) { vf_eq((double) *i, (double) m(a, k), "row element"); vf_assert(i - r == k && r + k == i, "row position"); auto h = i; ++i; vf_assert(h != i && h + 1 == i && i - 1 == h && --(++h) == h - 0, "row step"); auto q = i; q -= k + 1; vf_assert(q == r, "row back"); }
    for (int k = 0; k < R; k++) { vf_eq((double) *j, (double) m(k, b), "column element"); vf_assert(j - c == k && c + k == j, "column position"); auto h = j; ++j; auto l = j; --l; vf_assert(h != j && h + 1 == j && l == h, "column step"); auto q = j; q -= k + 1; vf_assert(q == c, "column back"); } }
CONTRACT(P27_region) { SimpleMatrix<double,3,2> m; for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) m(i, j) = vf_real(); region(m, 3, 2); }
CONTRACT(P27_region_dyn) { SimpleMatrix<double,0,0> m(2, 3); for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) m(i, j) = vf_real(); region(m, 2, 3); }
CONTRACT(P27_region_diag) { DiagMatrix<double,3,3> m; for (int i = 0; i < 3; i++) m.diagonal(i) = vf_real(); region(m, 3, 3); }
CONTRACT(P27_lines) { SimpleMatrix<double,3,2> m; for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) m(i, j) = vf_real(); lines(m, 3, 2); }
CONTRACT(P27_lines_t) { SimpleMatrix<double,2,3,COL_MAJOR> m; for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) m(i, j) = vf_real(); lines(m, 2, 3); }
CONTRACT(P27_lines_diag) { DiagMatrix<double,3,3> m; for (int i = 0; i < 3; i++) m.diagonal(i) = vf_real(); lines(m, 3, 3); }
//@ P27_region* P27_lines*: bounded="matrices of 2x3, 3x2 and 3x3 elements, every region, row and column of them; any element values"
