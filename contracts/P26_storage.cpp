// P26: owned storage copies deeply, frees once and never aliases.
#include "vf.h"
#include <initializer_list>
#include <algorithm>
#include <geomc/Storage.h>
using namespace geom;
static int64_t heap0;
static bool apart(const void* a, const void* b) { return vf_symbolic() ? !vf_same_block(a, b) : a != b; }
// n elements with any values, any n
static int64_t size() { return vf_symbolic() ? vf_int(0, 1 << 20) : vf_int(0, 9); }
typedef UniqueStorage<double,DYNAMIC_DIM> U;
template <class A, class B> static void same(const A& a, const B& b, int64_t i, const char* n) { vf_eq(a[i], b[i], n); }
#define CASE(N) CONTRACT(N) { int64_t n = size(), m = size(), i = vf_int(0, 1 << 20), j = vf_int(0, 1 << 20); double x = vf_real(); double* src = vf_symarray(n, 0), *tgt = vf_symarray(m, 0); heap0 = vf_heap_live(); (void) x; (void) tgt; (void) j;
#define END vf_assert(vf_heap_live() == heap0, "heap storage released"); }
CASE(P26_construct) { { U a(n, src); vf_assert(a.size() == n, "size"); vf_assert(apart(a.get(), src), "separate memory"); if (i < n) { same(a, src, i, "source copied"); vf_eq(a.get()[i], src[i], "source copied"); double keep = src[i]; a[i] = x; vf_eq(a[i], x, "stored"); vf_eq(src[i], keep, "source untouched"); if (j < n && j != i) same(a, src, j, "other elements untouched"); } U b(n); vf_assert(b.size() == n, "size"); if (i < n) { b[i] = x; vf_eq(b[i], x, "stored"); } } } END
CASE(P26_copy) { { U a(n, src); { U b(a); vf_assert(b.size() == n && a.size() == n, "size"); vf_assert(apart(a.get(), b.get()), "separate memory"); if (i < n) { same(b, src, i, "elements copied"); b[i] = x; same(a, src, i, "original untouched"); if (j < n && j != i) same(b, src, j, "other elements untouched"); } } if (i < n) same(a, src, i, "original outlives the copy"); } } END
CASE(P26_assign) { { U a(n, src), b(m, tgt); b = a; vf_assert(b.size() == n && a.size() == n, "size"); vf_assert(apart(a.get(), b.get()), "separate memory"); if (i < n) { same(b, src, i, "elements copied"); b[i] = x; same(a, src, i, "original untouched"); } U& r = a; a = r; vf_assert(a.size() == n, "self-assignment keeps the size"); if (i < n) same(a, src, i, "self-assignment keeps the contents"); } } END
CASE(P26_move) { { U a(n, src); double* p = a.get(); U b(std::move(a)); vf_assert(b.get() == p && b.size() == n && a.size() == 0 && (n == 0 || a.get() != p), "storage handed over"); if (i < n) same(b, src, i, "elements handed over"); U c(m, tgt); c = std::move(b); vf_assert(c.get() == p && c.size() == n && b.size() == 0 && b.get() != p, "storage handed over"); if (i < n) same(c, src, i, "elements handed over"); b = c; vf_assert(b.size() == n, "a moved-from storage can be assigned"); if (i < n) same(b, src, i, "a moved-from storage can be assigned"); a = std::move(b); if (i < n) same(a, src, i, "a moved-from storage can be assigned"); } } END
CASE(P26_swap) { { U a(n, src), b(m, tgt); std::swap(a, b); vf_assert(a.size() == m && b.size() == n, "sizes swapped"); if (i < n) same(b, src, i, "contents swapped"); if (j < m) same(a, tgt, j, "contents swapped"); } } END
CASE(P26_list) { { double y = vf_real(), z = vf_real(); U a{x, y, z}; vf_assert(a.size() == 3, "size"); vf_eq(a[0], x, "listed"); vf_eq(a[1], y, "listed"); vf_eq(a[2], z, "listed"); UniqueStorage<double,3> f{x, y, z}, g(f); vf_assert(f.size() == 3, "size"); g[1] = 7; vf_eq(f[0], x, "listed"); vf_eq(f[1], y, "copy is separate"); vf_eq(f[2], z, "listed"); vf_eq(g[0], x, "copied"); vf_eq(g[2], z, "copied"); f = g; vf_eq(f[1], 7, "assigned"); GenericStorage<double,DYNAMIC_DIM,STORAGE_UNIQUE> h{x, y, z}, k(3, h.get()); k = h; k[2] = 0; vf_eq(h[2], z, "generic storage owns its elements"); vf_eq(k[0], x, "copied"); vf_eq(k[1], y, "copied"); } } END
CASE(P26_fixed) { { double v[4]; for (int q = 0; q < 4; q++) v[q] = vf_real(); Storage<double,4> a(v), b(4, v), c(a); UniqueStorage<double,4> d(4, v), e(d); GenericStorage<double,4,STORAGE_UNIQUE> g(4, v); vf_assert(a.size() == 4 && d.size() == 4 && g.size() == 4, "size"); int q = (int) vf_pick(0, 3); c[q] = x; e[q] = x; for (int r = 0; r < 4; r++) { vf_eq(a[r], v[r], "elements copied"); vf_eq(b.get()[r], v[r], "elements copied"); vf_eq(d[r], v[r], "elements copied"); vf_eq(g[r], v[r], "elements copied"); vf_eq(c[r], r == q ? x : v[r], "copies are separate"); vf_eq(e[r], r == q ? x : v[r], "copies are separate"); } } } END
CASE(P26_wrapped) { { WrappedStorage<double,DYNAMIC_DIM> a(n, src), b(a); vf_assert(a.size() == n && a.get() == src && b.get() == src, "wraps the caller's memory"); if (i < n) { b[i] = x; vf_eq(a[i], x, "shared with the copy"); vf_eq(src[i], x, "shared with the caller"); } } } END
CASE(P26_shared) { { Storage<double,DYNAMIC_DIM>* a = new Storage<double,DYNAMIC_DIM>(n, src); { Storage<double,DYNAMIC_DIM> b(*a), c(m); vf_assert(b.get() == a->get(), "copies share"); vf_assert(apart(b.get(), src), "separate from the source"); c = b; delete a; if (i < n) { same(c, src, i, "outlives the first owner"); b[i] = x; vf_eq(c[i], x, "copies share"); } } } } END
//@@ P26_construct P26_copy P26_assign P26_move P26_swap P26_list P26_fixed P26_wrapped P26_shared
