// P24: small-buffer arrays behave as sequences and own each element once.
#include "own.h"
#include <geomc/SmallStorage.h>
using namespace geom;
typedef SmallStorage<El,2> A;
static int64_t heap0;
static void start() { alive_count = 0; heap0 = vf_heap_live(); }
static void holds(const A& a, const Seq& s) {
    vf_assert((int) a.size() == s.n, "size"); vf_assert(a.empty() == (s.n == 0), "empty"); vf_assert(a.capacity() >= a.size() && a.capacity() >= 2, "capacity covers the size"); vf_assert(a.end() - a.begin() == s.n && a.data() == a.begin(), "range");
    for (int i = 0; i < s.n; i++) { vf_assert(vf_shadow_get(&a[i]) == 1, "element alive"); vf_eq(a[i].v, s.v[i], "element value"); }
    if (s.n) { vf_eq(a.front().v, s.v[0], "front"); vf_eq(a.back().v, s.v[s.n - 1], "back"); }
}
static void alive(int n) { vf_assert(alive_count == n, "exactly the contents are alive"); }
// any reachable state with at most k elements and the given capacity
static void fill(A& a, Seq& s, int k) { int c = (int) vf_pick(0, 2); a.reserve(c == 0 ? 0 : c == 1 ? k : k + 2); for (int i = 0; i < k; i++) { double x = vf_real(); a.push_back(El(x)); s.add(x); } }
static int some() { return (int) vf_pick(0, 6); }
CONTRACT(P24_construct) { start(); {
    vf_one_of([] { A a; Seq s; holds(a, s); }, [] { int n = some(); A a((size_t) n); Seq s; for (int i = 0; i < n; i++) s.add(0); holds(a, s); alive(n); },
              [] { double x = vf_real(), y = vf_real(), z = vf_real(); A a{El(x), El(y), El(z)}; Seq s; s.add(x); s.add(y); s.add(z); holds(a, s); alive(3); },
              [] { double x = vf_real(); A a{El(x)}; Seq s; s.add(x); holds(a, s); alive(1); },
              [] { El e[6]; Seq s; int n = some(); for (int i = 0; i < n; i++) { e[i].v = vf_real(); s.add(e[i].v); } A a(e, (size_t) n); holds(a, s); alive(6 + n); },
              [] { double x = vf_real(); int n = some(); El e(x); A a(e, (size_t) n); Seq s; for (int i = 0; i < n; i++) s.add(x); holds(a, s); alive(1 + n); });
    } balanced(heap0); }
CONTRACT(P24_grow) { start(); { A a; Seq s; int k = some(); fill(a, s, k); holds(a, s); alive(k);
    vf_one_of([&] { double x = vf_real(); El e(x); El& r = a.push_back(e); s.add(x); vf_assert(&r == &a.back(), "the new element"); vf_eq(e.v, x, "argument unchanged"); holds(a, s); alive(s.n + 1); },
              [&] { double x = vf_real(); El& r = a.emplace_back(x); s.add(x); vf_assert(&r == &a.back(), "the new element"); holds(a, s); alive(s.n); },
              [&] { if (k == 0) return; int j = (int) vf_pick(0, k - 1); double x = s.v[j]; a.push_back(a[j]); s.add(x); holds(a, s); alive(s.n); },
              [&] { int c = (int) vf_pick(0, 9); size_t before = a.capacity(); a.reserve(c); vf_assert((int) a.capacity() >= c && a.capacity() >= before, "room reserved"); holds(a, s); alive(s.n); },
              [&] { int c = (int) vf_pick(0, 9); a.resize(c); while (s.n < c) s.add(0); s.n = c; holds(a, s); alive(c); },
              [&] { int c = (int) vf_pick(0, 9); double x = vf_real(); a.resize(c, x); while (s.n < c) s.add(x); s.n = c; holds(a, s); alive(c); }); } balanced(heap0); }
CONTRACT(P24_shrink) { start(); { A a; Seq s; int k = some(); fill(a, s, k);
    vf_one_of([&] { { std::optional<El> e = a.pop_back(); vf_assert(e.has_value() == (k > 0), "something to pop"); if (k) { vf_eq(e->v, s.v[k - 1], "last element popped"); s.n--; } } holds(a, s); alive(s.n); },
              [&] { a.clear(); s.n = 0; holds(a, s); alive(0); double x = vf_real(); a.push_back(El(x)); s.add(x); holds(a, s); alive(1); },
              [&] { if (k) { int j = (int) vf_pick(0, k - 1); double x = vf_real(); a[j] = El(x); s.v[j] = x; *a.begin() = El(s.v[0]); } holds(a, s); alive(k); }); } balanced(heap0); }
CONTRACT(P24_copy) { start(); { A a, b; Seq s, t; int k = some(), m = some(); fill(a, s, k); fill(b, t, m);
    vf_one_of([&] { A c(a); holds(c, s); holds(a, s); alive(2 * k + m); vf_assert(k == 0 || c.begin() != a.begin(), "separate storage"); },
              [&] { b = a; holds(b, s); holds(a, s); alive(2 * k); vf_assert(k == 0 || b.begin() != a.begin(), "separate storage"); double x = vf_real(); b.push_back(El(x)); holds(a, s); s.add(x); holds(b, s); },
              [&] { A& r = b; b = r; holds(b, t); alive(k + m); }, [&] { bool e = a == b; vf_assert(e == (s == t), "equal exactly when the contents are"); vf_assert(a == a, "equal to itself"); }); } balanced(heap0); }
CONTRACT(P24_move) { start(); { A a, b; Seq s, t, z; int k = some(), m = some(); fill(a, s, k); fill(b, t, m);
    vf_one_of([&] { A c(std::move(a)); holds(c, s); holds(a, z); alive(k + m); double x = vf_real(); a.push_back(El(x)); z.add(x); holds(a, z); holds(c, s); },
              [&] { b = std::move(a); holds(b, s); holds(a, z); alive(k); double x = vf_real(); a.push_back(El(x)); z.add(x); holds(a, z); holds(b, s); },
              [&] { A& r = b; b = std::move(r); holds(b, t); alive(k + m); }); } balanced(heap0); }
// plain values take the same paths
CONTRACT(P24_plain) { int64_t h = vf_heap_live(); { SmallStorage<double,2> a; double v[7]; int k = some(); for (int i = 0; i < k; i++) a.push_back(v[i] = vf_real()); SmallStorage<double,2> b(a), c; c = b; SmallStorage<double,2> d(std::move(b)); vf_assert(b.size() == 0 && (int) d.size() == k, "moved"); for (int i = 0; i < k; i++) { vf_eq(a[i], v[i], "value"); vf_eq(c[i], v[i], "value"); vf_eq(d[i], v[i], "value"); } vf_assert(c == d, "equal"); a.resize(8, 1.5); for (int i = k; i < 8; i++) vf_eq(a[i], 1.5, "fill value"); } vf_assert(vf_heap_live() == h, "heap storage released"); }
//@ P24_*: bounded="at most 6 elements before the operation, inline capacity 2; any element values"
