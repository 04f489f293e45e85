// P25: the circular buffer is a double-ended queue.
#include "own.h"
#include <geomc/Deque.h>
using namespace geom;
static int64_t heap0;
static void start() { alive_count = 0; heap0 = vf_heap_live(); }
template <int N> using D = Deque<El,N>;
template <int N> static void holds(D<N>& a, const Seq& s) {
    const D<N>& c = a; vf_assert((int) c.size() == s.n, "size"); vf_assert(c.capacity() >= c.size() && c.capacity() >= N, "capacity covers the size");
    for (int i = 0; i < s.n; i++) { vf_assert(vf_shadow_get(&a[i]) == 1, "element alive"); vf_eq(a[i].v, s.v[i], "element value"); vf_eq(c[i].v, s.v[i], "element value"); }
    if (s.n) { vf_eq(a.front().v, s.v[0], "front"); vf_eq(a.back().v, s.v[s.n - 1], "back"); vf_eq(c.front().v, s.v[0], "front"); vf_eq(c.back().v, s.v[s.n - 1], "back"); vf_assert(&a[-1] == &a.back() && &a[s.n] == &a.front() && &c[-s.n] == &c.front() && &a[s.n + s.n - 1] == &a.back(), "indices wrap around"); }
}
static void alive(int n) { vf_assert(alive_count == n, "exactly the contents are alive"); }
// any reachable state: any capacity, any position of the head, any contents
template <int N> static void fill(D<N>& a, Seq& s, int maxcap) { int c = (int) vf_pick(N, maxcap); a.reserve(c); vf_assert(a.capacity() >= c, "room reserved"); c = (int) a.capacity(); if (c == 0) return; int h = (int) vf_pick(0, c - 1), k = (int) vf_pick(0, c); for (int i = 0; i < h; i++) { a.push_back(El(5)); a.pop_front(); } for (int i = 0; i < k; i++) { double x = vf_real(); a.push_back(El(x)); s.add(x); } vf_assert((int) a.capacity() == c, "no growth while there is room"); }
static void front(Seq& s, double x) { for (int i = s.n; i > 0; i--) s.v[i] = s.v[i - 1]; s.v[0] = x; s.n++; }
static void drop(Seq& s) { s.n--; for (int i = 0; i < s.n; i++) s.v[i] = s.v[i + 1]; }
template <int N> static void steps() { start(); { D<N> a; Seq s; fill<N>(a, s, 4); holds<N>(a, s); int k = s.n;
    vf_one_of([&] { double x = vf_real(); El e(x); El& r = a.push_back(e); vf_assert(&r == &a.back(), "the new element"); vf_eq(e.v, x, "argument unchanged"); s.add(x); holds<N>(a, s); alive(k + 2); },
              [&] { double x = vf_real(); El e(x); El& r = a.push_front(e); vf_assert(&r == &a.front(), "the new element"); vf_eq(e.v, x, "argument unchanged"); front(s, x); holds<N>(a, s); alive(k + 2); },
              [&] { double x = vf_real(); a.push_front(El(x)); front(s, x); holds<N>(a, s); alive(k + 1); },
              [&] { if (!k) return; int j = (int) vf_pick(0, k - 1); a.push_back(a[j]); s.add(s.v[j]); holds<N>(a, s); alive(k + 1); },
              [&] { if (!k) return; int j = (int) vf_pick(0, k - 1); a.push_front(a[j]); front(s, s.v[j]); holds<N>(a, s); alive(k + 1); },
              [&] { { std::optional<El> e = a.pop_front(); vf_assert(e.has_value() == (k > 0), "something to pop"); if (k) { vf_eq(e->v, s.v[0], "first element popped"); drop(s); } } holds<N>(a, s); alive(s.n); },
              [&] { { std::optional<El> e = a.pop_back(); vf_assert(e.has_value() == (k > 0), "something to pop"); if (k) { vf_eq(e->v, s.v[k - 1], "last element popped"); s.n--; } } holds<N>(a, s); alive(s.n); },
              [&] { a.clear(); s.n = 0; holds<N>(a, s); alive(0); double x = vf_real(); a.push_back(El(x)); s.add(x); holds<N>(a, s); },
              [&] { int c = (int) vf_pick(0, 7); a.reserve(c); vf_assert((int) a.capacity() >= c, "room reserved"); holds<N>(a, s); alive(k); double x = vf_real(); a.push_front(El(x)); front(s, x); holds<N>(a, s); },
              [&] { if (!k) return; int j = (int) vf_pick(-k, k); double x = vf_real(); a[j] = El(x); s.v[(j + k) % k] = x; holds<N>(a, s); alive(k); }); } balanced(heap0); }
CONTRACT(P25_steps0) { steps<0>(); }
CONTRACT(P25_steps2) { steps<2>(); }
CONTRACT(P25_steps3) { steps<3>(); }
CONTRACT(P25_construct) { start(); { vf_one_of([] { D<2> a; Seq s; holds<2>(a, s); }, [] { int c = (int) vf_pick(0, 4); D<2> a(c); Seq s; vf_assert((int) a.capacity() >= c, "room reserved"); holds<2>(a, s); double x = vf_real(); a.push_front(El(x)); s.add(x); holds<2>(a, s); },
    [] { El e[4]; Seq s; int n = (int) vf_pick(0, 4); for (int i = 0; i < n; i++) { e[i].v = vf_real(); s.add(e[i].v); } D<2> a(&e[0], n); holds<2>(a, s); alive(4 + n); }); } balanced(heap0); }
template <int N, int M> static void copies() { start(); { D<N> a, b; Seq s, t; fill<N>(a, s, M); fill<N>(b, t, M); int k = s.n, m = t.n; double x = vf_real();
    vf_one_of([&] { D<N> c(a); holds<N>(c, s); holds<N>(a, s); alive(2 * k + m); c.push_back(El(x)); holds<N>(a, s); s.add(x); holds<N>(c, s); },
              [&] { b = a; holds<N>(b, s); holds<N>(a, s); alive(2 * k); b.push_front(El(x)); holds<N>(a, s); front(s, x); holds<N>(b, s); },
              [&] { D<N>& r = b; b = r; holds<N>(b, t); alive(k + m); }, [&] { vf_assert((a == b) == (s == t), "equal exactly when the contents are"); vf_assert((a != b) == !(s == t), "equal exactly when the contents are"); vf_assert(a == a, "equal to itself"); }); } balanced(heap0); }
template <int N, int M> static void moves() { start(); { D<N> a, b; Seq s, t, z; fill<N>(a, s, M); fill<N>(b, t, M); int k = s.n, m = t.n; double x = vf_real();
    vf_one_of([&] { D<N> c(std::move(a)); holds<N>(c, s); holds<N>(a, z); alive(k + m); a.push_back(El(x)); holds<N>(c, s); z.add(x); holds<N>(a, z); },
              [&] { b = std::move(a); holds<N>(b, s); holds<N>(a, z); alive(k); a.push_front(El(x)); holds<N>(b, s); z.add(x); holds<N>(a, z); b.push_front(El(x)); front(s, x); holds<N>(b, s); },
              [&] { D<N>& r = b; b = std::move(r); holds<N>(b, t); alive(k + m); }); } balanced(heap0); }
CONTRACT(P25_copies0) { copies<0,2>(); }
CONTRACT(P25_moves0) { moves<0,2>(); }
CONTRACT(P25_copies2) { copies<2,3>(); }
CONTRACT(P25_moves2) { moves<2,3>(); }
//@ P25_*: bounded="capacity at most 5 before the operation, inline capacity 0, 2 or 3, every head position; any element values"
