// P36: dynamic trees keep their structure and the order of their items.
#include "vf.h"
#include <iterator>
#include <algorithm>
#include <geomc/Tree.h>
using namespace geom;
typedef Tree<double,double> T; typedef Subtree<double,double> S;
// libstdc++ keeps the linking of list nodes in its shared library; these are its definitions (bits/list.cc)
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = this->_M_next; _List_node_base* p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const a, _List_node_base* const b) noexcept { if (this != b) { b->_M_prev->_M_next = this; a->_M_prev->_M_next = b; this->_M_prev->_M_next = a; _List_node_base* t = this->_M_prev; this->_M_prev = b->_M_prev; b->_M_prev = a->_M_prev; a->_M_prev = t; } }
} }
// the tree as nested lists
struct Node { double data; int parent; int kid[8]; int n = 0; double item[8]; int m = 0; S at; };
struct Model { Node v[10]; int count = 1;
    int items(int i) const { const Node& k = v[i]; int s = k.m; for (int j = 0; j < k.n; j++) s += items(k.kid[j]); return s; }
    int list(int i, double* out) const { const Node& k = v[i]; int s = 0; for (int j = 0; j < k.m; j++) out[s++] = k.item[j]; for (int j = 0; j < k.n; j++) s += list(k.kid[j], out + s); return s; }
    int nodes(int i) const { int s = 1; for (int j = 0; j < v[i].n; j++) s += nodes(v[i].kid[j]); return s; } };
static void same(const Model& m, int i, const S& t) { const Node& k = m.v[i]; double in[16]; int s = m.list(i, in);
    vf_assert(t == k.at, "handles stay valid"); vf_eq(*t, k.data, "node data"); vf_assert(t.node_count() == k.n, "number of children"); vf_assert(t.item_count() == s, "number of items below"); vf_assert(t.is_root() == (i == 0), "only the root is the root");
    auto b = t.items_begin(), e = t.items_end(); int c = 0; while (b != e && c < s) { vf_eq(*b, in[c], "the items below a node, in order"); ++b; ++c; } vf_assert(b == e && c == s, "exactly the items below a node");
    S a = t.begin(), z = t.end(); int j = 0; while (a != z && j < k.n) { S p = a.parent(); vf_assert(p == t, "parent of a child"); same(m, k.kid[j], a); ++a; ++j; } vf_assert(a == z && j == k.n, "exactly the children, in order"); }
// siblings first, then their subtrees
static S contiguous(const Model& m, int i, S c) { const Node& k = m.v[i]; for (int j = 0; j < k.n; j++) { vf_assert(c == m.v[k.kid[j]].at, "sibling-contiguous order"); ++c; } for (int j = 0; j < k.n; j++) c = contiguous(m, k.kid[j], c); return c; }
static void holds(T& t, const Model& m) { S r = t.root(); same(m, 0, r); vf_assert((int) t.size() == m.nodes(0), "number of nodes"); vf_assert((int) t.item_count() == m.items(0), "number of items"); S c = r; ++c; S e = t.end(), f = contiguous(m, 0, c); vf_assert(f == e, "no other nodes"); }
static void put(int* a, int& n, int at, int x) { for (int i = n; i > at; i--) a[i] = a[i - 1]; a[at] = x; n++; }
static void put(double* a, int& n, int at, double x) { for (int i = n; i > at; i--) a[i] = a[i - 1]; a[at] = x; n++; }
static int child(Model& m, int p, int at) { double x = vf_real(); Node& k = m.v[p]; int c = m.count++; Node& q = m.v[c]; q.data = x; q.parent = p;
    if (k.n == 0) { q.m = k.m; for (int i = 0; i < k.m; i++) q.item[i] = k.item[i]; k.m = 0; }
    S r = at == k.n ? k.at.insert_child_node(x) : k.at.insert_child_node(m.v[k.kid[at]].at, x); q.at = r; put(k.kid, k.n, at, c); return c; }
static void item(Model& m, int p, int at) { double x = vf_real(); Node& k = m.v[p]; auto i = k.at.items_begin(); for (int j = 0; j < at; j++) ++i; auto r = at == k.m ? k.at.insert_item(x) : k.at.insert_item(i, x); vf_eq(*r, x, "the new item"); put(k.item, k.m, at, x); }
static void start(T& t, Model& m) { S r = t.root(); m.v[0].at = r; m.v[0].data = *r; m.v[0].parent = -1; double d = vf_real(); *r = d; m.v[0].data = d; }
static int leaf(const Model& m) { int k = (int) vf_pick(0, m.count - 1); vf_assume(m.v[k].n == 0 && (k == 0 || m.v[k].parent >= 0)); return k; }
// any tree of up to K + 1 nodes, each node inserted under any earlier one at any place among its siblings
static void grow(Model& m, int K) { for (int i = 0; i < K; i++) { int p = (int) vf_pick(0, m.count - 1); int at = (int) vf_pick(0, m.v[p].n); child(m, p, at); } }
template <int K> static void shape() { T t; Model m; start(t, m); grow(m, K); holds(t, m); }
CONTRACT(P36_shape) { vf_one_of([] { shape<0>(); }, [] { shape<1>(); }, [] { shape<2>(); }, [] { shape<3>(); }); }
CONTRACT(P36_shape4) { shape<4>(); }
template <int K, int I> static void filled() { T t; Model m; start(t, m); grow(m, K); for (int i = 0; i < I; i++) { int l = leaf(m), at = (int) vf_pick(0, m.v[l].m); item(m, l, at); } holds(t, m); }
CONTRACT(P36_items2) { filled<2,3>(); }
CONTRACT(P36_items3) { filled<3,2>(); }
CONTRACT(P36_items4) { filled<4,2>(); }
// one leaf with its items: adding a child hands the items to it
CONTRACT(P36_hand_down) { T t; Model m; start(t, m); int n = (int) vf_pick(0, 2); for (int i = 0; i < n; i++) item(m, 0, m.v[0].m); int c = child(m, 0, 0); holds(t, m); child(m, 0, (int) vf_pick(0, 1)); holds(t, m); child(m, c, 0); holds(t, m); }
CONTRACT(P36_range) { double x[4]; int n = (int) vf_pick(0, 4); for (int i = 0; i < n; i++) x[i] = vf_real(); T t(x, x + n); Model m; start(t, m); for (int i = 0; i < n; i++) m.v[0].item[i] = x[i]; m.v[0].m = n; holds(t, m); item(m, 0, (int) vf_pick(0, n)); holds(t, m); child(m, 0, 0); holds(t, m); }
static void cut(Model& m, int p, int at) { Node& k = m.v[p]; auto gone = [&](auto self, int i) -> void { m.v[i].parent = -2; for (int j = 0; j < m.v[i].n; j++) self(self, m.v[i].kid[j]); m.v[i].n = 0; m.v[i].m = 0; }; gone(gone, k.kid[at]); k.n--; for (int i = at; i < k.n; i++) k.kid[i] = k.kid[i + 1]; }
template <int K, int I> static void erased() { T t; Model m; start(t, m); grow(m, K); for (int i = 0; i < I; i++) { int l = leaf(m); item(m, l, m.v[l].m); }
    int c = (int) vf_pick(1, K), p = m.v[c].parent, at = 0; while (m.v[p].kid[at] != c) at++; bool ok = false; m.v[p].at.erase(m.v[c].at, &ok); vf_assert(ok, "a child is erased"); cut(m, p, at); holds(t, m); item(m, leaf(m), 0); holds(t, m); }
CONTRACT(P36_erase2) { erased<2,2>(); }
CONTRACT(P36_erase3) { erased<3,1>(); }
template <int K, int I> static void flattened() { T t; Model m; start(t, m); grow(m, K); for (int i = 0; i < I; i++) { int l = leaf(m); item(m, l, m.v[l].m); }
    int p = (int) vf_pick(0, K); Node& k = m.v[p]; double in[8]; int s = m.list(p, in); bool keep = vf_bool(); if (keep) k.at.flatten(); else k.at.clear(); while (k.n) cut(m, p, 0); k.m = keep ? s : 0; for (int i = 0; i < k.m; i++) k.item[i] = in[i]; holds(t, m); item(m, p, 0); holds(t, m); }
CONTRACT(P36_flatten3) { flattened<3,2>(); }
// a split keeps the items, the small ones in the new sibling before
CONTRACT(P36_split) { T t; Model m; start(t, m); int a = child(m, 0, 0), b = child(m, 0, 1); item(m, b, 0); int n = (int) vf_pick(0, 3); for (int i = 0; i < n; i++) item(m, a, i); double cut = vf_real(), x = vf_real(); Node& k = m.v[a]; S r = k.at.split([](double u, double v) { return u < v ? -1 : 0; }, cut, x);
    if (n < 2) { vf_assert(r == k.at.end(), "nothing to split"); holds(t, m); return; }
    int c = m.count++; Node& q = m.v[c]; q.at = r; q.data = x; q.parent = 0; put(m.v[0].kid, m.v[0].n, 0, c); double old[3], now[3]; int lo = (int) r.item_count(), s = 0; for (int i = 0; i < n; i++) old[i] = k.item[i];
    vf_assert(lo + k.at.item_count() == n, "no item lost"); if (lo) for (auto i = r.items_begin(); i != r.items_end() && s < n; ++i) now[s++] = *i; vf_assert(s == lo, "items of the new leaf"); if (s < n) for (auto i = k.at.items_begin(); i != k.at.items_end() && s < n; ++i) now[s++] = *i; vf_assert(s == n, "items of the old leaf");
    for (int i = 0; i < n; i++) vf_assert((now[i] < cut) == (i < lo), "small items before the pivot");
    bool perm = false; int o[3] = {0, 1, 2}; do { bool e = true; for (int i = 0; i < n; i++) e = e & (now[i] == old[o[i]]); perm = perm | e; } while (std::next_permutation(o, o + n)); vf_assert(perm, "the same items");
    q.m = lo; k.m = n - lo; for (int i = 0; i < n; i++) (i < lo ? q.item[i] : k.item[i - lo]) = now[i]; holds(t, m); }
// the parent of an item, and queries by a bounding test
CONTRACT(P36_find) { T t; Model m; start(t, m); grow(m, 3); for (int i = 0; i < 2; i++) { int l = leaf(m); item(m, l, m.v[l].m); } int l = leaf(m); for (int j = 0; j < m.v[l].m; j++) { auto i = m.v[l].at.items_begin(); for (int q = 0; q < j; q++) ++i; S p = t.root().find_parent(i); vf_assert(p == m.v[l].at, "the leaf that holds an item"); } }
CONTRACT(P36_equal) { T t, u; Model m, n; start(t, m); start(u, n); int at = (int) vf_pick(0, 1); child(m, 0, 0); child(n, 0, 0); child(m, at, 0); child(n, at, 0); item(m, 2, 0); item(n, 2, 0); bool same = m.v[2].item[0] == n.v[2].item[0]; for (int i = 0; i < 3; i++) same = same & (m.v[i].data == n.v[i].data); vf_assert((t == u) == same, "equal exactly when structure and contents are"); vf_assert((t != u) == !same, "equal exactly when structure and contents are"); }
// a copy is the same tree over its own storage
static void rehome(T& t, Model& m) { auto go = [&](auto self, int i, S a) -> void { m.v[i].at = a; S c = a.begin(); for (int j = 0; j < m.v[i].n; j++) { self(self, m.v[i].kid[j], c); ++c; } }; go(go, 0, t.root()); }
template <bool Move, int K> static void copied() { T t; Model m; start(t, m); grow(m, K); for (int i = 0; i < 2; i++) { int l = leaf(m); item(m, l, m.v[l].m); }
    if constexpr (Move) { T u(std::move(t)); Model n = m; rehome(u, n); holds(u, n); item(n, leaf(n), 0); child(n, (int) vf_pick(0, K), 0); holds(u, n); }
    else { T u(t); Model n = m; rehome(u, n); holds(u, n); vf_assert(u == t, "a copy equals its source"); item(n, leaf(n), 0); child(n, (int) vf_pick(0, K), 0); holds(u, n); holds(t, m); } }
CONTRACT(P36_copy) { copied<false,2>(); }
CONTRACT(P36_copy3) { T t; Model m; start(t, m); grow(m, 3); int l = leaf(m); item(m, l, 0); T u(t); Model n = m; rehome(u, n); holds(u, n); holds(t, m); }
CONTRACT(P36_move) { copied<true,2>(); }
// several nodes or items at once, and erasing one item
template <int K> static void many() { T t; Model m; start(t, m); grow(m, K); for (int i = 0; i < 2; i++) { int l = leaf(m); item(m, l, m.v[l].m); } double xs[2], *x = xs; int n = (int) vf_pick(0, 2); for (int i = 0; i < n; i++) x[i] = vf_real(); int p = (int) vf_pick(0, K); Node& k = m.v[p]; int at = (int) vf_pick(0, k.n);
    S r = at == k.n ? k.at.insert_child_nodes(x, x + n) : k.at.insert_child_nodes(m.v[k.kid[at]].at, x, x + n); if (n == 0) { vf_assert(r == k.at.end(), "nothing inserted"); }
    for (int i = 0; i < n; i++, ++r) { int c = m.count++; Node& q = m.v[c]; q.data = x[i]; q.parent = p; q.at = r; if (k.n == 0) { q.m = k.m; for (int j = 0; j < k.m; j++) q.item[j] = k.item[j]; k.m = 0; } put(k.kid, k.n, at + i, c); } holds(t, m); }
CONTRACT(P36_many1) { many<1>(); }
CONTRACT(P36_many2) { many<2>(); }
CONTRACT(P36_many_items) { T t; Model m; start(t, m); grow(m, 2); for (int i = 0; i < 2; i++) { int l = leaf(m); item(m, l, m.v[l].m); } double xs[2], *x = xs; int n = (int) vf_pick(0, 2); for (int i = 0; i < n; i++) x[i] = vf_real(); int l = leaf(m); Node& k = m.v[l]; int at = (int) vf_pick(0, k.m); auto b = k.at.items_begin(); for (int j = 0; j < at; j++) ++b; index_t c = n;
    if (at == k.m && vf_bool()) k.at.insert_items(x, x + n); else k.at.insert_items(b, x, x + n, &c); vf_assert(c == n, "number of items inserted"); for (int i = 0; i < n; i++) put(k.item, k.m, at + i, x[i]); holds(t, m); }
CONTRACT(P36_erase_item) { T t; Model m; start(t, m); grow(m, 2); for (int i = 0; i < 3; i++) { int l = leaf(m); item(m, l, m.v[l].m); } int l = leaf(m), o = leaf(m); Node& k = m.v[l]; if (!k.m) return; int at = (int) vf_pick(0, k.m - 1); auto b = k.at.items_begin(); for (int j = 0; j < at; j++) ++b;
    bool ok = true; if (o != l) { m.v[o].at.erase(b, &ok); vf_assert(!ok, "only own items are erased"); holds(t, m); return; } auto r = k.at.erase(b, &ok); vf_assert(ok, "item erased"); k.m--; for (int i = at; i < k.m; i++) k.item[i] = k.item[i + 1]; holds(t, m); if (at < k.m) vf_eq(*r, k.item[at], "the next item"); item(m, l, k.m); holds(t, m); }
//@assume linking and unlinking of std::list nodes is as in the published sources of libstdc++ (it lives in the shared library)
//@ P36_*: bounded="trees of at most five nodes built in any order, up to four items in any leaves; any data"
//@@ P36_shape P36_shape4 P36_items2 P36_items3 P36_items4 P36_hand_down P36_range P36_erase2 P36_erase3 P36_flatten3 P36_split P36_find P36_equal P36_copy P36_copy3 P36_move P36_many1 P36_many2 P36_many_items P36_erase_item
