// An element that keeps track of its own lifetime: constructed only on raw memory, used and destroyed only while alive.
#pragma once
#include "vf.h"
#include <algorithm>
#include <utility>
#include <initializer_list>
#include <cstddef>
static int64_t alive_count;
struct El {
    double v;
    void born() { vf_assert(vf_shadow_get(this) == 0, "constructed on raw memory"); vf_shadow_set(this, 1); alive_count++; }
    void lives() const { vf_assert(vf_shadow_get(this) == 1, "used while alive"); }
    El() : v(0) { born(); }
    El(double x) : v(x) { born(); }
    El(const El& o) : v((o.lives(), o.v)) { born(); }
    El(El&& o) : v((o.lives(), o.v)) { born(); o.v = -77; }
    El& operator=(const El& o) { lives(); o.lives(); v = o.v; return *this; }
    El& operator=(El&& o) { lives(); o.lives(); v = o.v; if (this != &o) o.v = -77; return *this; }
    ~El() { vf_assert(vf_shadow_get(this) == 1, "destroyed once, while alive"); vf_shadow_set(this, 0); alive_count--; }
    bool operator==(const El& o) const { lives(); o.lives(); return v == o.v; }
    bool operator!=(const El& o) const { lives(); o.lives(); return v != o.v; }
};
// a mathematical sequence
struct Seq { double v[12]; int n = 0; void add(double x) { v[n++] = x; } bool operator==(const Seq& o) const { if (n != o.n) return false; bool b = true; for (int i = 0; i < n; i++) b = b & (v[i] == o.v[i]); return b; } };
static void balanced(int64_t heap) { vf_assert(alive_count == 0, "every element destroyed"); vf_assert(vf_heap_live() == heap, "heap storage released"); }
