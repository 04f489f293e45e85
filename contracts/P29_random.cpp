// P29: random draws, for every state of the generator.
#include "vf.h"
#include <geomc/random/Random.h>
#include <geomc/random/RandomTools.h>
#include <geomc/random/LCRand.h>
#include <geomc/random/MTRand.h>
#include <geomc/random/Xorshiro.h>
#include <geomc/function/Dual.h>
#include <geomc/random/Random.cpp>
#include <geomc/random/LCRand.cpp>
#include <geomc/random/MTRand.cpp>
#include <geomc/random/RandomTools.cpp>
using namespace geom;
#include <cmath>
#include <cstring>
#undef min
#undef max
typedef unsigned int uint_; typedef unsigned long ulong_; typedef long long ll; typedef unsigned long long ull;
// a generator in any state: every draw is any 32-bit word
struct Any32 : Random { int n = 0, limit = 8; uint32_t w[8]; uint32_t rand32() override { if (n >= limit) vf_assume(false); uint32_t x = (uint32_t) vf_int(0, 0xffffffffLL); w[n] = x; n++; return x; } void rseed(uint64_t) override {} };
// the residue of the first complete block (blocks: consecutive runs of hi words; an incomplete last block is rejected)
template <typename U> static U spec(uint64_t b, U hi, bool& complete) { U r = (U) b % hi; U top = (U) ~(U) 0; complete = r + (top - (U) b) >= hi - 1; return r; }
template <typename U, int W> static uint64_t word(Any32& g, int i) { return W == 1 ? g.w[i] : (uint64_t) g.w[2 * i] << 32 | g.w[2 * i + 1]; }
template <typename U, int W> static void upto() { Any32 g; g.limit = 2 * W; U hi = (U) vf_u64(); vf_assume(hi != 0); U r = g.Random::rand<U>(hi); vf_assert(r < hi, "below the bound");
    int k = g.n / W - 1; vf_assert(g.n == (k + 1) * W, "whole words"); for (int i = 0; i <= k; i++) { uint64_t b = word<U,W>(g, i); bool c; U s = spec<U>(b, hi, c); vf_assert(c == (i == k), "the first complete block is accepted"); if (i == k) vf_assert(r == s, "residue of the accepted block"); } }
CONTRACT(P29_uint) { upto<unsigned int,1>(); }
CONTRACT(P29_ulong) { upto<unsigned long,2>(); }
CONTRACT(P29_ull) { upto<unsigned long long,2>(); }
// signed draws
template <typename S, typename U> static void sgn() { Any32 g; S hi = (S) vf_u64(); vf_assume(hi != 0); S r = g.Random::rand<S>(hi); vf_assert(hi > 0 ? 0 <= r && r < hi : hi < r && r <= 0, "between 0 and the bound"); }
template <typename S> static void between() { Any32 g; S lo = (S) vf_u64(), hi = (S) vf_u64(); vf_assume(lo != hi); S a = lo < hi ? lo : hi, b = lo < hi ? hi : lo; S r = g.Random::rand<S>(lo, hi); vf_assert(a <= r && r < b, "between the bounds"); }
CONTRACT(P29_int) { sgn<int,unsigned>(); }
CONTRACT(P29_long) { sgn<long,unsigned long>(); }
CONTRACT(P29_ll) { sgn<long long,unsigned long long>(); }
CONTRACT(P29_int_range) { between<int>(); }
CONTRACT(P29_ll_range) { between<long long>(); }
CONTRACT(P29_words) { Any32 g; unsigned a = g.Random::rand<unsigned>(); vf_assert(a == g.w[0], "32 bits of the generator"); int b = g.Random::rand<int>(); vf_assert(b == (int) g.w[1], "32 bits of the generator"); ulong_ c = g.Random::rand<unsigned long>(); vf_assert(c == ((uint64_t) g.w[2] << 32 | g.w[3]), "64 bits of the generator"); ull d = g.Random::rand<unsigned long long>(); vf_assert(d == ((uint64_t) g.w[4] << 32 | g.w[5]), "64 bits of the generator"); ll e = g.Random::rand<long long>(); vf_assert((uint64_t) e == ((uint64_t) g.w[6] << 32 | g.w[7]), "64 bits of the generator"); }
//@ P29_uint P29_ulong P29_ull P29_int P29_long P29_ll P29_int_range P29_ll_range: bounded="at most one rejected block (the rejection loop carries no state from one block to the next)"
// coin flips: the 32 bits of one draw, lowest first, then a new draw
CONTRACT(P29_bool) { Any32 g; g._bitpool = (uint32_t) vf_int(0, 0xffffffffLL); uint32_t p = g._bitpool; g._bitsleft = (unsigned) vf_pick(0, 32); unsigned l = g._bitsleft; for (unsigned i = 0; i < 34; i++) { bool b = g.Random::rand<bool>(); uint32_t src = i < l ? p : i < l + 32 ? g.w[0] : g.w[1]; unsigned k = i < l ? i : (i - l) % 32; vf_assert(b == ((src >> k & 1) != 0), "next bit of the draw"); } vf_assert(g.n == (l >= 2 ? 1 : 2) - (l == 32 ? 0 : 0), "one draw for 32 flips"); }
//@ P29_words P29_bool: bv
//@ P29_uint P29_ulong P29_ull P29_int P29_long P29_ll P29_int_range P29_ll_range: bv absdiv
// unit draws: the exponent by coin flips from the top binade down, the mantissa from the high bits of the next words, and a
// zero mantissa rounds up to the next binade by a coin flip; the result lies between 0 and 1
extern "C" { bool raw_flip(Random*) __asm__("_ZN4geom6Random4randIbEET_v"); double raw_unit(Random*) __asm__("_ZN4geom6Random4randIdEET_v"); float raw_unitf(Random*) __asm__("_ZN4geom6Random4randIfEET_v"); size_t raw_upto(Random*, size_t) __asm__("_ZN4geom6Random4randImEET_S2_"); }
static int flips, tails, seg; static bool last, head;
// any sequence of flips (the first head lies in one of 32 runs of 32 flips)
static bool flip(Random*) { int i = flips++; if (!head && i >= 32 * seg + 32) vf_assume(false); bool b = i < 32 * seg ? false : vf_bool(); last = b; if (!b) tails++; else head = true; return b; }
static void coin(int n) { flips = tails = 0; head = false; seg = 0; if (vf_symbolic()) { seg = (int) vf_pick(0, n); vf_replace((const void*) raw_flip, (const void*) flip); } }
CONTRACT(P29_double) { coin(31); Any32 g; double d = g.Random::rand<double>(); uint64_t b; memcpy(&b, &d, 8); vf_assert(b <= 0x3ff0000000000000ull, "between 0 and 1"); vf_assert(g.n == 2 || !vf_symbolic(), "one 64-bit mantissa draw");
    uint64_t m = ((uint64_t) g.w[0] << 32 | g.w[1]) >> 12; if (vf_symbolic()) { int k = m ? flips : flips - 1; bool up = !m && last; int t = tails - (m || up ? 0 : 1); vf_assert(t <= 1022 && k <= 1022, "flips until the lowest binade"); vf_assert(b == ((uint64_t) (1022 - t + up) << 52 | m), "exponent by coin flips, mantissa from the high bits"); } }
CONTRACT(P29_float) { coin(3); Any32 g; float d = g.Random::rand<float>(); uint32_t b; memcpy(&b, &d, 4); vf_assert(b <= 0x3f800000u, "between 0 and 1"); vf_assert(g.n == 1 || !vf_symbolic(), "one mantissa draw");
    uint32_t m = g.w[0] >> 9; if (vf_symbolic()) { int k = m ? flips : flips - 1; bool up = !m && last; int t = tails - (m || up ? 0 : 1); vf_assert(t <= 126 && k <= 126, "flips until the lowest binade"); vf_assert(b == ((uint32_t) (126 - t + up) << 23 | m), "exponent by coin flips, mantissa from the high bits"); } }
//@ P29_double P29_float: bv maxforkvisits=2000 maxpaths=8000
//@ P29_double: par=4 w=9
// scaled draws and regions, by the contract of the unit draw
static int us; static double u_[16]; static int ulimit;
static double draw(Random*) { if (us >= ulimit) vf_assume(false); double u = vf_real(); vf_assume(0 <= u && u <= 1); u_[us++] = u; return u; }
static float drawf(Random*) { return (float) draw(nullptr); }
static void contracts(int limit) { us = 0; ulimit = limit; if (vf_symbolic()) { vf_replace((const void*) raw_unit, (const void*) draw); vf_replace((const void*) raw_unitf, (const void*) drawf); } }
template <typename T> static void scaled() { contracts(8); Any32 g; T hi = (T) vf_real(), lo = (T) vf_real(); T a = g.Random::rand<T>(hi); vf_assert(hi >= 0 ? 0 <= a && a <= hi : hi <= a && a <= 0, "between 0 and the bound"); T b = g.Random::rand<T>(lo, hi); if (vf_symbolic()) { vf_assert(lo <= hi ? lo <= b && b <= hi : hi <= b && b <= lo, "between the bounds"); vf_eq(a, hi * u_[0], "proportional to the unit draw"); vf_eq(b - lo, (hi - lo) * u_[1], "proportional to the unit draw"); } }
CONTRACT(P29_scaled) { scaled<double>(); scaled<float>(); }
//@@ P29_uint P29_ulong P29_ull P29_int P29_long P29_ll P29_int_range P29_ll_range P29_words P29_bool P29_double P29_float P29_scaled
// shuffling: by the contract of the bounded draw; the draws can be read back off the result, so all orders are equally likely
static size_t sw[8]; static int sn;
static size_t pickbelow(Random*, size_t hi) { vf_assert(hi != 0, "a nonempty range"); size_t x = (size_t) vf_pick(0, (int64_t) hi - 1); sw[sn++] = x; return x; }
template <int N> static void shuffled(const int* a, bool nat) { int b[N]; bool seen[N] = {}; for (int i = 0; i < N; i++) { vf_assert(0 <= a[i] && a[i] < N && !seen[a[i]], "a permutation of the elements"); seen[a[i]] = true; b[i] = i; }
    if (nat) return; for (int i = 0; i < N; i++) { int j = i; while (j < N && b[j] != a[i]) j++; vf_assert(j < N && (size_t) (j - i) == sw[i], "the draws can be read back"); int t = b[i]; b[i] = b[j]; b[j] = t; } }
template <int N> static void shuffle() { sn = 0; Any32 g; if (vf_symbolic()) vf_replace((const void*) raw_upto, (const void*) pickbelow); int a[N]; for (int i = 0; i < N; i++) a[i] = i; permute(a, (size_t) N, g); shuffled<N>(a, !vf_symbolic()); sn = 0; g.n = 0; std::vector<int> v; for (int i = 0; i < N; i++) v.push_back(i); permute(v, g); vf_assert(v.size() == N, "no element lost"); shuffled<N>(v.data(), !vf_symbolic()); }
CONTRACT(P29_shuffle) { shuffle<0>(); shuffle<1>(); shuffle<2>(); shuffle<3>(); }
CONTRACT(P29_shuffle4) { sn = 0; Any32 g; if (vf_symbolic()) vf_replace((const void*) raw_upto, (const void*) pickbelow); int a[5]; for (int i = 0; i < 5; i++) a[i] = i; permute(a, 5, g); shuffled<5>(a, !vf_symbolic()); }
//@ P29_shuffle P29_shuffle4: bounded="lists of at most 3 (vectors) and 5 (arrays) elements"
// the generators compute their published recurrences, and seeding sets the whole state
static uint64_t rl(uint64_t x, int k) { return x << k | x >> (64 - k); }
static uint64_t sm(uint64_t seed, int i) { uint64_t z = seed + (uint64_t) (i + 1) * 0x9e3779b97f4a7c15ull; z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ull; z = (z ^ z >> 27) * 0x94d049bb133111ebull; return z ^ z >> 31; }
CONTRACT(P29_xoshiro) { uint64_t a[4]; for (int i = 0; i < 4; i++) a[i] = vf_u64(); XoshiroRand g(a); g.s[0] = a[0]; for (int i = 0; i < 4; i++) vf_assert(g.s[i] == a[i], "entropy is the state"); vf_assert(g._bitsleft == 0, "no buffered bits");
    uint64_t r; bool hi = vf_pick(0, 1); if (hi) r = g.rand32(); else r = g.rand64(); uint64_t out = rl(a[0] + a[3], 23) + a[0]; vf_assert(r == (hi ? out >> 32 : out), "xoshiro256++ output");
    vf_assert(g.s[0] == (a[0] ^ a[3] ^ a[1]), "xoshiro256++ state"); vf_assert(g.s[1] == (a[1] ^ a[2] ^ a[0]), "xoshiro256++ state"); vf_assert(g.s[2] == (a[2] ^ a[0] ^ a[1] << 17), "xoshiro256++ state"); vf_assert(g.s[3] == rl(a[3] ^ a[1], 45), "xoshiro256++ state"); }
static uint64_t ent[4]; static int en;
static uint64_t entropy() { return ent[en++]; }
CONTRACT(P29_xoshiro_seed) { uint64_t s = vf_u64(); XoshiroRand g(s); for (int i = 0; i < 4; i++) vf_assert(g.s[i] == sm(s, i), "splitmix64 of the seed"); for (int i = 0; i < 4; i++) g.s[i] = vf_u64(); g._bitsleft = (unsigned) vf_pick(0, 2); g._bitpool = (uint32_t) vf_int(0, 0xffffffffLL); g.rseed(s); for (int i = 0; i < 4; i++) vf_assert(g.s[i] == sm(s, i), "reseeding forgets the state"); vf_assert(g._bitsleft == 0, "reseeding forgets buffered bits");
    en = 0; for (int i = 0; i < 4; i++) ent[i] = vf_u64(); g._bitsleft = 7; g.seed(entropy); for (int i = 0; i < 4; i++) vf_assert(g.s[i] == sm(ent[i], 0), "splitmix64 of each word"); vf_assert(g._bitsleft == 0, "reseeding forgets buffered bits"); uint64_t x = vf_u64(), x0 = x; vf_assert(splitmix64(&x) == sm(x0, 0) && x == x0 + 0x9e3779b97f4a7c15ull, "splitmix64"); }
CONTRACT(P29_lcg) { uint64_t s = vf_u64(); LCRand g(s); vf_assert(g.state == s && g._bitsleft == 0, "the seed is the state"); uint64_t n = s * 6364136223846793005ull + 1442695040888963407ull; vf_assert(g.rand64() == n, "Knuth's recurrence"); vf_assert(g.rand32() == (uint32_t) ((n * 6364136223846793005ull + 1442695040888963407ull) >> 32), "high bits of the next state"); g._bitsleft = (unsigned) vf_pick(0, 2); uint64_t t = vf_u64(); g.rseed(t); vf_assert(g.state == t, "reseeding forgets the state"); vf_assert(g._bitsleft == 0, "reseeding forgets buffered bits"); }
CONTRACT(P29_mt) { MTRand g(1); static uint32_t x[1248]; for (int i = 0; i < 624; i++) { x[i] = (uint32_t) vf_int(0, 0xffffffffLL); g.mt_buffer[i] = x[i]; } g.mt_index = 624 * 4; for (int i = 0; i < 624; i++) { uint32_t y = (x[i] & 0x80000000u) | (x[i + 1] & 0x7fffffffu); x[i + 624] = x[i + 397] ^ y >> 1 ^ (y & 1) * 0x9908b0dfu; } for (int i = 0; i < 624; i++) vf_assert(g.rand32() == x[i + 624], "Mersenne twister recurrence"); vf_assert(g.mt_index == 624 * 4, "the whole block is used"); }
CONTRACT(P29_mt_seed) { uint64_t s = vf_u64(); MTRand g(s); LCRand l(s); for (int i = 0; i < 624; i++) { uint32_t w = l.rand32(); vf_assert(g.mt_buffer[i] == w, "the block is the seeder's sequence"); g.mt_buffer[i] = 0; } vf_assert(g.mt_index == 0, "from the start of the block"); g.mt_index = 4 * (int) vf_pick(0, 3); g._bitsleft = 5; g.rseed(s); LCRand m(s); for (int i = 0; i < 624; i++) vf_assert(g.mt_buffer[i] == m.rand32(), "reseeding forgets the state"); vf_assert(g.mt_index == 0 && g._bitsleft == 0, "reseeding forgets the position and buffered bits"); }
//@ P29_xoshiro P29_xoshiro_seed P29_lcg P29_mt P29_mt_seed: bv
//@@ P29_shuffle P29_shuffle4 P29_xoshiro P29_xoshiro_seed P29_lcg P29_mt P29_mt_seed
// regions of space: by the contract of the unit draw
template <int N> static double m2(Vec<double,N> v) { double s = 0; for (int i = 0; i < N; i++) s += v[i] * v[i]; return s; }
template <int N> static Vec<double,N> cubept(int k) { Vec<double,N> v; for (int i = 0; i < N; i++) v[i] = 2 * u_[k * N + i] - 1; return v; }
template <int N> static void ball(bool unit) { contracts(2 * N); Any32 g; g.limit = 64; Sampler<double> s(&g); Vec<double,N> p = unit ? s.unit<N>() : s.solidball<N>(); vf_assert(unit || m2<N>(p) <= 1, "inside the unit ball"); if (unit) vf_eq(m2<N>(p), 1, "of unit length");
    if (!vf_symbolic()) return; int k = us / N; vf_assert(us == k * N, "whole points drawn"); Vec<double,N> l = cubept<N>(k - 1); double m = m2<N>(l); for (int j = 0; j < k; j++) { double q = m2<N>(cubept<N>(j)); vf_iff(q <= 1 && (!unit || q != 0), j == k - 1, 1, "the first point of the cube inside the ball"); } double L = unit ? std::sqrt(m) : 1; for (int i = 0; i < N; i++) vf_eq(p[i] * L, l[i], "that point (of the ball), or its direction"); }
CONTRACT(P29_ball1) { ball<1>(false); ball<1>(true); }
CONTRACT(P29_ball2) { ball<2>(false); ball<2>(true); }
CONTRACT(P29_ball3) { ball<3>(false); ball<3>(true); }
//@ P29_ball1 P29_ball2 P29_ball3: bounded="at most one rejected point (the rejection loop carries no state from one point to the next)"
template <int N> static void balls() { contracts(2 * N + 1); Any32 g; g.limit = 64; Sampler<double> s(&g); double r = vf_real(); vf_assume(0 <= r); bool unit = vf_pick(0, 1); Vec<double,N> p = unit ? s.unit<N>(r) : s.solidball<N>(r); if (unit) vf_eq(m2<N>(p), r * r, "at the radius"); else vf_assert(m2<N>(p) <= r * r, "inside the radius"); if (!vf_symbolic()) return; vf_assume(us == N); Vec<double,N> l = cubept<N>(0); double L = unit ? std::sqrt(m2<N>(l)) : 1; for (int i = 0; i < N; i++) vf_eq(p[i] * L, l[i] * r, "a scaled point of the unit ball"); }
CONTRACT(P29_balls2) { balls<2>(); }
CONTRACT(P29_balls3) { balls<3>(); }
CONTRACT(P29_disk) { contracts(2); Any32 g; g.limit = 64; Sampler<double> s(&g); double r = vf_real(); vf_assume(0 <= r); bool sc = vf_pick(0, 1); Vec<double,2> p = sc ? s.disk(r) : s.disk(); vf_assert(m2<2>(p) <= (sc ? r * r : 1), "inside the disk"); if (!vf_symbolic()) return; Vec<double,2> l = cubept<2>(0); for (int i = 0; i < 2; i++) vf_eq(p[i], l[i] * (sc ? r : 1), "a scaled point of the unit disk"); }
// between two radii: the volume below the radius is linear in the unit draw
CONTRACT(P29_shell2) { contracts(3); Any32 g; g.limit = 64; Sampler<double> s(&g); double a = vf_real(), b = vf_real(); vf_assume(0 <= a); vf_assume(a <= b); vf_assume(0 < b); Vec<double,2> p = s.shell<2>(a, b); double q = m2<2>(p); vf_assert(a * a <= q && q <= b * b, "between the radii"); if (vf_symbolic()) vf_eq(q, a * a + u_[0] * (b * b - a * a), "area below the radius is uniform"); }
CONTRACT(P29_solidarc) { contracts(2); Any32 g; g.limit = 64; Sampler<double> s(&g); double a = vf_real(), b = vf_real(), t0 = vf_real(), t1 = vf_real(); vf_assume(0 <= a); vf_assume(a <= b); vf_assume(0 < b); Vec<double,2> p = s.solidarc(t0, t1, a, b); double q = m2<2>(p); vf_assert(a * a <= q && q <= b * b, "between the radii"); if (vf_symbolic()) { double t = (t1 - t0) * u_[0] + t0; vf_eq(q, a * a + u_[1] * (b * b - a * a), "area below the radius is uniform"); double L = b * std::sqrt((1 - a / b * (a / b)) * u_[1] + a / b * (a / b)); vf_eq(p.x, L * std::cos(t), "along the drawn angle"); vf_eq(p.y, L * std::sin(t), "along the drawn angle"); } }
CONTRACT(P29_arc) { contracts(1); Any32 g; g.limit = 64; Sampler<double> s(&g); double t0 = vf_real(), t1 = vf_real(); Vec<double,2> p = s.arc(t0, t1); vf_eq(m2<2>(p), 1, "of unit length"); if (vf_symbolic()) { double t = (t1 - t0) * u_[0] + t0; vf_eq(p.x, std::cos(t), "along the drawn angle"); vf_eq(p.y, std::sin(t), "along the drawn angle"); } }
static void inside(double x, double lo, double hi, double u) { vf_assert(lo <= x && x <= hi, "inside the box"); if (vf_symbolic()) vf_eq(x, lo + u * (hi - lo), "proportional to the unit draw"); }
CONTRACT(P29_box) { contracts(12); Any32 g; g.limit = 100; Sampler<double> s(&g); Vec<double,3> lo, hi; for (int i = 0; i < 3; i++) { lo[i] = vf_real(); hi[i] = vf_real(); vf_assume(lo[i] <= hi[i]); } Vec<double,3> a = s.box<3>(), b = s.box<3>(lo, hi), c = s.box(Rect<double,3>(lo, hi)); for (int i = 0; i < 3; i++) { inside(a[i], 0, 1, u_[i]); inside(b[i], lo[i], hi[i], u_[3 + i]); inside(c[i], lo[i], hi[i], u_[6 + i]); }
    us = 0; Vec<double,3> d = s.box(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]); Vec<double,2> e = s.box(lo[0], lo[1], hi[0], hi[1]); for (int i = 0; i < 3; i++) inside(d[i], lo[i], hi[i], u_[i]); for (int i = 0; i < 2; i++) inside(e[i], lo[i], hi[i], u_[3 + i]); }
// caps: the height above the rim is linear in the unit draw, around the axis
CONTRACT(P29_cap) { contracts(2); Any32 g; g.limit = 64; Sampler<double> s(&g); double a = vf_real(); Vec<double,3> p = s.cap(a); vf_eq(m2<3>(p), 1, "of unit length"); vf_assert(std::cos(a) <= p.z && p.z <= 1, "inside the cap"); if (vf_symbolic()) vf_eq(p.z, std::cos(a) + u_[0] * (1 - std::cos(a)), "area above the height is uniform"); }
CONTRACT(P29_cap_dir) { contracts(2); Any32 g; g.limit = 64; Sampler<double> s(&g); double a = vf_real(); Vec<double,3> d; for (int i = 0; i < 3; i++) d[i] = vf_real(); vf_assume(0 < m2<3>(d)); Vec<double,3> p = s.cap(d, a); vf_eq(m2<3>(p), 1, "of unit length"); if (vf_symbolic()) { double L = std::sqrt(m2<3>(d)); vf_eq(p.dot(d), L * (std::cos(a) + u_[0] * (1 - std::cos(a))), "around the axis"); } }
CONTRACT(P29_solidcap) { contracts(3); Any32 g; g.limit = 64; Sampler<double> s(&g); double a = vf_real(), lo = vf_real(), hi = vf_real(); vf_assume(0 <= lo); vf_assume(lo <= hi); vf_assume(0 < hi); Vec<double,3> p = s.solidcap(Vec<double,3>(0, 0, 1), a, lo, hi); double q = m2<3>(p); if (vf_symbolic()) { double s = lo / hi; double r = hi * std::cbrt((1 - s * s * s) * u_[0] + s * s * s); vf_eq(q, r * r, "volume below the radius is uniform"); } }
CONTRACT(P29_oriented_disk) { contracts(2); Any32 g; g.limit = 64; Sampler<double> s(&g); double r = vf_real(); vf_assume(0 <= r); Vec<double,3> d; for (int i = 0; i < 3; i++) d[i] = vf_real(); vf_assume(0 < m2<3>(d)); Vec<double,3> p = s.oriented_disk(d, r); vf_assert(m2<3>(p) <= r * r, "inside the radius"); vf_eq(p.dot(d), 0, "in the plane of the disk"); }
//@@ P29_ball1 P29_ball2 P29_ball3 P29_balls2 P29_balls3 P29_disk P29_shell2 P29_solidarc P29_arc P29_box P29_cap P29_cap_dir P29_solidcap P29_oriented_disk
