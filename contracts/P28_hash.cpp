// P28: hashing is a function of the value.
#include "vf.h"
#include <geomc/Hash.h>
#include <geomc/linalg/Matrix.h>
#include <geomc/linalg/AffineTransform.h>
#include <geomc/linalg/Quaternion.h>
#include <geomc/linalg/Ray.h>
#include <geomc/shape/Rect.h>
#include <geomc/shape/Sphere.h>
#include <geomc/shape/Simplex.h>
#include <geomc/shape/Plane.h>
#include <geomc/shape/Capsule.h>
#include <geomc/shape/Cylinder.h>
#include <geomc/shape/Extruded.h>
#include <geomc/shape/Frustum.h>
#include <geomc/shape/Dilated.h>
#include <geomc/shape/Oriented.h>
#include <geomc/function/Dual.h>
#include <geomc/function/functiondetail/SipHash.cpp>
#include <cmath>
using namespace geom;
// Two objects whose fields are independent; only their equality (by the library's own operator==) relates them.
// Natively the second object is usually a twin of the first, with the opposite sign on every zero.
struct Gen { bool twin = false; int k = 0, i = 0, j = 0; double x[40];
    double real() { double y = vf_real(); if (!twin) { if (i < 40) x[i] = y; i++; return y; } j++; if (vf_symbolic() || j == k) return y; double u = j <= 40 ? x[j - 1] : y; return u == 0 ? -u : u; }
    void second() { k = (int) vf_int(0, 40); twin = true; } };
static Gen G;
template <typename X> struct Make;
template <> struct Make<double> { static double go() { return G.real(); } };
template <> struct Make<float> { static float go() { return (float) G.real(); } };
template <> struct Make<int> { static int go() { return (int) vf_u64(); } };
template <typename T, index_t N> struct Make<Vec<T,N>> { static Vec<T,N> go() { Vec<T,N> v; for (int i = 0; i < N; i++) v[i] = Make<T>::go(); return v; } };
template <typename T> struct Make<Quat<T>> { static Quat<T> go() { Quat<T> v; v.x = G.real(); v.y = G.real(); v.z = G.real(); v.w = G.real(); return v; } };
template <typename T, index_t M, index_t N, MatrixLayout L> struct Make<SimpleMatrix<T,M,N,L>> { static SimpleMatrix<T,M,N,L> go() { SimpleMatrix<T,M,N,L> m; for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) m(i, j) = Make<T>::go(); return m; } };
template <typename T, index_t N> struct Make<AffineTransform<T,N>> { static AffineTransform<T,N> go() { AffineTransform<T,N> x; x.mat = Make<SimpleMatrix<T,N+1,N+1>>::go(); x.inv = Make<SimpleMatrix<T,N+1,N+1>>::go(); return x; } };
template <typename T, index_t N> struct Make<Rect<T,N>> { static Rect<T,N> go() { Rect<T,N> r; r.lo = Make<typename Rect<T,N>::point_t>::go(); r.hi = Make<typename Rect<T,N>::point_t>::go(); return r; } };
template <typename T, index_t N> struct Make<Ray<T,N>> { static Ray<T,N> go() { Ray<T,N> r; r.origin = Make<Vec<T,N>>::go(); r.direction = Make<Vec<T,N>>::go(); return r; } };
template <typename T, index_t N> struct Make<Sphere<T,N>> { static Sphere<T,N> go() { Vec<T,N> c = Make<Vec<T,N>>::go(); return Sphere<T,N>(c, G.real()); } };
template <typename T, index_t N> struct Make<Plane<T,N>> { static Plane<T,N> go() { Plane<T,N> p(Vec<T,N>::zeros); p.normal = Make<Vec<T,N>>::go(); p.d = G.real(); return p; } };
template <typename T, index_t N> struct Make<Capsule<T,N>> { static Capsule<T,N> go() { Vec<T,N> a = Make<Vec<T,N>>::go(), b = Make<Vec<T,N>>::go(); return Capsule<T,N>(a, b, G.real()); } };
template <typename T, index_t N> struct Make<Cylinder<T,N>> { static Cylinder<T,N> go() { Cylinder<T,N> c; c.p0 = Make<Vec<T,N>>::go(); c.p1 = Make<Vec<T,N>>::go(); c.radius = G.real(); return c; } };
template <typename S> struct Make<Extruded<S>> { static Extruded<S> go() { Extruded<S> e; e.base = Make<S>::go(); e.height = Make<decltype(e.height)>::go(); return e; } };
template <typename S> struct Make<Frustum<S>> { static Frustum<S> go() { Frustum<S> e; e.base = Make<S>::go(); e.height = Make<decltype(e.height)>::go(); return e; } };
template <typename S> struct Make<Dilated<S>> { static Dilated<S> go() { Dilated<S> e; e.shape = Make<S>::go(); e.dilation = G.real(); return e; } };
template <typename S> struct Make<Oriented<S>> { static Oriented<S> go() { Oriented<S> e; e.shape = Make<S>::go(); e.xf = Make<decltype(e.xf)>::go(); return e; } };
template <typename T, index_t N> struct Make<Simplex<T,N>> { static Simplex<T,N> go() { Simplex<T,N> s; s.n = (index_t) vf_pick(0, N + 1); for (int i = 0; i <= N; i++) s.pts[i] = Make<Vec<T,N>>::go(); return s; } };
template <typename T> struct Make<Dual<T>> { static Dual<T> go() { T x = G.real(), d = G.real(); return Dual<T>(x, d); } };
template <typename X> static bool same(const X& a, const X& b) { if constexpr (requires { a.origin; }) return a.origin == b.origin && a.direction == b.direction; else return a == b; }
template <typename X> static void law() { G = Gen(); X a = Make<X>::go(); G.second(); X b = Make<X>::go(); vf_assume(same(a, b));
    vf_assert(geom::hash<X,size_t>(a) == geom::hash<X,size_t>(b), "equal objects have equal hashes"); vf_assert(std::hash<X>{}(a) == geom::hash<X,size_t>(a), "std::hash is the same hash"); vf_assert(geom::hash<X,uint32_t>(a) == geom::hash<X,uint32_t>(b), "equal objects have equal 32-bit hashes"); }
#define LAW(N, ...) CONTRACT(P28_##N) { law<__VA_ARGS__>(); }
LAW(vec2, Vec<double,2>) LAW(vec3, Vec<double,3>) LAW(vec4f, Vec<float,4>) LAW(vec3i, Vec<int,3>) LAW(vec5, Vec<double,5>) LAW(quat, Quat<double>) LAW(mat, SimpleMatrix<double,2,3>) LAW(affine2, AffineTransform<double,2>) LAW(affine3, AffineTransform<double,3>)
LAW(ray, Ray<double,3>) LAW(rect1, Rect<double,1>) LAW(rect3, Rect<double,3>) LAW(sphere, Sphere<double,3>) LAW(plane, Plane<double,3>) LAW(capsule, Capsule<double,3>) LAW(cylinder, Cylinder<double,3>) LAW(simplex2, Simplex<double,2>) LAW(simplex3, Simplex<double,3>)
LAW(extruded, Extruded<Sphere<double,2>>) LAW(frustum, Frustum<Rect<double,2>>) LAW(dilated, Dilated<Sphere<double,2>>) LAW(oriented, Oriented<Rect<double,2>>) LAW(oriented_sphere, Oriented<Sphere<double,2>>) LAW(dual, Dual<double>)
CONTRACT(P28_matdyn) { G = Gen(); int r = (int) vf_pick(1, 2), c = (int) vf_pick(1, 2); SimpleMatrix<double,0,0> a(r, c), b(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) a(i, j) = G.real(); G.second(); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) b(i, j) = G.real(); vf_assume(same(a, b));
    vf_assert(std::hash<SimpleMatrix<double,0,0>>{}(a) == std::hash<SimpleMatrix<double,0,0>>{}(b), "equal matrices have equal hashes"); }
// combination is an ordered fold
CONTRACT(P28_fold) { size_t n = vf_u64(), a = vf_u64(), b = vf_u64(), c = vf_u64(); size_t v[3] = {a, b, c};
    vf_assert(hash_combine(n, a) == (n ^ (a + 0x9e3779b97f4a7c15ULL + (n << 12) + (n >> 4))), "combination of two hashes");
    vf_assert(hash_array<size_t,size_t>(n, v, 0) == n && hash_array<size_t,size_t>(n, v, 3) == hash_combine(hash_combine(hash_combine(n, a), b), c), "an array hashes from left to right");
    vf_assert(hash_combine_many(n, a, b) == hash_combine(n, hash_combine(a, b)) && hash_many<size_t>(n, a, b, c) == hash_combine(n, hash_combine(a, hash_combine(b, c))), "several objects hash in order"); }
// SipHash-2-4 as published (Aumasson and Bernstein), with the 128-bit variant of the reference implementation
static uint64_t rot(uint64_t x, int k) { return x << k | x >> (64 - k); }
struct Sip { uint64_t v[4]; void round() { v[0] += v[1]; v[2] += v[3]; v[1] = rot(v[1], 13) ^ v[0]; v[3] = rot(v[3], 16) ^ v[2]; v[0] = rot(v[0], 32); v[2] += v[1]; v[0] += v[3]; v[1] = rot(v[1], 17) ^ v[2]; v[3] = rot(v[3], 21) ^ v[0]; v[2] = rot(v[2], 32); }
    void absorb(uint64_t m) { v[3] ^= m; round(); round(); v[0] ^= m; } uint64_t digest(uint64_t c, int i) { v[i] ^= c; for (int k = 0; k < 4; k++) round(); return v[0] ^ v[1] ^ v[2] ^ v[3]; } };
static uint64_t le(const uint8_t* p, int n) { uint64_t r = 0; for (int i = 0; i < n; i++) r |= (uint64_t) p[i] << (8 * i); return r; }
template <int N, int O> static void sip() { uint8_t in[N + 1], key[16], out[O]; for (int i = 0; i < N; i++) in[i] = (uint8_t) vf_u64(); for (int i = 0; i < 16; i++) key[i] = (uint8_t) vf_u64();
    detail::siphash(in, N, key, out, O); uint64_t k0 = le(key, 8), k1 = le(key + 8, 8); Sip s = {{k0 ^ 0x736f6d6570736575ULL, k1 ^ 0x646f72616e646f6dULL, k0 ^ 0x6c7967656e657261ULL, k1 ^ 0x7465646279746573ULL}}; if (O == 16) s.v[1] ^= 0xee;
    for (int i = 0; i < N / 8; i++) s.absorb(le(in + 8 * i, 8)); s.absorb(le(in + N / 8 * 8, N % 8) | (uint64_t) N << 56); uint64_t h = s.digest(O == 16 ? 0xee : 0xff, 2); vf_assert(le(out, 8) == h, "SipHash-2-4"); if (O == 16) { uint64_t l = s.digest(0xdd, 1); vf_assert(le(out + 8, 8) == l, "SipHash-2-4, second half"); } }
#define SIP(N) CONTRACT(P28_sip##N) { sip<N,8>(); } CONTRACT(P28_sipw##N) { sip<N,16>(); }
SIP(0) SIP(1) SIP(2) SIP(3) SIP(4) SIP(5) SIP(6) SIP(7) SIP(8) SIP(9) SIP(13) SIP(15) SIP(16) SIP(19) SIP(24) SIP(31) SIP(40)
// narrower hashes combine in order too; bytes hash to the 128-bit SipHash under the 128-bit nonce
CONTRACT(P28_fold32) { uint32_t n = (uint32_t) vf_u64(), a = (uint32_t) vf_u64(), b = (uint32_t) vf_u64(); uint32_t v[2] = {a, b};
    vf_assert(hash_combine(n, a) == (n ^ (a + 0x9e3779b9U + (n << 6) + (n >> 2))), "combination of two 32-bit hashes"); vf_assert(hash_array<uint32_t,uint32_t>(n, v, 2) == hash_combine(hash_combine(n, a), b), "an array hashes from left to right");
    uint16_t m = (uint16_t) vf_u64(), c = (uint16_t) vf_u64(); vf_assert(hash_combine(m, c) == (uint16_t) (m ^ (c + 0x9e37U + (m << 3) + (m >> 1))), "combination of two 16-bit hashes"); }
template <int N> static void wide() { typedef unsigned __int128 W; uint64_t k[2] = {vf_u64(), vf_u64()}, o[2]; uint8_t in[N + 1]; for (int i = 0; i < N; i++) in[i] = (uint8_t) vf_u64(); W h = hash_bytes<W>((W) k[1] << 64 | k[0], in, N);
    detail::siphash(in, N, k, (uint8_t*) o, 16); vf_assert((uint64_t) (h >> 64) == o[0] && (uint64_t) h == o[1], "bytes hash to their SipHash"); }
CONTRACT(P28_wide3) { wide<3>(); } CONTRACT(P28_wide8) { wide<8>(); } CONTRACT(P28_wide17) { wide<17>(); }
//@ P28_*: bv
//@assume std::hash of a floating-point number is a function of its value (both zeros alike), as the standard requires
//@ P28_sip* P28_wide*: bounded="message lengths 0 to 9, 13, 15, 16, 17, 19, 24, 31 and 40 bytes; every message and key of those lengths"
//@ P28_matdyn: bounded="dynamic matrices of at most 2x2 elements; any element values"
//@@ P28_vec2 P28_vec3 P28_vec4f P28_vec3i P28_vec5 P28_quat P28_mat P28_affine2 P28_affine3 P28_ray P28_rect1 P28_rect3 P28_sphere P28_plane P28_capsule P28_cylinder P28_simplex2 P28_simplex3 P28_extruded P28_frustum P28_dilated P28_oriented P28_oriented_sphere P28_dual P28_sip0 P28_sipw0 P28_sip1 P28_sipw1 P28_sip2 P28_sipw2 P28_sip3 P28_sipw3 P28_sip4 P28_sipw4 P28_sip5 P28_sipw5 P28_sip6 P28_sipw6 P28_sip7 P28_sipw7 P28_sip8 P28_sipw8 P28_sip9 P28_sipw9 P28_sip13 P28_sipw13 P28_sip15 P28_sipw15 P28_sip16 P28_sipw16 P28_sip19 P28_sipw19 P28_sip24 P28_sipw24 P28_sip31 P28_sipw31 P28_sip40 P28_sipw40 P28_fold32 P28_wide3 P28_wide8 P28_wide17
