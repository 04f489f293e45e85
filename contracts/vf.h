// Contract primitives.  The same text is (a) compiled to LLVM IR and turned into proof obligations by vcg/, where the
// primitives below are interpreted symbolically, and (b) compiled natively (-DVF_NATIVE, vf_native.h) for replaying
// counterexamples on the real code.
#pragma once
#include <optional>
#include <iostream>
#include <type_traits>
#include <cstdint>
extern "C" {
double vf_real();                          // any real number
int64_t vf_int(int64_t lo, int64_t hi);    // any integer in [lo,hi]
uint64_t vf_u64();                         // any 64-bit word
bool vf_bool();
int64_t vf_pick(int64_t lo, int64_t hi);   // case split: one path per value in [lo,hi]
void vf_assume(bool);                      // precondition
bool vf_split(bool);                       // proof hint: split the proof on the condition
void vf_assert(bool, const char*);         // postcondition (exact)
void vf_eq(double, double, const char*);   // postcondition a == b (reals; natively up to rounding)
void vf_le(double, double, const char*);
void vf_lt(double, double, const char*);
void vf_iff(bool, bool, double margin, const char*);      // natively skipped when |margin| is within rounding of a boundary
void vf_implies(bool, bool, double margin, const char*);
void vf_lemma(bool, const char*);          // assert, then use
void vf_lemma_eq(double, double, const char*);
double vf_name(double);                      // the same value under a new name (obligations are first tried with facts about the names only)
void vf_given(bool);                       // only through LEMMA below
void vf_replace(const void* callee, const void* contract);   // check the caller against the callee's contract
void vf_unreplace(const void* callee);
void vf_unreachable(const char*);
double* vf_symarray(int64_t n, int64_t kind);
bool vf_alive(const void*);
int64_t vf_heap_live();
bool vf_same_block(const void*, const void*);
int64_t vf_shadow_get(const void*);
void vf_shadow_set(const void*, int64_t);
double vf_fn(int64_t k, double x);         // uninterpreted real function number k
bool vf_symbolic();
int64_t vf_concrete_int(int64_t v, int64_t lo, int64_t hi);
}
#define CONTRACT(name) extern "C" void name()
// generic equality of scalars
template <typename T> inline void vf_same(T a, T b, const char* n) {
    if constexpr (std::is_floating_point_v<T>) vf_eq(a, b, n); else vf_assert(a == b, n);
}
template <typename T> inline T vf_any() {
    if constexpr (std::is_floating_point_v<T>) return (T) vf_real();
    else if constexpr (std::is_same_v<T,bool>) return vf_bool();
    else return (T) vf_int(-1000000, 1000000);
}
#ifdef VF_NATIVE
#include "vf_native.h"
#endif

// A lemma over arbitrary reals with its own proof (contract NAME): a use checks the premises and then has the conclusion.
#define VF_P_ ()
#define VF_X_(...) VF_X1(VF_X1(VF_X1(VF_X1(__VA_ARGS__))))
#define VF_X1(...) VF_X2(VF_X2(VF_X2(VF_X2(__VA_ARGS__))))
#define VF_X2(...) VF_X3(VF_X3(VF_X3(VF_X3(__VA_ARGS__))))
#define VF_X3(...) __VA_ARGS__
#define VF_DECL(a, ...) double a __VA_OPT__(, VF_DECLA VF_P_ (__VA_ARGS__))
#define VF_DECLA() VF_DECL
#define VF_FRESH(a, ...) double a = vf_real(); __VA_OPT__(VF_FRESHA VF_P_ (__VA_ARGS__))
#define VF_FRESHA() VF_FRESH
#define LEMMA(NAME, VARS, PRE, POST) \
    static inline bool NAME##_pre(VF_X_(VF_DECL VARS)) { return PRE; } static inline bool NAME##_post(VF_X_(VF_DECL VARS)) { return POST; } \
    extern "C" void NAME() { VF_X_(VF_FRESH VARS) if (vf_symbolic()) { vf_assume(NAME##_pre VARS); vf_assert(NAME##_post VARS, #NAME); } } \
    static inline void use_##NAME(VF_X_(VF_DECL VARS)) { if (vf_symbolic()) { vf_lemma(NAME##_pre VARS, "premises of " #NAME); vf_given(NAME##_post VARS); } }
// run exactly one of the alternatives (every alternative is verified, on its own path)
template <typename... F> inline void vf_one_of(F... f) { int64_t k = vf_pick(0, (int64_t) sizeof...(F) - 1); int64_t i = 0; ((i++ == k ? (f(), 0) : 0), ...); }
