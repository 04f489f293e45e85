// Native meaning of the contract primitives: replay of a tape, or a random search.
#pragma once
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <exception>
#include <sanitizer/asan_interface.h>
struct vf_skip {};
struct VFState {
    std::vector<std::pair<char,std::string>> tape; size_t pos = 0; bool replay = false, ended = false;
    uint64_t s = 1; int mode = 0; std::vector<std::string> rec; double scale = 0; bool failed = false;
    std::map<const void*, int64_t> shadow; int64_t heap0 = 0; long asserts = 0;
    std::set<std::string> seen;
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};
inline VFState VF;
inline int64_t vf_live_count = 0;
inline const char* vf_tape_next() {
    if (VF.pos < VF.tape.size()) return VF.tape[VF.pos++].second.c_str();
    VF.ended = true; return nullptr;
}
inline void vf_recd(char k, const std::string& v) { VF.rec.push_back(std::string(1, k) + " " + v); }
inline void vf_fail(const char* n, const std::string& d) {
    if (VF.failed) return;
    VF.failed = true;
    printf("VF-FAIL %s | %s\n", n, d.c_str());
    for (auto& r : VF.rec) printf("VF-IN %s\n", r.c_str());
    fflush(stdout);
}
inline std::string vf_s(double x) { char b[64]; snprintf(b, 64, "%.17g", x); return b; }
extern "C" {
__attribute__((noinline)) inline double vf_real() {
    double v;
    if (VF.replay) { const char* t = vf_tape_next(); v = t ? atof(t) : 0; }
    else {
        double k = VF.u();
        switch (VF.mode) {
            case 0: v = (double)(int)(VF.next() % 7) - 3; break;                       // small integers
            case 1: v = (VF.u() + VF.u() + VF.u() - 1.5) * 3; break;                       // smooth
            case 2: { static const double c[] = {0, 1, -1, 0.5, 2, -0.5, -2, 0.25}; v = k < .75 ? c[VF.next() % 8] : VF.u() * 6 - 3; break; }
            case 3: v = ((double)(int)(VF.next() % 41) - 20) / 4; break;                  // dyadic
            case 4: v = k < .5 ? 0 : (double)(int)(VF.next() % 5) - 2; break;           // degenerate
            default: v = VF.u() * 2 - 0.5; break;                                          // near the unit interval
        }
    }
    vf_recd('r', vf_s(v)); return v;
}
__attribute__((noinline)) inline int64_t vf_int(int64_t lo, int64_t hi) {
    int64_t v;
    if (VF.replay) { const char* t = vf_tape_next(); v = t ? atoll(t) : lo; if (v < lo || v > hi) throw vf_skip(); }
    else if (hi < lo) throw vf_skip();
    else {
        unsigned __int128 w = (unsigned __int128)((__int128)hi - lo) + 1;
        int64_t c = lo > 0 ? lo : hi < 0 ? hi : 0;
        double k = VF.u();
        if (k < .5 && w > 12) { __int128 a = (__int128)c + (int)(VF.next() % 13) - 6; v = a < lo ? lo : a > hi ? hi : (int64_t)a; }
        else if (k < .58) v = lo; else if (k < .66) v = hi;
        else v = (int64_t)(lo + (__int128)(VF.next() % (w > (unsigned __int128)~0ull ? ~0ull : (uint64_t)w)));
    }
    vf_recd('i', std::to_string(v)); return v;
}
__attribute__((noinline)) inline uint64_t vf_u64() {
    uint64_t v;
    if (VF.replay) { const char* t = vf_tape_next(); v = t ? strtoull(t, 0, 10) : 0; }
    else { double k = VF.u(); v = k < .2 ? VF.next() % 4 : k < .3 ? ~(VF.next() % 4) : k < .4 ? (VF.next() | 0xffffffff00000000ull) : VF.next(); }
    vf_recd('u', std::to_string(v)); return v;
}
__attribute__((noinline)) inline bool vf_bool() {
    bool v;
    if (VF.replay) { const char* t = vf_tape_next(); v = t && t[0] == '1'; } else v = VF.next() & 1;
    vf_recd('b', v ? "1" : "0"); return v;
}
__attribute__((noinline)) inline int64_t vf_pick(int64_t lo, int64_t hi) {
    int64_t v;
    if (hi < lo) throw vf_skip();
    if (VF.replay) { const char* t = vf_tape_next(); v = t ? atoll(t) : lo; if (v < lo || v > hi) throw vf_skip(); } else v = lo + (int64_t)(VF.next() % (uint64_t)(hi - lo + 1));
    vf_recd('k', std::to_string(v)); return v;
}
inline void vf_assume(bool b) { if (!b) throw vf_skip(); }
inline bool vf_split(bool b) { return b; }
inline void vf_assert(bool b, const char* n) { VF.asserts++; VF.seen.insert(n); if (!b) vf_fail(n, "false"); }
inline bool vf_close(double a, double b) {
    if (a == b) return true;
    if (std::isnan(a) || std::isnan(b)) return false;
    if (std::isinf(a) || std::isinf(b)) return false;
    return std::fabs(a - b) <= 1e-6 * (1 + std::fabs(a) + std::fabs(b));
}
inline void vf_eq(double a, double b, const char* n) { VF.asserts++; VF.seen.insert(n); if (!vf_close(a, b)) vf_fail(n, vf_s(a) + " != " + vf_s(b)); }
inline void vf_le(double a, double b, const char* n) { VF.asserts++; VF.seen.insert(n); if (!(a <= b || vf_close(a, b))) vf_fail(n, vf_s(a) + " > " + vf_s(b)); }
inline void vf_lt(double a, double b, const char* n) { VF.asserts++; VF.seen.insert(n); if (!(a < b)  && !vf_close(a, b)) vf_fail(n, vf_s(a) + " >= " + vf_s(b)); }
inline void vf_iff(bool a, bool b, double m, const char* n) { VF.asserts++; VF.seen.insert(n); if (a != b && !(std::fabs(m) < 1e-9 && m != 0)) vf_fail(n, std::string(a ? "true" : "false") + " but " + (b ? "true" : "false") + " margin " + vf_s(m)); }
inline void vf_implies(bool a, bool b, double m, const char* n) { VF.asserts++; VF.seen.insert(n); if (a && !b && !(std::fabs(m) < 1e-9 && m != 0)) vf_fail(n, "margin " + vf_s(m)); }
inline void vf_lemma(bool, const char*) { }
inline void vf_lemma_eq(double, double, const char*) { }
inline double vf_name(double x) { return x; }
inline void vf_replace(const void*, const void*) {}
inline void vf_unreplace(const void*) {}
inline void vf_unreachable(const char* n) { VF.seen.insert(n); vf_fail(n, "reached"); throw vf_skip(); }
inline bool vf_alive(const void* p) { return !__asan_address_is_poisoned(p); }
inline int64_t vf_heap_live() { return vf_live_count; }
inline int64_t vf_shadow_get(const void* p) { auto i = VF.shadow.find(p); return i == VF.shadow.end() ? 0 : i->second; }
inline void vf_shadow_set(const void* p, int64_t v) { VF.shadow[p] = v; }
inline double vf_fn(int64_t k, double x) { return std::sin(x * (1.3 + k) + k) + 0.25 * x; }
inline bool vf_symbolic() { return false; }
inline int64_t vf_concrete_int(int64_t v, int64_t, int64_t) { return v; }
}
inline double* vf_symarray_store(int64_t n) { return (double*) malloc(n * 8 + 8); }
inline int64_t vf_blocks_at = 0;
extern "C" inline double* vf_symarray(int64_t n, int64_t kind) {
    double* p = (double*) malloc(n * 8 + (n == 0));
    for (int64_t i = 0; i < n; i++) { if (kind == 0) p[i] = vf_real(); else ((int64_t*)p)[i] = vf_int(-100, 100); }
    return p;
}
extern "C" inline bool vf_same_block(const void* a, const void* b) { return true; }
#ifdef VF_MAIN
void* operator new(size_t n) { vf_live_count++; void* p = malloc(n ? n : 1); return p; }
void operator delete(void* p) noexcept { if (p) vf_live_count--; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) vf_live_count--; free(p); }
// run:  prog <harness> replay <tapefile> | search <seed> <seconds> <statusfile>
int main(int argc, char** argv) {
    typedef void (*fn)();
    fn f = (fn) dlsym(RTLD_DEFAULT, argv[1]);
    if (!f) { printf("no harness %s\n", argv[1]); return 3; }
    if (!strcmp(argv[2], "replay")) {
        FILE* t = fopen(argv[3], "r"); char k; char b[256];
        while (t && fscanf(t, " %c %255s", &k, b) == 2) VF.tape.push_back({k, b});
        VF.replay = true;
        int64_t h0 = vf_live_count;
        try { f(); } catch (vf_skip&) { printf("VF-SKIP\n"); return VF.failed ? 1 : 2; } catch (std::exception& e) { vf_fail("uncaught exception", e.what()); }
        (void)h0;
        printf("VF-DONE\n");
        return VF.failed ? 1 : 0;
    }
    uint64_t seed = strtoull(argv[3], 0, 10); double secs = atof(argv[4]);
    int fd = open(argv[5], O_RDWR | O_CREAT | O_TRUNC, 0644);
    timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    long runs = 0, full = 0; uint64_t first = 0;
    if (argc > 6) first = strtoull(argv[6], 0, 10);
    for (uint64_t i = first; ; i++) {
        VF.s = seed * 1000003 + i * 7919; VF.mode = (int)(i % 6); VF.rec.clear(); VF.shadow.clear(); VF.failed = false;
        VF.next();
        if (pwrite(fd, &i, 8, 0) != 8) return 4;
        try { f(); full++; } catch (vf_skip&) {} catch (std::exception& e) { vf_fail("uncaught exception", e.what()); }
        runs++;
        if (VF.failed) { printf("VF-ITER %llu\n", (unsigned long long) i); return 1; }
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if (t1.tv_sec - t0.tv_sec + 1e-9 * (t1.tv_nsec - t0.tv_nsec) > secs) break;
        if (argc > 7) break;
    }
    printf("VF-OK runs=%ld full=%ld asserts=%ld\n", runs, full, VF.asserts);
    return 0;
}
#endif
