// Harness API.  Under symex these are the executor's primitives; in a native
// replay build (-DSX_NATIVE, rt/replay.cpp) they read the recorded values.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
extern "C" {
    unsigned long sx_int(const char *name, unsigned bits);      // arbitrary bits-wide integer (zero-extended)
    double sx_real_(const char *name);                          // arbitrary real
    void sx_assume(bool);
    void sx_assert_(bool, const char *msg);
    void sx_feq_(double got, double want, const char *msg);     // equal over the reals
    void sx_fnear_(double got, double want, double tol, const char *msg);
    unsigned long sx_choose(unsigned long n, const char *name); // exhaustive case split over 0..n-1
    unsigned long sx_concretize(unsigned long);                 // exhaustive case split over the feasible values
    void sx_reach(const char *label);
    void sx_note(const char *msg);
    int sx_is_symbolic(unsigned long);
    int sx_native();
    unsigned long sx_live_heap();
    void sx_yield();
}
#define SX_ENTRY extern "C" __attribute__((visibility("default"), used)) void
#define SX_ASSERT(c, m) sx_assert_((c), m)
static inline float sx_f32(const char *n) { return (float) sx_real_(n); }
static inline double sx_f64(const char *n) { return sx_real_(n); }
static inline uint32_t sx_u32(const char *n) { return (uint32_t) sx_int(n, 32); }
static inline int32_t sx_i32(const char *n) { return (int32_t) sx_int(n, 32); }
static inline uint64_t sx_u64(const char *n) { return (uint64_t) sx_int(n, 64); }
static inline uint8_t sx_u8(const char *n) { return (uint8_t) sx_int(n, 8); }
static inline uint16_t sx_u16(const char *n) { return (uint16_t) sx_int(n, 16); }
// integer in [lo,hi], kept symbolic
static inline int sx_range(int lo, int hi, const char *n) { int v = sx_i32(n); sx_assume((v >= lo) & (v <= hi)); return v; }
// symbolic integer in [lo,hi]; the executor forks one path per value the solver finds feasible
static inline int sx_pick(int lo, int hi, const char *n) { return (int) sx_concretize((uint32_t) sx_range(lo, hi, n)); }
static inline float sx_bits2f(uint32_t u) { float f; __builtin_memcpy(&f, &u, 4); return f; }
static inline uint32_t sx_f2bits(float f) { uint32_t u; __builtin_memcpy(&u, &f, 4); return u; }
static inline double sx_bits2d(uint64_t u) { double f; __builtin_memcpy(&f, &u, 8); return f; }
#ifdef SX_THOROUGH
#define SXT(q, t) (t)
#else
#define SXT(q, t) (q)
#endif
