// Harness API. Symbolically the vf_* functions are interpreted by the engine;
// natively (replay) they are implemented by vf_native.cpp.
#ifndef VF_H
#define VF_H
#include "vf_pre.h"
extern "C" {
std::uint8_t vf_u8(const char*);
std::uint16_t vf_u16(const char*);
std::uint32_t vf_u32(const char*);
std::uint64_t vf_u64(const char*);
float vf_f32(const char*);
double vf_f64(const char*);
void vf_assume(bool);
void vf_check(bool, const char*);
void vf_check_eq_f32(float, float, const char*);
void vf_check_eq_f64(double, double, const char*);
// relative error of actual w.r.t. expected (both positive) at most maxrel
void vf_check_close_f32(float actual, float expected, double maxrel, const char*);
void vf_check_close_i32(int actual, double expected, int exact, double maxrel, const char*);
void vf_check_close_f64(double actual, double expected, double maxrel, const char*);
std::uint64_t vf_select(bool, std::uint64_t, std::uint64_t);
void vf_reach(const char*);
std::uint32_t vf_live_allocs();
void vf_sym_heap(int);
void vf_alloc_fail_at(std::uint32_t);
std::uint64_t vf_concrete_u64(std::uint64_t);
void vf_thread(int);
char *vf_huge(std::uint64_t);
// a stream that records what is inserted, and the check that it is "[lane, lane, ...]"
std::ostream *vf_os();
void vf_os_lanes_f32(const float*, unsigned, const char*);
void vf_os_lanes_f64(const double*, unsigned, const char*);
void vf_os_lanes_i32(const int*, unsigned, const char*);
void vf_shared(const void*);
void vf_run2(void (*)(void*), void*, void (*)(void*), void*);
}
#define VF_ENTRY(NAME) extern "C" __attribute__((noinline, used)) void H_##NAME()
#ifndef VF_TIER
#define VF_TIER 0
#endif
inline void vf_os_lanes(const float *p, unsigned n, const char *m) { vf_os_lanes_f32(p, n, m); }
inline void vf_os_lanes(const double *p, unsigned n, const char *m) { vf_os_lanes_f64(p, n, m); }
inline void vf_os_lanes(const int *p, unsigned n, const char *m) { vf_os_lanes_i32(p, n, m); }
inline void vf_check_eq(float a, float b, const char *m) { vf_check_eq_f32(a, b, m); }
inline void vf_check_eq(double a, double b, const char *m) { vf_check_eq_f64(a, b, m); }
inline void vf_check_eq(int a, int b, const char *m) { vf_check(a == b, m); }
template<typename T> T vf_any(const char *name);
template<> inline float vf_any<float>(const char *n) { return vf_f32(n); }
template<> inline double vf_any<double>(const char *n) { return vf_f64(n); }
template<> inline int vf_any<int>(const char *n) { return (int)vf_u32(n); }
template<> inline unsigned vf_any<unsigned>(const char *n) { return vf_u32(n); }
template<> inline char vf_any<char>(const char *n) { return (char)vf_u8(n); }
template<> inline unsigned char vf_any<unsigned char>(const char *n) { return vf_u8(n); }
template<> inline short vf_any<short>(const char *n) { return (short)vf_u16(n); }
template<> inline long vf_any<long>(const char *n) { return (long)vf_u64(n); }
template<> inline unsigned long vf_any<unsigned long>(const char *n) { return vf_u64(n); }
template<> inline bool vf_any<bool>(const char *n) { return vf_u8(n) & 1; }
// an index in [lo, hi]
inline std::size_t vf_index(const char *n, std::size_t lo, std::size_t hi)
{
    std::size_t r = vf_u64(n);
    vf_assume(r >= lo && r <= hi);
    return r;
}
// the same, but every value is explored on a path of its own
inline std::size_t vf_pick(const char *n, std::size_t lo, std::size_t hi)
{
    return vf_concrete_u64(vf_index(n, lo, hi));
}
// branch-free conditional assignment
template<typename T> inline void vf_assign_if(bool c, T& t, const T& v)
{
    static_assert(sizeof(T) <= 8, "");
    std::uint64_t a = 0, b = 0;
    std::memcpy(&a, &v, sizeof(T));
    std::memcpy(&b, &t, sizeof(T));
    a = vf_select(c, a, b);
    std::memcpy(&t, &a, sizeof(T));
}
// Runs f and g as two threads which do not synchronise: symbolically the memory accessed by either is recorded and
// overlaps of which one is a write are violations (without any, all schedules are equivalent to f(); g();).
template<typename F> void vf_thread_main(void *f) { (*static_cast<F*>(f))(); }
template<typename F, typename G> void vf_par(F f, G g)
{
#if defined(__has_feature) && __has_feature(thread_sanitizer)
    vf_run2(&vf_thread_main<F>, &f, &vf_thread_main<G>, &g);
#else
    vf_thread(1);
    f();
    vf_thread(2);
    g();
    vf_thread(0);
#endif
}
// hides a value from the optimiser
template<typename T> inline T vf_opaque(T v) { return v; }
#endif
