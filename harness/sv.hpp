// common parts of the short_vec harnesses
#ifndef VF_SV_HPP
#define VF_SV_HPP
#include <libflatarray/flat_array.hpp>
using namespace LibFlatArray;

#if defined(CARGO_FLOAT)
typedef float cargo;
#elif defined(CARGO_DOUBLE)
typedef double cargo;
#else
typedef int cargo;
#endif

inline std::uint64_t bits(float f) { std::uint32_t r; std::memcpy(&r, &f, 4); return r; }
inline std::uint64_t bits(double f) { std::uint64_t r; std::memcpy(&r, &f, 8); return r; }
inline std::uint64_t bits(int i) { return std::uint32_t(i); }

template<typename T>
inline void any_fill(T *p, int n, const char *name)
{
    for (int i = 0; i < n; ++i) {
        p[i] = vf_any<T>(name);
    }
}

template<typename T>
inline void same(const T *a, const T *b, int n, const char *msg)
{
    std::uint64_t diff = 0;
    for (int i = 0; i < n; ++i) {
        diff |= bits(a[i]) ^ bits(b[i]);
    }
    vf_check(diff == 0, msg);
}

// a block of exactly n elements
template<typename T>
struct exact
{
    T *p;
    explicit exact(int n) : p(static_cast<T*>(::operator new(sizeof(T) * n))) {}
    ~exact() { ::operator delete(p); }
};

// lanes of a vector, read by the plain (unaligned) store
template<typename V, typename T>
inline void lanes(const V& v, T *out)
{
    v.store(out);
}

#define ARITIES(M) M(1) M(2) M(4) M(8) M(16) M(32)
#endif
