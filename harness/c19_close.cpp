// C19: quotients of floats and division by square roots are accurate to the documented estimates.
#include "sv.hpp"

#if defined(CARGO_FLOAT)
// 2^-11; the estimates of SSE and AVX guarantee 1.5 * 2^-12
static const double BOUND = 0.00048828125;
inline void close(float a, float e, const char *m) { vf_check_close_f32(a, e, BOUND, m); }
inline bool moderate(float f)
{
    std::uint32_t e = (bits(f) >> 23) & 0xff;
    return e >= 127 - 20 && e < 127 + 20;
}
#else
inline void close(double a, double e, const char *m) { vf_check_eq_f64(a, e, m); }
inline bool moderate(double) { return true; }
#endif
inline bool positive(float f) { return (bits(f) >> 31) == 0; }
inline bool positive(double f) { return (bits(f) >> 63) == 0; }

template<int N>
void inputs(cargo *a, cargo *b, bool root)
{
    any_fill(a, N, "a");
    any_fill(b, N, "b");
    bool ok = true;
    for (int i = 0; i < N; ++i) {
        ok &= moderate(a[i]) & moderate(b[i]) & (!root | positive(b[i]));
    }
    vf_assume(ok);
}

template<int N>
void quotient()
{
    typedef short_vec<cargo, N> V;
    cargo a[N], b[N], out[N];
    inputs<N>(a, b, false);
    V v(a), w(b);
    V r = v / w;
    r.store(out);
    for (int i = 0; i < N; ++i) {
        close(out[i], a[i] / b[i], "quotient");
    }
    w.store(out);
    same(out, b, N, "operands are left alone");
    v.store(out);
    same(out, a, N, "operands are left alone");
    v /= w;
    v.store(out);
    for (int i = 0; i < N; ++i) {
        close(out[i], a[i] / b[i], "compound quotient");
    }
    V q = a[0] / w;
    q.store(out);
    for (int i = 0; i < N; ++i) {
        close(out[i], a[0] / b[i], "quotient of a scalar");
    }
    vf_reach("done");
}

template<int N>
void root()
{
    typedef short_vec<cargo, N> V;
    cargo a[N], b[N], out[N];
    inputs<N>(a, b, true);
    V v(a), w(b);
    V r = v / sqrt(w);
    r.store(out);
    for (int i = 0; i < N; ++i) {
        close(out[i], a[i] / std::sqrt(b[i]), "division by a square root");
    }
    w.store(out);
    same(out, b, N, "operands are left alone");
    v.store(out);
    same(out, a, N, "operands are left alone");
    v /= sqrt(w);
    v.store(out);
    for (int i = 0; i < N; ++i) {
        close(out[i], a[i] / std::sqrt(b[i]), "compound division by a square root");
    }
    vf_reach("done");
}

// a typical expression: x * y / sqrt(z), where the root is stored before it is used
template<int N>
void mixed()
{
    typedef short_vec<cargo, N> V;
    cargo a[N], b[N], out[N];
    inputs<N>(a, b, true);
    V v(a), w(b);
    V s = sqrt(w);
    V r = v * v / s;
    r.store(out);
    for (int i = 0; i < N; ++i) {
        close(out[i], a[i] * a[i] / std::sqrt(b[i]), "expression");
    }
    V t = (v * v) / sqrt(w * w);
    t.store(out);
    for (int i = 0; i < N; ++i) {
        close(out[i], (a[i] * a[i]) / std::sqrt(b[i] * b[i]), "expression with a root");
    }
    vf_reach("done");
}

#define M(N)                                                            \
    VF_ENTRY(quotient_##N) { quotient<N>(); }                           \
    VF_ENTRY(root_##N) { root<N>(); }                                   \
    VF_ENTRY(mixed_##N) { mixed<N>(); }
ARITIES(M)
