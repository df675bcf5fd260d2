// C15: floating-point arithmetic of vectors is the lane-wise arithmetic of the element type.
#include "sv.hpp"

template<int N, typename OP>
void binary(OP op, const char *msg)
{
    typedef short_vec<cargo, N> V;
    cargo a[N], b[N], out[N], ain[N], bin[N];
    any_fill(a, N, "a");
    any_fill(b, N, "b");
    V v(a), w(b);
    V r = op(v, w);
    r.store(out);
    for (int i = 0; i < N; ++i) {
        vf_check_eq(out[i], op(a[i], b[i]), msg);
    }
    v.store(ain);
    w.store(bin);
    same(ain, a, N, "operands are left alone");
    same(bin, b, N, "operands are left alone");
    // scalar on the left side
    cargo s = vf_any<cargo>("s");
    V l = op(s, w);
    l.store(out);
    for (int i = 0; i < N; ++i) {
        vf_check_eq(out[i], op(s, b[i]), msg);
    }
    // and on the right
    V q = op(v, V(s));
    q.store(out);
    for (int i = 0; i < N; ++i) {
        vf_check_eq(out[i], op(a[i], s), msg);
    }
    vf_reach("done");
}

template<int N, typename OP>
void compound(OP op, const char *msg)
{
    typedef short_vec<cargo, N> V;
    cargo a[N], b[N], out[N];
    any_fill(a, N, "a");
    any_fill(b, N, "b");
    V v(a), w(b);
    op(v, w);
    v.store(out);
    for (int i = 0; i < N; ++i) {
        cargo e = a[i];
        op(e, b[i]);
        vf_check_eq(out[i], e, msg);
    }
    w.store(out);
    same(out, b, N, "the right operand is left alone");
    // with itself
    V u(a);
    op(u, u);
    u.store(out);
    for (int i = 0; i < N; ++i) {
        cargo e = a[i];
        op(e, a[i]);
        vf_check_eq(out[i], e, msg);
    }
    vf_reach("done");
}

struct add { template<typename A, typename B> auto operator()(A a, B b) -> decltype(a + b) { return a + b; } };
struct sub { template<typename A, typename B> auto operator()(A a, B b) -> decltype(a - b) { return a - b; } };
struct mul { template<typename A, typename B> auto operator()(A a, B b) -> decltype(a * b) { return a * b; } };
struct div_ { template<typename A, typename B> auto operator()(A a, B b) -> decltype(a / b) { return a / b; } };
struct adds { template<typename A> void operator()(A& a, const A& b) { a += b; } };
struct subs { template<typename A> void operator()(A& a, const A& b) { a -= b; } };
struct muls { template<typename A> void operator()(A& a, const A& b) { a *= b; } };
struct divs { template<typename A> void operator()(A& a, const A& b) { a /= b; } };

#define M(N)                                                            \
    VF_ENTRY(add_##N) { binary<N>(add(), "sum"); }                      \
    VF_ENTRY(sub_##N) { binary<N>(sub(), "difference"); }               \
    VF_ENTRY(mul_##N) { binary<N>(mul(), "product"); }                  \
    VF_ENTRY(adds_##N) { compound<N>(adds(), "sum"); }                  \
    VF_ENTRY(subs_##N) { compound<N>(subs(), "difference"); }           \
    VF_ENTRY(muls_##N) { compound<N>(muls(), "product"); }
ARITIES(M)
#undef M

// division and square roots of doubles are exact; those of floats may be estimated (C19)
#if defined(CARGO_DOUBLE)
#define M(N)                                                            \
    VF_ENTRY(div_##N) { binary<N>(div_(), "quotient"); }                \
    VF_ENTRY(divs_##N) { compound<N>(divs(), "quotient"); }
ARITIES(M)
#undef M
#endif

// the square root itself is exact for both types
template<int N>
void root()
{
    typedef short_vec<cargo, N> V;
    cargo a[N], out[N];
    any_fill(a, N, "a");
    V v(a);
    V r = v.sqrt();
    r.store(out);
    for (int i = 0; i < N; ++i) {
        vf_check_eq(out[i], std::sqrt(a[i]), "square root");
    }
    V s = sqrt(v);
    s.store(out);
    for (int i = 0; i < N; ++i) {
        vf_check_eq(out[i], std::sqrt(a[i]), "square root");
    }
    v.store(out);
    same(out, a, N, "operands are left alone");
    vf_reach("done");
}

// nested expressions
template<int N>
void nested()
{
    typedef short_vec<cargo, N> V;
    cargo a[N], b[N], c[N], out[N];
    any_fill(a, N, "a");
    any_fill(b, N, "b");
    any_fill(c, N, "c");
    V x(a), y(b), z(c);
    V r = (x + y) * (z - x) + y * y * cargo(0.25);
    r -= x;
    r.store(out);
    for (int i = 0; i < N; ++i) {
        cargo e = (a[i] + b[i]) * (c[i] - a[i]) + b[i] * b[i] * cargo(0.25);
        e -= a[i];
        vf_check_eq(out[i], e, "expression");
    }
    vf_reach("done");
}
#define M(N)                                                            \
    VF_ENTRY(root_##N) { root<N>(); }                                   \
    VF_ENTRY(nested_##N) { nested<N>(); }
ARITIES(M)
#undef M
