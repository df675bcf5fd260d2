// C17: comparisons, masks and blending.
#include "sv.hpp"

template<typename A> inline bool truth(A a) { return a != A(0); }

// the mask of a comparison has exactly those lanes set for which the comparison of the elements holds
template<int N, typename OP>
void compare(OP op)
{
    typedef short_vec<cargo, N> V;
    cargo a[N], b[N], out[N];
    any_fill(a, N, "a");
    any_fill(b, N, "b");
    V v(a), w(b);
    typename V::mask_type m = op(v, w);
    bool some = false;
    for (int i = 0; i < N; ++i) {
        bool e = op(a[i], b[i]);
        vf_check(truth(get(m, i)) == e, "lanes of the mask");
        some |= e;
    }
    vf_check(bool(any(m)) == some, "any lane set");
    v.store(out);
    same(out, a, N, "operands are left alone");
    w.store(out);
    same(out, b, N, "operands are left alone");
    vf_reach("done");
}

#ifndef CARGO_INT
// merging two vectors under a mask: lane by lane, bit by bit
template<int N, typename OP>
void merge(OP op)
{
    typedef short_vec<cargo, N> V;
    cargo a[N], b[N], x[N], y[N], out[N], out2[N];
    any_fill(a, N, "a");
    any_fill(b, N, "b");
    any_fill(x, N, "x");
    any_fill(y, N, "y");
    V v(a), w(b), vx(x), vy(y);
    typename V::mask_type m = op(v, w);
    V r = blend(vx, vy, m);
    r.store(out);
    V q(x);
    q.blend(m, vy);
    q.store(out2);
    for (int i = 0; i < N; ++i) {
        std::uint64_t e = vf_select(op(a[i], b[i]), bits(y[i]), bits(x[i]));
        vf_check(bits(out[i]) == e, "lanes after the free blend");
        vf_check(bits(out2[i]) == e, "lanes after the member blend");
    }
    vx.store(out);
    same(out, x, N, "operands are left alone");
    vy.store(out);
    same(out, y, N, "operands are left alone");
    vf_reach("done");
}

// number of lanes set
template<int N>
void count()
{
    typedef short_vec<cargo, N> V;
    cargo a[N], b[N];
    any_fill(a, N, "a");
    any_fill(b, N, "b");
    V v(a), w(b);
    typename V::mask_type m = (v < w);
    std::size_t n = count_mask<cargo, N>(m);
    std::size_t e = 0;
    for (int i = 0; i < N; ++i) {
        e += vf_select(a[i] < b[i], 1, 0);
    }
    vf_check(n == e, "number of lanes set");
    vf_reach("done");
}

// lane access and test for non-zero lanes of ordinary vectors
template<int N>
void element()
{
    typedef short_vec<cargo, N> V;
    cargo a[N], out[N];
    any_fill(a, N, "a");
    bool some = false, minus = false;
    for (int i = 0; i < N; ++i) {
        some |= bits(a[i]) != 0;
        minus |= bits(a[i]) == bits(-cargo(0));
        out[i] = a[i];
    }
    V v(a);
    int k = (int)vf_index("k", 0, N - 1);
    cargo x = v[k];
    cargo y = get(v, k);
    vf_check(bits(x) == bits(out[k]), "element access");
    vf_check(bits(y) == bits(out[k]), "element access by get()");
    vf_assume(!minus);
    vf_check(bool(any(v)) == some, "any() of a vector without negative zeros");
    vf_check(bool(v.any()) == some, "any() of a vector without negative zeros");
    vf_reach("done");
}
#endif

struct lt { template<typename A> auto operator()(const A& a, const A& b) -> decltype(a < b) { return a < b; } };
struct le { template<typename A> auto operator()(const A& a, const A& b) -> decltype(a <= b) { return a <= b; } };
struct eq { template<typename A> auto operator()(const A& a, const A& b) -> decltype(a == b) { return a == b; } };
struct gt { template<typename A> auto operator()(const A& a, const A& b) -> decltype(a > b) { return a > b; } };
struct ge { template<typename A> auto operator()(const A& a, const A& b) -> decltype(a >= b) { return a >= b; } };

#define CMP(N)                                                          \
    VF_ENTRY(lt_##N) { compare<N>(lt()); }                              \
    VF_ENTRY(le_##N) { compare<N>(le()); }                              \
    VF_ENTRY(eq_##N) { compare<N>(eq()); }                              \
    VF_ENTRY(gt_##N) { compare<N>(gt()); }                              \
    VF_ENTRY(ge_##N) { compare<N>(ge()); }
#ifdef CARGO_INT
// only the single lane int vector can be compared
CMP(1)
#else
#define M(N)                                                            \
    CMP(N)                                                              \
    VF_ENTRY(blend_lt_##N) { merge<N>(lt()); }                          \
    VF_ENTRY(blend_ge_##N) { merge<N>(ge()); }                          \
    VF_ENTRY(blend_eq_##N) { merge<N>(eq()); }                          \
    VF_ENTRY(count_##N) { count<N>(); }                                 \
    VF_ENTRY(element_##N) { element<N>(); }
ARITIES(M)
#endif
