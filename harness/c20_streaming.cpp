// C20: a streaming_short_vec is a short_vec whose stores bypass the cache, and nothing else.
#include "sv.hpp"
#include <libflatarray/streaming_short_vec.hpp>
#include <libflatarray/estimate_optimum_short_vec_type.hpp>
#include <libflatarray/ilp_to_arity.hpp>

template<int N>
struct tests
{
    typedef short_vec<cargo, N> V;
    typedef streaming_short_vec<cargo, N> S;
    enum { A = V::strategy::template alignment<cargo>::ALIGNMENT, PAD = 128 / sizeof(cargo) };

    static void check(const cargo *dst, const cargo *expected, cargo guard, const char *msg)
    {
        same(dst, expected, N, msg);
        vf_check(bits(dst[-1]) == bits(guard) && bits(dst[N]) == bits(guard), "a store leaves its neighbours alone");
    }

    // all ways to fill one, all ways to store one, at every address with the alignment required
    static void move()
    {
        alignas(128) cargo out[N + 3 * PAD];
        std::size_t k = vf_pick("k", 0, 128 / A - 1);
        cargo *dst = out + PAD + k * (A / sizeof(cargo));
        exact<cargo> in(N);
        any_fill(in.p, N, "v");
        cargo guard = vf_any<cargo>("guard");
        cargo s = vf_any<cargo>("s");
        cargo all[N];
        for (int i = 0; i < N; ++i) {
            all[i] = s;
        }
        for (int i = 0; i < N; ++i) {
            dst[i] = guard;
        }
        dst[-1] = dst[N] = guard;
        S a(in.p);
        a.store(dst);
        check(dst, in.p, guard, "store");
        S b(s);
        b.store_aligned(dst);
        check(dst, all, guard, "store_aligned");
        S c;
        c.load(in.p);
        c.store_nt(dst);
        check(dst, in.p, guard, "store_nt");
        dst << b;
        check(dst, all, guard, "operator<<");
        S d = V(in.p);
        d.store(dst);
        check(dst, in.p, guard, "from a short_vec");
        S e = b;
        e.store(dst);
        check(dst, all, guard, "copied");
        e = d;
        e.store_aligned(dst);
        check(dst, in.p, guard, "assigned");
        V f = b;
        f.store(dst);
        check(dst, all, guard, "to a short_vec");
        e.load_aligned(dst);
        e.store(dst);
        check(dst, all, guard, "load_aligned");
        S g;
        g.store(dst);
        for (int i = 0; i < N; ++i) {
            all[i] = 0;
        }
        check(dst, all, guard, "default value");
        vf_check(S::size() == std::size_t(N) && S::ARITY == std::size_t(N), "arity");
        vf_reach("done");
    }

    // arithmetic mixes with ordinary vectors and scalars
    static void arithmetic()
    {
        alignas(128) cargo out[N];
        cargo a[N], b[N];
        any_fill(a, N, "a");
        any_fill(b, N, "b");
        cargo s = vf_any<cargo>("s");
        S x(a);
        V y(b);
        S z = x + y;
        z *= x;
        z = z - V(s);
        z -= y;
        z += x * x;
        z.store(out);
        for (int i = 0; i < N; ++i) {
            cargo e = (a[i] + b[i]);
            e *= a[i];
            e = e - s;
            e -= b[i];
            e += a[i] * a[i];
            vf_check_eq(out[i], e, "expression");
        }
        vf_reach("done");
    }
};

// the type selected for a kernel provides a vector for every accessor size
template<typename T, int PROD>
struct accessor
{
    typedef T element_type;
    static const std::size_t DIM_PROD = PROD;
};

template<int PROD>
void selected()
{
    typedef typename estimate_optimum_short_vec_type<cargo, accessor<double, PROD> >::VALUE V;
    enum { N = V::ARITY };
    // a loop over a whole number of vectors
    alignas(128) cargo out[3 * N + 2];
    cargo in[3 * N];
    any_fill(in, 3 * N, "v");
    cargo guard = vf_any<cargo>("guard");
    out[3 * N] = out[3 * N + 1] = guard;
    std::size_t n = 0;
    for (int i = 0; i < 3 * N; i += V::ARITY) {
        V v(in + i);
        v += v;
        v.store(out + i);
        n += V::ARITY;
    }
    vf_check(n == 3 * N, "elements");
    for (int i = 0; i < 3 * N; ++i) {
        vf_check_eq(out[i], in[i] + in[i], "kernel with the selected type");
    }
    vf_check(bits(out[3 * N]) == bits(guard) && bits(out[3 * N + 1]) == bits(guard), "stays within the range");
    // instruction level parallelism: as many vectors of the widest type side by side
    vf_check(ilp_to_arity<cargo, 2>::ARITY == 2 * ilp_to_arity<cargo, 1>::ARITY &&
             ilp_to_arity<cargo, 4>::ARITY == 4 * ilp_to_arity<cargo, 1>::ARITY &&
             ilp_to_arity<cargo, 1>::ARITY >= 1, "arities scale with the parallelism");
    vf_check(std::size_t(N) == ilp_to_arity<cargo, 2>::ARITY, "default unrolling");
    vf_reach("done");
}

#define M(N)                                                            \
    VF_ENTRY(move_##N) { tests<N>::move(); }
ARITIES(M)
#undef M
#ifndef CARGO_INT
#define M(N)                                                            \
    VF_ENTRY(arithmetic_##N) { tests<N>::arithmetic(); }
ARITIES(M)
#undef M
VF_ENTRY(selected_small) { selected<1024>(); }
VF_ENTRY(selected_edge) { selected<(1 << 25) / 8 - 1>(); }
VF_ENTRY(selected_large) { selected<(1 << 25)>(); }
#endif
