// C14: construction, loads and stores of vectors move exactly ARITY elements, bit by bit.
#include "sv.hpp"

template<int N>
struct move_tests
{
    typedef short_vec<cargo, N> V;

    static void load_store()
    {
        // exactly as many elements as there are lanes, arbitrarily aligned
        exact<cargo> in(N), out(N + 2);
        any_fill(in.p, N, "v");
        cargo guard = vf_any<cargo>("guard");
        out.p[0] = out.p[N + 1] = guard;
        V v;
        v.load(in.p);
        v.store(out.p + 1);
        same(out.p + 1, in.p, N, "load followed by store");
        vf_check(bits(out.p[0]) == bits(guard) && bits(out.p[N + 1]) == bits(guard), "a store leaves its neighbours alone");
        // from an odd address
        exact<cargo> in2(N + 1);
        any_fill(in2.p, N + 1, "w");
        V w(in2.p + 1);
        out.p[0] = out.p[N + 1] = guard;
        out.p + 1 << w;
        same(out.p + 1, in2.p + 1, N, "pointer construction followed by operator<<");
        vf_check(bits(out.p[0]) == bits(guard) && bits(out.p[N + 1]) == bits(guard), "a store leaves its neighbours alone");
        // the vectors are values
        V x = v;
        v.load(in2.p);
        x.store(out.p);
        same(out.p, in.p, N, "copy of a vector");
        x = w;
        x.store(out.p + 2);
        same(out.p + 2, in2.p + 1, N, "assigned vector");
        vf_check(V::size() == std::size_t(N) && V::ARITY == std::size_t(N), "arity");
        vf_reach("done");
    }

    static void broadcast()
    {
        cargo s = vf_any<cargo>("s");
        cargo expected[N], out[N];
        for (int i = 0; i < N; ++i) {
            expected[i] = s;
        }
        V v(s);
        v.store(out);
        same(out, expected, N, "broadcast");
        V w;
        w.store(out);
        for (int i = 0; i < N; ++i) {
            expected[i] = 0;
        }
        same(out, expected, N, "default value");
        w = s;
        w.store(out);
        vf_check(bits(out[N - 1]) == bits(s) && bits(out[0]) == bits(s), "broadcast by assignment");
        vf_reach("done");
    }

    // aligned to what the type asks for, and to nothing more
    static void aligned()
    {
        const std::size_t A = V::strategy::template alignment<cargo>::ALIGNMENT;
        static_assert(A >= sizeof(cargo) && (A & (A - 1)) == 0, "");
        alignas(128) cargo in[N + 128 / sizeof(cargo)];
        alignas(128) cargo out[N + 256 / sizeof(cargo)];
        std::size_t k = vf_pick("k", 0, 128 / A - 1), m = vf_pick("m", 0, 128 / A - 1);
        cargo *src = in + k * (A / sizeof(cargo)), *dst = out + m * (A / sizeof(cargo)) + A / sizeof(cargo);
        any_fill(src, N, "v");
        cargo guard = vf_any<cargo>("guard");
        V v;
        v.load_aligned(src);
        dst[-1] = dst[N] = guard;
        v.store_aligned(dst);
        same(dst, src, N, "aligned load and store");
        vf_check(bits(dst[-1]) == bits(guard) && bits(dst[N]) == bits(guard), "a store leaves its neighbours alone");
        for (int i = 0; i < N; ++i) {
            dst[i] = guard;
        }
        v.store_nt(dst);
        same(dst, src, N, "streaming store");
        vf_check(bits(dst[-1]) == bits(guard) && bits(dst[N]) == bits(guard), "a store leaves its neighbours alone");
        for (int i = 0; i < N; ++i) {
            dst[i] = guard;
        }
        v.store(dst);
        same(dst, src, N, "store of an aligned load");
        vf_reach("done");
    }
};

#define M(N)                                                            \
    VF_ENTRY(load_store_##N) { move_tests<N>::load_store(); }           \
    VF_ENTRY(broadcast_##N) { move_tests<N>::broadcast(); }             \
    VF_ENTRY(aligned_##N) { move_tests<N>::aligned(); }
ARITIES(M)
#undef M

#if !defined(CARGO_INT)
template<int N>
void element()
{
    exact<cargo> in(N);
    any_fill(in.p, N, "v");
    short_vec<cargo, N> v(in.p);
    std::size_t i = vf_index("i", 0, N - 1);
    vf_check(bits(v[int(i)]) == bits(in.p[i]), "element access");
    vf_check(bits(get(v, int(i))) == bits(in.p[i]), "element access by get()");
    vf_reach("done");
}
#define M(N) VF_ENTRY(element_##N) { element<N>(); }
ARITIES(M)
#undef M
#endif

#ifdef LIBFLATARRAY_WITH_CPP14
// initializer lists; their elements are arbitrary as well
#define V1(P) vf_any<cargo>(#P)
#define LIST1 e[0]
#define LIST2 LIST1, e[1]
#define LIST4 LIST2, e[2], e[3]
#define LIST8 LIST4, e[4], e[5], e[6], e[7]
#define LIST16 LIST8, e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15]
#define LIST32 LIST16, e[16], e[17], e[18], e[19], e[20], e[21], e[22], e[23], \
        e[24], e[25], e[26], e[27], e[28], e[29], e[30], e[31]
#define IL(N)                                                           \
    VF_ENTRY(list_##N)                                                  \
    {                                                                   \
        cargo e[32], out[N];                                            \
        any_fill(e, 32, "e");                                           \
        std::initializer_list<cargo> il = { LIST##N };                  \
        short_vec<cargo, N> v(il);                                      \
        v.store(out);                                                   \
        same(out, e, N, "initializer list");                            \
        std::initializer_list<cargo> more = { LIST32 };                 \
        short_vec<cargo, N> w(more);                                    \
        w.store(out);                                                   \
        same(out, e, N, "longer initializer list");                     \
        short_vec<cargo, N> x;                                          \
        x = { LIST32 };                                                 \
        x.store(out);                                                   \
        same(out, e, N, "longer initializer list");                     \
        vf_reach("done");                                               \
    }
ARITIES(IL)
#endif
