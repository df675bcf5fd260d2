// C18: gather and scatter address exactly the elements named by the offsets.
#include "sv.hpp"

enum { LO = 3, HI = 4, W = LO + HI };

// AVX512 float vectors insist (by assertion) on aligned arrays of offsets, nobody else does
template<int N>
struct skew
{
    enum {
        VALUE = !(std::is_same<typename short_vec<cargo, N>::strategy, short_vec_strategy::avx512f>::value &&
                  std::is_same<cargo, float>::value)
    };
};

template<int N>
struct fixture
{
    cargo block[W + 2];
    alignas(64) int space[N + 1];
    int *offsets;
    int copy[N];

    fixture() : offsets(space + skew<N>::VALUE)
    {
        any_fill(block, W + 2, "m");
        for (int i = 0; i < N; ++i) {
            int o = (int)vf_u32("o");
            vf_assume(o >= -LO && o < HI);
            offsets[i] = o;
            copy[i] = o;
        }
    }

    void check_offsets()
    {
        same(offsets, copy, N, "the offsets are left alone");
    }
};

// offsets of either sign, in any order, with duplicates
template<int N>
void gather()
{
    typedef short_vec<cargo, N> V;
    fixture<N> f;
    cargo before[W + 2], out[N];
    for (int i = 0; i < W + 2; ++i) {
        before[i] = f.block[i];
    }
    V v(cargo(7));
    v.gather(f.block + 1 + LO, f.offsets);
    v.store(out);
    for (int i = 0; i < N; ++i) {
        vf_check(bits(out[i]) == bits(before[1 + LO + f.copy[i]]), "gathered lane");
    }
    same(f.block, before, W + 2, "gathering writes nothing");
    f.check_offsets();
    vf_reach("done");
}

// duplicates: the highest lane wins, as in a loop
template<int N>
void scatter()
{
    typedef short_vec<cargo, N> V;
    fixture<N> f;
    cargo expected[W + 2], in[N], out[N];
    for (int i = 0; i < W + 2; ++i) {
        expected[i] = f.block[i];
    }
    any_fill(in, N, "v");
    V v(in);
    v.scatter(f.block + 1 + LO, f.offsets);
    for (int i = 0; i < N; ++i) {
        expected[1 + LO + f.copy[i]] = in[i];
    }
    for (int i = 0; i < W + 2; ++i) {
        vf_check(bits(f.block[i]) == bits(expected[i]), "memory after the scatter");
    }
    v.store(out);
    same(out, in, N, "scattering leaves the vector alone");
    f.check_offsets();
    vf_reach("done");
}

// a scatter followed by a gather with pairwise different offsets restores the vector
template<int N>
void distant()
{
    typedef short_vec<cargo, N> V;
    enum { S = 40 };
    static cargo block[N * S + 1];
    alignas(64) int space[N + 1];
    int *offsets = space + skew<N>::VALUE;
    cargo in[N], out[N];
    int r = (int)vf_index("r", 0, S - 1);
    for (int i = 0; i < N; ++i) {
        // a permutation of the lanes, centred around the base
        offsets[i] = ((i * 5 + 3) % N - N / 2) * S + r;
    }
    any_fill(in, N, "v");
    V v(in);
    v.scatter(block + (N / 2) * S, offsets);
    V w(cargo(0));
    w.gather(block + (N / 2) * S, offsets);
    w.store(out);
    for (int i = 0; i < N; ++i) {
        vf_check(bits(out[i]) == bits(in[i]), "gathered after scattering");
        vf_check(bits(block[((i * 5 + 3) % N) * S + r]) == bits(in[i]), "element written");
    }
    vf_reach("done");
}

// offsets all over the range of int
template<int N>
void far()
{
    typedef short_vec<cargo, N> V;
    static const int MENU[] = { 0, 1 << 28, -(1 << 28), 1 << 29, -(1 << 29), 0x7fffff00, (int)0x80000000, 1 << 30, -(1 << 30), 65536 };
    enum { K = sizeof(MENU) / sizeof(int) };
    const std::size_t HALF = std::size_t(1) << 31;
    cargo *block = (cargo*)vf_huge(2 * HALF * sizeof(cargo)), *base = block + HALF;
    alignas(64) int offsets[N];
    cargo in[N], out[N];
    std::size_t r = vf_pick("r", 0, K - 1);
    for (int i = 0; i < N; ++i) {
        offsets[i] = MENU[(i + r) % K] + i;
    }
    any_fill(in, N, "v");
    V v(in);
    v.scatter(base, offsets);
    for (int i = 0; i < N; ++i) {
        vf_check(bits(base[(long)MENU[(i + r) % K] + i]) == bits(in[i]), "element written");
    }
    any_fill(in, N, "w");
    for (int i = 0; i < N; ++i) {
        base[(long)MENU[(i + r) % K] + i] = in[i];
    }
    V w(cargo(0));
    w.gather(base, offsets);
    w.store(out);
    for (int i = 0; i < N; ++i) {
        vf_check(bits(out[i]) == bits(in[i]), "gathered lane");
    }
    vf_reach("done");
}

#define M(N)                                                            \
    VF_ENTRY(gather_##N) { gather<N>(); }                               \
    VF_ENTRY(scatter_##N) { scatter<N>(); }                             \
    VF_ENTRY(distant_##N) { distant<N>(); }                             \
    VF_ENTRY(far_##N) { far<N>(); }
ARITIES(M)
