// C23: a short_vec is printed as the bracketed list of its lanes.
#include "sv.hpp"
#include <ostream>

template<typename V>
void print(int n)
{
    alignas(64) cargo in[32];
    any_fill(in, n, "v");
    for (int i = 0; i < n; ++i) {
        vf_assume(in[i] == in[i]);
    }
    V v(in);
    std::ostream& os = *vf_os();
    os << v;
    vf_os_lanes(in, n, "printed lane");
    alignas(64) cargo out[32];
    v.store(out);
    same(in, out, n, "printing leaves the vector alone");
    vf_reach("done");
}

#define M(N)                                                            \
    VF_ENTRY(print_##N) { print<short_vec<cargo, N> >(N); }             \
    VF_ENTRY(streaming_##N) { print<streaming_short_vec<cargo, N> >(N); }
ARITIES(M)
