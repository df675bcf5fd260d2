// C09: soa_array is a sequence with fixed capacity.
#include "cells.hpp"

template<typename CELL, int CAP>
struct seq
{
    CELL e[CAP + 1];
    std::size_t n;
    seq() : n(0) {}
};

template<typename CELL, typename ARRAY>
void read(const ARRAY& a, std::size_t i, const CELL& expected, const char *msg)
{
    CELL c;
    a[int(i)] >> c;
    c.check(expected, msg);
}

// cheap part, run after every step
template<typename CELL, int CAP>
void quick(soa_array<CELL, CAP>& a, const seq<CELL, CAP>& m)
{
    const soa_array<CELL, CAP>& ro = a;
    vf_check(ro.size() == m.n, "size");
    vf_check(ro.size() <= std::size_t(CAP), "size stays within the capacity");
    vf_check(ro.capacity() == std::size_t(CAP), "capacity");
    vf_check(ro.byte_size() == m.n * aggregated_member_size<CELL>::VALUE, "byte size follows the number of elements");
    if (m.n) {
        CELL c;
        a.back() >> c;
        c.check(m.e[m.n - 1], "last element");
    }
}

template<typename CELL, int CAP>
void verify(soa_array<CELL, CAP>& a, const seq<CELL, CAP>& m)
{
    quick(a, m);
    const soa_array<CELL, CAP>& ro = a;
    for (std::size_t i = 0; i < m.n; ++i) {
        read<CELL>(ro, i, m.e[i], "element");
    }
    // traversal
    std::size_t k = 0;
    for (typename soa_array<CELL, CAP>::iterator i = a.begin(); i != a.end(); ++i) {
        vf_check(k < m.n, "traversal ends after the last element");
        vf_check((i == a[int(k)]) & (i == a.at(int(k))) & (i == a.at(std::size_t(k))), "traversal visits the elements in order");
        vf_check(ro.at(int(k)).data() == ro[int(k)].data() && ro.at(std::size_t(k)).index() == ro[int(k)].index() &&
                 ro.at(int(k)).index() == ro[int(k)].index(), "const access reaches the same element");
        vf_check(ro[int(k)].data() == a.data() && ro[int(k)].index() == i.index(), "const access reaches the same element");
        ++k;
    }
    vf_check(k == m.n, "traversal visits all elements");
}

template<typename CELL, int CAP>
void history(std::size_t start, int steps)
{
    typedef soa_array<CELL, CAP> array;
    seq<CELL, CAP> m;
    CELL init = CELL::any();
    array a(start, init);
    for (std::size_t i = 0; i < start; ++i) {
        m.e[i] = init;
    }
    m.n = start;
    verify(a, m);
    for (int s = 0; s < steps; ++s) {
        unsigned op = vf_u8("op");
        vf_assume(op < 6);
        CELL v = CELL::any();
        switch (op) {
        case 0:
        case 1: {
            bool ok = true;
            try {
                if (op) {
                    a.push_back(v);
                } else {
                    a << v;
                }
            } catch (const std::out_of_range&) {
                ok = false;
            }
            vf_check(ok == (m.n < std::size_t(CAP)), "push is refused exactly if the array is full");
            if (ok) {
                m.e[m.n++] = v;
            }
            break;
        }
        case 2: {
            bool ok = true;
            try {
                a.pop_back();
            } catch (const std::out_of_range&) {
                ok = false;
            }
            vf_check(ok == (m.n > 0), "pop is refused exactly if the array is empty");
            if (ok) {
                --m.n;
            }
            break;
        }
        case 3:
            a.clear();
            m.n = 0;
            break;
        case 4:
            if (m.n) {
                std::size_t i = vf_index("i", 0, m.n - 1);
                a[int(i)] = v;
                for (std::size_t k = 0; k < m.n; ++k) {
                    m.e[k].assign_if(k == i, v);
                }
            }
            break;
        case 5:
            if (m.n) {
                std::size_t i = vf_index("i", 0, m.n - 1);
                a.at(i) << v;
                for (std::size_t k = 0; k < m.n; ++k) {
                    m.e[k].assign_if(k == i, v);
                }
            }
            break;
        }
        quick(a, m);
    }
    verify(a, m);
    vf_reach("done");
}

// any initial size is either honoured or refused
template<typename CELL, int CAP>
void construct()
{
    std::size_t n = vf_u64("n");
    CELL v = CELL::any();
    bool ok = true;
    try {
        soa_array<CELL, CAP> a(n, v);
        vf_check(a.size() == n, "size");
        std::size_t i = vf_u64("i");
        vf_assume(i < n);
        read<CELL>(a, i, v, "element");
        vf_reach("accepted");
    } catch (const std::out_of_range&) {
        ok = false;
    }
    vf_check(ok == (n <= std::size_t(CAP)), "exactly the sizes within the capacity are accepted");
    vf_reach("done");
}

template<typename CELL, int CAP>
void construct_default()
{
    soa_array<CELL, CAP> a;
    vf_check(a.size() == 0 && a.byte_size() == 0, "a default array is empty");
    std::size_t n = vf_index("n", 0, CAP);
    soa_array<CELL, CAP> b(n);
    vf_check(b.size() == n, "size");
    for (std::size_t i = 0; i < n; ++i) {
        read<CELL>(b, i, CELL(), "default element");
    }
    vf_reach("done");
}

// the members live in the array's own memory, in SoA order
VF_ENTRY(layout)
{
    soa_array<Uni1Cell, 6> a(6);
    std::size_t i = vf_index("i", 0, 5);
    std::size_t b = reinterpret_cast<std::size_t>(a.data());
    vf_check(reinterpret_cast<std::size_t>(&a[int(i)].l()) == b + i * 8, "members of neighbouring elements are adjacent");
    vf_check(reinterpret_cast<std::size_t>(&a[int(i)].c()) == b + 6 * 8 + i, "members of neighbouring elements are adjacent");
    vf_check(reinterpret_cast<std::size_t>(&a[int(i)].w<0>()) == b + 6 * 9 + i * 4, "members of neighbouring elements are adjacent");
    vf_check(reinterpret_cast<std::size_t>(&a[int(i)].w<1>()) == b + 6 * 13 + i * 4, "members of neighbouring elements are adjacent");
    vf_check(b >= reinterpret_cast<std::size_t>(&a) && b + 6 * 17 <= reinterpret_cast<std::size_t>(&a + 1),
             "members live inside of the array object");
    const std::size_t SIZE = soa_array<Uni1Cell, 6>::SIZE, BYTES = soa_array<Uni1Cell, 6>::BYTE_SIZE;
    vf_check(SIZE == 6 && BYTES == 6 * 17, "advertised sizes");
    vf_reach("done");
}

#define STEPS (VF_TIER ? 4 : 3)
VF_ENTRY(history_uni1_0) { history<Uni1Cell, 2>(0, STEPS); }
VF_ENTRY(history_uni1_1) { history<Uni1Cell, 2>(1, STEPS); }
VF_ENTRY(history_uni1_3) { history<Uni1Cell, 5>(3, VF_TIER ? 3 : 2); }
VF_ENTRY(history_uni1_5) { history<Uni1Cell, 5>(5, VF_TIER ? 3 : 2); }
VF_ENTRY(history_mix) { history<MixCell, 3>(2, STEPS); }
VF_ENTRY(history_one) { history<Uni3Cell, 1>(0, STEPS); }
VF_ENTRY(history_priv) { history<Uni2Cell, 3>(2, STEPS); }
VF_ENTRY(history_def) { history<DefCell, 4>(3, VF_TIER ? 3 : 2); }
VF_ENTRY(construct_uni1) { construct<Uni1Cell, 5>(); }
VF_ENTRY(construct_mix) { construct<MixCell, 4>(); }
VF_ENTRY(construct_def) { construct_default<Uni1Cell, 5>(); }
VF_ENTRY(construct_def_mix) { construct_default<MixCell, 3>(); }
