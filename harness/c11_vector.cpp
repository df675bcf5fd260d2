// C11: soa_vector behaves like a sequence container.
#include "cells.hpp"

#define MAXN 24
template<typename CELL>
struct model
{
    CELL e[MAXN];
    std::size_t n;
};

struct extents
{
    std::size_t *s;
    template<typename CELL, long X, long Y, long Z, long I>
    void operator()(soa_accessor<CELL, X, Y, Z, I>& acc)
    {
        s[0] = X;
        s[1] = Y;
        s[2] = Z;
        s[3] += acc.index() == 0;
    }
};

// reads element i by means of the callback
template<typename CELL>
struct reader
{
    std::size_t i;
    CELL *out;
    template<long X, long Y, long Z, long I>
    void operator()(soa_accessor<CELL, X, Y, Z, I>& acc)
    {
        acc += i;
        acc >> *out;
    }
};

template<typename CELL>
void verify(soa_vector<CELL>& v, const model<CELL>& m)
{
    const soa_vector<CELL>& ro = v;
    vf_check(ro.size() == m.n, "size");
    vf_check(ro.empty() == (m.n == 0), "emptiness");
    vf_check(ro.capacity() >= m.n, "the capacity covers the size");
    for (std::size_t i = 0; i < m.n; ++i) {
        ro.get(i).check(m.e[i], "element");
    }
    std::size_t s[4] = { 0, 0, 0, 0 };
    extents f = { s };
    v.callback(f);
    vf_check(s[0] >= m.n && s[0] >= ro.capacity() && s[1] == 1 && s[2] == 1 && s[3] == 1, "callback exposes the storage of all elements");
    if (m.n) {
        CELL c;
        reader<CELL> r = { m.n - 1, &c };
        ro.callback(r);
        c.check(m.e[m.n - 1], "element seen through callback");
    }
}

template<typename CELL>
void history(std::size_t start, bool filled, int steps, std::size_t maxr)
{
    {
        model<CELL> m;
        m.n = start;
        CELL init;
        if (filled) {
            init = CELL::any();
        }
        for (std::size_t i = 0; i < start; ++i) {
            m.e[i] = init;
        }
        soa_vector<CELL> v1(filled ? 0 : start), v2(filled ? start : 0, init);
        soa_vector<CELL>& v = filled ? v2 : v1;
        verify(v, m);
        for (int s = 0; s < steps; ++s) {
            unsigned op = vf_u8("op");
            vf_assume(op < 11);
            CELL c = CELL::any();
            switch (op) {
            case 0:
                v.push_back(c);
                m.e[m.n++] = c;
                break;
            case 1:
                if (m.n) {
                    v.pop_back();
                    --m.n;
                }
                break;
            case 2:
                v.clear();
                m.n = 0;
                break;
            case 3:
                if (m.n) {
                    std::size_t i = vf_index("i", 0, m.n - 1);
                    v.set(i, c);
                    for (std::size_t k = 0; k < m.n; ++k) {
                        m.e[k].assign_if(k == i, c);
                    }
                }
                break;
            case 4: {
                std::size_t r = vf_pick("r", 0, maxr);
                v.reserve(r);
                vf_check(v.capacity() >= r, "reserve provides the requested capacity");
                break;
            }
            case 5: {
                std::size_t r = vf_pick("n", 0, maxr);
                v.resize(r);
                for (std::size_t i = m.n; i < r; ++i) {
                    m.e[i] = CELL();
                }
                m.n = r;
                break;
            }
            case 6: {
                soa_vector<CELL> w(v);
                verify(w, m);
                w.push_back(c);
                vf_check(w.size() == m.n + 1, "size");
                break;
            }
            case 7: {
                soa_vector<CELL> w(2, c);
                w = v;
                verify(w, m);
                if (m.n) {
                    w.set(0, c);
                }
                break;
            }
            case 8: {
                // elements of the vector itself
                if (m.n) {
                    CELL e = v.get(m.n - 1);
                    v.push_back(e);
                    m.e[m.n] = m.e[m.n - 1];
                    ++m.n;
                }
                break;
            }
            case 9:
                // several insertions in a row
                for (int k = 0; k < 3; ++k) {
                    v.push_back(c);
                    m.e[m.n++] = c;
                }
                break;
            case 10:
                v.emplace_back(c);
                m.e[m.n++] = c;
                break;
            }
            verify(v, m);
        }
        vf_reach("done");
    }
    vf_check(vf_live_allocs() == 0, "all storage is returned");
}

// capacity never shrinks while elements are added
template<typename CELL>
void growth(int n)
{
    soa_vector<CELL> v;
    CELL first = CELL::any();
    std::size_t cap = v.capacity();
    for (int i = 0; i < n; ++i) {
        CELL c = CELL::any();
        v.push_back(i ? c : first);
        vf_check(v.capacity() >= cap, "the capacity does not shrink");
        cap = v.capacity();
        vf_check(v.size() == std::size_t(i + 1) && cap >= v.size(), "size");
        v.get(0).check(first, "element");
        if (i) {
            v.get(i).check(c, "element");
        }
    }
    vf_reach("done");
}

#define S(A, B) (VF_TIER ? A : B)
#if defined(PART_A)
VF_ENTRY(history_0) { history<Uni1Cell>(0, false, S(3, 2), S(5, 4)); }
VF_ENTRY(history_2f) { history<Uni1Cell>(2, true, S(3, 2), 4); }
VF_ENTRY(history_3) { history<Uni1Cell>(3, false, 2, 5); }
#elif defined(PART_B)
VF_ENTRY(history_3f) { history<Uni1Cell>(3, true, 2, 6); }
VF_ENTRY(history_4f) { history<Uni1Cell>(4, true, 2, 9); }
VF_ENTRY(growth_uni1) { growth<Uni1Cell>(14); }
#else
VF_ENTRY(history_def1) { history<Def1Cell>(1, true, 3, 3); }
VF_ENTRY(growth_def1) { growth<Def1Cell>(36); }
VF_ENTRY(growth_def) { growth<DefCell>(34); }
#endif
