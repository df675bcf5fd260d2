// C10: exchange of data between soa_arrays of the same and of different capacity.
#include "cells.hpp"

template<typename CELL, int CAP>
void fill(soa_array<CELL, CAP>& a, CELL *m, std::size_t n)
{
    for (std::size_t i = 0; i < n; ++i) {
        m[i] = CELL::any();
        a.push_back(m[i]);
    }
}

template<typename CELL, int CAP>
void verify(const soa_array<CELL, CAP>& a, const CELL *m, std::size_t n, const char *msg)
{
    vf_check(a.size() == n, msg);
    for (std::size_t i = 0; i < n; ++i) {
        CELL c;
        a[int(i)] >> c;
        c.check(m[i], msg);
    }
}

enum { CTOR, CTOR_CONST, ASSIGN, ASSIGN_CONST, MODES };

// source of capacity FROM, target of capacity TO
template<typename CELL, int FROM, int TO>
void transfer()
{
    std::size_t n = vf_pick("n", 0, FROM);
    std::size_t k = vf_pick("k", 0, TO);
    soa_array<CELL, FROM> src;
    CELL m[FROM];
    fill(src, m, n);
    const soa_array<CELL, FROM>& ro = src;
    unsigned mode = vf_u8("mode");
    vf_assume(mode < MODES);
    bool ok = true;
    if (mode == CTOR || mode == CTOR_CONST) {
        try {
            if (mode == CTOR) {
                soa_array<CELL, TO> t(src);
                verify(t, m, n, "content of a copy");
                // independence
                t.clear();
                while (t.size() < std::size_t(TO)) {
                    t.push_back(CELL::any());
                }
            } else {
                soa_array<CELL, TO> t(ro);
                verify(t, m, n, "content of a copy");
                t.clear();
                while (t.size() < std::size_t(TO)) {
                    t.push_back(CELL::any());
                }
            }
        } catch (const std::out_of_range&) {
            ok = false;
        }
    } else {
        soa_array<CELL, TO> t;
        CELL old[TO];
        fill(t, old, k);
        try {
            if (mode == ASSIGN) {
                t = src;
            } else {
                t = ro;
            }
        } catch (const std::out_of_range&) {
            ok = false;
        }
        if (ok) {
            verify(t, m, n, "content of an assigned array");
        } else {
            verify(t, old, k, "a refused assignment changes nothing");
        }
    }
    vf_check(ok == (n <= std::size_t(TO)), "copies are refused exactly if they do not fit");
    verify(src, m, n, "the source is unchanged");
    vf_reach(ok ? "accepted" : "refused");
}

// copies made by the language: by value, by initialisation
template<typename CELL, int CAP>
soa_array<CELL, CAP> by_value(soa_array<CELL, CAP> a)
{
    if (a.size()) {
        a.pop_back();
    }
    return a;
}

template<typename CELL, int CAP>
void implicit()
{
    std::size_t n = vf_pick("n", 0, CAP);
    soa_array<CELL, CAP> src;
    CELL m[CAP];
    fill(src, m, n);
    soa_array<CELL, CAP> b = src;
    verify(b, m, n, "content of a copy");
    soa_array<CELL, CAP> c = by_value<CELL, CAP>(src);
    verify(c, m, n ? n - 1 : 0, "content of a copy");
    verify(src, m, n, "the source is unchanged");
    c = by_value<CELL, CAP>(b);
    verify(c, m, n ? n - 1 : 0, "content of an assigned array");
    c = c;
    verify(c, m, n ? n - 1 : 0, "self assignment changes nothing");
    vf_reach("done");
}

// load(accessor, num[, offset])
template<typename CELL, int FROM, int TO>
void load(bool explicit_offset)
{
    std::size_t start = vf_pick("start", 0, FROM - 1);
    std::size_t num = vf_pick("num", 0, FROM);
    vf_assume(start + num <= std::size_t(FROM));
    std::size_t k = vf_pick("k", 0, TO);
    soa_array<CELL, FROM> src;
    CELL m[FROM];
    fill(src, m, FROM);
    soa_array<CELL, TO> t;
    CELL old[2 * TO + FROM];
    fill(t, old, k);
    std::size_t offset = k;
    if (explicit_offset) {
        offset = vf_pick("offset", 0, TO - 1);
        vf_assume(offset <= k);
    }
    bool ok = true;
    try {
        if (explicit_offset) {
            t.load(src[int(start)], num, offset);
        } else {
            t.load(src[int(start)], num);
        }
    } catch (const std::out_of_range&) {
        ok = false;
    }
    vf_check(ok == (offset + num <= std::size_t(TO)), "a load is refused exactly if it does not fit");
    std::size_t n = k;
    if (ok) {
        for (std::size_t i = 0; i < num; ++i) {
            old[offset + i] = m[start + i];
        }
        if (offset + num > n) {
            n = offset + num;
        }
    }
    verify(t, old, n, ok ? "content after a load" : "a refused load changes nothing");
    verify(src, m, FROM, "the source is unchanged");
    vf_reach(ok ? "accepted" : "refused");
}

// whatever exceeds the capacity is refused, however large
template<typename CELL, int FROM, int TO>
void load_beyond()
{
    std::size_t num = vf_u64("num"), offset = vf_u64("offset"), k = vf_pick("k", 0, TO);
    soa_array<CELL, FROM> src;
    CELL m[FROM], old[TO];
    fill(src, m, FROM);
    soa_array<CELL, TO> t;
    fill(t, old, k);
    bool ok = false;
    if (vf_any<bool>("append")) {
        vf_assume(num > TO - k);
        try {
            t.load(src[0], num);
        } catch (const std::out_of_range&) {
            ok = true;
        }
    } else {
        vf_assume(offset > std::size_t(TO) || num > TO - offset);
        try {
            t.load(src[0], num, offset);
        } catch (const std::out_of_range&) {
            ok = true;
        }
    }
    vf_check(ok, "a load which does not fit is refused");
    verify(t, old, k, "a refused load changes nothing");
    vf_reach("done");
}

template<typename CELL, int CAP>
void swapping()
{
    std::size_t n = vf_pick("n", 0, CAP), k = vf_pick("k", 0, CAP);
    soa_array<CELL, CAP> a, b;
    CELL ma[CAP], mb[CAP];
    fill(a, ma, n);
    fill(b, mb, k);
    using std::swap;
    swap(a, b);
    verify(a, mb, k, "swap exchanges the content");
    verify(b, ma, n, "swap exchanges the content");
    soa_array<CELL, CAP>& alias = a;
    swap(a, alias);
    verify(a, mb, k, "swapping with itself changes nothing");
    vf_reach("done");
}

// the raw transfer functions of the accessors
template<typename CELL, int CAP>
void raw()
{
    const std::size_t BYTES = aggregated_member_size<CELL>::VALUE;
    std::size_t count = vf_index("count", 0, 3);
    std::size_t offset = vf_pick("offset", 0, 2);
    std::size_t stride = vf_index("stride", 1, 5);
    std::size_t first = vf_index("first", 0, CAP - 1);
    vf_assume(offset + count <= stride && first + count <= std::size_t(CAP));
    soa_array<CELL, CAP> a, b(CAP);
    CELL m[CAP];
    fill(a, m, CAP);
    // exactly as much as needed
    char *buf = static_cast<char*>(::operator new(BYTES * stride));
    std::memset(buf, 0x5a, BYTES * stride);
    const soa_array<CELL, CAP>& ro = a;
    ro[int(first)].save(buf, count, offset, stride);
    std::size_t g = vf_u64("g");
    vf_assume(g < stride && (g < offset || g >= offset + count));
    // slots which do not belong to the streak are untouched (first and last byte of the first member block)
    vf_check(buf[sizeof(long) * g] == 0x5a, "save leaves other slots alone");
    b[int(first)].load(buf, count, offset, stride);
    CELL out[CAP];
    for (std::size_t i = 0; i < std::size_t(CAP); ++i) {
        out[i] = i >= first && i < first + count ? m[i] : CELL();
    }
    verify(b, out, CAP, "save followed by load reproduces the elements, and only these");
    ::operator delete(buf);
    vf_reach("done");
}

#if defined(PART_A)
VF_ENTRY(transfer_35) { transfer<Uni1Cell, 3, 5>(); }
VF_ENTRY(transfer_53) { transfer<Uni1Cell, 5, 3>(); }
VF_ENTRY(transfer_33) { transfer<Uni1Cell, 3, 3>(); }
VF_ENTRY(transfer_mix_42) { transfer<MixCell, 4, 2>(); }
VF_ENTRY(transfer_mix_23) { transfer<MixCell, 2, 3>(); }
VF_ENTRY(implicit_uni1) { implicit<Uni1Cell, 4>(); }
VF_ENTRY(implicit_mix) { implicit<MixCell, 3>(); }
#else
VF_ENTRY(load_43) { load<Uni1Cell, 4, 3>(false); }
VF_ENTRY(load_36) { load<Uni1Cell, 3, 6>(false); }
VF_ENTRY(load_off_43) { load<Uni1Cell, 4, 3>(true); }
VF_ENTRY(load_off_mix) { load<MixCell, 3, 4>(true); }
VF_ENTRY(load_beyond) { load_beyond<Uni1Cell, 3, 4>(); }
VF_ENTRY(swap_uni1) { swapping<Uni1Cell, 3>(); }
VF_ENTRY(swap_mix) { swapping<MixCell, 4>(); }
VF_ENTRY(raw_uni1) { raw<Uni1Cell, 4>(); }
#endif
