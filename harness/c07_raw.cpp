// C07: load() and save() exchange raw SoA data with exactly the addressed cells.
#include "cells.hpp"

// SoA image of up to N cells: all members one after the other, each in an array of length stride
template<typename CELL> struct image;

template<typename M>
static void put(char *buf, std::size_t& base, std::size_t slot, std::size_t stride, M v)
{
    std::memcpy(buf + base + slot * sizeof(M), &v, sizeof(M));
    base += stride * sizeof(M);
}
template<typename M>
static M take(const char *buf, std::size_t& base, std::size_t slot, std::size_t stride)
{
    M v;
    std::memcpy(&v, buf + base + slot * sizeof(M), sizeof(M));
    base += stride * sizeof(M);
    return v;
}

template<> struct image<MixCell>
{
    static const std::size_t BYTES = 19;
    static void write(char *buf, std::size_t slot, std::size_t stride, const MixCell& c)
    {
        std::size_t b = 0;
        put(buf, b, slot, stride, c.d);
        put(buf, b, slot, stride, c.c);
        put(buf, b, slot, stride, c.arr[0]);
        put(buf, b, slot, stride, c.arr[1]);
        put(buf, b, slot, stride, c.arr[2]);
        put(buf, b, slot, stride, c.i);
    }
    static MixCell read(const char *buf, std::size_t slot, std::size_t stride)
    {
        MixCell c;
        std::size_t b = 0;
        c.d = take<double>(buf, b, slot, stride);
        c.c = take<char>(buf, b, slot, stride);
        c.arr[0] = take<short>(buf, b, slot, stride);
        c.arr[1] = take<short>(buf, b, slot, stride);
        c.arr[2] = take<short>(buf, b, slot, stride);
        c.i = take<int>(buf, b, slot, stride);
        return c;
    }
};
template<> struct image<Uni3Cell>
{
    static const std::size_t BYTES = 6;
    static void write(char *buf, std::size_t slot, std::size_t stride, const Uni3Cell& c)
    {
        std::size_t b = 0;
        put(buf, b, slot, stride, c.t[0]);
        put(buf, b, slot, stride, c.t[1]);
        put(buf, b, slot, stride, c.f);
    }
    static Uni3Cell read(const char *buf, std::size_t slot, std::size_t stride)
    {
        Uni3Cell c;
        std::size_t b = 0;
        c.t[0] = take<char>(buf, b, slot, stride);
        c.t[1] = take<char>(buf, b, slot, stride);
        c.f = take<float>(buf, b, slot, stride);
        return c;
    }
};
template<> struct image<Uni1Cell>
{
    static const std::size_t BYTES = 17;
    static void write(char *buf, std::size_t slot, std::size_t stride, const Uni1Cell& c)
    {
        std::size_t b = 0;
        put(buf, b, slot, stride, c.l);
        put(buf, b, slot, stride, c.c);
        put(buf, b, slot, stride, c.w[0]);
        put(buf, b, slot, stride, c.w[1]);
    }
    static Uni1Cell read(const char *buf, std::size_t slot, std::size_t stride)
    {
        Uni1Cell c;
        std::size_t b = 0;
        c.l = take<long>(buf, b, slot, stride);
        c.c = take<char>(buf, b, slot, stride);
        c.w[0] = take<float>(buf, b, slot, stride);
        c.w[1] = take<float>(buf, b, slot, stride);
        return c;
    }
};

typedef detail::flat_array::simple_streak streak;

template<typename CELL>
void single(std::size_t dx, std::size_t dy, std::size_t dz, std::size_t maxn)
{
    typedef image<CELL> img;
    soa_grid<CELL, exact_allocator> g(dx, dy, dz), h(dx, dy, dz);
    std::size_t n = vf_pick("n", 0, maxn);
    std::size_t x = vf_index("x", 0, dx - 1), y = vf_index("y", 0, dy - 1), z = vf_index("z", 0, dz - 1);
    vf_assume(x + n <= dx);
    // watched cell, holds something already
    std::size_t px = vf_index("px", 0, dx - 1), py = vf_index("py", 0, dy - 1), pz = vf_index("pz", 0, dz - 1);
    CELL expected = CELL::any();
    g.set(px, py, pz, expected);
    char *in = static_cast<char*>(::operator new(n * img::BYTES + (n == 0)));
    char *out = static_cast<char*>(::operator new(n * img::BYTES + (n == 0)));
    CELL cells[4];
    for (std::size_t i = 0; i < n; ++i) {
        cells[i] = CELL::any();
        img::write(in, i, n, cells[i]);
        expected.assign_if((y == py) & (z == pz) & (px == x + i), cells[i]);
    }
    g.load(x, y, z, in, n);
    g.get(px, py, pz).check(expected, "load writes exactly the addressed cells");
    const soa_grid<CELL, exact_allocator>& ro = g;
    ro.save(x, y, z, out, n);
    for (std::size_t i = 0; i < n; ++i) {
        img::read(out, i, n).check(cells[i], "save delivers the cells in SoA order");
        img::read(in, i, n).check(cells[i], "load leaves the source alone");
    }
    g.get(px, py, pz).check(expected, "save leaves the grid alone");
    // round trip into another grid
    h.load(x, y, z, out, n);
    for (std::size_t i = 0; i < n; ++i) {
        h.get(x + i, y, z).check(cells[i], "load undoes save");
    }
    ::operator delete(in);
    ::operator delete(out);
    vf_reach("done");
}

struct my_streak
{
    int origin[3];
    int len;
    int length() const { return len; }
};

// several streaks in one go
template<typename CELL, typename STREAK>
STREAK make(std::size_t x, std::size_t y, std::size_t z, std::size_t n);
template<> streak make<int, streak>(std::size_t x, std::size_t y, std::size_t z, std::size_t n) { return streak(x, y, z, n); }
template<> my_streak make<int, my_streak>(std::size_t x, std::size_t y, std::size_t z, std::size_t n)
{
    my_streak s = { { int(x), int(y), int(z) }, int(n) };
    return s;
}

template<typename CELL, typename STREAK>
void streaks(std::size_t dx, std::size_t dy, std::size_t dz, std::size_t extra)
{
    typedef image<CELL> img;
    soa_grid<CELL, exact_allocator> g(dx, dy, dz);
    std::size_t n0 = vf_pick("n0", 0, 2), n1 = vf_pick("n1", 1, 2);
    std::size_t x0 = vf_index("x0", 0, dx - 1), y0 = vf_index("y0", 0, dy - 1), z0 = vf_index("z0", 0, dz - 1);
    std::size_t x1 = vf_index("x1", 0, dx - 1), y1 = vf_index("y1", 0, dy - 1), z1 = vf_index("z1", 0, dz - 1);
    vf_assume(x0 + n0 <= dx && x1 + n1 <= dx);
    std::vector<STREAK> s;
    s.push_back(make<int, STREAK>(x0, y0, z0, n0));
    s.push_back(make<int, STREAK>(x1, y1, z1, n1));
    std::size_t px = vf_index("px", 0, dx - 1), py = vf_index("py", 0, dy - 1), pz = vf_index("pz", 0, dz - 1);
    CELL expected = CELL::any();
    g.set(px, py, pz, expected);
    // the buffer may be longer than the streaks
    std::size_t n = n0 + n1 + extra;
    char *in = static_cast<char*>(::operator new(n * img::BYTES));
    char *out = static_cast<char*>(::operator new(n * img::BYTES));
    CELL cells[6], old = CELL::any();
    for (std::size_t i = 0; i < n; ++i) {
        cells[i] = CELL::any();
        img::write(in, i, n, cells[i]);
        img::write(out, i, n, old);
        bool second = i >= n0;
        std::size_t xx = second ? x1 + i - n0 : x0 + i;
        if (i < n0 + n1) {
            expected.assign_if(((second ? y1 : y0) == py) & ((second ? z1 : z0) == pz) & (px == xx), cells[i]);
        }
    }
    g.load(s.begin(), s.end(), in, n);
    g.get(px, py, pz).check(expected, "load writes exactly the addressed cells");
    const soa_grid<CELL, exact_allocator>& ro = g;
    ro.save(s.begin(), s.end(), out, n);
    for (std::size_t i = 0; i < n; ++i) {
        if (i >= n0 + n1) {
            img::read(out, i, n).check(old, "save leaves the rest of the buffer alone");
        } else {
            bool second = i >= n0;
            CELL c = ro.get(second ? x1 + i - n0 : x0 + i, second ? y1 : y0, second ? z1 : z0);
            img::read(out, i, n).check(c, "save delivers the cells in SoA order");
        }
    }
    g.get(px, py, pz).check(expected, "save leaves the grid alone");
    ::operator delete(in);
    ::operator delete(out);
    vf_reach("done");
}

#if defined(PART_A)
VF_ENTRY(single_mix) { single<MixCell>(3, 2, 2, 3); }
VF_ENTRY(single_mixb) { single<MixCell>(4, 3, 1, 2); }
VF_ENTRY(single_uni3) { single<Uni3Cell>(3, 2, 3, 3); }
VF_ENTRY(single_uni1) { single<Uni1Cell>(6, 1, 1, 4); }
#else
VF_ENTRY(streaks_mix) { streaks<MixCell, streak>(3, 2, 2, 0); }
VF_ENTRY(streaks_mix_my) { streaks<MixCell, my_streak>(3, 2, 1, 1); }
VF_ENTRY(streaks_uni3) { streaks<Uni3Cell, streak>(2, 3, 2, 1); }
VF_ENTRY(streaks_uni3_my) { streaks<Uni3Cell, my_streak>(3, 2, 3, 0); }
VF_ENTRY(streaks_uni1) { streaks<Uni1Cell, streak>(6, 1, 1, 2); }
#endif
