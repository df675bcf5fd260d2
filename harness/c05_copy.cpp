// C05: copies are deep and complete, swap exchanges everything.
#include "cells.hpp"

struct model
{
    std::size_t x, y, z;
};

template<typename CELL>
struct tracked
{
    typedef soa_grid<CELL> grid;
    std::size_t x, y, z;    // dimensions
    CELL cell;              // expected content at the watched position
    void write(grid& g, std::size_t px, std::size_t py, std::size_t pz)
    {
        std::size_t wx = vf_index("wx", 0, x - 1), wy = vf_index("wy", 0, y - 1), wz = vf_index("wz", 0, z - 1);
        CELL c = CELL::any();
        g.set(wx, wy, wz, c);
        cell.assign_if((wx == px) & (wy == py) & (wz == pz), c);
    }
    void verify(const grid& g, std::size_t px, std::size_t py, std::size_t pz, const char *msg) const
    {
        vf_check(g.dim_x() == x && g.dim_y() == y && g.dim_z() == z, "dimensions");
        if (px < x && py < y && pz < z) {
            g.get(px, py, pz).check(cell, msg);
        }
    }
};

template<typename CELL>
void history(std::size_t ax, std::size_t ay, std::size_t az, std::size_t bx, std::size_t by, std::size_t bz, int steps)
{
    typedef soa_grid<CELL> grid;
    {
        grid a(ax, ay, az), b(bx, by, bz);
        tracked<CELL> ta = { ax, ay, az, CELL() }, tb = { bx, by, bz, CELL() };
        std::size_t px = vf_u64("px"), py = vf_u64("py"), pz = vf_u64("pz");
        vf_assume((px < ax && py < ay && pz < az) || (px < bx && py < by && pz < bz));
        ta.write(a, px, py, pz);
        tb.write(b, px, py, pz);
        for (int s = 0; s < steps; ++s) {
            unsigned op = vf_u8("op");
            vf_assume(op < 7);
            switch (op) {
            case 0:
                a = b;
                ta = tb;
                break;
            case 1:
                b = a;
                tb = ta;
                break;
            case 2:
                a.swap(b);
                std::swap(ta, tb);
                break;
            case 3: {
                using std::swap;
                swap(a, b);
                std::swap(ta, tb);
                break;
            }
            case 4: {
                grid c(a);
                ta.verify(c, px, py, pz, "content of a copy");
                // writing to the copy
                tracked<CELL> tc = ta;
                tc.write(c, px, py, pz);
                ta.verify(a, px, py, pz, "writing to a copy does not change the original");
                tc.verify(c, px, py, pz, "content of a copy");
                b = c;
                tb = tc;
                break;
            }
            case 5:
                // resizing to another shape and back restarts from default cells
                a.resize(1, 1, 1);
                a.resize(ta.x, ta.y, ta.z);
                ta.cell = CELL();
                break;
            case 6: {
                // resizing to the same dimensions keeps the content
                a.resize(ta.x, ta.y, ta.z);
                grid& alias = b;
                b = alias;
                b.swap(alias);
                break;
            }
            }
            ta.verify(a, px, py, pz, "content after copy, assignment or swap");
            tb.verify(b, px, py, pz, "content after copy, assignment or swap");
            ta.write(a, px, py, pz);
            tb.verify(b, px, py, pz, "grids are independent of each other");
            tb.write(b, px, py, pz);
            ta.verify(a, px, py, pz, "grids are independent of each other");
            tb.verify(b, px, py, pz, "content of a cell");
        }
        vf_reach("done");
    }
    vf_check(vf_live_allocs() == 0, "all storage is returned");
}

// every single cell is carried over
template<typename CELL>
void full(std::size_t x, std::size_t y, std::size_t z, bool assign)
{
    soa_grid<CELL> a(x, y, z);
    std::size_t px = vf_index("px", 0, x - 1), py = vf_index("py", 0, y - 1), pz = vf_index("pz", 0, z - 1);
    CELL expected;
    for (std::size_t k = 0; k < z; ++k) {
        for (std::size_t j = 0; j < y; ++j) {
            for (std::size_t i = 0; i < x; ++i) {
                CELL c = CELL::any();
                a.set(i, j, k, c);
                expected.assign_if((i == px) & (j == py) & (k == pz), c);
            }
        }
    }
    if (assign) {
        soa_grid<CELL> b(1, 1, 1);
        b = a;
        b.get(px, py, pz).check(expected, "content of an assigned grid");
    } else {
        soa_grid<CELL> b(a);
        b.get(px, py, pz).check(expected, "content of a copied grid");
    }
    a.get(px, py, pz).check(expected, "copying leaves the source alone");
    vf_reach("done");
}

#define STEPS (VF_TIER ? 2 : 1)
#if defined(PART_A)
VF_ENTRY(history_mix) { history<MixCell>(3, 2, 2, 2, 3, 1, STEPS); }
VF_ENTRY(history_uni3) { history<Uni3Cell>(2, 3, 1, 2, 2, 3, STEPS); }
VF_ENTRY(full_mix_c) { full<MixCell>(3, 2, 3, false); }
VF_ENTRY(full_mix_a) { full<MixCell>(5, 3, 2, true); }
VF_ENTRY(full_uni3_c) { full<Uni3Cell>(2, 3, 4, false); }
VF_ENTRY(full_uni3_a) { full<Uni3Cell>(4, 2, 3, true); }
#else
VF_ENTRY(history_uni2) { history<Uni2Cell>(3, 2, 1, 3, 2, 1, 2); }
VF_ENTRY(history_uni2b) { history<Uni2Cell>(5, 2, 1, 1, 3, 1, STEPS); }
VF_ENTRY(history_uni1) { history<Uni1Cell>(5, 1, 1, 3, 1, 1, STEPS); }
VF_ENTRY(history_def1) { history<Def1Cell>(4, 1, 1, 2, 1, 1, STEPS); }
VF_ENTRY(full_uni2_c) { full<Uni2Cell>(3, 5, 1, false); }
VF_ENTRY(full_uni2_a) { full<Uni2Cell>(4, 3, 1, true); }
VF_ENTRY(full_uni1_c) { full<Uni1Cell>(13, 1, 1, false); }
VF_ENTRY(full_uni1_a) { full<Uni1Cell>(16, 1, 1, true); }
VF_ENTRY(full_def_c) { full<DefCell>(9, 1, 1, false); }
#endif
