// C01: what is written to a grid cell is what is read back; nothing else changes.
#include "cells.hpp"

#ifndef NSTEP
#define NSTEP 2
#endif

// a history of writes with symbolic coordinates; one symbolic cell is watched
template<typename CELL, typename ALLOC>
void history(std::size_t dx, std::size_t dy, std::size_t dz, int steps)
{
    const std::size_t mx = dx, my = dy, mz = dz;
    typedef soa_grid<CELL, ALLOC> grid_type;
    grid_type grid(dx, dy, dz);
    std::size_t px = vf_index("px", 0, mx - 1);
    std::size_t py = vf_index("py", 0, my - 1);
    std::size_t pz = vf_index("pz", 0, mz - 1);
    vf_assume(px < dx && py < dy && pz < dz);
    CELL expected = CELL();
    grid.get(px, py, pz).check(expected, "a fresh grid holds default cells");

    for (int s = 0; s < steps; ++s) {
        std::size_t x = vf_index("x", 0, mx - 1);
        std::size_t y = vf_index("y", 0, my - 1);
        std::size_t z = vf_index("z", 0, mz - 1);
        vf_assume(x < dx && y < dy && z < dz);
        unsigned op = vf_u8("op");
        vf_assume(op < 3);
        CELL cells[3] = { CELL::any(), CELL(), CELL() };
        std::size_t count = 1;
        if (op == 0) {
            grid.set(x, y, z, cells[0]);
        } else {
            count = vf_index("count", 1, 2);
            vf_assume(x + count <= dx);
            if (op == 1) {
                cells[1] = CELL::any();
                cells[2] = CELL::any();
                grid.set(x, y, z, cells, count);
            } else {
                cells[2] = cells[1] = cells[0];
                grid.broadcast(x, y, z, cells[0], count);
            }
        }
        for (std::size_t i = 0; i < 3; ++i) {
            expected.assign_if((y == py) & (z == pz) & (px == x + i) & (i < count), cells[i]);
        }
        const grid_type& ro = grid;
        ro.get(px, py, pz).check(expected, "read-back of a cell after a write");
    }
    vf_check(grid.dim_x() == dx && grid.dim_y() == dy && grid.dim_z() == dz, "access leaves the dimensions alone");
    vf_reach("done");
}

// retrieval of streaks agrees with retrieval of single cells
template<typename CELL, typename ALLOC>
void streak(std::size_t mx, std::size_t my, std::size_t mz)
{
    std::size_t dx = vf_index("dx", 1, mx);
    std::size_t dy = vf_index("dy", 1, my);
    std::size_t dz = vf_index("dz", 1, mz);
    soa_grid<CELL, ALLOC> grid(dx, dy, dz);
    std::size_t x = vf_index("x", 0, mx - 1);
    std::size_t y = vf_index("y", 0, my - 1);
    std::size_t z = vf_index("z", 0, mz - 1);
    std::size_t count = vf_index("count", 0, 3);
    vf_assume(x < dx && y < dy && z < dz && x + count <= dx);
    CELL cells[3] = { CELL::any(), CELL::any(), CELL::any() };
    grid.set(x, y, z, cells, count);
    CELL guard = CELL::any();
    CELL out[5] = { guard, guard, guard, guard, guard };
    grid.get(x, y, z, out + 1, count);
    for (std::size_t i = 0; i < 3; ++i) {
        if (i < count) {
            out[1 + i].check(cells[i], "streak read-back");
            grid.get(x + i, y, z).check(cells[i], "streak read-back");
        } else {
            out[1 + i].check(guard, "a read beyond the streak's length");
        }
    }
    out[0].check(guard, "a read in front of the target");
    out[4].check(guard, "a read beyond the streak's length");
    // partial retrieval
    std::size_t skip = vf_index("skip", 0, 2);
    vf_assume(skip < count);
    CELL part[3];
    const soa_grid<CELL, ALLOC>& ro = grid;
    ro.get(x + skip, y, z, part, count - skip);
    for (std::size_t i = skip; i < count; ++i) {
        part[i - skip].check(cells[i], "streak read-back");
    }
    vf_reach("done");
}

// filling the whole grid cell by cell: no two coordinates share storage
template<typename CELL, typename ALLOC>
void fill(std::size_t dx, std::size_t dy, std::size_t dz)
{
    soa_grid<CELL, ALLOC> grid(dx, dy, dz);
    std::size_t px = vf_index("px", 0, dx - 1);
    std::size_t py = vf_index("py", 0, dy - 1);
    std::size_t pz = vf_index("pz", 0, dz - 1);
    CELL expected;
    for (std::size_t z = 0; z < dz; ++z) {
        for (std::size_t y = 0; y < dy; ++y) {
            for (std::size_t x = 0; x < dx; ++x) {
                CELL c = CELL::any();
                grid.set(x, y, z, c);
                expected.assign_if((x == px) & (y == py) & (z == pz), c);
            }
        }
    }
    grid.get(px, py, pz).check(expected, "a cell of a completely filled grid");
    vf_reach("done");
}

typedef aligned_allocator<char, 4096> std_alloc;
#if defined(PART_A)
VF_ENTRY(history_mix) { history<MixCell, std_alloc>(3, 2, 2, VF_TIER ? 3 : 2); }
VF_ENTRY(history_mixb) { history<MixCell, std_alloc>(2, 3, 1, VF_TIER ? 3 : 2); }
VF_ENTRY(history_mixc) { history<MixCell, exact_allocator>(5, 1, 3, VF_TIER ? 3 : 2); }
VF_ENTRY(streak_mix) { streak<MixCell, std_alloc>(3, 2, 2); }
VF_ENTRY(fill_mix) { fill<MixCell, exact_allocator>(4, 3, 2); }
VF_ENTRY(fill_mix2) { fill<MixCell, exact_allocator>(5, 2, 3); }
#elif defined(PART_B)
VF_ENTRY(history_uni3) { history<Uni3Cell, exact_allocator>(3, 3, 2, VF_TIER ? 3 : 2); }
VF_ENTRY(history_uni3b) { history<Uni3Cell, std_alloc>(1, 2, 4, VF_TIER ? 3 : 2); }
VF_ENTRY(streak_uni3) { streak<Uni3Cell, exact_allocator>(3, 2, 3); }
VF_ENTRY(fill_uni3) { fill<Uni3Cell, exact_allocator>(2, 3, 2); }
VF_ENTRY(fill_uni3b) { fill<Uni3Cell, exact_allocator>(4, 4, 2); }
#elif defined(PART_C)
VF_ENTRY(history_uni2) { history<Uni2Cell, exact_allocator>(4, 3, 1, VF_TIER ? 3 : 2); }
VF_ENTRY(streak_uni2) { streak<Uni2Cell, std_alloc>(4, 3, 1); }
VF_ENTRY(fill_uni2) { fill<Uni2Cell, exact_allocator>(5, 6, 1); }
VF_ENTRY(history_uni1) { history<Uni1Cell, exact_allocator>(9, 1, 1, VF_TIER ? 3 : 2); }
VF_ENTRY(streak_uni1) { streak<Uni1Cell, std_alloc>(9, 1, 1); }
VF_ENTRY(fill_uni1) { fill<Uni1Cell, exact_allocator>(16, 1, 1); }
#else
VF_ENTRY(history_def1) { history<Def1Cell, exact_allocator>(VF_TIER ? 12 : 5, 1, 1, VF_TIER ? 3 : 2); }
VF_ENTRY(fill_def1) { fill<Def1Cell, exact_allocator>(33, 1, 1); }
VF_ENTRY(fill_def_1d) { fill<DefCell, exact_allocator>(40, 1, 1); }
VF_ENTRY(fill_def_2d) { fill<DefCell, exact_allocator>(34, 2, 1); }
VF_ENTRY(fill_def_3d) { fill<DefCell, exact_allocator>(2, 3, 2); }
#endif
