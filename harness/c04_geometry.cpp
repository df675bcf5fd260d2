// C04: dimensions, extents and byte size describe the same grid after every history.
#include "cells.hpp"

class Geo
{
public:
    class API : public api_traits::has_custom_sizes
    {
    public:
        LIBFLATARRAY_CUSTOM_SIZES((2)(5), (1)(3), (1)(2))
    };
    char a;
    short b;
    Geo() : a(1), b(2) {}
};
LIBFLATARRAY_REGISTER_SOA(Geo, ((char)(a))((short)(b)))

class Geo1
{
public:
    class API : public api_traits::has_custom_sizes
    {
    public:
        LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM((2)(4)(7))
    };
    int a;
    char b[3];
    Geo1() : a(0) {}
};
LIBFLATARRAY_REGISTER_SOA(Geo1, ((int)(a))((char)(b)(3)))

class Geo2
{
public:
    class API : public api_traits::has_custom_sizes
    {
    public:
        LIBFLATARRAY_CUSTOM_SIZES_2D_UNIFORM((2)(4))
    };
    int a;
    Geo2() : a(0) {}
};
LIBFLATARRAY_REGISTER_SOA(Geo2, ((int)(a)))

// different shapes of the same byte size
class GeoB
{
public:
    class API : public api_traits::has_custom_sizes
    {
    public:
        LIBFLATARRAY_CUSTOM_SIZES((2)(4), (1)(2)(4), (1)(2))
    };
    char a;
    short b;
    GeoB() : a(1), b(2) {}
};
LIBFLATARRAY_REGISTER_SOA(GeoB, ((char)(a))((short)(b)))

struct shape
{
    std::size_t x, y, z;
    bool valid;     // the type is registered for this size
};

struct traits_geo
{
    typedef Geo cell;
    static std::size_t bytes() { return 3; }
    static shape sh(std::size_t k)
    {
        static const shape s[] = { {2, 1, 1, true}, {3, 2, 1, true}, {1, 3, 2, true}, {6, 1, 1, false}, {5, 3, 3, false}, {0, 1, 1, true} };
        return s[k];
    }
    static const std::size_t N = 6;
    static shape ext(const shape& s)
    {
        shape r = { std::size_t(s.x <= 2 ? 2 : 5), std::size_t(s.y <= 1 ? 1 : 3), std::size_t(s.z <= 1 ? 1 : 2), true };
        return r;
    }
};
struct traits_geo1
{
    typedef Geo1 cell;
    static std::size_t bytes() { return 7; }
    static shape sh(std::size_t k)
    {
        static const shape s[] = { {2, 1, 1, true}, {3, 1, 1, true}, {7, 1, 1, true}, {8, 1, 1, false}, {2, 2, 1, false}, {0, 1, 1, true} };
        return s[k];
    }
    static const std::size_t N = 6;
    static shape ext(const shape& s)
    {
        shape r = { std::size_t(s.x <= 2 ? 2 : s.x <= 4 ? 4 : 7), 1, 1, true };
        return r;
    }
};
struct traits_geo2
{
    typedef Geo2 cell;
    static std::size_t bytes() { return 4; }
    static shape sh(std::size_t k)
    {
        static const shape s[] = { {2, 1, 1, true}, {1, 3, 1, true}, {3, 4, 1, true}, {3, 5, 1, false}, {2, 2, 2, false} };
        return s[k];
    }
    static const std::size_t N = 5;
    static shape ext(const shape& s)
    {
        std::size_t e = s.x <= 2 && s.y <= 2 ? 2 : 4;
        shape r = { e, e, 1, true };
        return r;
    }
};

struct traits_geob
{
    typedef GeoB cell;
    static std::size_t bytes() { return 3; }
    static shape sh(std::size_t k)
    {
        static const shape s[] = { {4, 1, 1, true}, {4, 1, 2, true}, {2, 2, 1, true}, {2, 1, 2, true}, {4, 2, 1, true},
                                   {2, 4, 1, true}, {4, 0, 1, true}, {1, 1, 3, false} };
        return s[k];
    }
    static const std::size_t N = 8;
    static shape ext(const shape& s)
    {
        shape r = { std::size_t(s.x <= 2 ? 2 : 4), std::size_t(s.y <= 1 ? 1 : s.y <= 2 ? 2 : 4), std::size_t(s.z <= 1 ? 1 : 2), true };
        return r;
    }
};

struct dims_seen
{
    std::size_t *s;
    template<typename CELL, long X, long Y, long Z, long I>
    void operator()(soa_accessor<CELL, X, Y, Z, I>& acc)
    {
        s[0] = X;
        s[1] = Y;
        s[2] = Z;
        s[3] += 1;
        s[4] = reinterpret_cast<std::size_t>(acc.data());
        s[5] = acc.index();
    }
};

template<typename TR, typename GRID>
void verify(GRID& g, const shape& m)
{
    vf_check(g.dim_x() == m.x && g.dim_y() == m.y && g.dim_z() == m.z, "dimensions");
    if (!m.valid) {
        // nothing allocated
        vf_check(g.data() == 0 && g.byte_size() == 0 && g.extent_x() == 0 && g.extent_y() == 0 && g.extent_z() == 0,
                 "an empty grid has no storage");
        return;
    }
    shape e = TR::ext(m);
    vf_check(g.extent_x() == e.x && g.extent_y() == e.y && g.extent_z() == e.z, "extents are the padded dimensions");
    vf_check(g.byte_size() == TR::bytes() * e.x * e.y * e.z, "byte size covers the extents");
    vf_check(g.data() != 0, "storage is present");
    std::size_t seen[6] = { 0, 0, 0, 0, 0, 0 };
    dims_seen f = { seen };
    g.callback(f);
    vf_check(seen[0] == e.x && seen[1] == e.y && seen[2] == e.z && seen[3] == 1,
             "callback delivers the grid's extents, once");
    const GRID& ro = g;
    vf_check(seen[4] == reinterpret_cast<std::size_t>(g.data()) && seen[5] == 0, "callback delivers the grid's data");
    vf_check(ro.data() == g.data(), "callback delivers the grid's data");
    seen[3] = 0;
    ro.callback(f);
    vf_check(seen[0] == e.x && seen[1] == e.y && seen[2] == e.z && seen[3] == 1 &&
             seen[4] == reinterpret_cast<std::size_t>(g.data()),
             "callback delivers the grid's extents, once");
    // the whole block is usable
    g.data()[0] = 17;
    g.data()[g.byte_size() - 1] = 18;
    vf_check(g.data()[0] == 17 && g.data()[g.byte_size() - 1] == 18, "byte size bytes are allocated");
}

enum { RESIZE_A, RESIZE_B, A_FROM_B, B_FROM_A, SWAP, SWAP_FREE, COPY, SELF, OPS };

template<typename TR>
void history(int steps, bool start_empty)
{
    typedef soa_grid<typename TR::cell> grid;
    {
        std::size_t k = vf_index("k", 0, TR::N - 1);
        shape ma = TR::sh(k), mb = { 0, 0, 0, false };
        vf_assume(ma.valid);
        grid a(ma.x, ma.y, ma.z);
        grid b;
        if (!start_empty) {
            mb = TR::sh(2);
            b.resize(mb.x, mb.y, mb.z);
        }
        verify<TR>(a, ma);
        verify<TR>(b, mb);
        for (int s = 0; s < steps; ++s) {
            unsigned op = vf_u8("op");
            vf_assume(op < OPS);
            switch (op) {
            case RESIZE_A:
            case RESIZE_B: {
                grid& g = op == RESIZE_A ? a : b;
                shape& m = op == RESIZE_A ? ma : mb;
                std::size_t j = vf_index("j", 0, TR::N - 1);
                shape n = TR::sh(j);
                bool ok = true;
                try {
                    g.resize(n.x, n.y, n.z);
                } catch (const std::out_of_range&) {
                    ok = false;
                }
                vf_check(ok == n.valid, "exactly the sizes the type is registered for are accepted");
                if (ok) {
                    m = n;
                }
                break;
            }
            case A_FROM_B:
                a = b;
                ma = mb;
                break;
            case B_FROM_A:
                b = a;
                mb = ma;
                break;
            case SWAP:
                a.swap(b);
                std::swap(ma, mb);
                break;
            case SWAP_FREE: {
                using std::swap;
                swap(b, a);
                std::swap(ma, mb);
                break;
            }
            case COPY: {
                grid c(a);
                verify<TR>(c, ma);
                b.swap(c);
                verify<TR>(c, mb);
                mb = ma;
                break;
            }
            case SELF: {
                grid& alias = a;
                a = alias;
                a.swap(alias);
                break;
            }
            }
            verify<TR>(a, ma);
            verify<TR>(b, mb);
            vf_check(a.data() != b.data() || a.data() == 0, "two grids never share storage");
        }
        vf_reach("done");
    }
    vf_check(vf_live_allocs() == 0, "all storage is returned");
}

// running out of memory leaves a usable grid behind
template<typename TR>
void out_of_memory(std::size_t op, std::size_t points)
{
    typedef soa_grid<typename TR::cell> grid;
    {
        shape ma = TR::sh(vf_index("k", 0, TR::N - 1));
        shape mb = TR::sh(2);
        vf_assume(ma.valid && (ma.x != mb.x || ma.y != mb.y || ma.z != mb.z));
        grid a(ma.x, ma.y, ma.z);
        grid b(mb.x, mb.y, mb.z);
        bool failed = false;
        vf_alloc_fail_at(unsigned(vf_pick("at", 0, points)));
        try {
            if (op == 0) {
                a.resize(mb.x, mb.y, mb.z);
            }
            if (op == 1) {
                a = b;
            }
            if (op == 2) {
                grid c(a);
                verify<TR>(c, ma);
            }
        } catch (const std::bad_alloc&) {
            failed = true;
        }
        vf_alloc_fail_at(0xffffffffu);
        vf_reach("failed");
        verify<TR>(b, mb);
        if (op == 2) {
            verify<TR>(a, ma);
        } else {
            // whatever it holds: it must be consistent
            shape m = { a.dim_x(), a.dim_y(), a.dim_z(), a.data() != 0 };
            vf_check(m.valid || (m.x == 0 && m.y == 0 && m.z == 0), "a grid without storage has no dimensions");
            vf_check(failed || (m.x == mb.x && m.y == mb.y && m.z == mb.z), "dimensions");
            verify<TR>(a, m);
        }
        // and it can be used further on
        shape n = TR::sh(vf_index("n", 0, TR::N - 1));
        vf_assume(n.valid);
        a.resize(n.x, n.y, n.z);
        verify<TR>(a, n);
        a = b;
        verify<TR>(a, mb);
    }
    vf_check(vf_live_allocs() == 0, "all storage is returned");
}

VF_ENTRY(oom_resize) { out_of_memory<traits_geo>(0, 2); }
VF_ENTRY(oom_assign) { out_of_memory<traits_geo>(1, 2); }
VF_ENTRY(oom_copy) { out_of_memory<traits_geo>(2, 2); }
VF_ENTRY(oom_resize1) { out_of_memory<traits_geo1>(0, 2); }
VF_ENTRY(oom_resizeb) { out_of_memory<traits_geob>(0, 2); }

// arbitrary dimensions: extents and byte size follow, whatever the dimensions
template<typename CELL, std::size_t BYTES>
void any_dims(std::size_t mx, std::size_t my, std::size_t mz)
{
    std::size_t x = vf_index("x", 0, mx), y = vf_index("y", my > 1 ? 0 : 1, my), z = vf_index("z", mz > 1 ? 0 : 1, mz);
    soa_grid<CELL> g(x, y, z);
    vf_check(g.dim_x() == x && g.dim_y() == y && g.dim_z() == z, "dimensions");
    if (g.data() != 0) {
        vf_check(g.extent_x() >= x && g.extent_y() >= y && g.extent_z() >= z, "extents are the padded dimensions");
    } else {
        vf_check(x * y * z == 0, "storage is present");
    }
    vf_check(g.byte_size() == BYTES * g.extent_x() * g.extent_y() * g.extent_z(), "byte size covers the extents");
    vf_reach("done");
}

VF_ENTRY(history_geo) { history<traits_geo>(2, false); }
VF_ENTRY(history_geo_e) { history<traits_geo>(2, true); }
VF_ENTRY(history_geo1) { history<traits_geo1>(2, false); }
VF_ENTRY(history_geo1_e) { history<traits_geo1>(2, true); }
VF_ENTRY(history1_geob) { history<traits_geob>(1, false); }
VF_ENTRY(history_geo2_e) { history<traits_geo2>(2, true); }
#if VF_TIER
VF_ENTRY(history3_geo) { history<traits_geo>(3, true); }
VF_ENTRY(history_geob) { history<traits_geob>(2, false); }
VF_ENTRY(history3_geo1) { history<traits_geo1>(3, true); }
#endif
VF_ENTRY(dims_mix) { any_dims<MixCell, 19>(8, 3, 3); }
VF_ENTRY(dims_uni3) { any_dims<Uni3Cell, 6>(4, 4, 4); }
VF_ENTRY(dims_uni2) { any_dims<Uni2Cell, 5>(6, 6, 1); }
VF_ENTRY(dims_uni1) { any_dims<Uni1Cell, 17>(16, 1, 1); }
