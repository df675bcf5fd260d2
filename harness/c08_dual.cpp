// C08: callbacks spanning two grids.
#include "cells.hpp"

class AsymCell
{
public:
    class API : public api_traits::has_custom_sizes, public api_traits::has_asymmetric_dual_callback
    {
    public:
        LIBFLATARRAY_CUSTOM_SIZES((2)(4), (1)(3), (1)(2))
    };
    int a;
    char b;
    AsymCell(int a = 0, char b = 0) : a(a), b(b) {}
};
LIBFLATARRAY_REGISTER_SOA(AsymCell, ((int)(a))((char)(b)))

class SymCell
{
public:
    class API : public api_traits::has_custom_sizes, public api_traits::has_no_asymmetric_dual_callback
    {
    public:
        LIBFLATARRAY_CUSTOM_SIZES_3D_UNIFORM((2)(3))
    };
    int a;
    char b;
    SymCell(int a = 0, char b = 0) : a(a), b(b) {}
};
LIBFLATARRAY_REGISTER_SOA(SymCell, ((int)(a))((char)(b)))

class AsymWide
{
public:
    class API : public api_traits::has_custom_sizes, public api_traits::has_asymmetric_dual_callback
    {
    public:
        LIBFLATARRAY_CUSTOM_SIZES((2)(36), (1)(20), (1)(12))
    };
    int a;
    char b;
    AsymWide(int a = 0, char b = 0) : a(a), b(b) {}
};
LIBFLATARRAY_REGISTER_SOA(AsymWide, ((int)(a))((char)(b)))

class SymWide
{
public:
    class API : public api_traits::has_custom_sizes, public api_traits::has_no_asymmetric_dual_callback
    {
    public:
        LIBFLATARRAY_CUSTOM_SIZES((2)(36)(300), (1)(20), (1)(12))
    };
    int a;
    char b;
    SymWide(int a = 0, char b = 0) : a(a), b(b) {}
};
LIBFLATARRAY_REGISTER_SOA(SymWide, ((int)(a))((char)(b)))

struct seen
{
    std::size_t e1[3], e2[3];
    std::size_t d1, d2;
    long i1, i2;
    int calls;
};

struct record
{
    seen *s;
    explicit record(seen *s) : s(s) {}
    template<typename CELL, long X1, long Y1, long Z1, long X2, long Y2, long Z2>
    void operator()(soa_accessor<CELL, X1, Y1, Z1, 0>& a, soa_accessor<CELL, X2, Y2, Z2, 0>& b) const
    {
        s->e1[0] = X1;
        s->e1[1] = Y1;
        s->e1[2] = Z1;
        s->e2[0] = X2;
        s->e2[1] = Y2;
        s->e2[2] = Z2;
        s->d1 = reinterpret_cast<std::size_t>(a.data());
        s->d2 = reinterpret_cast<std::size_t>(b.data());
        s->i1 = a.index();
        s->i2 = b.index();
        ++s->calls;
    }
};

// copies one cell from the first to the second grid
struct copy_cell
{
    std::size_t c1[3], c2[3];
    template<typename CELL, long X1, long Y1, long Z1, long X2, long Y2, long Z2>
    void operator()(soa_accessor<CELL, X1, Y1, Z1, 0>& a, soa_accessor<CELL, X2, Y2, Z2, 0>& b) const
    {
        a += soa_accessor<CELL, X1, Y1, Z1, 0>::gen_index(c1[0], c1[1], c1[2]);
        b += soa_accessor<CELL, X2, Y2, Z2, 0>::gen_index(c2[0], c2[1], c2[2]);
        b.a() = a.a();
        b.b() = a.b();
    }
};

struct shape
{
    std::size_t x, y, z;
};

static shape pick(std::size_t k)
{
    static const shape s[] = { {2, 1, 1}, {1, 1, 1}, {2, 2, 1}, {2, 2, 2}, {1, 2, 1}, {2, 1, 2}, {3, 1, 1}, {1, 3, 2} };
    return s[k];
}

static shape large(std::size_t k)
{
    static const shape s[] = { {2, 1, 1}, {33, 2, 1}, {2, 17, 1}, {1, 2, 9}, {33, 18, 1}, {34, 2, 1}, {33, 17, 10} };
    return s[k];
}

template<typename CELL, bool ASYM>
void dual(bool ro, shape (*pick)(std::size_t) = ::pick, std::size_t max = 7)
{
    shape s1 = pick(vf_pick("k1", 0, max)), s2 = pick(vf_pick("k2", 0, max));
    soa_grid<CELL> a(s1.x, s1.y, s1.z), b(s2.x, s2.y, s2.z);
    const soa_grid<CELL>& ca = a;
    bool same = s1.x == s2.x && s1.y == s2.y && s1.z == s2.z;
    seen s;
    s.calls = 0;
    record r(&s);
    bool ok = true;
    try {
        if (ro) {
            ca.callback(&b, r);
        } else {
            a.callback(&b, r);
        }
    } catch (const std::invalid_argument&) {
        ok = false;
    }
    vf_check(ok == (ASYM || same), "grids of different dimensions are refused exactly if the type needs equal sizes");
    vf_check(s.calls == ok, "the functor is called exactly once, or not at all");
    if (!ok) {
        vf_reach("refused");
        return;
    }
    vf_check(s.d1 == reinterpret_cast<std::size_t>(a.data()) && s.i1 == 0, "the first accessor belongs to the first grid");
    vf_check(s.d2 == reinterpret_cast<std::size_t>(b.data()) && s.i2 == 0, "the second accessor belongs to the second grid");
    vf_check(s.e1[0] == a.extent_x() && s.e1[1] == a.extent_y() && s.e1[2] == a.extent_z(), "the first accessor has the first grid's extents");
    vf_check(s.e2[0] == b.extent_x() && s.e2[1] == b.extent_y() && s.e2[2] == b.extent_z(), "the second accessor has the second grid's extents");

    // work on both
    CELL v(vf_any<int>("a"), vf_any<char>("b"));
    std::size_t x1, y1, z1, x2, y2, z2, px, py, pz;
    if (max == 7) {
        x1 = vf_index("x1", 0, s1.x - 1), y1 = vf_index("y1", 0, s1.y - 1), z1 = vf_index("z1", 0, s1.z - 1);
        x2 = vf_index("x2", 0, s2.x - 1), y2 = vf_index("y2", 0, s2.y - 1), z2 = vf_index("z2", 0, s2.z - 1);
        px = vf_index("px", 0, s2.x - 1), py = vf_index("py", 0, s2.y - 1), pz = vf_index("pz", 0, s2.z - 1);
    } else {
        // corners only
        bool f = vf_pick("first", 0, 1), g = vf_pick("second", 0, 1), h = vf_pick("watched", 0, 1);
        x1 = f ? s1.x - 1 : 0, y1 = f ? s1.y - 1 : 0, z1 = f ? s1.z - 1 : 0;
        x2 = g ? s2.x - 1 : 0, y2 = g ? s2.y - 1 : 0, z2 = g ? s2.z - 1 : 0;
        px = h ? s2.x - 1 : 0, py = h ? s2.y - 1 : 0, pz = h ? s2.z - 1 : 0;
    }
    CELL w(vf_any<int>("wa"), vf_any<char>("wb"));
    b.set(px, py, pz, w);
    a.set(x1, y1, z1, v);
    copy_cell c = { { x1, y1, z1 }, { x2, y2, z2 } };
    a.callback(&b, c);
    bool hit = (px == x2) & (py == y2) & (pz == z2);
    CELL got = b.get(px, py, pz);
    vf_check(got.a == (hit ? v.a : w.a) && got.b == (hit ? v.b : w.b), "writes through the second accessor end up in the second grid");
    got = a.get(x1, y1, z1);
    vf_check(got.a == v.a && got.b == v.b, "the first grid is only read");
    vf_reach("done");
}

VF_ENTRY(symmetric) { dual<SymCell, false>(false); }
VF_ENTRY(symmetric_const) { dual<SymCell, false>(true); }
VF_ENTRY(asymmetric) { dual<AsymCell, true>(false); }
VF_ENTRY(asymmetric_const) { dual<AsymCell, true>(true); }

VF_ENTRY(large_symmetric) { dual<SymWide, false>(false, large, 6); }
VF_ENTRY(large_asymmetric) { dual<AsymWide, true>(true, large, 6); }

// a grid paired with itself
template<typename CELL>
void self()
{
    soa_grid<CELL> a(2, 2, 2);
    seen s;
    s.calls = 0;
    a.callback(&a, record(&s));
    vf_check(s.calls == 1 && s.d1 == s.d2 && s.d1 == reinterpret_cast<std::size_t>(a.data()) && s.i1 == 0 && s.i2 == 0, "a grid may be paired with itself");
    vf_check(s.e1[0] == a.extent_x() && s.e1[1] == a.extent_y() && s.e1[2] == a.extent_z() &&
             s.e2[0] == a.extent_x() && s.e2[1] == a.extent_y() && s.e2[2] == a.extent_z(), "extents of a grid paired with itself");
    vf_reach("done");
}
VF_ENTRY(self_sym) { self<SymCell>(); }
VF_ENTRY(self_asym) { self<AsymCell>(); }
