// C03: selection of the padded size
#include "cells.hpp"

class Rect { public: int a;
    class API : public api_traits::has_custom_sizes { public: LIBFLATARRAY_CUSTOM_SIZES((3)(5)(70), (1)(6)(40), (2)(9)) }; };
class U1 { public: int a;
    class API : public api_traits::has_custom_sizes { public: LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM((3)(5)(70)(1000)) }; };
class U2 { public: int a;
    class API : public api_traits::has_custom_sizes { public: LIBFLATARRAY_CUSTOM_SIZES_2D_UNIFORM((3)(5)(70)(1000)) }; };
class U3 { public: int a;
    class API : public api_traits::has_custom_sizes { public: LIBFLATARRAY_CUSTOM_SIZES_3D_UNIFORM((3)(5)(70)(1000)) }; };
class D1 { public: int a; class API : public api_traits::has_default_1d_sizes {}; };
class D2 { public: int a; class API : public api_traits::has_default_2d_sizes {}; };
class D2U { public: int a; class API : public api_traits::has_default_2d_sizes_uniform {}; };
class D3 { public: int a; class API : public api_traits::has_default_3d_sizes {}; };
class D3U { public: int a; class API : public api_traits::has_default_3d_sizes_uniform {}; };
class DD { public: int a; };
LIBFLATARRAY_REGISTER_SOA(Rect, ((int)(a)))
LIBFLATARRAY_REGISTER_SOA(U1, ((int)(a)))
LIBFLATARRAY_REGISTER_SOA(U2, ((int)(a)))
LIBFLATARRAY_REGISTER_SOA(U3, ((int)(a)))
LIBFLATARRAY_REGISTER_SOA(D1, ((int)(a)))
LIBFLATARRAY_REGISTER_SOA(D2, ((int)(a)))
LIBFLATARRAY_REGISTER_SOA(D2U, ((int)(a)))
LIBFLATARRAY_REGISTER_SOA(D3, ((int)(a)))
LIBFLATARRAY_REGISTER_SOA(D3U, ((int)(a)))
LIBFLATARRAY_REGISTER_SOA(DD, ((int)(a)))

static char buffer[16];

struct seen
{
    std::size_t x, y, z;
    int calls;
    bool placed;
};

struct probe
{
    seen *s;
    template<typename CELL, long X, long Y, long Z, long I>
    void operator()(soa_accessor<CELL, X, Y, Z, I>& acc) { note<X, Y, Z, I>(acc); }
    template<typename CELL, long X, long Y, long Z, long I>
    void operator()(const_soa_accessor<CELL, X, Y, Z, I>& acc) { note<X, Y, Z, I>(acc); }
    template<long X, long Y, long Z, long I, typename ACC>
    void note(ACC& acc)
    {
        s->x = X;
        s->y = Y;
        s->z = Z;
        ++s->calls;
        s->placed = (acc.data() == buffer) && (acc.index() == 0) && (I == 0);
    }
};

// runs the selection; false if the dimensions were refused
template<typename CELL>
bool select(seen *s, std::size_t x, std::size_t y, std::size_t z)
{
    s->x = s->y = s->z = 0;
    s->calls = 0;
    s->placed = false;
    probe p = { s };
    try {
        api_traits::select_sizes<CELL>()(buffer, p, x, y, z);
    } catch (const std::out_of_range&) {
        vf_check(s->calls == 0, "a refused size must not reach the functor");
        return false;
    }
    vf_check(s->calls == 1, "the functor is called exactly once");
    vf_check(s->placed, "the accessor starts at the grid's first cell");
    return true;
}

static std::size_t smallest(const std::size_t *l, int n, std::size_t d)
{
    for (int i = 0; i < n; ++i) {
        if (d <= l[i]) {
            return l[i];
        }
    }
    return 0;
}

VF_ENTRY(custom_rect)
{
    static const std::size_t lx[] = { 3, 5, 70 }, ly[] = { 1, 6, 40 }, lz[] = { 2, 9 };
    std::size_t x = vf_u64("x"), y = vf_u64("y"), z = vf_u64("z");
    seen s;
    bool ok = select<Rect>(&s, x, y, z);
    std::size_t ex = smallest(lx, 3, x), ey = smallest(ly, 3, y), ez = smallest(lz, 2, z);
    vf_check(ok == (ex && ey && ez), "exactly the sizes which fit are accepted");
    if (ok) {
        vf_check(s.x == ex && s.y == ey && s.z == ez, "smallest registered size");
    }
    vf_reach("done");
}

template<typename CELL, int DIM>
void uniform()
{
    static const std::size_t l[] = { 3, 5, 70, 1000 };
    std::size_t x = vf_u64("x"), y = vf_u64("y"), z = vf_u64("z");
    seen s;
    bool ok = select<CELL>(&s, x, y, z);
    std::size_t m = x;
    if (DIM > 1 && y > m) { m = y; }
    if (DIM > 2 && z > m) { m = z; }
    std::size_t e = smallest(l, 4, m);
    bool shape = (DIM > 1 || y == 1) && (DIM > 2 || z == 1);
    vf_check(ok == (e && shape), "exactly the sizes which fit are accepted");
    if (ok) {
        vf_check(s.x == e && s.y == (DIM > 1 ? e : 1) && s.z == (DIM > 2 ? e : 1), "smallest registered size");
    }
    vf_reach("done");
}
VF_ENTRY(custom_u1) { uniform<U1, 1>(); }
VF_ENTRY(custom_u2) { uniform<U2, 2>(); }
VF_ENTRY(custom_u3) { uniform<U3, 3>(); }

static const std::size_t DEF1[] = { 32, 64, 128, 192, 256, 512, 544, 1056, 2080, 4128, 8224, 16416, 32800, 65568, 131104,
                                    262176, 524320, 1048608, 2097184, 4194336, 8388640, 16777248, 33554464, 67108896,
                                    134217760, 268435488, 536870944, 1073741856 };
static const std::size_t DEF3[] = { 32, 64, 128, 136, 192, 200, 256, 264, 512, 520, 1032 };
template<int DIM>
std::size_t registered(std::size_t d)
{
    return DIM == 1 ? smallest(DEF1, 28, d) : DIM == 2 ? smallest(DEF1, 13, d) : smallest(DEF3, 11, d);
}

// The library's own lists. Rounding up is a closure: it never shrinks, it is
// monotone and it is idempotent -- i.e. it picks the smallest available size.
template<typename CELL, int DIM, bool UNIFORM>
void closure(std::size_t must)
{
    std::size_t x = vf_u64("x"), y = vf_u64("y"), z = vf_u64("z");
    seen s;
    bool ok = select<CELL>(&s, x, y, z);
    if (!ok) {
        bool wellformed = x <= must && (DIM > 1 ? y <= must : y == 1) && (DIM > 2 ? z <= must : z == 1);
        vf_check(!wellformed, "sizes the type is registered for are accepted");
        vf_reach("refused");
        return;
    }
    vf_check(s.x >= x && s.y >= y && s.z >= z, "the padded size covers the requested size");
    std::size_t m = x;
    if (UNIFORM && DIM > 1) { m = y > m ? y : m; }
    if (UNIFORM && DIM > 2) { m = z > m ? z : m; }
    vf_check(s.x == registered<DIM>(m), "smallest registered size");
    vf_check(UNIFORM || s.y == registered<DIM>(y), "smallest registered size");
    vf_check(DIM > 1 || (s.y == 1 && s.z == 1), "1D grids are not padded in y and z");
    vf_check(DIM > 2 || s.z == 1, "2D grids are not padded in z");
    // all sizes between the requested and the padded one end up at the padded one
    std::size_t x2 = vf_u64("x2"), y2 = vf_u64("y2"), z2 = vf_u64("z2");
    vf_assume(x <= x2 && x2 <= s.x && y <= y2 && y2 <= s.y && z <= z2 && z2 <= s.z);
    seen t;
    ok = select<CELL>(&t, x2, y2, z2);
    vf_check(ok, "a padded size is a valid size");
    vf_check(t.x == s.x && t.y == s.y && t.z == s.z, "no smaller size is skipped");
    vf_check(!UNIFORM || DIM < 2 || s.x == s.y, "uniform sizes");
    vf_check(!UNIFORM || DIM < 3 || s.x == s.z, "uniform sizes");
    vf_reach("accepted");
}

// one step further than the padded size needs a bigger one
template<typename CELL, int DIM>
void beyond()
{
    std::size_t x = vf_u64("x");
    seen s, t;
    std::size_t o = 2;
    vf_assume(select<CELL>(&s, x, DIM > 1 ? o : 1, DIM > 2 ? o : 1));
    vf_check(s.x == registered<DIM>(x > o || DIM == 1 ? x : o), "smallest registered size");
    if (select<CELL>(&t, s.x + 1, DIM > 1 ? o : 1, DIM > 2 ? o : 1)) {
        vf_check(t.x > s.x, "bigger grids need a bigger size");
        vf_reach("grown");
    } else {
        // nothing beyond the largest size is accepted
        std::size_t far = vf_u64("far");
        vf_assume(far > s.x);
        vf_check(!select<CELL>(&t, far, DIM > 1 ? o : 1, DIM > 2 ? o : 1), "nothing beyond the largest size is accepted");
        vf_reach("largest");
    }
}

VF_ENTRY(default_1d) { closure<D1, 1, true>(1073741856); }
VF_ENTRY(default_2d_uniform) { closure<D2U, 2, true>(32800); }
VF_ENTRY(default_3d_uniform) { closure<D3U, 3, true>(1032); }
VF_ENTRY(beyond_1d) { beyond<D1, 1>(); }
VF_ENTRY(beyond_2d_uniform) { beyond<D2U, 2>(); }
VF_ENTRY(beyond_3d_uniform) { beyond<D3U, 3>(); }
#if defined(WITH_RECT)
VF_ENTRY(default_2d) { closure<D2, 2, false>(32800); }
VF_ENTRY(beyond_2d) { beyond<D2, 2>(); }
VF_ENTRY(beyond_3d) { beyond<D3, 3>(); }
#endif

// types without an API pick by the shape of the grid
VF_ENTRY(default_none)
{
    std::size_t x = vf_u64("x"), y = vf_u64("y"), z = vf_u64("z");
    seen s;
    bool ok = select<DD>(&s, x, y, z);
    bool d1 = (y == 1) & (z == 1), d2 = (y > 1) & (z == 1), d3 = (y > 1) & (z > 1);
    if (ok) {
        vf_check(s.x >= x && s.y >= y && s.z >= z, "the padded size covers the requested size");
        seen t;
        if (d1) {
            vf_check(select<D1>(&t, x, y, z) && t.x == s.x && t.y == s.y && t.z == s.z, "1D grids use 1D sizes");
            vf_reach("1d");
        }
        if (d2) {
            vf_check(select<D2U>(&t, x, y, z) && t.x == s.x && t.y == s.y && t.z == s.z, "2D grids use 2D sizes");
            vf_reach("2d");
        }
        if (d3) {
            vf_check(select<D3U>(&t, x, y, z) && t.x == s.x && t.y == s.y && t.z == s.z, "3D grids use 3D sizes");
            vf_reach("3d");
        }
    } else {
        vf_check(!(d1 & (x <= 1073741856)), "1D grids are accepted");
        vf_check(!(d2 & (x <= 32800) & (y <= 32800)), "2D grids are accepted");
        vf_check(!(d3 & (x <= 1032) & (y <= 1032) & (z <= 1032)), "3D grids are accepted");
        vf_reach("refused");
    }
}
