// C06: members which own resources are constructed, assigned and destroyed
// exactly like objects: never used before construction, never destroyed twice,
// never moved byte by byte, never leaked.
#include "cells.hpp"

static int alive;

class Owner
{
public:
    Owner() : self(this), p(new int(7)) { ++alive; }
    explicit Owner(int v) : self(this), p(new int(v)) { ++alive; }
    Owner(const Owner& o) : self(this), p(new int(o.get())) { ++alive; }
    ~Owner()
    {
        vf_check(self == this, "destruction of something that is not an object");
        self = 0;
        delete p;
        p = 0;
        --alive;
    }
    Owner& operator=(const Owner& o)
    {
        vf_check(self == this, "assignment to something that is not an object");
        int v = o.get();
        if (this != &o) {
            // acquire anew, as containers and strings do
            int *q = new int(v);
            delete p;
            p = q;
        }
        return *this;
    }
    int get() const
    {
        vf_check(self == this, "use of something that is not an object");
        return *p;
    }
private:
    const Owner *self;
    int *p;
};

template<typename SIZES, int N = 2>
class Cell
{
public:
    typedef SIZES API;
    static const int OWNERS = N + 1;
    Owner o;
    char c;
    Owner a[N];
    static int element(int n, int j, int k)
    {
        return n == N - 1 ? k : int(unsigned(j) + unsigned(n));
    }
    Cell() : c(0) {}
    Cell(int i, char ch, int j, int k) : o(i), c(ch)
    {
        for (int n = 0; n < N; ++n) {
            a[n] = Owner(element(n, j, k));
        }
    }
    void check(int i, char ch, int j, int k, const char *msg) const
    {
        vf_check((o.get() == i) & (c == ch), msg);
        for (int n = 0; n < N; ++n) {
            vf_check(a[n].get() == element(n, j, k), msg);
        }
    }
};

struct Sizes3 : public api_traits::has_custom_sizes
{
    LIBFLATARRAY_CUSTOM_SIZES((2)(3), (1)(2), (1)(2))
};
struct SizesWide : public api_traits::has_custom_sizes
{
    LIBFLATARRAY_CUSTOM_SIZES((2)(4)(18), (1)(3)(9), (1)(3)(9))
};
struct Sizes1 : public api_traits::has_custom_sizes
{
    LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM((2)(4)(7)(33))
};
typedef Cell<Sizes3> C3;
typedef Cell<Sizes1> C1;
typedef Cell<SizesWide> CW;
LIBFLATARRAY_REGISTER_SOA(C3, ((Owner)(o))((char)(c))((Owner)(a)(2)))
LIBFLATARRAY_REGISTER_SOA(CW, ((Owner)(o))((char)(c))((Owner)(a)(2)))
typedef Cell<Sizes3, 19> CBig;
LIBFLATARRAY_REGISTER_SOA(CBig, ((Owner)(o))((char)(c))((Owner)(a)(19)))
LIBFLATARRAY_REGISTER_SOA(C1, ((Owner)(o))((char)(c))((Owner)(a)(2)))

template<typename CELL>
struct value
{
    int i, j, k;
    char c;
    static value any()
    {
        value r;
        r.i = vf_any<int>("i");
        r.j = vf_any<int>("j");
        r.k = vf_any<int>("k");
        r.c = vf_any<char>("c");
        return r;
    }
    CELL cell() const { return CELL(i, c, j, k); }
    void check(const CELL& o, const char *msg) const { o.check(i, c, j, k, msg); }
};

static void finish()
{
    vf_check(alive == 0, "as many members are destroyed as were constructed");
    vf_check(vf_live_allocs() == 0, "all resources are released");
    vf_reach("done");
}

// ------------------------------------------------------------------- grid
template<typename CELL>
void grid_history(std::size_t x, std::size_t y, std::size_t z, int steps)
{
    typedef soa_grid<CELL> grid;
    {
        grid a(x, y, z), b;
        vf_check(alive == int(CELL::OWNERS * x * y * z), "every cell of a grid is constructed");
        for (int s = 0; s < steps; ++s) {
            unsigned op = vf_u8("op");
            vf_assume(op < 12);
            value<CELL> v = value<CELL>::any();
            switch (op) {
            case 0:
                if (a.dim_x() > 0) {
                    a.set(a.dim_x() - 1, a.dim_y() - 1, a.dim_z() - 1, v.cell());
                    v.check(a.get(a.dim_x() - 1, a.dim_y() - 1, a.dim_z() - 1), "read-back");
                }
                break;
            case 1:
                if (a.dim_x() > 1) {
                    CELL in[2] = { v.cell(), v.cell() }, out[2];
                    a.set(a.dim_x() - 2, 0, 0, in, 2);
                    a.get(a.dim_x() - 2, 0, 0, out, 2);
                    v.check(out[0], "read-back");
                    v.check(out[1], "read-back");
                }
                break;
            case 2:
                if (a.dim_x() > 0) {
                    a.broadcast(0, 0, 0, v.cell(), a.dim_x());
                    v.check(a.get(0, 0, 0), "read-back");
                }
                break;
            case 3:
                a.resize(3, y, z);
                break;
            case 4:
                a.resize(1, 1, 1);
                break;
            case 5:
                b = a;
                break;
            case 6:
                a = b;
                break;
            case 7:
                a.swap(b);
                break;
            case 8: {
                grid c(a);
                c.swap(b);
                break;
            }
            case 9:
                try {
                    a.resize(100, 1, 1);
                    vf_check(false, "oversized grids are refused");
                } catch (const std::out_of_range&) {}
                break;
            case 10:
                // typed raw data of another grid of the same extent
                if (a.dim_x() > 1) {
                    grid c(a.dim_x(), a.dim_y(), a.dim_z());
                    c.set(0, 0, 0, v.cell());
                    a.load(0, 0, 0, c.data(), 1 * 0 + 0);
                    detail::flat_array::simple_streak it[2] = {
                        detail::flat_array::simple_streak(0, 0, 0, 2), detail::flat_array::simple_streak() };
                    a.load(it + 0, it + 1, c.data(), c.extent_x() * c.extent_y() * c.extent_z());
                    v.check(a.get(0, 0, 0), "read-back");
                }
                break;
            case 11:
                a = a;
                break;
            }
            std::size_t cells = a.dim_x() * a.dim_y() * a.dim_z() + b.dim_x() * b.dim_y() * b.dim_z();
            vf_check(alive == int(CELL::OWNERS * cells), "exactly the cells of all grids are alive");
        }
    }
    finish();
}

// ------------------------------------------------------------------ array
template<typename CELL, typename ARRAY>
void array_fill(ARRAY& a, const value<CELL>& v, std::size_t n)
{
    for (std::size_t i = 0; i < n; ++i) {
        a.push_back(v.cell());
    }
}

template<typename CELL, typename ARRAY>
void array_is(const ARRAY& a, const value<CELL>& v, std::size_t n, const char *msg)
{
    vf_check(a.size() == n, msg);
    for (std::size_t i = 0; i < n; ++i) {
        CELL c;
        a[int(i)] >> c;
        v.check(c, msg);
    }
}

template<typename CELL>
void array_history(int steps)
{
    typedef soa_array<CELL, 3> small;
    typedef soa_array<CELL, 5> big;
    {
        value<CELL> v = value<CELL>::any(), w = value<CELL>::any();
        small a(2, v.cell()), b;
        big c(4, w.cell());
        for (int s = 0; s < steps; ++s) {
            unsigned op = vf_u8("op");
            vf_assume(op < 16);
            switch (op) {
            case 0:
                try {
                    a.push_back(v.cell());
                } catch (const std::out_of_range&) {}
                break;
            case 1:
                if (a.size()) {
                    a.pop_back();
                }
                break;
            case 2:
                a.clear();
                break;
            case 3: {
                small d(a);
                array_is(d, v, a.size(), "content of a copy");
                d.clear();
                array_fill(d, w, 3);
                array_is(a, v, a.size(), "copies are independent");
                break;
            }
            case 4: {
                const small& ro = a;
                small d(ro);
                array_is(d, v, a.size(), "content of a copy");
                d.clear();
                array_fill(d, w, 3);
                array_is(a, v, a.size(), "copies are independent");
                break;
            }
            case 5: {
                small d = a;
                array_is(d, v, a.size(), "content of a copy");
                break;
            }
            case 6:
                b = a;
                array_is(b, v, a.size(), "content of an assigned array");
                break;
            case 7: {
                const small& ro = a;
                b = ro;
                array_is(b, v, a.size(), "content of an assigned array");
                break;
            }
            case 8: {
                const small& ro = a;
                big d(ro);
                array_is(d, v, a.size(), "content of a copy");
                break;
            }
            case 9: {
                const small& ro = a;
                c = ro;
                array_is(c, v, a.size(), "content of an assigned array");
                break;
            }
            case 10:
                // does not fit
                c.clear();
                array_fill(c, w, 4);
                try {
                    a = c;
                    vf_check(false, "oversized content is refused");
                } catch (const std::out_of_range&) {}
                break;
            case 11:
                c.clear();
                array_fill(c, w, 5);
                try {
                    small d(c);
                    vf_check(false, "oversized content is refused");
                } catch (const std::out_of_range&) {}
                break;
            case 12: {
                using std::swap;
                small d(1, w.cell());
                std::size_t n = a.size();
                swap(a, d);
                array_is(d, v, n, "swap exchanges the content");
                array_is(a, w, 1, "swap exchanges the content");
                swap(a, d);
                break;
            }
            case 13: {
                big d(1, v.cell());
                std::size_t n = a.size();
                if (n < 3) {
                    a.load(d[0], 1);
                    array_is(a, v, n + 1, "appended content");
                }
                break;
            }
            case 14:
                try {
                    std::size_t n = 4 + vf_u8("n") % 2;
                    small d(n, w.cell());
                    vf_check(false, "oversized content is refused");
                } catch (const std::out_of_range&) {}
                break;
            case 15:
                a = a;
                break;
            }
            array_is(a, v, a.size(), "content of an array");
        }
        vf_check(alive == 3 * (3 + 3 + 5), "exactly the slots of all arrays are alive");
    }
    finish();
}

// ----------------------------------------------------------------- vector
template<typename CELL>
void vector_history(std::size_t start, int steps)
{
    {
        value<CELL> v = value<CELL>::any();
        soa_vector<CELL> a(start, v.cell());
        for (int s = 0; s < steps; ++s) {
            unsigned op = vf_u8("op");
            vf_assume(op < 9);
            switch (op) {
            case 0:
                a.push_back(v.cell());
                break;
            case 1:
                if (!a.empty()) {
                    a.pop_back();
                }
                break;
            case 2:
                a.clear();
                break;
            case 3:
                a.reserve(vf_pick("r", 3, 5));
                break;
            case 4: {
                std::size_t old = a.size(), n = vf_pick("s", 0, 4);
                a.resize(n);
                for (std::size_t i = old; i < n; ++i) {
                    a.set(i, v.cell());
                }
                break;
            }
            case 5: {
                soa_vector<CELL> b(a);
                vf_check(b.size() == a.size(), "size of a copy");
                b.clear();
                break;
            }
            case 6: {
                soa_vector<CELL> b;
                b = a;
                b.push_back(v.cell());
                break;
            }
            case 7:
                a = a;
                break;
            case 8:
                a.push_back(a.size() ? a.get(0) : v.cell());
                break;
            }
            for (std::size_t i = 0; i < a.size(); ++i) {
                v.check(a.get(i), "content of a vector");
            }
        }
        vf_reach("steps");
    }
    finish();
}

// larger grids: every cell takes part
template<typename CELL>
void grid_wide(std::size_t x, std::size_t y, std::size_t z)
{
    typedef soa_grid<CELL> grid;
    {
        value<CELL> v = value<CELL>::any(), w = value<CELL>::any();
        grid a(x, y, z);
        vf_check(alive == int(CELL::OWNERS * x * y * z), "every cell of a grid is constructed");
        for (std::size_t k = 0; k < z; ++k) {
            for (std::size_t j = 0; j < y; ++j) {
                a.broadcast(0, j, k, (j + k) % 2 ? v.cell() : w.cell(), x);
            }
        }
        grid b(2, 1, 1);
        switch (vf_pick("op", 0, 4)) {
        case 0: {
            grid c(a);
            c.swap(b);
            break;
        }
        case 1:
            b = a;
            break;
        case 2:
            b.resize(x, y, z);
            b = a;
            break;
        case 3:
            a.swap(b);
            break;
        case 4:
            a.resize(x - 1, y, z);
            a.resize(1, 1, 1);
            a.resize(x, y, z);
            a.resize(2, 1, 1);
            b.resize(x, y, z);
            for (std::size_t k = 0; k < z; ++k) {
                for (std::size_t j = 0; j < y; ++j) {
                    b.broadcast(0, j, k, (j + k) % 2 ? v.cell() : w.cell(), x);
                }
            }
            break;
        }
        for (std::size_t k = 0; k < z; ++k) {
            for (std::size_t j = 0; j < y; ++j) {
                for (std::size_t i = 0; i < x; ++i) {
                    ((j + k) % 2 ? v : w).check(b.get(i, j, k), "content of a grid");
                }
            }
        }
        std::size_t cells = a.dim_x() * a.dim_y() * a.dim_z() + b.dim_x() * b.dim_y() * b.dim_z();
        vf_check(alive == int(CELL::OWNERS * cells), "exactly the cells of all grids are alive");
    }
    finish();
}

template<typename CELL>
void vector_wide(std::size_t max)
{
    {
        value<CELL> v = value<CELL>::any();
        soa_vector<CELL> a;
        for (std::size_t i = 0; i < max; ++i) {
            a.push_back(v.cell());
        }
        soa_vector<CELL> b(a);
        b.resize(max / 2);
        b.push_back(v.cell());
        a = b;
        a.reserve(max);
        for (std::size_t i = 0; i < a.size(); ++i) {
            v.check(a.get(i), "content of a vector");
        }
        vf_check(a.size() == max / 2 + 1, "size of a vector");
    }
    finish();
}

#if defined(PART_D)
VF_ENTRY(wide_x) { grid_wide<CW>(17, 2, 1); }
VF_ENTRY(wide_y) { grid_wide<CW>(3, 9, 2); }
VF_ENTRY(wide_z) { grid_wide<CW>(2, 2, 9); }
VF_ENTRY(wide_members) { grid_wide<CBig>(3, 2, 1); }
VF_ENTRY(wide_1d) { grid_wide<C1>(33, 1, 1); }
VF_ENTRY(wide_vector) { vector_wide<C1>(19); }
VF_ENTRY(wide_vector33) { vector_wide<C1>(33); }
#elif defined(PART_A)
VF_ENTRY(grid3) { grid_history<C3>(2, 2, 1, VF_TIER ? 3 : 2); }
VF_ENTRY(grid3b) { grid_history<C3>(1, 1, 2, 3); }
VF_ENTRY(grid1) { grid_history<C1>(3, 1, 1, 3); }
#elif defined(PART_B)
VF_ENTRY(array) { array_history<C1>(2); }
VF_ENTRY(array3) { array_history<C1>(3); }
#else
VF_ENTRY(vector0) { vector_history<C1>(0, 3); }
VF_ENTRY(vector1) { vector_history<C1>(1, VF_TIER ? 3 : 2); }
VF_ENTRY(vector2) { vector_history<C1>(2, VF_TIER ? 3 : 2); }
VF_ENTRY(vector3) { vector_history<C1>(3, 3); }
VF_ENTRY(vector4) { vector_history<C1>(4, VF_TIER ? 3 : 2); }
#endif
