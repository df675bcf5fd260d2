// Larger containers, longer streaks: positions are explored one by one, all values are symbolic.
#include "cells.hpp"

// counts around the powers of two
static std::size_t some(const char *name, std::size_t max, std::size_t min = 0)
{
    static const std::size_t T[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 47, 63, 64, 65,
                                     127, 128, 129, 200, 255, 256, 257 };
    std::size_t m = 0;
    while (m + 1 < sizeof(T) / sizeof(T[0]) && T[m + 1] <= max) {
        ++m;
    }
    std::size_t l = 0;
    while (l < m && T[l] < min) {
        ++l;
    }
    return T[vf_pick(name, l, m)];
}

template<typename CELL>
struct mirror
{
    std::size_t dx, dy, dz;
    std::vector<CELL> cells;
    mirror(std::size_t dx, std::size_t dy, std::size_t dz) : dx(dx), dy(dy), dz(dz), cells(dx * dy * dz) {}
    CELL& at(std::size_t x, std::size_t y, std::size_t z) { return cells[(z * dy + y) * dx + x]; }
    template<typename G>
    void fill(G& g)
    {
        for (std::size_t z = 0; z < dz; ++z) {
            for (std::size_t y = 0; y < dy; ++y) {
                for (std::size_t x = 0; x < dx; ++x) {
                    at(x, y, z) = CELL::any();
                    g.set(x, y, z, at(x, y, z));
                }
            }
        }
    }
    template<typename G>
    void check(const G& g, const char *msg)
    {
        for (std::size_t z = 0; z < dz; ++z) {
            for (std::size_t y = 0; y < dy; ++y) {
                for (std::size_t x = 0; x < dx; ++x) {
                    g.get(x, y, z).check(at(x, y, z), msg);
                }
            }
        }
    }
};

#if defined(PART_C01)
// streaks of any length anywhere in a row; everything else keeps its value
template<typename CELL>
void streaks(std::size_t dx, std::size_t dy, std::size_t dz, std::size_t max, std::size_t min = 0)
{
    soa_grid<CELL> g(dx, dy, dz);
    mirror<CELL> m(dx, dy, dz);
    std::size_t n = some("n", max, min);
    std::size_t x = vf_pick("where", 0, 2) * ((dx - n) / 2), y = dy / 2, z = dz / 2;
    std::vector<CELL> in(n + 1), out(n + 2);
    for (std::size_t i = 0; i < n; ++i) {
        in[i] = CELL::any();
    }
    // neighbours
    std::size_t l = x ? x - 1 : dx - 1, r = x + n < dx ? x + n : 0;
    if (l < x || l >= x + n) {
        m.at(l, y, z) = CELL::any();
        g.set(l, y, z, m.at(l, y, z));
    }
    if (r < x || r >= x + n) {
        m.at(r, y, z) = CELL::any();
        g.set(r, y, z, m.at(r, y, z));
    }
    if (vf_any<bool>("all")) {
        in[0] = CELL::any();
        g.broadcast(x, y, z, in[0], n);
        for (std::size_t i = 0; i < n; ++i) {
            m.at(x + i, y, z) = in[0];
        }
    } else {
        g.set(x, y, z, &in[0], n);
        for (std::size_t i = 0; i < n; ++i) {
            m.at(x + i, y, z) = in[i];
        }
    }
    m.check(g, "cell after a streak was written");
    CELL guard = CELL::any();
    out[0] = out[n + 1] = guard;
    g.get(x, y, z, &out[1], n);
    for (std::size_t i = 0; i < n; ++i) {
        out[i + 1].check(m.at(x + i, y, z), "streak read-back");
    }
    out[0].check(guard, "a read in front of the target");
    out[n + 1].check(guard, "a read beyond the streak's length");
    vf_reach("done");
}
VF_ENTRY(wide_streaks_byte) { streaks<Def1Cell>(262, 1, 1, 257, VF_TIER ? 100 : 255); }
VF_ENTRY(wide_streaks_def1) { streaks<Def1Cell>(70, 1, 1, 65); }
VF_ENTRY(wide_streaks_def) { streaks<DefCell>(36, 2, 2, 33); }
VF_ENTRY(wide_streaks_def2) { streaks<DefCell>(40, 3, 1, 40); }
VF_ENTRY(wide_streaks_tall) { streaks<DefCell>(3, 34, 3, 3); }
VF_ENTRY(wide_streaks_big) { streaks<BigCell>(5, 2, 2, 3); }
VF_ENTRY(wide_streaks_deep) { streaks<DefCell>(4, 2, 34, 4); }

// far away coordinates of large grids, by means of the functors that work on the largest accessors
template<typename CELL, long X, long Y, long Z>
void far()
{
    const std::size_t BYTES = aggregated_member_size<CELL>::VALUE * std::size_t(X) * Y * Z;
    char *data = vf_huge(BYTES);
    std::size_t w = vf_pick("written", 0, 8), p = vf_pick("watched", 0, 8);
    // the corners, the centre
    std::size_t x = w == 8 ? X / 2 : w & 1 ? X - 2 : 0, y = w == 8 ? Y / 2 : w & 2 ? Y - 1 : 0, z = w == 8 ? Z / 2 : w & 4 ? Z - 1 : 0;
    std::size_t px = p == 8 ? X / 2 : p & 1 ? X - 1 : 0, py = p == 8 ? Y / 2 : p & 2 ? Y - 1 : 0, pz = p == 8 ? Z / 2 : p & 4 ? Z - 1 : 0;
    CELL watched = CELL::any(), c[2] = { CELL::any(), CELL::any() }, back;
    soa_accessor<CELL, X, Y, Z, 0> acc(data, 0);
    detail::flat_array::set_instance_functor<CELL, 1, false>(&watched, px, py, pz, 1)(acc);
    acc.index() = 0;
    detail::flat_array::set_instance_functor<CELL, 1, false>(c, x, y, z, 2)(acc);
    acc.index() = 0;
    detail::flat_array::get_instance_functor<CELL, false>(&back, px, py, pz, 1)(acc);
    watched.assign_if((px == x) & (py == y) & (pz == z), c[0]);
    watched.assign_if((px == x + 1) & (py == y) & (pz == z), c[1]);
    back.check(watched, "a cell of a large grid");
    vf_reach("done");
}
VF_ENTRY(far_3d) { far<Uni2Cell, 1032, 1032, 1032>(); }
VF_ENTRY(far_rect) { far<Uni2Cell, 192, 1032, 256>(); }
VF_ENTRY(far_2d) { far<Uni2Cell, 32800, 32800, 1>(); }
VF_ENTRY(far_1d) { far<Uni2Cell, (1 << 30), 1, 1>(); }
#endif

#if defined(PART_C05)
template<typename CELL>
void copies(std::size_t dx, std::size_t dy, std::size_t dz)
{
    typedef soa_grid<CELL> G;
    G g(dx, dy, dz);
    mirror<CELL> m(dx, dy, dz);
    m.fill(g);
    G other(2, 1, 1), third(dx, dy, dz);
    switch (vf_pick("how", 0, 3)) {
    case 0: {
        G copy(g);
        m.check(copy, "copy");
        copy.broadcast(0, 0, 0, CELL::any(), dx);
        m.check(g, "source of a copy");
        break;
    }
    case 1:
        other = g;
        m.check(other, "assigned grid");
        other.broadcast(0, dy - 1, dz - 1, CELL::any(), dx);
        m.check(g, "source of an assignment");
        break;
    case 2:
        third = g;
        m.check(third, "assigned grid of the same size");
        g.broadcast(0, dy - 1, dz - 1, CELL::any(), dx);
        m.check(third, "assigned grid");
        break;
    case 3:
        swap(g, other);
        m.check(other, "swapped grid");
        vf_check(g.dim_x() == 2 && other.dim_x() == dx && other.dim_y() == dy && other.dim_z() == dz, "dimensions");
        break;
    }
    vf_reach("done");
}
// two grids of any two shapes, histories of operations on complete content
struct shape { std::size_t x, y, z; };
template<typename CELL>
void pairs(const shape *menu, int n, int steps)
{
    typedef soa_grid<CELL> G;
    shape s = menu[vf_pick("a", 0, n - 1)], t = menu[vf_pick("b", 0, n - 1)];
    G a(s.x, s.y, s.z), b(t.x, t.y, t.z);
    mirror<CELL> ma(s.x, s.y, s.z), mb(t.x, t.y, t.z);
    ma.fill(a);
    mb.fill(b);
    for (int i = 0; i < steps; ++i) {
        switch (vf_pick("op", 0, 5)) {
        case 0:
            a = b;
            ma = mb;
            break;
        case 1:
            a.swap(b);
            std::swap(ma, mb);
            break;
        case 2: {
            using std::swap;
            swap(b, a);
            std::swap(ma, mb);
            break;
        }
        case 3: {
            G c(b);
            mirror<CELL> mc(mb);
            mb.at(0, 0, 0) = CELL::any();
            b.set(0, 0, 0, mb.at(0, 0, 0));
            mc.check(c, "copy of a grid");
            swap(a, c);
            ma = mc;
            break;
        }
        case 4:
            ma.at(ma.dx - 1, ma.dy - 1, ma.dz - 1) = CELL::any();
            a.set(ma.dx - 1, ma.dy - 1, ma.dz - 1, ma.at(ma.dx - 1, ma.dy - 1, ma.dz - 1));
            break;
        case 5:
            b.resize(s.x, s.y, s.z);
            if (mb.dx != s.x || mb.dy != s.y || mb.dz != s.z) {
                mb = mirror<CELL>(s.x, s.y, s.z);
            }
            break;
        }
        vf_check(a.dim_x() == ma.dx && a.dim_y() == ma.dy && a.dim_z() == ma.dz, "dimensions");
        vf_check(b.dim_x() == mb.dx && b.dim_y() == mb.dy && b.dim_z() == mb.dz, "dimensions");
        ma.check(a, "first grid");
        mb.check(b, "second grid");
    }
    vf_reach("done");
}
static const shape CUBES[] = { { 2, 2, 2 }, { 3, 2, 2 }, { 2, 3, 1 }, { 3, 3, 3 }, { 1, 1, 1 } };
static const shape SQUARES[] = { { 2, 2, 1 }, { 3, 2, 1 }, { 2, 3, 1 }, { 3, 3, 1 }, { 4, 1, 1 } };
static const shape ROWS[] = { { 2, 1, 1 }, { 1, 1, 1 }, { 4, 1, 1 }, { 5, 1, 1 }, { 33, 1, 1 } };
VF_ENTRY(pairs_mix) { pairs<MixCell>(CUBES, VF_TIER ? 5 : 4, 2); }
VF_ENTRY(pairs_uni3) { pairs<Uni3Cell>(CUBES, VF_TIER ? 5 : 3, 2); }
VF_ENTRY(pairs_uni2) { pairs<Uni2Cell>(SQUARES, 5, VF_TIER ? 3 : 2); }
VF_ENTRY(pairs_def) { pairs<DefCell>(SQUARES, VF_TIER ? 5 : 4, VF_TIER ? 3 : 2); }
VF_ENTRY(pairs_def1) { pairs<Def1Cell>(ROWS, VF_TIER ? 5 : 4, VF_TIER ? 3 : 2); }
VF_ENTRY(wide_copies_byte) { copies<Def1Cell>(300, 1, 1); }
VF_ENTRY(wide_copies_def) { copies<DefCell>(35, 3, 2); }
VF_ENTRY(wide_copies_tall) { copies<DefCell>(2, 34, 3); }
VF_ENTRY(wide_copies_deep) { copies<DefCell>(3, 2, 34); }
VF_ENTRY(wide_copies_big) { copies<BigCell>(3, 2, 2); }
VF_ENTRY(wide_copies_def1) { copies<Def1Cell>(67, 1, 1); }
#endif

#if defined(PART_C07)
typedef detail::flat_array::simple_streak streak;
// raw image of DefCell
static void put(char *buf, std::size_t slot, std::size_t stride, const DefCell& c)
{
    std::memcpy(buf + 4 * slot, &c.a, 4);
    buf[4 * stride + slot] = c.b[0];
    buf[5 * stride + slot] = c.b[1];
}
static DefCell take(const char *buf, std::size_t slot, std::size_t stride)
{
    DefCell c;
    std::memcpy(&c.a, buf + 4 * slot, 4);
    c.b[0] = buf[4 * stride + slot];
    c.b[1] = buf[5 * stride + slot];
    return c;
}
static void put(char *buf, std::size_t slot, std::size_t stride, const BigCell& c)
{
    for (int i = 0; i < 34; ++i) {
        std::memcpy(buf + 2 * stride * i + 2 * slot, &c.m[i], 2);
    }
    buf[68 * stride + slot] = c.c;
    for (int i = 0; i < 21; ++i) {
        std::memcpy(buf + 69 * stride + 4 * stride * i + 4 * slot, &c.n[i], 4);
    }
    for (int i = 0; i < 130; ++i) {
        buf[153 * stride + stride * i + slot] = c.z[i];
    }
    std::memcpy(buf + 283 * stride + 4 * slot, &c.tail, 4);
}
static void big_streak()
{
    const std::size_t BYTES = 287;
    soa_grid<BigCell> g(5, 2, 2);
    mirror<BigCell> m(5, 2, 2);
    std::size_t n = vf_pick("n", 0, 4), x = vf_pick("x", 0, 1), stride = n + vf_pick("extra", 0, 1) * 8;
    std::vector<char> in(stride * BYTES + 1), out(stride * BYTES + 1, 'z'), expected(stride * BYTES + 1, 'z');
    for (std::size_t i = 0; i < n; ++i) {
        m.at(x + i, 1, 1) = BigCell::any();
        put(&in[0], i, stride, m.at(x + i, 1, 1));
        put(&expected[0], i, stride, m.at(x + i, 1, 1));
    }
    streak s(int(x), 1, 1, int(n));
    g.load(&s, &s + 1, &in[0], stride);
    m.check(g, "cell after a streak was loaded");
    g.save(&s, &s + 1, &out[0], stride);
    for (std::size_t i = 0; i < out.size(); ++i) {
        vf_check(out[i] == expected[i], "saved bytes");
    }
    vf_reach("done");
}
static void long_streak(std::size_t dx, std::size_t dy, std::size_t dz, std::size_t max, std::size_t min = 0)
{
    soa_grid<DefCell> g(dx, dy, dz);
    mirror<DefCell> m(dx, dy, dz);
    std::size_t n = some("n", max, min);
    std::size_t x = vf_pick("where", 0, 2) * ((dx - n) / 2), y = dy / 2, z = dz / 2;
    std::vector<char> in(n * 6 + 1), out(n * 6 + 1, 'z');
    for (std::size_t i = 0; i < n; ++i) {
        m.at(x + i, y, z) = DefCell::any();
        put(&in[0], i, n, m.at(x + i, y, z));
    }
    g.load(x, y, z, &in[0], n);
    m.check(g, "cell after a streak was loaded");
    g.save(x, y, z, &out[0], n);
    for (std::size_t i = 0; i < n; ++i) {
        take(&out[0], i, n).check(m.at(x + i, y, z), "saved cell");
    }
    vf_check(out[n * 6] == 'z', "bytes beyond the buffer");
    vf_reach("done");
}
static void many_streaks(std::size_t dx, std::size_t dy, std::size_t dz, int k, int unit = 5)
{
    soa_grid<DefCell> g(dx, dy, dz);
    mirror<DefCell> m(dx, dy, dz);
    std::vector<streak> s;
    std::size_t n = 0;
    for (int i = 0; i < k; ++i) {
        std::size_t l = (i * unit + 1) % (unit + 2);
        s.push_back(streak((i * 3) % 4, i % dy, (i / dy) % dz, l));
        n += l;
    }
    static const std::size_t EXTRA[] = { 0, 1, 2, 3, 33, 64, 100, 128, 256, 500 };
    std::size_t stride = n + EXTRA[vf_pick("extra", 0, 9)];
    std::vector<char> in(stride * 6), out(stride * 6, 'z');
    std::size_t slot = 0;
    for (int i = 0; i < k; ++i) {
        for (int j = 0; j < s[i].length(); ++j) {
            DefCell c = DefCell::any();
            m.at(s[i].origin[0] + j, s[i].origin[1], s[i].origin[2]) = c;
            put(&in[0], slot++, stride, c);
        }
    }
    g.load(s.begin(), s.end(), &in[0], stride);
    m.check(g, "cell after streaks were loaded");
    g.save(s.begin(), s.end(), &out[0], stride);
    slot = 0;
    for (int i = 0; i < k; ++i) {
        for (int j = 0; j < s[i].length(); ++j) {
            take(&out[0], slot++, stride).check(m.at(s[i].origin[0] + j, s[i].origin[1], s[i].origin[2]), "saved cell");
        }
    }
    for (; slot < stride; slot += 1 + (slot > n + 8 && slot + 12 < stride ? 10 : 0)) {
        DefCell z;
        z.b[0] = z.b[1] = 'z';
        z.a = 0x7a7a7a7a;
        take(&out[0], slot, stride).check(z, "save leaves the rest of the buffer alone");
    }
    vf_reach("done");
}
VF_ENTRY(wide_long_byte) { long_streak(262, 1, 1, 257, VF_TIER ? 100 : 255); }
VF_ENTRY(wide_long_big) { big_streak(); }
VF_ENTRY(wide_long_1d) { long_streak(70, 1, 1, 65); }
VF_ENTRY(wide_long_3d) { long_streak(36, 2, 2, 33); }
VF_ENTRY(wide_many) { many_streaks(12, 3, 3, 9); }
VF_ENTRY(wide_many_long) { many_streaks(200, 1, 1, 4, 60); }
VF_ENTRY(wide_many_2d) { many_streaks(11, 6, 1, 6); }
#endif

#if defined(PART_C09)
template<typename CELL, int CAP>
void arrays(std::size_t min = 0)
{
    soa_array<CELL, CAP> a;
    CELL m[CAP];
    std::size_t n = some("n", CAP, min);
    for (std::size_t i = 0; i < n; ++i) {
        m[i] = CELL::any();
        if (i % 2) {
            a.push_back(m[i]);
        } else {
            a << m[i];
        }
    }
    bool ok = true;
    if (n == CAP) {
        try {
            a.push_back(CELL::any());
        } catch (const std::out_of_range&) {
            ok = false;
        }
        vf_check(!ok, "additions beyond the capacity are refused");
    }
    std::size_t k = vf_pick("k", 0, 2) * (n / 2);
    for (std::size_t i = 0; i < k; ++i) {
        CELL c;
        a.back() >> c;
        c.check(m[n - 1], "last element");
        a.pop_back();
        --n;
    }
    vf_check(a.size() == n && a.byte_size() == n * aggregated_member_size<CELL>::VALUE && a.capacity() == std::size_t(CAP), "size");
    soa_accessor<CELL, CAP, 1, 1, 0> it = a.begin(), end = a.end();
    for (std::size_t i = 0; i < n; ++i) {
        CELL c;
        a[int(i)] >> c;
        c.check(m[i], "element");
        const soa_array<CELL, CAP>& ro = a;
        ro.at(i) >> c;
        c.check(m[i], "element");
        vf_check(it != end, "iteration");
        it >> c;
        c.check(m[i], "element met by iteration");
        ++it;
    }
    vf_check(it == end, "iteration");
    vf_reach("done");
}
// filling with copies
template<typename CELL, int CAP>
void fills(std::size_t min = 0)
{
    std::size_t n = some("n", CAP, min);
    CELL v = CELL::any();
    soa_array<CELL, CAP> a(n, v);
    vf_check(a.size() == n, "size of a filled array");
    for (std::size_t i = 0; i < n; ++i) {
        CELL c;
        a[int(i)] >> c;
        c.check(v, "element of a filled array");
    }
    soa_array<CELL, CAP> b;
    vf_check(b.size() == 0, "an array starts empty");
    CELL w = CELL::any();
    b << v;
    b = a;
    b.pop_back();
    b << w;
    CELL c;
    b.back() >> c;
    c.check(w, "last element");
    b.clear();
    vf_check(b.size() == 0 && a.size() == n, "size after clearing");
    vf_reach("done");
}
VF_ENTRY(wide_fills_byte) { fills<DefCell, 260>(65); }
VF_ENTRY(wide_fills_uni1) { fills<Uni1Cell, 40>(1); }
VF_ENTRY(wide_arrays_uni1) { arrays<Uni1Cell, 33>(); }
VF_ENTRY(wide_arrays_mix) { arrays<MixCell, 17>(); }
VF_ENTRY(wide_arrays_byte) { arrays<DefCell, 260>(VF_TIER ? 100 : 255); }
VF_ENTRY(wide_arrays_big) { arrays<BigCell, 4>(); }
VF_ENTRY(wide_arrays_def) { arrays<DefCell, 64>(); }
#endif

#if defined(PART_C10)
template<typename CELL, int FROM, int TO>
void exchange(std::size_t min = 0)
{
    soa_array<CELL, FROM> a;
    CELL m[FROM];
    std::size_t n = some("n", FROM, min);
    for (std::size_t i = 0; i < n; ++i) {
        m[i] = CELL::any();
        a.push_back(m[i]);
    }
    soa_array<CELL, TO> b(TO - 1, CELL::any());
    bool ok = true;
    try {
        b = a;
    } catch (const std::out_of_range&) {
        ok = false;
    }
    vf_check(ok == (n <= std::size_t(TO)), "assignments are refused exactly if they do not fit");
    if (ok) {
        vf_check(b.size() == n, "size");
        for (std::size_t i = 0; i < n; ++i) {
            CELL c;
            b[int(i)] >> c;
            c.check(m[i], "assigned element");
        }
        soa_array<CELL, TO> d(a);
        vf_check(d.size() == n, "size");
        for (std::size_t i = 0; i < n; ++i) {
            CELL c;
            d[int(i)] >> c;
            c.check(m[i], "copied element");
        }
    }
    soa_array<CELL, TO> l(TO, CELL());
    std::size_t num = n < std::size_t(TO) ? n : std::size_t(TO), off = vf_pick("off", 0, 2) * ((TO - num) / 2);
    l.load(a.begin(), num, off);
    for (std::size_t i = 0; i < std::size_t(TO); ++i) {
        CELL c;
        l[int(i)] >> c;
        c.check(i >= off && i < off + num ? m[i - off] : CELL(), "loaded element");
    }
    vf_reach(ok ? "accepted" : "refused");
}
VF_ENTRY(wide_exchange_uni1) { exchange<Uni1Cell, 33, 40>(); }
VF_ENTRY(wide_exchange_byte) { exchange<DefCell, 257, 270>(VF_TIER ? 100 : 255); }
VF_ENTRY(wide_exchange_def) { exchange<DefCell, 64, 33>(); }
VF_ENTRY(wide_exchange_mix) { exchange<MixCell, 17, 16>(); }
VF_ENTRY(wide_exchange_big) { exchange<BigCell, 4, 3>(); }
VF_ENTRY(wide_exchange_big2) { exchange<BigCell, 3, 5>(); }
VF_ENTRY(wide_exchange_same) { exchange<DefCell, 48, 48>(); }
#endif

#if defined(PART_C11)
template<typename CELL>
void verify(const soa_vector<CELL>& v, const std::vector<CELL>& m, const char *msg)
{
    vf_check(v.size() == m.size() && v.capacity() >= m.size() && v.empty() == m.empty(), msg);
    for (std::size_t i = 0; i < m.size(); ++i) {
        v.get(i).check(m[i], msg);
    }
}
template<typename CELL>
void grow(std::size_t max)
{
    soa_vector<CELL> v;
    std::vector<CELL> m;
    for (std::size_t i = 0; i < max; ++i) {
        CELL c = CELL::any();
        v.push_back(c);
        m.push_back(c);
        vf_check(v.size() == m.size() && v.capacity() >= v.size(), "size");
    }
    verify(v, m, "element after growth");
    vf_reach("done");
}
template<typename CELL>
void change(std::size_t start, std::size_t max)
{
    std::vector<CELL> m;
    soa_vector<CELL> v(start, CELL());
    for (std::size_t i = 0; i < start; ++i) {
        m.push_back(CELL::any());
        v.set(i, m[i]);
    }
    std::size_t n = some("n", max);
    switch (vf_pick("op", 0, 4)) {
    case 0:
        v.resize(n);
        m.resize(n);
        break;
    case 1:
        v.reserve(n);
        vf_check(v.capacity() >= n, "reserved");
        break;
    case 2:
        v.resize(n / 2);
        m.resize(n / 2);
        v.resize(n);
        m.resize(n);
        break;
    case 3:
        for (std::size_t i = 0; i < n && !m.empty(); ++i) {
            v.pop_back();
            m.pop_back();
        }
        v.resize(start);
        m.resize(start);
        break;
    case 4: {
        soa_vector<CELL> w(n, CELL::any());
        w = v;
        verify(w, m, "assigned element");
        break;
    }
    }
    verify(v, m, "element");
    CELL c = CELL::any();
    v.push_back(c);
    m.push_back(c);
    verify(v, m, "element");
    vf_reach("done");
}
// filling with copies, copying
template<typename CELL>
void fills(std::size_t max, std::size_t min = 0)
{
    std::size_t n = some("n", max, min);
    CELL v = CELL::any(), w = CELL::any();
    soa_vector<CELL> a(n, v), b(n);
    std::vector<CELL> m(n, v), l(n);
    verify(a, m, "element of a filled vector");
    verify(b, l, "element of a new vector");
    soa_vector<CELL> c(a);
    if (n) {
        a.set(n - 1, w);
    }
    a.push_back(w);
    verify(c, m, "element of a copy");
    b = a;
    m.push_back(w);
    if (n) {
        m[n - 1] = w;
    }
    verify(b, m, "assigned element");
    verify(a, m, "element");
    a.clear();
    verify(a, std::vector<CELL>(), "no element");
    a.push_back(v);
    verify(a, std::vector<CELL>(1, v), "element after clearing");
    vf_reach("done");
}
VF_ENTRY(wide_fills_byte) { fills<Def1Cell>(257, 127); }
VF_ENTRY(wide_fills_def) { fills<DefCell>(65); }
VF_ENTRY(wide_grow_def1) { grow<Def1Cell>(VF_TIER ? 600 : 270); }
VF_ENTRY(wide_grow_def) { grow<DefCell>(68); }
VF_ENTRY(wide_grow_big) { grow<BigCell>(8); }
VF_ENTRY(wide_change_big) { change<BigCell>(3, 6); }
VF_ENTRY(wide_change_def1) { change<Def1Cell>(33, 65); }
VF_ENTRY(wide_change_def) { change<DefCell>(20, 40); }
#endif
