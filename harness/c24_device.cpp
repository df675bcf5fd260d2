// C24: grids in device memory behave like grids in host memory.
#include "cells.hpp"
#include <vector>

template<typename CELL>
struct dev
{
    typedef soa_grid<CELL, cuda_allocator<char>, true> grid;
};

static std::size_t some(const char *name, std::size_t max, std::size_t min = 0)
{
    static const std::size_t T[] = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 33, 127, 128, 129, 511, 512, 513, 600, 1024, 1025 };
    std::size_t m = 0;
    while (m + 1 < sizeof(T) / sizeof(T[0]) && T[m + 1] <= max) {
        ++m;
    }
    std::size_t l = 0;
    while (l < m && T[l] < min) {
        ++l;
    }
    return T[vf_pick(name, l, m)];
}

template<typename CELL>
struct mirror
{
    std::size_t dx, dy, dz;
    std::vector<CELL> cells;
    mirror(std::size_t dx, std::size_t dy, std::size_t dz) : dx(dx), dy(dy), dz(dz), cells(dx * dy * dz) {}
    CELL& at(std::size_t x, std::size_t y, std::size_t z) { return cells[(z * dy + y) * dx + x]; }
    template<typename G>
    void check(const G& g, const char *msg)
    {
        vf_check(g.dim_x() == dx && g.dim_y() == dy && g.dim_z() == dz, "dimensions");
        std::vector<CELL> row(dx + 1);
        for (std::size_t z = 0; z < dz; ++z) {
            for (std::size_t y = 0; y < dy; ++y) {
                g.get(0, y, z, &row[0], dx);
                for (std::size_t x = 0; x < dx; ++x) {
                    row[x].check(at(x, y, z), msg);
                }
                row[dx].check(CELL(), "a read beyond the streak's length");
            }
        }
    }
};

static void order()
{
    vf_cuda::backwards = vf_pick("backwards", 0, 1);
}

// raw image of a cell in a buffer of "stride" slots
static void put(char *buf, std::size_t slot, std::size_t stride, const DefCell& c)
{
    std::memcpy(buf + 4 * slot, &c.a, 4);
    buf[4 * stride + slot] = c.b[0];
    buf[5 * stride + slot] = c.b[1];
}
static void put(char *buf, std::size_t slot, std::size_t stride, const MixCell& c)
{
    std::memcpy(buf + 8 * slot, &c.d, 8);
    buf[8 * stride + slot] = c.c;
    for (int i = 0; i < 3; ++i) {
        std::memcpy(buf + 9 * stride + 2 * stride * i + 2 * slot, &c.arr[i], 2);
    }
    std::memcpy(buf + 15 * stride + 4 * slot, &c.i, 4);
}

// histories of operations; the whole grid is compared after each
template<typename CELL>
void history(std::size_t dx, std::size_t dy, std::size_t dz, int steps, int raw = 1)
{
    order();
    {
        const std::size_t BYTES = aggregated_member_size<CELL>::VALUE;
        typename dev<CELL>::grid g(dx, dy, dz);
        mirror<CELL> m(dx, dy, dz);
        m.check(g, "cell of a new grid");
        for (int s = 0; s < steps; ++s) {
            CELL c = CELL::any();
            switch (vf_pick("op", 0, 5 + raw)) {
            case 0: {
                std::size_t x = vf_pick("x", 0, m.dx - 1), y = vf_pick("y", 0, m.dy - 1), z = vf_pick("z", 0, m.dz - 1);
                g.set(x, y, z, c);
                m.at(x, y, z) = c;
                g.get(x, y, z).check(c, "cell read back");
                break;
            }
            case 1: {
                std::size_t n = vf_pick("n", 0, m.dx), x = vf_pick("where", 0, 1) * (m.dx - n);
                std::vector<CELL> in(m.dx + 1);
                for (std::size_t i = 0; i < n; ++i) {
                    in[i] = CELL::any();
                    m.at(x + i, m.dy - 1, m.dz - 1) = in[i];
                }
                g.set(x, m.dy - 1, m.dz - 1, &in[0], n);
                break;
            }
            case 2: {
                std::size_t n = vf_pick("n", 0, m.dx), x = vf_pick("where", 0, 1) * (m.dx - n);
                g.broadcast(x, m.dy - 1, 0, c, n);
                for (std::size_t i = 0; i < n; ++i) {
                    m.at(x + i, m.dy - 1, 0) = c;
                }
                break;
            }
            case 3: {
                // sizes are adapted, cells start anew
                bool same = vf_any<bool>("same");
                g.resize(dx, dy, same ? dz : 1);
                if (m.dz != (same ? dz : 1)) {
                    m = mirror<CELL>(dx, dy, same ? dz : 1);
                }
                break;
            }
            case 4: {
                typename dev<CELL>::grid h(1, 1, 1);
                h.set(0, 0, 0, c);
                h.swap(g);
                m.check(h, "swapped grid");
                vf_check(g.dim_x() == 1 && g.dim_y() == 1 && g.dim_z() == 1, "dimensions");
                g.get(0, 0, 0).check(c, "cell of a swapped grid");
                g.swap(h);
                break;
            }
            case 5:
                g.get(m.dx - 1, 0, 0).check(m.at(m.dx - 1, 0, 0), "single cell");
                break;
            case 6: {
                // raw data
                std::size_t n = vf_pick("n", 0, m.dx), x = vf_pick("where", 0, 1) * (m.dx - n);
                std::vector<char> in(n * BYTES + 1), out(n * BYTES + 1, 'z'), expected(n * BYTES + 1, 'z');
                for (std::size_t i = 0; i < n; ++i) {
                    CELL e = CELL::any();
                    m.at(x + i, 0, m.dz - 1) = e;
                    put(&in[0], i, n, e);
                    put(&expected[0], i, n, e);
                }
                g.load(x, 0, m.dz - 1, &in[0], n);
                g.save(x, 0, m.dz - 1, &out[0], n);
                for (std::size_t i = 0; i < out.size(); ++i) {
                    vf_check(out[i] == expected[i], "saved bytes");
                }
                break;
            }
            }
            m.check(g, "cell");
        }
    }
    vf_check(vf_live_allocs() == 0, "all storage is returned");
    vf_reach("done");
}

// streaks beyond the size of a thread block
static void streaks(std::size_t max, std::size_t min)
{
    order();
    std::size_t n = some("n", max, min), dx = 1030;
    dev<DefCell>::grid g(dx, 1, 1);
    std::size_t x = vf_pick("where", 0, 1) * (dx - n);
    mirror<DefCell> m(dx, 1, 1);
    DefCell c = DefCell::any();
    switch (vf_pick("how", 0, 2)) {
    case 0: {
        std::vector<DefCell> in(n + 1);
        for (std::size_t i = 0; i < n; ++i) {
            if (i % 37 == 0 || i + 2 > n) {
                in[i] = DefCell::any();
            }
            m.at(x + i, 0, 0) = in[i];
        }
        g.set(x, 0, 0, &in[0], n);
        break;
    }
    case 1:
        g.broadcast(x, 0, 0, c, n);
        for (std::size_t i = 0; i < n; ++i) {
            m.at(x + i, 0, 0) = c;
        }
        break;
    case 2: {
        std::vector<char> in(n * 6 + 1), out(n * 6 + 1, 'z');
        for (std::size_t i = 0; i < n; ++i) {
            if (i % 37 == 0 || i + 2 > n) {
                m.at(x + i, 0, 0) = DefCell::any();
            }
            put(&in[0], i, n, m.at(x + i, 0, 0));
        }
        in[n * 6] = 'z';
        g.load(x, 0, 0, &in[0], n);
        g.save(x, 0, 0, &out[0], n);
        for (std::size_t i = 0; i < out.size(); ++i) {
            vf_check(out[i] == in[i], "saved bytes");
        }
        break;
    }
    }
    m.check(g, "cell after a streak was written");
    vf_reach("done");
}

// several streaks in one buffer
static void many()
{
    order();
    typedef detail::flat_array::simple_streak streak;
    dev<DefCell>::grid g(6, 3, 2);
    mirror<DefCell> m(6, 3, 2);
    std::size_t n0 = vf_pick("n0", 0, 3), n1 = vf_pick("n1", 0, 3), stride = n0 + n1 + vf_pick("extra", 0, 2);
    streak s[] = { streak(1, 2, 1, int(n0)), streak(3, 0, 0, int(n1)) };
    std::vector<char> in(stride * 6 + 1), out(stride * 6 + 1, 'z'), expected(stride * 6 + 1, 'z');
    std::size_t slot = 0;
    for (int k = 0; k < 2; ++k) {
        for (int i = 0; i < s[k].length(); ++i, ++slot) {
            DefCell c = DefCell::any();
            m.at(s[k].origin[0] + i, s[k].origin[1], s[k].origin[2]) = c;
            put(&in[0], slot, stride, c);
            put(&expected[0], slot, stride, c);
        }
    }
    g.load(&s[0], &s[2], &in[0], stride);
    m.check(g, "cell after streaks were loaded");
    g.save(&s[0], &s[2], &out[0], stride);
    // what belongs to the streaks
    for (std::size_t i = 0; i < slot; ++i) {
        for (int b = 0; b < 6; ++b) {
            std::size_t p = b < 4 ? 4 * i + b : b * stride + i;
            vf_check(out[p] == expected[p], "saved bytes");
        }
    }
    vf_check(out[stride * 6] == 'z', "bytes beyond the buffer");
    vf_reach("done");
}

// every cell is constructed and destroyed exactly once, on the device
static int alive, constructed;
class Counted
{
public:
    Counted() : v(4711) { ++alive; ++constructed; }
    Counted(const Counted& o) : v(o.v) { ++alive; ++constructed; }
    ~Counted()
    {
        vf_check(v != 0x5a5a5a5a, "destruction of something that is not an object");
        v = 0x5a5a5a5a;
        --alive;
    }
    Counted& operator=(const Counted& o)
    {
        v = o.v;
        return *this;
    }
    int v;
};
class CountedCell
{
public:
    class API : public api_traits::has_custom_sizes
    {
    public:
        LIBFLATARRAY_CUSTOM_SIZES((2)(5)(140), (1)(3)(7), (1)(2)(3))
    };
    Counted o;
    char c;
    Counted a[2];
};
LIBFLATARRAY_REGISTER_SOA(CountedCell, ((Counted)(o))((char)(c))((Counted)(a)(2)))

static void lifetime(const std::size_t (*menu)[3], int n, int steps)
{
    order();
    {
        const std::size_t *s = menu[vf_pick("start", 0, n - 1)];
        std::size_t cells = s[0] * s[1] * s[2];
        constructed = 0;
        dev<CountedCell>::grid g(s[0], s[1], s[2]);
        vf_check(alive == int(3 * cells) && constructed == alive, "every cell of a grid is constructed, once");
        for (int k = 0; k < steps; ++k) {
            const std::size_t *t = menu[vf_pick("next", 0, n - 1)];
            bool change = s[0] != t[0] || s[1] != t[1] || s[2] != t[2];
            constructed = 0;
            g.resize(t[0], t[1], t[2]);
            cells = t[0] * t[1] * t[2];
            vf_check(alive == int(3 * cells) && constructed == (change ? alive : 0), "exactly the cells of a grid are alive");
            CountedCell c = g.get(t[0] - 1, t[1] - 1, t[2] - 1);
            vf_check(c.o.v == 4711 && c.a[0].v == 4711 && c.a[1].v == 4711 && c.c == 0, "cell of a new grid");
            c = g.get(0, t[1] - 1, 0);
            vf_check(c.o.v == 4711 && c.a[0].v == 4711 && c.a[1].v == 4711 && c.c == 0, "cell of a new grid");
            s = t;
        }
    }
    vf_check(alive == 0, "as many members are destroyed as were constructed");
    vf_check(vf_live_allocs() == 0, "all storage is returned");
    vf_reach("done");
}
class KCell
{
public:
    class API : public api_traits::has_custom_sizes
    {
    public:
        LIBFLATARRAY_CUSTOM_SIZES((3)(5), (1)(3), (2))
    };
    int a;
    char b[2];
    KCell() : a(0) { b[0] = b[1] = 0; }
    static KCell any()
    {
        KCell r;
        r.a = vf_any<int>("a");
        r.b[0] = vf_any<char>("b0");
        r.b[1] = vf_any<char>("b1");
        return r;
    }
    void check(const KCell& o, const char *msg) const { vf_check((a == o.a) & (b[0] == o.b[0]) & (b[1] == o.b[1]), msg); }
};
LIBFLATARRAY_REGISTER_SOA(KCell, ((int)(a))((char)(b)(2)))

// user kernels, launched by a callback
template<typename ACCESSOR>
void shift_kernel(char *data, long n, int add)
{
    long x = blockDim.x * blockIdx.x + threadIdx.x;
    if (x >= n) {
        return;
    }
    long index = ACCESSOR::gen_index(x, 1l, 0l);
    ACCESSOR a(data, index);
    a.a() += add;
    a[coord<0, 1, 0>()].b()[1] = a[coord<0, -1, 1>()].b()[0];
    a.b()[0] = a.template access_member<char, 1>();
}
struct shift
{
    long n;
    int add;
    shift(long n, int add) : n(n), add(add) {}
    template<typename ACCESSOR>
    void operator()(ACCESSOR& a) const
    {
        typedef soa_accessor_light<KCell, ACCESSOR::DIM_X, ACCESSOR::DIM_Y, ACCESSOR::DIM_Z, 0> light;
        vf_cuda::launch(dim3(2), dim3((n + 1) / 2)).run([](char *d, long n, int add) { shift_kernel<light>(d, n, add); },
                                                        a.data(), n, add);
    }
};
struct sum
{
    long *target;
    explicit sum(long *t) : target(t) {}
    template<typename ACCESSOR>
    void operator()(ACCESSOR& a) const
    {
        typedef const_soa_accessor_light<KCell, ACCESSOR::DIM_X, ACCESSOR::DIM_Y, ACCESSOR::DIM_Z, 0> light;
        const char *data = a.data();
        vf_cuda::launch(dim3(1), dim3(1)).run([](long *t, const char *data) {
            long index = light::gen_index(1l, 2l, 1l);
            light a(data, index);
            *t = long(a.a()) + a[coord<1, -1, -1>()].a();
        }, target, data);
    }
};
static void callback()
{
    order();
    {
        long n = vf_pick("n", 0, 4);
        dev<KCell>::grid g(4, 3, 2);
        mirror<KCell> m(4, 3, 2);
        std::vector<KCell> row(4);
        for (int z = 0; z < 2; ++z) {
            for (int y = 0; y < 3; ++y) {
                for (int x = 0; x < 4; ++x) {
                    m.at(x, y, z) = row[x] = KCell::any();
                }
                g.set(0, y, z, &row[0], 4);
            }
        }
        int add = vf_any<int>("add");
        g.callback(shift(n, add));
        for (int x = 0; x < n; ++x) {
            m.at(x, 1, 0).a = int(unsigned(m.at(x, 1, 0).a) + unsigned(add));
            m.at(x, 2, 0).b[1] = m.at(x, 0, 1).b[0];
        }
        m.check(g, "cell after a kernel has run");
        long *t = 0, s = 0;
        cudaMalloc(&t, sizeof(long));
        const dev<KCell>::grid& c = g;
        c.callback(sum(t));
        cudaMemcpy(&s, t, sizeof(long), cudaMemcpyDeviceToHost);
        cudaFree(t);
        vf_check(s == long(m.at(1, 2, 1).a) + m.at(2, 1, 0).a, "cells read by a kernel");
    }
    vf_check(vf_live_allocs() == 0, "all storage is returned");
    vf_reach("done");
}

// an array copied to the device, used by kernels, and copied back
template<typename CELL, long N>
void array_on_device()
{
    order();
    typedef soa_array<CELL, N> array;
    {
        static array host;
        std::vector<CELL> m;
        std::size_t n = vf_pick("n", 0, 3);
        for (std::size_t i = 0; i < n; ++i) {
            m.push_back(CELL::any());
            host << m.back();
        }
        array *a = 0;
        cudaMalloc(&a, sizeof(array));
        cudaMemcpy(a, &host, sizeof(array), cudaMemcpyHostToDevice);
        vf_cuda::launch(dim3(1), dim3(1)).run([](array *a) {
            std::size_t n = a->size();
            for (std::size_t i = 0; i < n; ++i) {
                CELL c = (*a)[i];
                *a << c;
            }
            if (n > 1) {
                (*a)[0] << CELL((*a)[1]);
                a->pop_back();
            }
        }, a);
        cudaMemcpy(&host, a, sizeof(array), cudaMemcpyDeviceToHost);
        cudaFree(a);
        for (std::size_t i = 0; i < n; ++i) {
            m.push_back(m[i]);
        }
        if (n > 1) {
            m[0] = m[1];
            m.pop_back();
        }
        vf_check(host.size() == m.size(), "size");
        for (std::size_t i = 0; i < m.size(); ++i) {
            CELL c = host[i];
            c.check(m[i], "element after a kernel has run");
        }
    }
    vf_check(vf_live_allocs() == 0, "all storage is returned");
    vf_reach("done");
}

static const std::size_t SMALL[][3] = { { 2, 1, 1 }, { 3, 2, 1 }, { 1, 3, 2 }, { 5, 1, 2 } };
static const std::size_t LARGE[][3] = { { 2, 1, 1 }, { 130, 3, 1 }, { 129, 5, 2 }, { 3, 4, 3 }, { 128, 7, 1 } };

#if defined(PART_C)
VF_ENTRY(user_kernels) { callback(); }
VF_ENTRY(array_def_6) { array_on_device<DefCell, 6>(); }
VF_ENTRY(array_mix_33) { array_on_device<MixCell, 33>(); }
#elif defined(PART_A)
VF_ENTRY(history_mix) { history<MixCell>(3, 2, 2, VF_TIER ? 2 : 1); }
VF_ENTRY(history_def) { history<DefCell>(4, 2, 1, VF_TIER ? 2 : 1); }
#else
VF_ENTRY(streaks_small) { streaks(9, 0); }
VF_ENTRY(streaks_large) { streaks(1025, 511); }
VF_ENTRY(many_streaks) { many(); }
VF_ENTRY(lifetime_small) { lifetime(SMALL, 4, 2); }
VF_ENTRY(lifetime_large) { lifetime(LARGE, 5, 1); }
#endif
