// C22: threads which read one container, write different elements of it, or use different containers never conflict.
#include "cells.hpp"

typedef detail::flat_array::simple_streak streak;

// functors for callbacks, working on one cell
template<typename CELL>
struct read_cell
{
    std::size_t x, y, z;
    CELL *out;
    template<long X, long Y, long Z, long I>
    void operator()(soa_accessor<CELL, X, Y, Z, I>& acc) const
    {
        acc += long(x + y * X + z * X * Y);
        acc >> *out;
    }
    template<long X, long Y, long Z, long I>
    void operator()(const_soa_accessor<CELL, X, Y, Z, I>& acc) const
    {
        acc += long(x + y * X + z * X * Y);
        acc >> *out;
    }
};
template<typename CELL>
struct write_cell
{
    std::size_t x, y, z;
    CELL value;
    template<long X, long Y, long Z, long I>
    void operator()(soa_accessor<CELL, X, Y, Z, I>& acc) const
    {
        acc += long(x + y * X + z * X * Y);
        acc << value;
    }
};
// from one grid to another
template<typename CELL>
struct transfer_cell
{
    std::size_t x, y, z;
    template<typename A, typename B>
    void operator()(A& a, B& b) const
    {
        CELL c;
        a += long(x + y * A::DIM_X + z * A::DIM_X * A::DIM_Y);
        b += long(x + y * B::DIM_X + z * B::DIM_X * B::DIM_Y);
        a >> c;
        b << c;
    }
};

enum { N = 2 };
// the part of a grid a thread works on, and its private memory
template<typename CELL>
struct task
{
    unsigned op;
    std::size_t x, y, z, n;
    CELL in[N], out[N];
    streak s[1];
    char raw[N * 32];

    task(unsigned op, std::size_t dx, std::size_t dy, std::size_t dz) :
        op(op),
        x(vf_index("x", 0, dx - N)), y(vf_index("y", 0, dy - 1)), z(vf_index("z", 0, dz - 1)), n(N)
    {
        for (int i = 0; i < N; ++i) {
            in[i] = CELL::any();
        }
        s[0] = streak(x, y, z, N);
        for (std::size_t i = 0; i < sizeof(raw); ++i) {
            raw[i] = 0;
        }
        vf_shared(this);
    }
    bool disjoint(const task& o) const
    {
        return (y != o.y) | (z != o.z) | (x + N <= o.x) | (o.x + N <= x);
    }

    enum { READERS = 5, GLOBAL_READERS = 8 };
    // the first READERS look at the part only
    template<typename G>
    void read(const G& g)
    {
        switch (op) {
        case 0:
            out[0] = g.get(x, y, z);
            break;
        case 1:
            g.get(x, y, z, out, N);
            break;
        case 2:
            g.save(x, y, z, raw, N);
            break;
        case 3:
            g.save(s + 0, s + 1, raw, N);
            break;
        case 4: {
            read_cell<CELL> f = { x, y, z, out };
            g.callback(f);
            break;
        }
        case 5: {
            G copy(g);
            out[0] = copy.get(x, y, z);
            break;
        }
        case 6: {
            G other;
            other = g;
            out[0] = other.get(x, y, z);
            break;
        }
        case 7: {
            std::size_t k = g.dim_x() + g.dim_y() + g.dim_z() + g.extent_x() + g.extent_y() + g.extent_z() +
                g.byte_size();
            std::memcpy(raw, &k, sizeof(k));
            raw[8] = g.data() == 0;
            break;
        }
        }
    }
    enum { WRITERS = 6 };
    template<typename G>
    void write(G& g, unsigned op)
    {
        switch (op) {
        case 0:
            g.set(x, y, z, in[0]);
            break;
        case 1:
            g.set(x, y, z, in, N);
            break;
        case 2:
            g.broadcast(x, y, z, in[0], N);
            break;
        case 3:
            g.load(x, y, z, raw, N);
            break;
        case 4:
            g.load(s + 0, s + 1, raw, N);
            break;
        case 5: {
            write_cell<CELL> f = { x, y, z, in[0] };
            g.callback(f);
            break;
        }
        }
    }
};

// any two readers
template<typename CELL>
void readers(std::size_t dx, std::size_t dy, std::size_t dz)
{
    typedef soa_grid<CELL> G;
    G g(dx, dy, dz);
    vf_shared(&g);
    const G& ro = g;
    task<CELL> a(vf_pick("op", 0, task<CELL>::GLOBAL_READERS - 1), dx, dy, dz);
    task<CELL> b(vf_pick("op", 0, task<CELL>::GLOBAL_READERS - 1), dx, dy, dz);
    vf_par([&]() { a.read(ro); }, [&]() { b.read(ro); });
    vf_reach("done");
}

// writers and readers of different cells
template<typename CELL>
void writers(std::size_t dx, std::size_t dy, std::size_t dz)
{
    typedef soa_grid<CELL> G;
    G g(dx, dy, dz);
    vf_shared(&g);
    task<CELL> a(vf_pick("op", 0, task<CELL>::WRITERS - 1), dx, dy, dz);
    task<CELL> b(vf_pick("op", 0, task<CELL>::WRITERS + task<CELL>::READERS - 1), dx, dy, dz);
    vf_assume(a.disjoint(b));
    if (b.op < task<CELL>::WRITERS) {
        vf_par([&]() { a.write(g, a.op); }, [&]() { b.write(g, b.op); });
    } else {
        b.op -= task<CELL>::WRITERS;
        vf_par([&]() { a.write(g, a.op); }, [&]() { b.read(g); });
    }
    vf_reach("done");
}

// two grids with a life of their own
template<typename CELL>
void different(std::size_t dx, std::size_t dy, std::size_t dz)
{
    typedef soa_grid<CELL> G;
    G g(dx, dy, dz), h(dx, dy, dz), t(dx, dy, dz), u(dx, dy, dz);
    vf_shared(&g);
    vf_shared(&h);
    vf_shared(&t);
    vf_shared(&u);
    struct life
    {
        static void run(G& g, G& other, const G& common, task<CELL>& t)
        {
            switch (t.op) {
            case 0: {
                G fresh(2, 2, 1);
                fresh.set(0, 0, 0, t.in[0]);
                g = fresh;
                t.out[0] = g.get(0, 0, 0);
                break;
            }
            case 1:
                g.resize(2, 1, 1);
                g.set(1, 0, 0, t.in[0]);
                break;
            case 2:
                swap(g, other);
                t.write(g, 1);
                break;
            case 3: {
                transfer_cell<CELL> f = { t.x, t.y, t.z };
                common.callback(&g, f);
                break;
            }
            case 4: {
                transfer_cell<CELL> f = { t.x, t.y, t.z };
                g.callback(&other, f);
                break;
            }
            }
        }
    };
    const G common(dx, dy, dz);
    vf_shared(&common);
    task<CELL> a(vf_pick("op", 0, 4), dx, dy, dz);
    task<CELL> b(vf_pick("op", 0, 4), dx, dy, dz);
    vf_par([&]() { life::run(g, t, common, a); }, [&]() { life::run(h, u, common, b); });
    vf_reach("done");
}

// fixed-size arrays
template<typename CELL, int CAP>
struct array_task
{
    typedef soa_array<CELL, CAP> A;
    unsigned op;
    int i;
    CELL in, out;
    std::size_t k;
    array_task(unsigned op, int n) : op(op), i(int(vf_index("i", 0, n - 1))), in(CELL::any()), k(0) { vf_shared(this); }
    enum { WRITERS = 3, READERS = 3, ALL = 6 };
    void write(A& a)
    {
        switch (op) {
        case 0:
            a[i] << in;
            break;
        case 1:
            a.at(i) << in;
            break;
        case 2: {
            soa_accessor<CELL, CAP, 1, 1, 0> acc = a.begin();
            acc += i;
            acc << in;
            break;
        }
        case 3:
            a[i] >> out;
            break;
        case 4:
            a.at(std::size_t(i)) >> out;
            break;
        case 5: {
            const A& ro = a;
            ro[i] >> out;
            break;
        }
        }
    }
    void read(const A& a)
    {
        switch (op) {
        case 0:
            a[i] >> out;
            break;
        case 1:
            a.at(i) >> out;
            break;
        case 2:
            a.at(std::size_t(i)) >> out;
            break;
        case 3: {
            A copy(a);
            copy[i] >> out;
            break;
        }
        case 4: {
            soa_array<CELL, CAP + 3> copy(a);
            copy[i] >> out;
            break;
        }
        case 5:
            k = a.size() + a.capacity() + a.byte_size();
            break;
        }
    }
};

template<typename CELL, int CAP>
void arrays_read()
{
    soa_array<CELL, CAP> x(CAP - 1, CELL::any());
    vf_shared(&x);
    const soa_array<CELL, CAP>& ro = x;
    typedef array_task<CELL, CAP> T;
    T a(vf_pick("op", 0, T::ALL - 1), CAP - 1), b(vf_pick("op", 0, T::ALL - 1), CAP - 1);
    vf_par([&]() { a.read(ro); }, [&]() { b.read(ro); });
    vf_reach("done");
}

template<typename CELL, int CAP>
void arrays_write()
{
    soa_array<CELL, CAP> x(CAP - 1, CELL::any());
    vf_shared(&x);
    typedef array_task<CELL, CAP> T;
    T a(vf_pick("op", 0, T::WRITERS - 1), CAP - 1), b(vf_pick("op", 0, T::ALL - 1), CAP - 1);
    vf_assume(a.i != b.i);
    vf_par([&]() { a.write(x); }, [&]() { b.write(x); });
    vf_reach("done");
}

template<typename CELL, int CAP>
void arrays_different()
{
    soa_array<CELL, CAP> x, y;
    const soa_array<CELL, CAP> common(2, CELL::any());
    vf_shared(&x);
    vf_shared(&y);
    vf_shared(&common);
    CELL c = CELL::any(), d = CELL::any();
    vf_par(
        [&]() { x.push_back(c); x << c; x = common; x.pop_back(); x.clear(); },
        [&]() { y.push_back(d); y << d; y.pop_back(); y = common; soa_array<CELL, CAP> z(y); });
    vf_reach("done");
}

// vectors
template<typename CELL>
struct vector_task
{
    typedef soa_vector<CELL> V;
    unsigned op;
    std::size_t i;
    CELL in, out;
    std::size_t k;
    vector_task(unsigned op, std::size_t n) : op(op), i(vf_index("i", 0, n - 1)), in(CELL::any()), k(0) { vf_shared(this); }
    void read(const V& v)
    {
        switch (op) {
        case 0:
            out = v.get(i);
            break;
        case 1: {
            read_cell<CELL> f = { i, 0, 0, &out };
            v.callback(f);
            break;
        }
        case 2:
            k = v.size() + v.capacity() + v.empty();
            break;
        case 3: {
            V copy(v);
            out = copy.get(i);
            break;
        }
        }
    }
    void write(V& v)
    {
        switch (op) {
        case 0:
            v.set(i, in);
            break;
        case 1: {
            write_cell<CELL> f = { i, 0, 0, in };
            v.callback(f);
            break;
        }
        case 2:
            out = v.get(i);
            break;
        case 3:
            k = v.size() + v.capacity() + v.empty();
            break;
        }
    }
};

template<typename CELL>
void vectors_read(std::size_t n)
{
    soa_vector<CELL> v(n, CELL::any());
    vf_shared(&v);
    const soa_vector<CELL>& ro = v;
    vector_task<CELL> a(vf_pick("op", 0, 3), n), b(vf_pick("op", 0, 3), n);
    vf_par([&]() { a.read(ro); }, [&]() { b.read(ro); });
    vf_reach("done");
}

template<typename CELL>
void vectors_write(std::size_t n)
{
    soa_vector<CELL> v(n, CELL::any());
    vf_shared(&v);
    vector_task<CELL> a(vf_pick("op", 0, 1), n), b(vf_pick("op", 0, 3), n);
    vf_assume(a.i != b.i);
    vf_par([&]() { a.write(v); }, [&]() { b.write(v); });
    vf_reach("done");
}

template<typename CELL>
void vectors_different()
{
    soa_vector<CELL> v, w;
    vf_shared(&v);
    vf_shared(&w);
    CELL c = CELL::any(), d = CELL::any();
    vf_par(
        [&]() { v.push_back(c); v.push_back(d); v.pop_back(); v.resize(5); v.clear(); },
        [&]() { w.reserve(3); w.push_back(d); w.resize(4); w.set(2, c); soa_vector<CELL> x(w); });
    vf_reach("done");
}

// allocators have no state in common
template<typename T, std::size_t ALIGN>
void allocators()
{
    std::size_t n = vf_pick("n", 1, 3), m = vf_pick("m", 1, 3);
    aligned_allocator<T, ALIGN> shared;
    vf_shared(&shared);
    T *old = shared.allocate(n);
    T *p = 0, *q = 0;
    vf_shared(&p);
    vf_shared(&q);
    vf_par(
        [&]() { p = shared.allocate(m); p[m - 1] = 1; shared.deallocate(old, n); },
        [&]() { q = aligned_allocator<T, ALIGN>().allocate(n); q[0] = 2; shared.deallocate(q, n); q = shared.allocate(m); q[0] = 3; });
    vf_check(p[m - 1] == 1 && q[0] == 3 && p != q, "blocks handed out at the same time are different");
    shared.deallocate(p, m);
    shared.deallocate(q, m);
    vf_reach("done");
}

VF_ENTRY(readers_mix) { readers<MixCell>(3, 2, 2); }
VF_ENTRY(readers_uni3) { readers<Uni3Cell>(3, 2, 2); }
VF_ENTRY(readers_uni2) { readers<Uni2Cell>(4, 3, 1); }
VF_ENTRY(writers_mix) { writers<MixCell>(4, 2, 2); }
VF_ENTRY(writers_uni3) { writers<Uni3Cell>(4, 2, 2); }
VF_ENTRY(writers_uni2) { writers<Uni2Cell>(4, 3, 1); }
VF_ENTRY(writers_uni1) { writers<Uni1Cell>(6, 1, 1); }
VF_ENTRY(different_mix) { different<MixCell>(2, 2, 2); }
VF_ENTRY(different_uni3) { different<Uni3Cell>(2, 2, 2); }
VF_ENTRY(arrays_read_mix) { arrays_read<MixCell, 5>(); }
VF_ENTRY(arrays_read_uni1) { arrays_read<Uni1Cell, 8>(); }
VF_ENTRY(arrays_write_mix) { arrays_write<MixCell, 5>(); }
VF_ENTRY(arrays_write_uni1) { arrays_write<Uni1Cell, 8>(); }
VF_ENTRY(arrays_different_mix) { arrays_different<MixCell, 5>(); }
VF_ENTRY(vectors_read_uni1) { vectors_read<Uni1Cell>(5); }
VF_ENTRY(vectors_write_uni1) { vectors_write<Uni1Cell>(5); }
VF_ENTRY(vectors_different_uni1) { vectors_different<Uni1Cell>(); }
VF_ENTRY(allocators_16) { allocators<double, 16>(); }
VF_ENTRY(allocators_4096) { allocators<char, 4096>(); }
