// C21: vectorized kernels (callback, accessors, loop peeler, short_vec) yield what the scalar loop yields.
#include <libflatarray/flat_array.hpp>
using namespace LibFlatArray;

#if defined(CARGO_FLOAT)
typedef float cargo;
#else
typedef double cargo;
#endif

class Site
{
public:
    class API : public api_traits::has_custom_sizes
    {
    public:
        LIBFLATARRAY_CUSTOM_SIZES((64)(128), (4), (4))
    };
    char flag;
    cargo temp;
    cargo vel[2];
    explicit Site(cargo temp = 0, char flag = 0) : flag(flag), temp(temp) { vel[0] = vel[1] = 0; }
};
LIBFLATARRAY_REGISTER_SOA(Site, ((char)(flag))((cargo)(temp))((cargo)(vel)(2)))

class Particle
{
public:
    class API : public api_traits::has_default_1d_sizes
    {};
    cargo pos, vel;
    char id;
    Particle() : pos(0), vel(0), id(0) {}
};
LIBFLATARRAY_REGISTER_SOA(Particle, ((cargo)(pos))((cargo)(vel))((char)(id)))

// the Jacobi example, for a part of one row
template<int UNROLL, int CACHE>
struct jacobi
{
    std::size_t x0, x1, y, z;
    cargo factor;

    template<typename SHORT_VEC, typename A, typename B>
    void update(std::size_t& x, std::size_t end_x, std::size_t y, std::size_t z, A& from, B& to) const
    {
        from.index() = A::gen_index(x, y, z);
        to.index() = B::gen_index(x, y, z);
        SHORT_VEC buf;
        SHORT_VEC f = factor;
        for (; x < end_x; x += SHORT_VEC::ARITY) {
            buf =  &from[coord< 0,  0, -1>()].temp();
            buf += &from[coord< 0, -1,  0>()].temp();
            buf += &from[coord<-1,  0,  0>()].temp();
            buf += &from[coord< 1,  0,  0>()].temp();
            buf += &from[coord< 0,  1,  0>()].temp();
            buf += &from[coord< 0,  0,  1>()].temp();
            buf *= f;
            &to.temp() << buf;
            to += SHORT_VEC::ARITY;
            from += SHORT_VEC::ARITY;
        }
    }

    template<typename A, typename B>
    void operator()(A from, B to) const
    {
        typedef typename estimate_optimum_short_vec_type<cargo, A, UNROLL, CACHE>::VALUE V;
        std::size_t x = x0;
        LIBFLATARRAY_LOOP_PEELER_TEMPLATE(V, std::size_t, x, x1, update, y, z, from, to);
        vf_check(x == x1, "the counter ends at the end of the range");
    }
};

enum { DX = 38, W = DX - 2, SPAN = 7 };

// all values of the cells concerned are symbolic, the chunk of the row is any one
struct world
{
    soa_grid<Site> from, to;
    cargo before[3][3][DX];
    cargo old[DX];
    cargo factor;
    world() : from(DX, 4, 4), to(DX, 4, 4)
    {
        for (int k = 0; k < 9; ++k) {
            if (k % 2 == 0 && k != 4) {
                continue;
            }
            for (int x = 0; x < DX; ++x) {
                before[k / 3][k % 3][x] = vf_any<cargo>("t");
                from.set(x, k % 3, 1 + k / 3, Site(before[k / 3][k % 3][x], 'x'));
            }
        }
        for (int x = 0; x < DX; ++x) {
            old[x] = vf_any<cargo>("o");
            to.set(x, 1, 2, Site(old[x], 'y'));
        }
        factor = vf_any<cargo>("factor");
    }
    void check(std::size_t x0, std::size_t x1)
    {
        for (std::size_t x = 0; x < DX; ++x) {
            Site s = to.get(x, 1, 2);
            vf_check(s.flag == 'y', "other members are left alone");
            if (x < x0 || x >= x1) {
                vf_check_eq(s.temp, old[x], "cells outside of the range are left alone");
            } else {
                cargo e = before[0][1][x];
                e += before[1][0][x];
                e += before[1][1][x - 1];
                e += before[1][1][x + 1];
                e += before[1][2][x];
                e += before[2][1][x];
                e *= factor;
                vf_check_eq(s.temp, e, "kernel result");
            }
            vf_check_eq(from.get(x, 1, 2).temp, before[1][1][x], "the source is left alone");
        }
    }
};
template<int UNROLL, int CACHE>
void stencil(std::size_t lo, std::size_t hi)
{
    world w;
    // heads of every kind, tails of every kind
    std::size_t x0 = vf_pick("x0", 1, 9), x1 = vf_pick("x1", lo, hi);
    if (x1 < x0) {
        x1 = x0;
    }
    jacobi<UNROLL, CACHE> f = { x0, x1, 1, 2, w.factor };
    w.from.callback(&w.to, f);
    w.check(x0, x1);
    vf_reach("done");
}

// the same with two threads sharing a row
#ifdef VF_PAR
void divided()
{
    world w;
    vf_shared(&w);
    std::size_t x0 = vf_pick("x0", 1, 3), m = vf_pick("m", 4, 34), x1 = vf_pick("x1", 35, 36);
    vf_par(
        [&]() { jacobi<1, (1 << 25)> f = { x0, m, 1, 2, w.factor }; w.from.callback(&w.to, f); },
        [&]() { jacobi<1, (1 << 25)> f = { m, x1, 1, 2, w.factor }; w.from.callback(&w.to, f); });
    w.check(x0, x1);
    vf_reach("done");
}
VF_ENTRY(divided) { divided(); }
#else

// particles in a vector or array: in-place update with the lambda version of the peeler
template<int ARITY>
struct move_particles
{
    long begin;
    int end;
    cargo dt;
    template<typename ACC>
    void operator()(ACC acc) const
    {
        typedef short_vec<cargo, ARITY> V;
        acc.index() = begin;
        cargo dt = this->dt;
        loop_peeler<V>(&acc.index(), end, [&acc, dt](auto v, long *i, long end) {
                typedef decltype(v) W;
                for (; acc.index() < end; acc += W::ARITY) {
                    W p = &acc.pos();
                    W q = &acc.vel();
                    p += q * W(dt);
                    &acc.pos() << p;
                }
            });
        vf_check(acc.index() == end, "the counter ends at the end of the range");
    }
};

template<int ARITY>
void particles()
{
    enum { N = 2 * ARITY + 9 };
    soa_vector<Particle> v;
    Particle before[N];
    for (int i = 0; i < N; ++i) {
        before[i].pos = vf_any<cargo>("p");
        before[i].vel = vf_any<cargo>("v");
        before[i].id = vf_any<char>("i");
        v.push_back(before[i]);
    }
    long begin = vf_pick("begin", 0, 9);
    int end = vf_pick("end", ARITY, N);
    if (end < begin) {
        end = begin;
    }
    cargo dt = vf_any<cargo>("dt");
    move_particles<ARITY> f = { begin, end, dt };
    v.callback(f);
    for (int i = 0; i < N; ++i) {
        Particle p = v.get(i);
        if (i >= begin && i < end) {
            vf_check_eq(p.pos, before[i].pos + before[i].vel * dt, "kernel result");
        } else {
            vf_check_eq(p.pos, before[i].pos, "elements outside of the range are left alone");
        }
        vf_check_eq(p.vel, before[i].vel, "other members are left alone");
        vf_check(p.id == before[i].id, "other members are left alone");
    }
    vf_reach("done");
}

// conditional update via masks: limits the position, counts what was limited
template<int ARITY>
void limited()
{
    enum { N = ARITY + 3 };
    typedef short_vec<cargo, ARITY> V;
    soa_array<Particle, N> a(N);
    cargo before[N];
    for (int i = 0; i < N; ++i) {
        before[i] = vf_any<cargo>("p");
        a[i].pos() = before[i];
    }
    cargo limit = vf_any<cargo>("limit");
    std::size_t begin = vf_pick("begin", 0, 2);
    for (std::size_t i = begin; i + ARITY <= N; i += ARITY) {
        V v = &a[i].pos();
        V m(limit);
        v = blend(v, m, v > m);
        &a[i].pos() << v;
    }
    for (int i = 0; i < N; ++i) {
        bool in = i >= int(begin) && i < int(begin) + ARITY;
        cargo e = before[i];
        vf_assign_if(in & (before[i] > limit), e, limit);
        vf_check_eq(a[i].pos(), e, "limited or unchanged");
        vf_check_eq(a[i].vel(), cargo(0), "other members are left alone");
    }
    vf_reach("done");
}

// long range: neighbours picked by gather, written back by scatter
template<int ARITY>
void indirect()
{
    enum { N = 2 * ARITY };
    typedef short_vec<cargo, ARITY> V;
    soa_array<Particle, N> a(N);
    alignas(64) int idx[ARITY];
    cargo before[N];
    for (int i = 0; i < N; ++i) {
        before[i] = vf_any<cargo>("p");
        a[i].pos() = before[i];
    }
    std::size_t s = vf_pick("stride", 0, 2);
    for (int i = 0; i < ARITY; ++i) {
        idx[i] = s == 0 ? i : s == 1 ? N - 1 - i : 2 * i + 1;
    }
    V v;
    v.gather(&a[0].pos(), idx);
    v *= V(cargo(3));
    v.scatter(&a[0].pos(), idx);
    for (int i = 0; i < N; ++i) {
        bool hit = false;
        for (int j = 0; j < ARITY; ++j) {
            hit |= idx[j] == i;
        }
        if (hit) {
            vf_check_eq(a[i].pos(), before[i] * cargo(3), "updated");
        } else {
            vf_check_eq(a[i].pos(), before[i], "unchanged");
        }
    }
    vf_reach("done");
}

VF_ENTRY(stencil_short) { stencil<1, (1 << 25)>(1, 17); }
VF_ENTRY(stencil_long) { stencil<2, (1 << 25)>(18, 36); }
VF_ENTRY(stencil_streaming_short) { stencil<1, 4096>(1, 17); }
VF_ENTRY(stencil_streaming_long) { stencil<2, 4096>(18, 36); }
VF_ENTRY(particles_4) { particles<4>(); }
VF_ENTRY(particles_8) { particles<8>(); }
VF_ENTRY(particles_16) { particles<16>(); }
VF_ENTRY(limited_4) { limited<4>(); }
VF_ENTRY(limited_8) { limited<8>(); }
VF_ENTRY(limited_16) { limited<16>(); }
VF_ENTRY(indirect_4) { indirect<4>(); }
VF_ENTRY(indirect_8) { indirect<8>(); }
VF_ENTRY(indirect_16) { indirect<16>(); }
#endif
