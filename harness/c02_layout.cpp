// C02: addresses. Members of neighbouring cells are adjacent, each member has
// its own block, and all accessors agree on the place.
#include "cells.hpp"

class ManyCell
{
public:
    char a; short b; int c; long d; float e; double f;
    char g[5]; short h; int i[2]; double j[3]; char k; float l;
    short m; int n; char o; long p[2]; char q; double r; int s; short t;
};
LIBFLATARRAY_REGISTER_SOA(ManyCell,
    ((char)(a))((short)(b))((int)(c))((long)(d))((float)(e))((double)(f))
    ((char)(g)(5))((short)(h))((int)(i)(2))((double)(j)(3))((char)(k))((float)(l))
    ((short)(m))((int)(n))((char)(o))((long)(p)(2))((char)(q))((double)(r))((int)(s))((short)(t)))

class OneCell
{
public:
    double only;
    int unregistered;
    double hidden;
    double harr[3];
};
LIBFLATARRAY_REGISTER_SOA(OneCell, ((double)(only)))

template<typename T> std::size_t adr(T& t) { return reinterpret_cast<std::size_t>(&t); }

// every member of one MixCell, seen through any kind of accessor
template<typename ACC>
void mix(ACC& acc, std::size_t base, long prod, long idx)
{
    vf_check(adr(acc.d()) == base + prod * 0 + idx * 8, "address of a member");
    vf_check(adr(acc.c()) == base + prod * 8 + idx * 1, "address of a member");
    vf_check(adr(acc.template arr<0>()) == base + prod * 9 + idx * 2, "address of an array member");
    vf_check(adr(acc.template arr<1>()) == base + prod * 11 + idx * 2, "address of an array member");
    vf_check(adr(acc.template arr<2>()) == base + prod * 13 + idx * 2, "address of an array member");
    std::size_t k = vf_index("k", 0, 2);
    vf_check(adr(acc.arr()[k]) == base + prod * (9 + 2 * long(k)) + idx * 2, "address of an array member by index");
    vf_check(adr(acc.i()) == base + prod * 15 + idx * 4, "address of a member");
    vf_check(acc.data() == reinterpret_cast<char*>(base), "accessor keeps its data pointer");
}

template<long X, long Y, long Z>
void mix_all()
{
    std::size_t base = vf_u64("base");
    vf_assume(base < (std::size_t(1) << 46));
    char *data = reinterpret_cast<char*>(base);
    std::size_t x = vf_index("x", 0, X - 1), y = vf_index("y", 0, Y - 1), z = vf_index("z", 0, Z - 1);
    const long prod = X * Y * Z;
    long idx = soa_accessor<MixCell, X, Y, Z, 0>::gen_index(x, y, z);
    vf_check(idx == long((z * Y + y) * X + x), "linear index of a coordinate");
    long sx = x, sy = y, sz = z;
    vf_check((soa_accessor<MixCell, X, Y, Z, 0>::gen_index(sx, sy, sz)) == idx, "linear index of a coordinate");
    vf_check((const_soa_accessor<MixCell, X, Y, Z, 0>::gen_index(x, y, z)) == idx, "linear index of a coordinate");
    vf_check((const_soa_accessor<MixCell, X, Y, Z, 0>::gen_index(sx, sy, sz)) == idx, "linear index of a coordinate");
    vf_check((soa_accessor_light<MixCell, X, Y, Z, 0>::gen_index(x, y, z)) == idx, "linear index of a coordinate");
    vf_check((soa_accessor_light<MixCell, X, Y, Z, 0>::gen_index(sx, sy, sz)) == idx, "linear index of a coordinate");
    vf_check((const_soa_accessor_light<MixCell, X, Y, Z, 0>::gen_index(x, y, z)) == idx, "linear index of a coordinate");
    vf_check((const_soa_accessor_light<MixCell, X, Y, Z, 0>::gen_index(sx, sy, sz)) == idx, "linear index of a coordinate");

    soa_accessor<MixCell, X, Y, Z, 0> acc(data, idx);
    const soa_accessor<MixCell, X, Y, Z, 0>& cref = acc;
    const_soa_accessor<MixCell, X, Y, Z, 0> cacc(data, idx);
    long i1 = idx, i2 = idx;
    soa_accessor_light<MixCell, X, Y, Z, 0> light(data, i1);
    const_soa_accessor_light<MixCell, X, Y, Z, 0> clight(data, i2);
    mix(acc, base, prod, idx);
    mix(cref, base, prod, idx);
    mix(cacc, base, prod, idx);
    mix(light, base, prod, idx);
    mix(clight, base, prod, idx);
    vf_check(acc.index() == idx && cacc.index() == idx && light.index() == idx && clight.index() == idx,
             "accessor keeps its index");

    // moving along
    long step = vf_any<long>("step");
    vf_assume(step > -(1l << 40) && step < (1l << 40));
    acc += step;
    cacc += step;
    light += step;
    clight += step;
    mix(acc, base, prod, idx + step);
    mix(cacc, base, prod, idx + step);
    mix(light, base, prod, idx + step);
    mix(clight, base, prod, idx + step);
    ++acc;
    ++cacc;
    ++light;
    ++clight;
    mix(acc, base, prod, idx + step + 1);
    mix(cacc, base, prod, idx + step + 1);
    mix(light, base, prod, idx + step + 1);
    mix(clight, base, prod, idx + step + 1);
    acc.index() = idx;
    mix(acc, base, prod, idx);
    vf_reach("done");
}

template<long X, long Y, long Z, long DX, long DY, long DZ>
void shifted()
{
    std::size_t base = vf_u64("base");
    vf_assume(base < (std::size_t(1) << 46));
    char *data = reinterpret_cast<char*>(base);
    long idx = vf_any<long>("idx");
    vf_assume(idx >= 0 && idx < X * Y * Z);
    const long prod = X * Y * Z;
    const long delta = DX + DY * X + DZ * X * Y;
    soa_accessor<MixCell, X, Y, Z, 0> acc(data, idx);
    const_soa_accessor<MixCell, X, Y, Z, 0> cacc(data, idx);
    long i1 = idx, i2 = idx;
    soa_accessor_light<MixCell, X, Y, Z, 0> light(data, i1);
    const_soa_accessor_light<MixCell, X, Y, Z, 0> clight(data, i2);
    {
        auto n = acc[coord<DX, DY, DZ>()];
        mix(n, base, prod, idx + delta);
        // neighbour of a neighbour
        auto m = n[coord<1, -1, 1>()];
        mix(m, base, prod, idx + delta + 1 - X + X * Y);
        auto back = n[coord<-DX, -DY, -DZ>()];
        mix(back, base, prod, idx);
    }
    {
        auto n = cacc[coord<DX, DY, DZ>()];
        mix(n, base, prod, idx + delta);
        auto m = n[coord<1, -1, 1>()];
        mix(m, base, prod, idx + delta + 1 - X + X * Y);
    }
    {
        auto n = light[coord<DX, DY, DZ>()];
        mix(n, base, prod, idx + delta);
        auto m = n[coord<1, -1, 1>()];
        mix(m, base, prod, idx + delta + 1 - X + X * Y);
    }
    {
        auto n = clight[coord<DX, DY, DZ>()];
        mix(n, base, prod, idx + delta);
        auto m = n[coord<1, -1, 1>()];
        mix(m, base, prod, idx + delta + 1 - X + X * Y);
    }
    // an accessor and its neighbours move together
    {
        auto n = acc[coord<DX, DY, DZ>()];
        ++acc;
        acc += 4;
        mix(n, base, prod, idx + delta + 5);
        acc.index() -= 5;
        mix(n, base, prod, idx + delta);
    }
    vf_reach("done");
}

// raw member access
template<long X, long Y, long Z>
void raw()
{
    std::size_t base = vf_u64("base");
    vf_assume(base < (std::size_t(1) << 46));
    char *data = reinterpret_cast<char*>(base);
    long idx = vf_any<long>("idx");
    vf_assume(idx >= 0 && idx < X * Y * Z);
    soa_accessor<MixCell, X, Y, Z, 0> acc(data, idx);
    long i1 = idx;
    soa_accessor_light<MixCell, X, Y, Z, 0> light(data, i1);
    vf_check(adr(acc.template access_member<double, 0>()) == adr(acc.d()), "generic access agrees with named access");
    vf_check(adr(acc.template access_member<char, 1>()) == adr(acc.c()), "generic access agrees with named access");
    vf_check(adr(acc.template access_member<short, 2>()) == adr(acc.template arr<0>()), "generic access agrees with named access");
    vf_check(adr(acc.template access_member<int, 3>()) == adr(acc.i()), "generic access agrees with named access");
    vf_check(adr(light.template access_member<double, 0>()) == adr(acc.d()), "generic access agrees with named access");
    vf_check(adr(light.template access_member<char, 1>()) == adr(acc.c()), "generic access agrees with named access");
    vf_check(adr(light.template access_member<short, 2>()) == adr(acc.template arr<0>()), "generic access agrees with named access");
    vf_check(adr(light.template access_member<int, 3>()) == adr(acc.i()), "generic access agrees with named access");
    member_ptr_to_offset off;
    char *p[4] = { acc.access_member(sizeof(double), off(&MixCell::d)),
                   acc.access_member(sizeof(char), off(&MixCell::c)),
                   acc.access_member(sizeof(short), off(&MixCell::arr)),
                   acc.access_member(sizeof(int), off(&MixCell::i)) };
    char *q[4] = { light.access_member(sizeof(double), off(&MixCell::d)),
                   light.access_member(sizeof(char), off(&MixCell::c)),
                   light.access_member(sizeof(short), off(&MixCell::arr)),
                   light.access_member(sizeof(int), off(&MixCell::i)) };
    vf_check(p[0] == (char*)&acc.d() && p[1] == (char*)&acc.c() && p[2] == (char*)&acc.template arr<0>() &&
             p[3] == (char*)&acc.i(), "run time access agrees with named access");
    vf_check(q[0] == p[0] && q[1] == p[1] && q[2] == p[2] && q[3] == p[3], "run time access agrees with named access");
    auto n = acc[coord<-1, 1, 0>()];
    vf_check(adr(n.template access_member<int, 3>()) == adr(n.i()), "generic access agrees with named access");
    vf_check(n.access_member(2, off(&MixCell::arr)) == (char*)&n.template arr<0>(), "run time access agrees with named access");
    vf_reach("done");
}

// equality of accessors
template<long X, long Y, long Z>
void equality()
{
    std::size_t b1 = vf_u64("b1"), b2 = vf_u64("b2");
    long i = vf_any<long>("i"), j = vf_any<long>("j");
    bool same = (b1 == b2) & (i == j);
    soa_accessor<MixCell, X, Y, Z, 0> a((char*)b1, i), b((char*)b2, j);
    vf_check((a == b) == same, "accessors are equal exactly if they refer to the same cell");
    vf_check((a != b) == !same, "accessors are equal exactly if they refer to the same cell");
    const_soa_accessor<MixCell, X, Y, Z, 0> c((char*)b1, i), d((char*)b2, j);
    vf_check((c == d) == same, "accessors are equal exactly if they refer to the same cell");
    vf_check((c != d) == !same, "accessors are equal exactly if they refer to the same cell");
    soa_accessor_light<MixCell, X, Y, Z, 0> e(reinterpret_cast<char*>(b1), i), f(reinterpret_cast<char*>(b2), j);
    vf_check((e == f) == same, "accessors are equal exactly if they refer to the same cell");
    vf_check((e != f) == !same, "accessors are equal exactly if they refer to the same cell");
    const_soa_accessor_light<MixCell, X, Y, Z, 0> g(reinterpret_cast<char*>(b1), i), h(reinterpret_cast<char*>(b2), j);
    vf_check((g == h) == same, "accessors are equal exactly if they refer to the same cell");
    vf_check((g != h) == !same, "accessors are equal exactly if they refer to the same cell");
    vf_reach("done");
}

template<typename ACC>
void many(ACC& acc, std::size_t base, long prod, long idx)
{
    std::size_t o = 0;
#define M(NAME, T) vf_check(adr(acc.NAME()) == base + prod * o + idx * sizeof(T), "address of a member"); o += sizeof(T);
#define A(NAME, T, N)                                                                           \
    {                                                                                           \
        std::size_t k = vf_index("k", 0, N - 1);                                                \
        vf_check(adr(acc.NAME()[k]) == base + prod * (o + k * sizeof(T)) + idx * sizeof(T), "address of an array member"); \
        vf_check(adr(acc.template NAME<N - 1>()) == base + prod * (o + (N - 1) * sizeof(T)) + idx * sizeof(T), "address of an array member"); \
        o += sizeof(T) * N;                                                                     \
    }
    M(a, char) M(b, short) M(c, int) M(d, long) M(e, float) M(f, double)
    A(g, char, 5) M(h, short) A(i, int, 2) A(j, double, 3) M(k, char) M(l, float)
    M(m, short) M(n, int) M(o, char) A(p, long, 2) M(q, char) M(r, double) M(s, int) M(t, short)
#undef M
#undef A
    vf_check(o == aggregated_member_size<ManyCell>::VALUE, "aggregated size is the sum of all member sizes");
}

// long array members, addressed by index
template<typename ACC>
void big(ACC& acc, std::size_t base, long prod, long idx)
{
    std::size_t k = vf_index("m", 0, 33), l = vf_index("n", 0, 20), j = vf_index("z", 0, 129);
    vf_check(adr(acc.m()[k]) == base + prod * 2 * long(k) + idx * 2, "address of an array member by index");
    vf_check(adr(acc.c()) == base + prod * 68 + idx, "address of a member");
    vf_check(adr(acc.n()[l]) == base + prod * (69 + 4 * long(l)) + idx * 4, "address of an array member by index");
    vf_check(adr(acc.z()[j]) == base + prod * (153 + long(j)) + idx, "address of an array member by index");
    vf_check(adr(acc.template m<33>()) == base + prod * 66 + idx * 2, "address of an array member");
    vf_check(adr(acc.template n<20>()) == base + prod * 149 + idx * 4, "address of an array member");
    vf_check(adr(acc.template z<129>()) == base + prod * 282 + idx, "address of an array member");
    vf_check(adr(acc.tail()) == base + prod * 283 + idx * 4, "address of a member");
}
template<long X, long Y, long Z>
void big_all()
{
    std::size_t base = vf_u64("base");
    vf_assume(base < (std::size_t(1) << 46));
    char *data = reinterpret_cast<char*>(base);
    long idx = vf_any<long>("idx");
    vf_assume(idx > -(1l << 40) && idx < (1l << 40));
    soa_accessor<BigCell, X, Y, Z, 0> acc(data, idx);
    const soa_accessor<BigCell, X, Y, Z, 0>& cref = acc;
    const_soa_accessor<BigCell, X, Y, Z, 0> cacc(data, idx);
    long i1 = idx, i2 = idx;
    soa_accessor_light<BigCell, X, Y, Z, 0> light(data, i1);
    const_soa_accessor_light<BigCell, X, Y, Z, 0> clight(data, i2);
    big(acc, base, X * Y * Z, idx);
    big(cref, base, X * Y * Z, idx);
    big(cacc, base, X * Y * Z, idx);
    big(light, base, X * Y * Z, idx);
    big(clight, base, X * Y * Z, idx);
    vf_reach("done");
}
VF_ENTRY(big_a) { big_all<9, 2, 2>(); }
VF_ENTRY(big_b) { big_all<1032, 1032, 1032>(); }

VF_ENTRY(many_members)
{
    std::size_t base = vf_u64("base");
    vf_assume(base < (std::size_t(1) << 46));
    long idx = vf_any<long>("idx");
    vf_assume(idx >= 0 && idx < 32 * 16 * 8);
    soa_accessor<ManyCell, 32, 16, 8, 0> acc((char*)base, idx);
    many(acc, base, 32 * 16 * 8, idx);
    long i = idx;
    const_soa_accessor_light<ManyCell, 32, 16, 8, 0> cl((char*)base, i);
    many(cl, base, 32 * 16 * 8, idx);
    vf_check(number_of_members<ManyCell>::VALUE == 20, "number of members");
    vf_check(number_of_members<MixCell>::VALUE == 4, "number of members");
    vf_check(number_of_members<OneCell>::VALUE == 1, "number of members");
    vf_check(aggregated_member_size<MixCell>::VALUE == 19, "aggregated size is the sum of all member sizes");
    vf_check(aggregated_member_size<OneCell>::VALUE == 8, "aggregated size is the sum of all member sizes");
    vf_reach("done");
}

VF_ENTRY(many_offsets)
{
    member_ptr_to_offset off;
    // pointers of equal type resolve by value
    short ManyCell::*sp[4] = { &ManyCell::b, &ManyCell::h, &ManyCell::m, &ManyCell::t };
    const int so[4] = { 1, 32, 71, 1 + 2 + 4 + 8 + 4 + 8 + 5 + 2 + 8 + 24 + 1 + 4 + 2 + 4 + 1 + 16 + 1 + 8 + 4 };
    std::size_t k = vf_index("k", 0, 3);
    vf_check(off(sp[k]) == so[k], "offset of a member");
    char ManyCell::*cp[4] = { &ManyCell::a, &ManyCell::k, &ManyCell::o, &ManyCell::q };
    const int co[4] = { 0, 66, 77, 94 };
    vf_check(off(cp[k]) == co[k], "offset of a member");
    vf_check(off(&ManyCell::c) == 3 && off(&ManyCell::d) == 7 && off(&ManyCell::e) == 15 && off(&ManyCell::f) == 19,
             "offset of a member");
    vf_check(off(&ManyCell::g) == 27 && off(&ManyCell::i) == 34 && off(&ManyCell::j) == 42 && off(&ManyCell::p) == 78,
             "offset of an array member");
    vf_check(off(&ManyCell::l) == 67 && off(&ManyCell::n) == 73 && off(&ManyCell::r) == 95 && off(&ManyCell::s) == 103,
             "offset of a member");
    vf_reach("done");
}

template<typename M>
bool refused(M m)
{
    try {
        member_ptr_to_offset()(m);
    } catch (const std::invalid_argument&) {
        return true;
    }
    return false;
}

VF_ENTRY(unregistered)
{
    vf_check(refused(&OneCell::unregistered), "unregistered members are refused");
    vf_check(refused(&OneCell::hidden), "unregistered members are refused");
    vf_check(refused(&OneCell::harr), "unregistered members are refused");
    vf_check(!refused(&OneCell::only), "registered members are known");
    vf_reach("done");
}

VF_ENTRY(mix_8_3_3) { mix_all<8, 3, 3>(); }
VF_ENTRY(mix_1_1_1) { mix_all<1, 1, 1>(); }
VF_ENTRY(mix_max3d) { mix_all<1032, 1032, 1032>(); }
VF_ENTRY(mix_max2d) { mix_all<32800, 32800, 1>(); }
VF_ENTRY(mix_max1d) { mix_all<1073741856, 1, 1>(); }
VF_ENTRY(mix_huge3d) { mix_all<2100, 2050, 2060>(); }
VF_ENTRY(mix_huge2d) { mix_all<70000, 66000, 3>(); }
VF_ENTRY(mix_huge1d) { mix_all<(1L << 33) + 1, 1, 1>(); }
VF_ENTRY(mix_rect) { mix_all<32, 200, 136>(); }
VF_ENTRY(shift_a) { shifted<32, 64, 128, 1, 1, 1>(); }
VF_ENTRY(shift_b) { shifted<8, 3, 5, -1, 0, 0>(); }
VF_ENTRY(shift_c) { shifted<8, 3, 5, 0, -1, 0>(); }
VF_ENTRY(shift_d) { shifted<8, 3, 5, 0, 0, -1>(); }
VF_ENTRY(shift_e) { shifted<264, 32, 520, -3, 7, -11>(); }
VF_ENTRY(shift_f) { shifted<1032, 1032, 1032, 500, -400, 300>(); }
VF_ENTRY(shift_g) { shifted<2100, 2050, 2060, 1, -2, 2059>(); }
VF_ENTRY(raw_a) { raw<8, 3, 5>(); }
VF_ENTRY(raw_b) { raw<544, 1, 1>(); }
VF_ENTRY(equal) { equality<8, 3, 5>(); }
