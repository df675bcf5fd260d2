// Cell types used by the container harnesses.
#ifndef VF_CELLS_HPP
#define VF_CELLS_HPP
#include <libflatarray/flat_array.hpp>
using namespace LibFlatArray;

// mixed member sizes, an array member, rectangular 3D sizes
class MixCell
{
public:
    class API : public api_traits::has_custom_sizes
    {
    public:
        LIBFLATARRAY_CUSTOM_SIZES((2)(4)(8), (2)(3), (1)(2)(3))
    };
    double d;
    char c;
    short arr[3];
    int i;
    MixCell(double d = 0, char c = 0, short a = 0, short b = 0, short e = 0, int i = 0) : d(d), c(c), i(i)
    {
        arr[0] = a;
        arr[1] = b;
        arr[2] = e;
    }
    void assign_if(bool k, const MixCell& o)
    {
        vf_assign_if(k, d, o.d);
        vf_assign_if(k, c, o.c);
        vf_assign_if(k, arr[0], o.arr[0]);
        vf_assign_if(k, arr[1], o.arr[1]);
        vf_assign_if(k, arr[2], o.arr[2]);
        vf_assign_if(k, i, o.i);
    }
    static MixCell any()
    {
        MixCell r;
        r.d = vf_any<double>("d");
        r.c = vf_any<char>("c");
        r.arr[0] = vf_any<short>("a0");
        r.arr[1] = vf_any<short>("a1");
        r.arr[2] = vf_any<short>("a2");
        r.i = vf_any<int>("i");
        return r;
    }
    void check(const MixCell& o, const char *msg) const
    {
        vf_check_eq(d, o.d, msg);
        vf_check((c == o.c) & (arr[0] == o.arr[0]) & (arr[1] == o.arr[1]) & (arr[2] == o.arr[2]) & (i == o.i), msg);
    }
};
LIBFLATARRAY_REGISTER_SOA(MixCell, ((double)(d))((char)(c))((short)(arr)(3))((int)(i)))

// uniform 3D sizes, leading array member
class Uni3Cell
{
public:
    class API : public api_traits::has_custom_sizes
    {
    public:
        LIBFLATARRAY_CUSTOM_SIZES_3D_UNIFORM((2)(3)(4))
    };
    char t[2];
    float f;
    Uni3Cell() : f(0) { t[0] = t[1] = 0; }
    void assign_if(bool k, const Uni3Cell& o)
    {
        vf_assign_if(k, t[0], o.t[0]);
        vf_assign_if(k, t[1], o.t[1]);
        vf_assign_if(k, f, o.f);
    }
    static Uni3Cell any()
    {
        Uni3Cell r;
        r.t[0] = vf_any<char>("t0");
        r.t[1] = vf_any<char>("t1");
        r.f = vf_any<float>("f");
        return r;
    }
    void check(const Uni3Cell& o, const char *msg) const
    {
        vf_check_eq(f, o.f, msg);
        vf_check((t[0] == o.t[0]) & (t[1] == o.t[1]), msg);
    }
};
LIBFLATARRAY_REGISTER_SOA(Uni3Cell, ((char)(t)(2))((float)(f)))

// uniform 2D sizes; private members
class Uni2Cell
{
public:
    LIBFLATARRAY_ACCESS
    class API : public api_traits::has_custom_sizes
    {
    public:
        LIBFLATARRAY_CUSTOM_SIZES_2D_UNIFORM((2)(4)(6))
    };
    Uni2Cell() : a(0), b(0) {}
    void assign_if(bool k, const Uni2Cell& o)
    {
        vf_assign_if(k, a, o.a);
        vf_assign_if(k, b, o.b);
    }
    static Uni2Cell any()
    {
        Uni2Cell r;
        r.a = vf_any<int>("a");
        r.b = vf_any<unsigned char>("b");
        return r;
    }
    void check(const Uni2Cell& o, const char *msg) const { vf_check((a == o.a) & (b == o.b), msg); }
private:
    int a;
    unsigned char b;
};
LIBFLATARRAY_REGISTER_SOA(Uni2Cell, ((int)(a))((unsigned char)(b)))

// uniform 1D sizes
class Uni1Cell
{
public:
    class API : public api_traits::has_custom_sizes
    {
    public:
        LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM((2)(4)(8)(16))
    };
    long l;
    char c;
    float w[2];
    Uni1Cell(long l = 0, char c = 0) : l(l), c(c) { w[0] = w[1] = 0; }
    void assign_if(bool k, const Uni1Cell& o)
    {
        vf_assign_if(k, l, o.l);
        vf_assign_if(k, c, o.c);
        vf_assign_if(k, w[0], o.w[0]);
        vf_assign_if(k, w[1], o.w[1]);
    }
    static Uni1Cell any()
    {
        Uni1Cell r;
        r.l = vf_any<long>("l");
        r.c = vf_any<char>("c");
        r.w[0] = vf_any<float>("w0");
        r.w[1] = vf_any<float>("w1");
        return r;
    }
    void check(const Uni1Cell& o, const char *msg) const
    {
        vf_check((l == o.l) & (c == o.c), msg);
        vf_check_eq(w[0], o.w[0], msg);
        vf_check_eq(w[1], o.w[1], msg);
    }
};
LIBFLATARRAY_REGISTER_SOA(Uni1Cell, ((long)(l))((char)(c))((float)(w)(2)))

// no API class at all: library default sizes
class DefCell
{
public:
    int a;
    char b[2];
    DefCell() : a(0) { b[0] = b[1] = 0; }
    void assign_if(bool k, const DefCell& o)
    {
        vf_assign_if(k, a, o.a);
        vf_assign_if(k, b[0], o.b[0]);
        vf_assign_if(k, b[1], o.b[1]);
    }
    static DefCell any()
    {
        DefCell r;
        r.a = vf_any<int>("a");
        r.b[0] = vf_any<char>("b0");
        r.b[1] = vf_any<char>("b1");
        return r;
    }
    void check(const DefCell& o, const char *msg) const
    {
        vf_check((a == o.a) & (b[0] == o.b[0]) & (b[1] == o.b[1]), msg);
    }
};
LIBFLATARRAY_REGISTER_SOA(DefCell, ((int)(a))((char)(b)(2)))

// library default 1D sizes
class Def1Cell
{
public:
    class API : public api_traits::has_default_1d_sizes
    {};
    int a;
    char b;
    Def1Cell(int a = 0, char b = 0) : a(a), b(b) {}
    void assign_if(bool k, const Def1Cell& o)
    {
        vf_assign_if(k, a, o.a);
        vf_assign_if(k, b, o.b);
    }
    static Def1Cell any()
    {
        Def1Cell r;
        r.a = vf_any<int>("a");
        r.b = vf_any<char>("b");
        return r;
    }
    void check(const Def1Cell& o, const char *msg) const { vf_check((a == o.a) & (b == o.b), msg); }
};
LIBFLATARRAY_REGISTER_SOA(Def1Cell, ((int)(a))((char)(b)))

// long array members
class BigCell
{
public:
    class API : public api_traits::has_custom_sizes
    {
    public:
        LIBFLATARRAY_CUSTOM_SIZES((2)(4)(9), (1)(2), (1)(2))
    };
    short m[34];
    char c;
    float n[21];
    char z[130];
    int tail;
    BigCell() : c(0), tail(0)
    {
        for (int i = 0; i < 34; ++i) { m[i] = 0; }
        for (int i = 0; i < 21; ++i) { n[i] = 0; }
        for (int i = 0; i < 130; ++i) { z[i] = 0; }
    }
    static BigCell any()
    {
        BigCell r;
        for (int i = 0; i < 34; ++i) { r.m[i] = vf_any<short>("m"); }
        r.c = vf_any<char>("c");
        for (int i = 0; i < 21; ++i) { r.n[i] = vf_any<float>("n"); }
        for (int i = 0; i < 130; ++i) { r.z[i] = vf_any<char>("z"); }
        r.tail = vf_any<int>("tail");
        return r;
    }
    void check(const BigCell& o, const char *msg) const
    {
        // bit by bit: values are moved, not computed with
        vf_check((std::memcmp(m, o.m, sizeof(m)) == 0) & (c == o.c), msg);
        vf_check((std::memcmp(n, o.n, sizeof(n)) == 0) & (tail == o.tail), msg);
        vf_check(std::memcmp(z, o.z, sizeof(z)) == 0, msg);
    }
};
LIBFLATARRAY_REGISTER_SOA(BigCell, ((short)(m)(34))((char)(c))((float)(n)(21))((char)(z)(130))((int)(tail)))

// hands out blocks of exactly the requested size
struct exact_allocator
{
    char *allocate(std::size_t n) { return static_cast<char*>(::operator new(n)); }
    void deallocate(char *p, std::size_t) { ::operator delete(p); }
};
#endif
