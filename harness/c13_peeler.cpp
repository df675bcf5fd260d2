// C13: the loop peeler covers [x, end) exactly once, in order, in aligned chunks.
#include <libflatarray/flat_array.hpp>
using namespace LibFlatArray;

// A recorder which plays the user's kernel: the documented loop is
//   for (; x < stop; x += V::ARITY) ...
// its effect is computed in closed form so that no loop bound is needed.
template<typename C>
struct rec
{
    C begin, end, probe, expected;
    C hits, full;
    template<typename V>
    void run(C& x, C stop)
    {
        const C a = C(V::ARITY);
        vf_check(x == expected, "the peeler must not move the counter between calls");
        if (x >= stop) {
            return;
        }
        C n = (stop - x + a - 1) / a;
        C next = x + n * a;
        vf_check(x >= begin, "iteration below the range");
        vf_check(next <= end && next > x, "iteration beyond the end of the range");
        if (a > 1) {
            vf_check(x % a == 0, "vectorized chunk starts unaligned");
        } else {
            vf_check(full <= 1 || n < full, "scalar iterations which could have been vectorized");
        }
        if ((probe >= x) && (probe < next)) {
            ++hits;
        }
        x = next;
        expected = next;
    }
};

// same with a real loop, bounded
template<typename C>
struct looprec
{
    C begin, end, probe;
    C hits, last;
    template<typename V>
    void run(C& x, C stop)
    {
        const C a = C(V::ARITY);
        for (; x < stop; x += a) {
            vf_check(x >= begin, "iteration below the range");
            vf_check(x + a <= end, "iteration beyond the end of the range");
            vf_check(a == 1 || x % a == 0, "vectorized chunk starts unaligned");
            if ((probe >= x) && (probe < x + a)) {
                ++hits;
            }
        }
    }
};

template<typename V, typename C, typename E, typename R>
void kernel(C& x, const E& stop, R *r)
{
    r->template run<V>(x, C(stop));
}

template<typename V, typename C, typename R>
struct tmpl
{
    // the macro variant meant for use in templates
    static void go(C& x, C end, R *r)
    {
        LIBFLATARRAY_LOOP_PEELER_TEMPLATE(V, C, x, end, kernel, r);
    }
};

enum variant { MACRO_TEMPLATE, LAMBDA };

template<variant WHAT, typename V, typename C, typename R>
void dispatch(C& x, C end, R *r)
{
    if (WHAT == MACRO_TEMPLATE) {
        tmpl<V, C, R>::go(x, end, r);
    } else {
        loop_peeler<V>(&x, end, [r](auto v, C *x, C stop) {
                r->template run<decltype(v)>(*x, stop);
            });
    }
}

template<typename C>
void setup(C& x, C& end, C& probe, C room)
{
    x = vf_any<C>("x");
    end = vf_any<C>("end");
    probe = vf_any<C>("probe");
    vf_assume(!(x < 0));
    vf_assume(x <= end);
    vf_assume(end <= std::numeric_limits<C>::max() - room);
    vf_assume(!(probe < 0));
}

template<variant WHAT, typename V, typename C>
void all_values()
{
    C x, end, probe;
    setup<C>(x, end, probe, 64);
    rec<C> r = { x, end, probe, x, 0, C(V::ARITY) };
    C begin = x;
    dispatch<WHAT, V, C>(x, end, &r);
    vf_check(x == end, "the counter must arrive at the end of the range");
    vf_check(r.hits == C((probe >= begin && probe < end) ? 1 : 0), "every index of the range exactly once");
    vf_reach("done");
}

template<variant WHAT, typename V, typename C>
void looped(C maxlen)
{
    C x, end, probe;
    setup<C>(x, end, probe, 64);
    vf_assume(x <= 128 && end - x <= maxlen);
    looprec<C> r = { x, end, probe, 0, 0 };
    C begin = x;
    dispatch<WHAT, V, C>(x, end, &r);
    vf_check(x == end, "the counter must arrive at the end of the range");
    vf_check(r.hits == C((probe >= begin && probe < end) ? 1 : 0), "every index of the range exactly once");
    vf_reach("done");
}

// counter and end of different types
template<typename V, typename C, typename E>
void mixed()
{
    C x, probe;
    E end = vf_any<E>("end");
    x = vf_any<C>("x");
    probe = vf_any<C>("probe");
    vf_assume(!(x < 0) && !(end < 0) && !(probe < 0));
    // representable in both types
    vf_assume(end < E(0x7fffffff - 64) && x <= C(end));
    rec<C> r = { x, C(end), probe, x, 0, C(V::ARITY) }, *p = &r;
    C begin = x;
    loop_peeler<V>(&x, end, [p](auto v, C *x, E stop) {
            p->template run<decltype(v)>(*x, C(stop));
        });
    vf_check(x == C(end), "the counter must arrive at the end of the range");
    vf_check(r.hits == C((probe >= begin && probe < C(end)) ? 1 : 0), "every index of the range exactly once");
    vf_reach("done");
}
VF_ENTRY(mixed_long_int) { mixed<short_vec<float, 8>, long, int>(); }
VF_ENTRY(mixed_size_int) { mixed<short_vec<double, 4>, std::size_t, int>(); }
VF_ENTRY(mixed_int_long) { mixed<short_vec<float, 16>, int, long>(); }
VF_ENTRY(mixed_int_size) { mixed<short_vec<float, 4>, int, std::size_t>(); }
VF_ENTRY(mixed_uint_long) { mixed<short_vec<int, 8>, unsigned, long>(); }

// plain (non-template) macro use
template<typename R> void kernel_f4(R&) {}
typedef short_vec<float, 4> f4;
typedef short_vec<double, 8> d8;

VF_ENTRY(macro_plain_f4_long)
{
    long x, end, probe;
    setup<long>(x, end, probe, 64);
    rec<long> r = { x, end, probe, x, 0, long(f4::ARITY) };
    rec<long> *p = &r;
    long begin = x;
    LIBFLATARRAY_LOOP_PEELER(f4, long, x, end, kernel, p);
    vf_check(x == end, "the counter must arrive at the end of the range");
    vf_check(r.hits == ((probe >= begin && probe < end) ? 1 : 0), "every index of the range exactly once");
    vf_reach("done");
}

// END_X and X may be expressions
VF_ENTRY(macro_plain_expr)
{
    long x, end, probe;
    setup<long>(x, end, probe, 64);
    long half = vf_any<long>("half");
    vf_assume(half >= 0 && half <= end);
    rec<long> r = { x, end, probe, x, 0, long(d8::ARITY) };
    rec<long> *p = &r;
    long begin = x;
    long rest = end - half;
    LIBFLATARRAY_LOOP_PEELER(d8, long, x, half + rest, kernel, p);
    vf_check(x == end, "the counter must arrive at the end of the range");
    vf_check(r.hits == ((probe >= begin && probe < end) ? 1 : 0), "every index of the range exactly once");
    vf_reach("done");
}

#define COMMA ,
#define ALLV(NAME, V, C)                                                \
    VF_ENTRY(macro_##NAME) { all_values<MACRO_TEMPLATE, V, C>(); }      \
    VF_ENTRY(lambda_##NAME) { all_values<LAMBDA, V, C>(); }

ALLV(f1_long,  short_vec<float COMMA 1>,   long)
ALLV(f2_long,  short_vec<float COMMA 2>,   long)
ALLV(f4_long,  short_vec<float COMMA 4>,   long)
ALLV(f8_long,  short_vec<float COMMA 8>,   long)
ALLV(f16_long, short_vec<float COMMA 16>,  long)
ALLV(f32_long, short_vec<float COMMA 32>,  long)
ALLV(f8_int,   short_vec<float COMMA 8>,   int)
ALLV(d4_size,  short_vec<double COMMA 4>,  std::size_t)
ALLV(d16_uint, short_vec<double COMMA 16>, unsigned)
ALLV(d2_int,   short_vec<double COMMA 2>,  int)
ALLV(i8_int,   short_vec<int COMMA 8>,     int)
ALLV(i32_size, short_vec<int COMMA 32>,    std::size_t)
ALLV(s4_long,  streaming_short_vec<float COMMA 4>,  long)
ALLV(s8_size,  streaming_short_vec<double COMMA 8>, std::size_t)

#define LOOPED(NAME, V, C, LEN)                                             \
    VF_ENTRY(macro_loop_##NAME) { looped<MACRO_TEMPLATE, V, C>(LEN); }      \
    VF_ENTRY(lambda_loop_##NAME) { looped<LAMBDA, V, C>(LEN); }
LOOPED(f4_long, short_vec<float COMMA 4>, long, VF_TIER ? 25 : 9)
LOOPED(d8_size, short_vec<double COMMA 8>, std::size_t, VF_TIER ? 33 : 10)
#if VF_TIER
LOOPED(f16_int, short_vec<float COMMA 16>, int, 40)
#endif
