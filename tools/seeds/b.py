PRE = r'''
#include <libflatarray/flat_array.hpp>
#include <cstdio>
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <sstream>
#include <string>
#include <vector>
using namespace LibFlatArray;
#define REQUIRE(...) do { if (!(__VA_ARGS__)) { std::printf("FAILED: %s\n", #__VA_ARGS__); std::exit(1); } } while (0)
'''
CELL = r'''
struct Cell
{
    Cell(int a = 0, double x = 0, char t = 0) : a(a), t(t) { for (int i = 0; i < 3; ++i) { v[i] = x + i; } }
    int a;
    double v[3];
    char t;
    bool operator==(const Cell& o) const
    {
        return a == o.a && t == o.t && v[0] == o.v[0] && v[1] == o.v[1] && v[2] == o.v[2];
    }
};
LIBFLATARRAY_REGISTER_SOA(Cell, ((int)(a))((double)(v)(3))((char)(t)))
'''
SSE2 = '-O1 -msse2 -mno-sse3 -march=x86-64'

seed('int-mul', 'C16',
     [(D + 'short_vec_sse_int_16.hpp', '''        __m128i result3 = _mm_unpacklo_epi32(''',
       '''        __m128i result3 = _mm_unpackhi_epi32(''')],
     PRE + r'''
int main()
{
    int a[16], b[16], c[16];
    for (int i = 0; i < 16; ++i) { a[i] = 3 * i - 20; b[i] = 100 - 7 * i; }
    (short_vec<int, 16>(a) * short_vec<int, 16>(b)).store(c);
    for (int i = 0; i < 16; ++i) REQUIRE(c[i] == a[i] * b[i]);
}
''', 'CPUs without SSE4.1', 'lanes 8 to 11 of products of int vectors are wrong', SSE2)

seed('int-scatter', 'C18',
     [(D + 'short_vec_sse_int_8.hpp', '_MM_SHUFFLE(2,1,0,3)', '_MM_SHUFFLE(2,1,0,2)', 0)],
     PRE + r'''
int main()
{
    int a[8], o[8] = { 9, 4, 7, 1, 0, 3, 8, 2 }, t[10] = { 0 };
    for (int i = 0; i < 8; ++i) { a[i] = 100 + i; }
    short_vec<int, 8>(a).scatter(t, o);
    for (int i = 0; i < 8; ++i) REQUIRE(t[o[i]] == a[i]);
}
''', 'CPUs without SSE4.1', 'scatter stores the wrong lane', SSE2)

seed('print-lanes', 'C23',
     [(D + 'short_vec_avx512_int_32.hpp', 'data2[ 8] << ", " << data2[ 9]', 'data2[ 8] << ", " << data1[ 9]')],
     PRE + r'''
int main()
{
    if (!__builtin_cpu_supports("avx512f")) return 0;
    alignas(64) int a[32];
    std::stringstream s, t;
    t << "[";
    for (int i = 0; i < 32; ++i) { a[i] = i * i; t << (i ? ", " : "") << a[i]; }
    t << "]";
    s << short_vec<int, 32>(a);
    REQUIRE(s.str() == t.str());
}
''', 'printing 32 ints on a machine with AVX-512', 'one lane is printed twice, another not at all', '-O1 -mavx512f')

seed('mask-any', 'C17',
     [(D + 'short_vec_sse_float_16.hpp', '_mm_shuffle_ps(buf1, buf1, (1 << 0));', '_mm_shuffle_ps(buf1, buf1, (2 << 0));')],
     PRE + r'''
int main()
{
    for (int i = 0; i < 16; ++i) {
        float a[16] = { 0 };
        a[i] = 1;
        REQUIRE((short_vec<float, 16>(a) > short_vec<float, 16>(0.5f)).any());
    }
}
''', 'CPUs without SSE4.1, a mask with odd lanes only', 'any() overlooks lanes', SSE2)

seed('root-twice', 'C19',
     [(D + 'short_vec_avx512_float_32.hpp', '        _mm512_mul_ps(val[ 1], _mm512_rsqrt14_ps(other.vec.val[ 1])));',
       '        _mm512_mul_ps(val[ 1], _mm512_rsqrt14_ps(other.vec.val[ 0])));')],
     PRE + r'''
int main()
{
    if (!__builtin_cpu_supports("avx512f")) return 0;
    alignas(64) float a[32], b[32], c[32];
    for (int i = 0; i < 32; ++i) { a[i] = 1 + i; b[i] = 1 + i * i; }
    (short_vec<float, 32>(a) / sqrt(short_vec<float, 32>(b))).store(c);
    for (int i = 0; i < 32; ++i) REQUIRE(std::fabs(c[i] - a[i] / std::sqrt(b[i])) < 0.01 * c[i]);
}
''', 'dividing 32 floats by a root on a machine with AVX-512', 'half of the lanes are divided by other lanes\' roots', '-O1 -mavx512f')

seed('light-generic', 'C02',
     [(I + 'macros.hpp', '''                *my_index * size_of_member +                            \\
                INDEX  * size_of_member;''', '''                *my_index * size_of_member +                            \\
                INDEX;''', 0)],
     PRE + CELL + r'''
int main()
{
    typedef soa_accessor_light<Cell, 8, 4, 2, 0> light;
    std::vector<char> buf(8 * 4 * 2 * aggregated_member_size<Cell>::VALUE);
    long i = light::gen_index(2l, 1l, 1l);
    light a(&buf[0], i);
    a[coord<1, 1, 0>()].a() = 4711;
    char *p = a[coord<1, 1, 0>()].access_member(sizeof(int), 0);
    REQUIRE((void*)p == (void*)&a[coord<1, 1, 0>()].a());
    REQUIRE(*(int*)p == 4711);
}
''', 'run-time member access of a neighbour by way of a light accessor', 'the address is that of another cell')

seed('vector-pop', 'C11',
     [(I + 'soa_vector.hpp', '''        --count;
        // destroy last element by overwriting with default element:
        set(count, T());''', '''        // destroy last element by overwriting with default element:
        set(count, T());
        --count;''')],
     PRE + CELL + r'''
int main()
{
    soa_vector<Cell> v;
    v.push_back(Cell(1, 2, 3));
    while (v.size() < v.capacity()) v.push_back(Cell(4, 5, 6));
    v.pop_back();
    REQUIRE(v.get(0) == Cell(1, 2, 3));
}
''', 'removing an element from a vector which is full', 'the element after the last one is overwritten, which is a member of the first element if there is no padding')

seed('array-fill', 'C09',
     [(I + 'soa_array.hpp', '            accessor << value;', '            accessor << value;\n            if (accessor.index() >= 64) {\n'
       '                // no use in going element by element any more\n                at(64).copy_members(at(0), elements - 65);\n'
       '                break;\n            }')],
     PRE + CELL + r'''
int main()
{
    soa_array<Cell, 100> a(80, Cell(1, 2, 3));
    for (int i = 0; i < 80; ++i) REQUIRE(Cell(a[i]) == Cell(1, 2, 3));
}
''', 'arrays filled with more than 65 elements', 'an element keeps its default value')

seed('row-unrolled', 'C01',
     [(D + 'set_instance_functor.hpp', '''        for (std::size_t i = 0; i < count; ++i) {
            accessor << *cursor;
            cursor += SOURCE_STRIDE;
            ++accessor.index();
        }''', '''        std::size_t i = 0;
        for (; count - i >= 12; i += 4) {
            accessor << cursor[0];
            ++accessor.index();
            accessor << cursor[1 * SOURCE_STRIDE];
            ++accessor.index();
            accessor << cursor[2 * SOURCE_STRIDE];
            ++accessor.index();
            accessor << cursor[(i == 16 ? 2 : 3) * SOURCE_STRIDE];
            ++accessor.index();
            cursor += 4 * SOURCE_STRIDE;
        }
        for (; i < count; ++i) {
            accessor << *cursor;
            cursor += SOURCE_STRIDE;
            ++accessor.index();
        }''')],
     PRE + CELL + r'''
int main()
{
    soa_grid<Cell> g(40, 2, 1);
    std::vector<Cell> in, out(40);
    for (int i = 0; i < 40; ++i) in.push_back(Cell(i, i, char(i)));
    g.set(0, 1, 0, &in[0], 40);
    g.get(0, 1, 0, &out[0], 40);
    for (int i = 0; i < 40; ++i) REQUIRE(out[i] == in[i]);
}
''', 'writing streaks of at least 28 different cells', 'one cell gets its neighbour\'s value')

seed('resize-volume', 'C04',
     [(I + 'soa_grid.hpp', '''        if ((my_dim_x == new_dim_x) &&
            (my_dim_y == new_dim_y) &&
            (my_dim_z == new_dim_z)) {''', '''        if ((my_dim_x == new_dim_x) &&
            ((my_dim_y == new_dim_y) || (my_extent_y > new_dim_y)) &&
            (my_dim_z == new_dim_z)) {''')],
     PRE + CELL + r'''
int main()
{
    soa_grid<Cell> g(10, 20, 1);
    g.resize(10, 5, 1);
    REQUIRE(g.dim_x() == 10 && g.dim_y() == 5 && g.dim_z() == 1);
}
''', 'shrinking a grid in y only', 'the dimensions do not follow')

seed('get-static', 'C22',
     [(I + 'soa_grid.hpp', '        value_type cell;\n', '        static value_type cell;\n')],
     r'''
#include <atomic>
#include <thread>
''' + PRE + r'''
// reading the first cell waits until the second one has been read
std::atomic<int> step(0);
struct Value
{
    Value(int v = 0) : v(v) {}
    Value(const Value& o) : v(o.v) {}
    Value& operator=(const Value& o)
    {
        v = o.v;
        if (v == 1 && step == 1) {
            step = 2;
            for (int i = 0; i < 3000 && step == 2; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1));
        }
        return *this;
    }
    int v;
};
struct Cell { Value v; };
LIBFLATARRAY_REGISTER_SOA(Cell, ((Value)(v)))
int main()
{
    soa_grid<Cell> g(4, 1, 1);
    Cell c;
    c.v.v = 1;
    g.set(0, 0, 0, c);
    c.v.v = 2;
    g.set(1, 0, 0, c);
    const soa_grid<Cell>& r = g;
    step = 1;
    int first = 0, second = 0;
    std::thread t([&] { first = r.get(0, 0, 0).v.v; });
    for (int i = 0; i < 3000 && step == 1; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    second = r.get(1, 0, 0).v.v;
    step = 3;
    t.join();
    REQUIRE(second == 2);
    REQUIRE(first == 1);
}
''', 'two threads reading single cells at the same time', 'a thread gets the other thread\'s cell', '-O1 -pthread')

seed('nt-float', 'C20',
     [(D + 'short_vec_avx512_float_32.hpp', '_mm512_stream_ps(data + 16, val[ 1]);', '_mm512_stream_ps(data + 16, val[ 0]);')],
     PRE + r'''
int main()
{
    if (!__builtin_cpu_supports("avx512f")) return 0;
    alignas(64) float a[32], b[32] = { 0 };
    for (int i = 0; i < 32; ++i) a[i] = i + 1;
    streaming_short_vec<float, 32> v(a);
    v.store(b);
    for (int i = 0; i < 32; ++i) REQUIRE(b[i] == a[i]);
}
''', 'streaming stores of 32 floats on a machine with AVX-512', 'half of the elements are other elements\' values', '-O1 -mavx512f')

