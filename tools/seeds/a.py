PRE = r'''
#include <libflatarray/flat_array.hpp>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
using namespace LibFlatArray;
#define REQUIRE(C) do { if (!(C)) { std::printf("FAILED: %s\n", #C); std::exit(1); } } while (0)
'''
CELL = r'''
struct Cell
{
    Cell(int a = 0, double x = 0, char t = 0) : a(a), t(t) { for (int i = 0; i < 3; ++i) { v[i] = x + i; } }
    int a;
    double v[3];
    char t;
    bool operator==(const Cell& o) const
    {
        return a == o.a && t == o.t && v[0] == o.v[0] && v[1] == o.v[1] && v[2] == o.v[2];
    }
};
LIBFLATARRAY_REGISTER_SOA(Cell, ((int)(a))((double)(v)(3))((char)(t)))
'''
seed('alloc-grace', 'C12',
     [(I + 'aligned_allocator.hpp', 'return ALIGNMENT + sizeof(char*);', 'return ALIGNMENT;')],
     PRE + r'''
int main()
{
    for (std::size_t n = 1; n < 40; ++n) {
        aligned_allocator<char, 4> a;
        char *p = a.allocate(n);
        std::memset(p, 1, n);
        a.deallocate(p, n);
        aligned_allocator<char, 1> b;
        p = b.allocate(n);
        std::memset(p, 1, n);
        b.deallocate(p, n);
    }
}
''', 'an alignment smaller than a pointer', 'the block handed out extends beyond the chunk that was allocated for it')

seed('save-stride', 'C07',
     [('include/libflatarray/detail/soa_array_member_copy_helper.hpp',
       'target[stride * (INDEX - 1) + offset + i] = data[SIZE * (INDEX - 1) + i];',
       'target[count * (INDEX - 1) + offset + i] = data[SIZE * (INDEX - 1) + i];')],
     PRE + CELL + r'''
int main()
{
    soa_grid<Cell> g(8, 4, 1), h(8, 4, 1);
    for (int y = 0; y < 4; ++y) for (int x = 0; x < 8; ++x) g.set(x, y, 0, Cell(x + 10 * y, x + 0.5 * y, char(x)));
    detail::flat_array::simple_streak s[3] = {
        detail::flat_array::simple_streak(1, 1, 0, 3), detail::flat_array::simple_streak(2, 3, 0, 2),
        detail::flat_array::simple_streak() };
    std::vector<char> buf(5 * aggregated_member_size<Cell>::VALUE);
    g.save(s + 0, s + 2, &buf[0], 5);
    h.load(s + 0, s + 2, &buf[0], 5);
    for (int x = 1; x < 4; ++x) REQUIRE(h.get(x, 1, 0) == g.get(x, 1, 0));
    for (int x = 2; x < 4; ++x) REQUIRE(h.get(x, 3, 0) == g.get(x, 3, 0));
}
''', 'saving several streaks (or fewer cells than the stride) of a cell with an array member',
     'elements of array members are stored at the wrong place of the raw buffer')

seed('copy-slab', 'C05',
     [(I + 'detail/copy_functor.hpp',
       '            for (std::size_t y = 0; y < dim_y; ++y) {',
       """            if (dim_y == std::size_t(ACCESSOR1::DIM_Y)) {
                // complete layers can be copied at once
                target_accessor.index() = ACCESSOR1::gen_index(0, 0, long(z));
                source_accessor.index() = target_accessor.index();
                target_accessor.copy_members(source_accessor, dim_x * dim_y);
                continue;
            }
            for (std::size_t y = 0; y < dim_y; ++y) {""")],
     PRE + CELL + r"""
int main()
{
    soa_grid<Cell> g(5, 32, 1);
    for (int y = 0; y < 32; ++y) for (int x = 0; x < 5; ++x) g.set(x, y, 0, Cell(x + 10 * y, 1 + x + 0.5 * y, char(x)));
    soa_grid<Cell> h(g);
    for (int y = 0; y < 32; ++y) for (int x = 0; x < 5; ++x) REQUIRE(h.get(x, y, 0) == g.get(x, y, 0));
}
""", 'copying a grid which fills its extent in y, but not in x', 'only a part of the cells is copied')

seed('peeler-int', 'C13',
     [(I + 'loop_peeler.hpp', '        COUNTER_TYPE last_stop = (END_X) - ', '        int last_stop = (END_X) - ')],
     PRE + r'''
long visited, last;
template<typename V, typename E> void kernel(long& x, const E& end, int)
{
    if (V::ARITY > 1) { for (; x < end; x += V::ARITY) { REQUIRE(x % V::ARITY == 0); ++visited; } }
    else { for (; x < end; ++x) { ++last; } }
}
int main()
{
    long x = (1L << 32) + 3, end = x + 50;
    typedef short_vec<double, 8> D8;
    LIBFLATARRAY_LOOP_PEELER(D8, long, x, end, kernel, 0);
    REQUIRE(x == end);
    REQUIRE(visited == 5);
}
''', 'loop counters beyond 2^31', 'the vectorized part of the loop is skipped')

seed('dual-z', 'C08',
     [(I + 'soa_grid.hpp', '            (my_dim_z != other_grid->my_dim_z)) {', '            (my_extent_z != other_grid->my_extent_z)) {')],
     PRE + CELL + r'''
struct F { template<typename A, typename B> void operator()(A& a, B& b) const { called = true; } static bool called; };
bool F::called = false;
int main()
{
    soa_grid<Cell> g(8, 4, 3), h(8, 4, 5);
    bool refused = false;
    try { g.callback(&h, F()); } catch (const std::invalid_argument&) { refused = true; }
    REQUIRE(refused);
    REQUIRE(!F::called);
}
''', 'two grids whose depths differ but are rounded to the same extent',
     'grids of different dimensions are accepted by the symmetric dual callback')

seed('array-load', 'C10',
     [(I + 'soa_array.hpp', '        elements = new_elements;', '        elements = offset + num;')],
     PRE + CELL + r'''
int main()
{
    soa_array<Cell, 10> a;
    soa_array<Cell, 20> b;
    for (int i = 0; i < 8; ++i) { a << Cell(i, i, char(i)); b << Cell(100 + i, i, char(i)); }
    a.load(b[2], 3, 1);
    REQUIRE(a.size() == 8);
    REQUIRE(Cell(a[0]) == Cell(0, 0, 0));
    for (int i = 0; i < 3; ++i) REQUIRE(Cell(a[1 + i]) == Cell(102 + i, 2 + i, char(2 + i)));
    REQUIRE(Cell(a[7]) == Cell(7, 7, 7));
}
''', 'loading elements into the middle of an array', 'elements behind the loaded ones are lost')

seed('uniform-z', 'C03',
     [(I + 'macros.hpp', 'std::size_t maxDim = max(dim_x, max(dim_y, dim_z));             \\',
       'std::size_t maxDim = max(dim_x, max(dim_y, dim_z - (dim_z > 128))); \\', 0)],
     PRE + CELL + r"""
int main()
{
    soa_grid<Cell> g(2, 2, 193);
    REQUIRE(g.extent_z() >= 193);
    for (int z = 0; z < 193; ++z) for (int x = 0; x < 2; ++x) g.set(x, 1, z, Cell(x + 100 * z, x, char(x)));
    for (int z = 0; z < 193; ++z) for (int x = 0; x < 2; ++x) REQUIRE(g.get(x, 1, z) == Cell(x + 100 * z, x, char(x)));
}
""", '3D grids whose depth exceeds a registered size by one', 'the selected extent is smaller than the grid')

seed('destroy-row', 'C06',
     [(I + 'detail/destroy_functor.hpp', 'gen_index(0, y, z));', 'gen_index(0, y, dim_y > 1 ? z : 0));', 0)],
     PRE + r'''
int live;
struct Owner { Owner(int v = 0) : p(new int(v)) { ++live; } Owner(const Owner& o) : p(new int(*o.p)) { ++live; }
  Owner& operator=(const Owner& o) { *p = *o.p; return *this; } ~Owner() { delete p; p = 0; --live; } int *p; };
struct C2 { Owner o; int i;
  class API : public api_traits::has_custom_sizes { public: LIBFLATARRAY_CUSTOM_SIZES((4)(8), (1)(4)(8), (1)(4)(8)) };
};
LIBFLATARRAY_REGISTER_SOA(C2, ((Owner)(o))((int)(i)))
int main()
{
    {
        soa_grid<C2> g(3, 1, 2);
        REQUIRE(live == 6);
    }
    REQUIRE(live == 0);
}
''', 'a grid of height 1 and depth > 1 whose members own memory', 'members of the first layer are destroyed repeatedly, others leak',
     '-O1 -g -march=x86-64-v3')

seed('avx512-nt', 'C14',
     [(I + 'detail/short_vec_avx512_double_32.hpp', '_mm512_stream_pd(data + 24, val[ 3]);', '_mm512_stream_pd(data + 16, val[ 3]);')],
     PRE + r'''
int main()
{
    if (!__builtin_cpu_supports("avx512f")) return 0;
    alignas(64) double a[32], b[32];
    for (int i = 0; i < 32; ++i) { a[i] = i; b[i] = -1; }
    short_vec<double, 32> v(a);
    v.store_nt(b);
    for (int i = 0; i < 32; ++i) REQUIRE(b[i] == i);
}
''', 'AVX512, streaming stores of 32 doubles', 'the last quarter overwrites the third and is never stored', '-O1 -march=x86-64-v4')

seed('avx512-sub', 'C15',
     [(I + 'detail/short_vec_avx512_float_32.hpp', 'val[ 1] = _mm512_sub_ps(val[ 1], other.val[ 1]);', 'val[ 1] = _mm512_sub_ps(other.val[ 1], val[ 1]);')],
     PRE + r'''
int main()
{
    if (!__builtin_cpu_supports("avx512f")) return 0;
    float a[32], b[32], c[32];
    for (int i = 0; i < 32; ++i) { a[i] = i; b[i] = 3 * i + 1; }
    short_vec<float, 32> v(a), w(b);
    v -= w;
    v.store(c);
    for (int i = 0; i < 32; ++i) REQUIRE(c[i] == a[i] - b[i]);
}
''', 'AVX512, in-place subtraction of 32 floats', 'the upper half is subtracted the wrong way round', '-O1 -march=x86-64-v4')
