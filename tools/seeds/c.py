
DEV = r'''
#include <libflatarray/flat_array.hpp>
#include <libflatarray/cuda_array.hpp>
#include <cstdio>
#include <cstdlib>
#include <vector>
// device memory is plain memory here
extern "C" {
void *vf_dev_alloc(std::size_t n) { return std::malloc(n ? n : 1); }
void vf_dev_free(void *p) { std::free(p); }
void vf_dev_copy(void *d, const void *s, std::size_t n, int) { std::memcpy(d, s, n); }
void vf_dev_mode(int) {}
}
using namespace LibFlatArray;
#define REQUIRE(C) do { if (!(C)) { std::printf("FAILED: %s\n", #C); std::exit(1); } } while (0)
'''
seed('device-round', 'C24',
     [(D + 'generate_cuda_launch_config.hpp', 'if (i % dividend) {', 'if ((i % dividend) * 2 >= dividend || (ret == 0)) {')],
     DEV + r'''
struct Cell { Cell(int a = 0) : a(a) {} int a; };
LIBFLATARRAY_REGISTER_SOA(Cell, ((int)(a)))
int main()
{
    soa_grid<Cell, cuda_allocator<char>, true> g(600, 1, 1);
    std::vector<Cell> in, out(600);
    for (int i = 0; i < 600; ++i) in.push_back(Cell(i + 1));
    g.set(0, 0, 0, &in[0], 600);
    for (int i = 0; i < 600; i += 50) g.get(i, 0, 0, &out[i], 50);
    for (int i = 0; i < 600; ++i) REQUIRE(out[i].a == i + 1);
}
''', 'device grids with rows that fill a thread block and less than a half of the next', 'the last cells of a row are not processed')
seed('device-self', 'C25',
     [(I + 'cuda_array.hpp', 'if (array.size() > my_capacity) {', 'if ((array.size() > my_capacity) || (2 * array.size() < my_capacity + 1)) {')],
     DEV + r'''
int main()
{
    cuda_array<int> a(10, 1);
    a.resize(3);
    a = a;
    int host[3] = { 0 };
    a.save(host);
    REQUIRE(a.size() == 3);
    REQUIRE(host[0] == 1 && host[1] == 1 && host[2] == 1);
}
''', 'self-assignment of an array with much spare capacity', 'the elements are lost: the storage is released before it is copied')
