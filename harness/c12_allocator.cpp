// C12: aligned_allocator
#include <libflatarray/aligned_allocator.hpp>
using namespace LibFlatArray;

// one allocation, all elements of the block usable, released again
template<typename T, std::size_t ALIGNMENT>
void single(std::size_t max)
{
    vf_sym_heap(1);
    std::size_t n = vf_index("n", 0, max);
    aligned_allocator<T, ALIGNMENT> alloc;
    T *p = alloc.allocate(n);
    vf_check(p != 0, "allocation yields a block");
    vf_check((reinterpret_cast<std::size_t>(p) % ALIGNMENT) == 0, "block is aligned");
    std::size_t i = vf_index("i", 0, max);
    std::size_t j = vf_index("j", 0, max);
    vf_assume(i < n && j < n && i != j);
    T a = vf_any<T>("a");
    T b = vf_any<T>("b");
    p[i] = a;
    p[j] = b;
    vf_check(p[i] == a && p[j] == b, "elements keep their values");
    alloc.deallocate(p, n);
    vf_check(vf_live_allocs() == 0, "deallocation releases the block");
    vf_reach("done");
}

// larger blocks
template<typename T, std::size_t ALIGNMENT>
void large()
{
    static const std::size_t N[] = { 41, 47, 48, 49, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513,
                                     1000, 1023, 1024, 1025, 4080, 4095, 4096, 4097, 5000, 65535, 65536, 1000000 };
    vf_sym_heap(1);
    std::size_t n = N[vf_pick("n", 0, sizeof(N) / sizeof(N[0]) - 1)];
    aligned_allocator<T, ALIGNMENT> alloc;
    T *p = alloc.allocate(n);
    vf_check((reinterpret_cast<std::size_t>(p) % ALIGNMENT) == 0, "block is aligned");
    T a = vf_any<T>("a");
    T b = vf_any<T>("b");
    p[0] = a;
    p[n - 1] = b;
    vf_check(p[0] == a && p[n - 1] == b, "elements keep their values");
    alloc.deallocate(p, n);
    vf_check(vf_live_allocs() == 0, "deallocation releases the block");
    vf_reach("done");
}

// several live blocks, released in any order
template<typename T, typename U, std::size_t A1, std::size_t A2>
void several(std::size_t max)
{
    vf_sym_heap(1);
    std::size_t n = vf_index("n", 1, max);
    std::size_t m = vf_index("m", 1, max);
    aligned_allocator<T, A1> alloc1;
    aligned_allocator<U, A2> alloc2;
    T *p = alloc1.allocate(n);
    U *q = alloc2.allocate(m);
    std::size_t pi = reinterpret_cast<std::size_t>(p);
    std::size_t qi = reinterpret_cast<std::size_t>(q);
    vf_check(pi % A1 == 0 && qi % A2 == 0, "blocks are aligned");
    vf_check((pi + n * sizeof(T) <= qi) || (qi + m * sizeof(U) <= pi), "blocks do not overlap");
    T a = vf_any<T>("a");
    U b = vf_any<U>("b");
    std::size_t i = vf_index("i", 0, max);
    std::size_t j = vf_index("j", 0, max);
    vf_assume(i < n && j < m);
    p[i] = a;
    q[j] = b;
    vf_check(p[i] == a && q[j] == b, "blocks are independent");
    if (vf_any<bool>("order")) {
        alloc1.deallocate(p, n);
        vf_check(q[j] == b, "releasing one block leaves the other alone");
        alloc2.deallocate(q, m);
    } else {
        alloc2.deallocate(q, m);
        vf_check(p[i] == a, "releasing one block leaves the other alone");
        alloc1.deallocate(p, n);
    }
    vf_check(vf_live_allocs() == 0, "deallocation releases the blocks");
    vf_reach("done");
}

#define SINGLE(T, A, MAX) VF_ENTRY(single_##T##_##A) { single<T, A>(MAX); }
typedef unsigned char uchar;
SINGLE(uchar, 8, 40)
SINGLE(uchar, 16, 40)
SINGLE(uchar, 32, 40)
SINGLE(uchar, 64, 40)
SINGLE(uchar, 4096, 24)
SINGLE(short, 16, 20)
SINGLE(int, 8, 20)
SINGLE(int, 16, 20)
SINGLE(int, 64, 20)
SINGLE(int, 128, 20)
SINGLE(long, 8, 20)
SINGLE(long, 16, 20)
SINGLE(long, 32, 20)
SINGLE(long, 64, 20)
SINGLE(long, 512, 20)
SINGLE(long, 1024, 20)
SINGLE(long, 4096, 20)
SINGLE(uchar, 8192, 12)
SINGLE(uchar, 65536, 12)
SINGLE(int, 1048576, 6)
SINGLE(uchar, 1, 20)
SINGLE(uchar, 2, 20)
SINGLE(uchar, 4, 20)
SINGLE(short, 2, 20)
SINGLE(int, 4, 20)

#define LARGE(T, A) VF_ENTRY(large_##T##_##A) { large<T, A>(); }
LARGE(uchar, 16)
LARGE(uchar, 64)
LARGE(int, 64)
LARGE(long, 32)
LARGE(uchar, 512)
LARGE(uchar, 4096)

VF_ENTRY(several_long_int) { several<long, int, 64, 16>(6); }
VF_ENTRY(several_int_int) { several<int, int, 32, 32>(6); }
VF_ENTRY(several_uchar_long) { several<uchar, long, 128, 8>(6); }
VF_ENTRY(several_page) { several<uchar, uchar, 4096, 4096>(VF_TIER ? 6 : 2); }

VF_ENTRY(null_pointer)
{
    aligned_allocator<int, 64> alloc;
    std::size_t n = vf_u64("n");
    alloc.deallocate(0, n);
    vf_check(vf_live_allocs() == 0, "releasing a null pointer does nothing");
    vf_reach("done");
}

// out of memory surfaces as std::bad_alloc, nothing leaks
VF_ENTRY(out_of_memory)
{
    vf_sym_heap(1);
    vf_alloc_fail_at(vf_index("k", 0, 1));
    std::size_t n = vf_index("n", 1, 16);
    aligned_allocator<int, 64> alloc;
    bool failed = false;
    int *p = 0;
    try {
        p = alloc.allocate(n);
    } catch (const std::bad_alloc&) {
        failed = true;
    }
    if (!failed) {
        vf_check((reinterpret_cast<std::size_t>(p) % 64) == 0, "block is aligned");
        p[n - 1] = 1;
        alloc.deallocate(p, n);
    }
    vf_check(vf_live_allocs() == 0, "nothing leaks");
    vf_reach("done");
}

// sizes whose byte count does not fit must be refused, never yield a small block
template<typename T, std::size_t ALIGNMENT>
void huge()
{
    std::size_t n = vf_u64("n");
    vf_assume(n > (std::size_t(1) << 40));
    aligned_allocator<T, ALIGNMENT> alloc;
    bool failed = false;
    T *p = 0;
    try {
        p = alloc.allocate(n);
    } catch (const std::bad_alloc&) {
        failed = true;
    }
    vf_check(failed, "a request exceeding the address space is refused");
    vf_reach("done");
}
VF_ENTRY(huge_long) { huge<long, 64>(); }
VF_ENTRY(huge_char) { huge<uchar, 4096>(); }
