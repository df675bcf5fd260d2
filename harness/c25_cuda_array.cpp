// C25: cuda_array behaves as a sequence of plain elements in device memory.
#include <libflatarray/cuda_array.hpp>
#include <vector>
using namespace LibFlatArray;

inline void same(double a, double b, const char *m) { vf_check_eq(a, b, m); }
inline void same(long a, long b, const char *m) { vf_check(a == b, m); }
inline void same(int a, int b, const char *m) { vf_check(a == b, m); }
inline void same(char a, char b, const char *m) { vf_check(a == b, m); }
inline void same(short a, short b, const char *m) { vf_check(a == b, m); }

// an element of several words
struct Wide
{
    long a;
    double b;
    int c[3];
    Wide(long a = 0) : a(a), b(0) { c[0] = c[1] = c[2] = 0; }
};
inline void same(const Wide& a, const Wide& b, const char *m)
{
    vf_check((a.a == b.a) & (a.c[0] == b.c[0]) & (a.c[1] == b.c[1]) & (a.c[2] == b.c[2]), m);
    vf_check_eq(a.b, b.b, m);
}
template<typename T>
struct make
{
    static T any(const char *n) { return vf_any<T>(n); }
};
template<>
struct make<Wide>
{
    static Wide any(const char *n)
    {
        Wide w(vf_any<long>(n));
        w.b = vf_any<double>(n);
        w.c[0] = vf_any<int>(n);
        w.c[1] = vf_any<int>(n);
        w.c[2] = vf_any<int>(n);
        return w;
    }
};

// element and whether its value is specified
template<typename T>
struct model
{
    std::vector<T> e;
    std::vector<char> known;
    std::size_t capacity;
    void grow(std::size_t n, bool k, T v)
    {
        for (std::size_t i = e.size(); i < n; ++i) {
            e.push_back(v);
            known.push_back(k);
        }
        e.resize(n);
        known.resize(n);
    }
};

template<typename T>
void verify(const cuda_array<T>& a, const model<T>& m, const char *msg)
{
    vf_check(a.size() == m.e.size() && a.byte_size() == m.e.size() * sizeof(T), "size");
    vf_check(a.capacity() >= a.size(), "capacity");
    std::vector<T> out(m.e.size() + 1, T(77));
    a.save(&out[0]);
    for (std::size_t i = 0; i < m.e.size(); ++i) {
        if (m.known[i]) {
            same(out[i], m.e[i], msg);
        }
    }
    same(out[m.e.size()], T(77), "elements beyond the array's size");
}

template<typename T>
void history(int steps, std::size_t max, int start)
{
    vf_cuda::backwards = vf_pick("backwards", 0, 1);
    {
        std::size_t n = vf_pick("size", 0, max);
        std::vector<T> host(n + 1);
        for (std::size_t i = 0; i < n; ++i) {
            host[i] = make<T>::any("h");
        }
        T v = make<T>::any("v");
        model<T> m, mb;
        cuda_array<T> b(2, v);
        mb.grow(2, true, v);
        verify(b, mb, "element of a filled array");
        cuda_array<T> *p = 0;
        if (start == 0) {
            p = new cuda_array<T>(n);
            m.grow(n, false, v);
        }
        if (start == 1) {
            p = new cuda_array<T>(n, v);
            m.grow(n, true, v);
        }
        if (start == 2) {
            p = new cuda_array<T>(&host[0], n);
            m.grow(n, true, v);
            std::copy(host.begin(), host.begin() + n, m.e.begin());
        }
        if (start == 3) {
            if (n == 0) {
                n = 1;
                host.resize(2);
            }
            host.resize(n);
            p = new cuda_array<T>(host);
            host.push_back(T());
            m.grow(n, true, v);
            std::copy(host.begin(), host.begin() + n, m.e.begin());
        }
        cuda_array<T>& a = *p;
        vf_check(a.capacity() >= n, "capacity");
        verify(a, m, "element of a new array");
        for (int s = 0; s < steps; ++s) {
            T w = make<T>::any("w");
            switch (vf_pick("op", 0, 7)) {
            case 0: {
                std::size_t k = vf_pick("n", 0, max + 2);
                std::size_t c = a.capacity();
                a.resize(k);
                // what has been there before may show up again
                m.grow(k, false, w);
                vf_check(a.capacity() >= c, "the capacity does not shrink");
                break;
            }
            case 1: {
                std::size_t k = vf_pick("n", 0, max + 2);
                a.resize(k, w);
                m.grow(k, true, w);
                break;
            }
            case 2: {
                std::size_t k = vf_pick("n", 0, max + 3);
                a.reserve(k);
                vf_check(a.capacity() >= k, "the requested capacity");
                break;
            }
            case 3: {
                std::vector<T> in(m.e.size() + 1);
                for (std::size_t i = 0; i < m.e.size(); ++i) {
                    m.e[i] = in[i] = make<T>::any("l");
                    m.known[i] = 1;
                }
                a.load(&in[0]);
                break;
            }
            case 4:
                a = b;
                m = mb;
                break;
            case 5:
                b = a;
                mb = m;
                break;
            case 6: {
                cuda_array<T> c(a);
                vf_check(c.data() != a.data() || c.data() == 0, "a copy has storage of its own");
                verify(c, m, "element of a copy");
                c.resize(m.e.size() + 1, w);
                model<T> mc = m;
                mc.grow(m.e.size() + 1, true, w);
                verify(c, mc, "element of a copy");
                break;
            }
            case 7: {
                cuda_array<T>& alias = a;
                a = alias;
                break;
            }
            }
            verify(a, m, "element");
            verify(b, mb, "element of the other array");
        }
        delete p;
    }
    vf_check(vf_live_allocs() == 0, "all storage is returned");
    vf_reach("done");
}

// beyond the size of a thread block
template<typename T>
void large()
{
    static const std::size_t N[] = { 127, 128, 511, 512, 513, 1024, 1025 };
    vf_cuda::backwards = vf_pick("backwards", 0, 1);
    {
        std::size_t n = N[vf_pick("n", 0, 6)];
        T v = make<T>::any("v"), w = make<T>::any("w");
        cuda_array<T> a(n, v);
        model<T> m;
        m.grow(n, true, v);
        verify(a, m, "element of a filled array");
        a.resize(n + 3, w);
        m.grow(n + 3, true, w);
        verify(a, m, "element");
        cuda_array<T> b(a), c(1, w);
        verify(b, m, "element of a copy");
        c = a;
        verify(c, m, "assigned element");
        c.reserve(2 * n);
        verify(c, m, "element");
    }
    vf_check(vf_live_allocs() == 0, "all storage is returned");
    vf_reach("done");
}

// elements that survive shrinking and growing within the capacity
template<typename T>
void shrink()
{
    cuda_array<T> a(4, T(1));
    std::vector<T> host(4);
    for (int i = 0; i < 4; ++i) {
        host[i] = make<T>::any("h");
    }
    a.load(&host[0]);
    std::size_t k = vf_pick("k", 0, 4);
    a.resize(k);
    a.resize(4);
    std::vector<T> out(4);
    a.save(&out[0]);
    for (int i = 0; i < 4; ++i) {
        same(out[i], host[i], "content is kept if an array shrinks and grows again");
    }
    vf_reach("done");
}

// growing step by step
template<typename T>
void growth(int steps)
{
    static const std::size_t N[] = { 0, 1, 2, 3, 4, 5, 6, 8, 10, 16, 20, 30 };
    vf_cuda::backwards = false;
    {
        std::size_t n = N[vf_pick("size", 0, 11)];
        T v = make<T>::any("v");
        cuda_array<T> a(n, v);
        model<T> m;
        m.grow(n, true, v);
        for (int s = 0; s < steps; ++s) {
            std::size_t k = N[vf_pick("n", 0, 11)];
            T w = make<T>::any("w");
            if (vf_pick("reserve", 0, 1)) {
                a.reserve(k);
                vf_check(a.capacity() >= k, "the requested capacity");
            } else {
                a.resize(k, w);
                m.grow(k, true, w);
            }
        }
        verify(a, m, "element");
        // everything up to the capacity is there
        std::size_t c = a.capacity();
        T w = make<T>::any("w");
        a.resize(c, w);
        m.grow(c, true, w);
        verify(a, m, "element");
        vf_check(a.capacity() == c, "no growth within the capacity");
    }
    vf_check(vf_live_allocs() == 0, "all storage is returned");
    vf_reach("done");
}

// element-wise allocation
VF_ENTRY(allocator)
{
    std::size_t n = vf_pick("n", 0, 5);
    cuda_allocator<double> alloc;
    double *p = alloc.allocate(n), *q = alloc.allocate(2);
    std::vector<double> in(n + 1), out(n + 1);
    for (std::size_t i = 0; i < n; ++i) {
        in[i] = vf_any<double>("d");
    }
    double two[2] = { 1, 2 };
    cudaMemcpy(p, &in[0], n * sizeof(double), cudaMemcpyHostToDevice);
    cudaMemcpy(q, two, sizeof(two), cudaMemcpyHostToDevice);
    cudaMemcpy(&out[0], p, n * sizeof(double), cudaMemcpyDeviceToHost);
    for (std::size_t i = 0; i < n; ++i) {
        same(out[i], in[i], "allocated memory holds the elements");
    }
    alloc.deallocate(q, 2);
    alloc.deallocate(p, n);
    std::vector<double>().swap(in);
    std::vector<double>().swap(out);
    vf_check(vf_live_allocs() == 0, "all storage is returned");
    vf_reach("done");
}
VF_ENTRY(sized) { history<int>(VF_TIER ? 2 : 1, 3, 0); }
VF_ENTRY(filled) { history<double>(VF_TIER ? 3 : 2, 2, 1); }
VF_ENTRY(from_pointer) { history<short>(VF_TIER ? 3 : 2, 2, 2); }
VF_ENTRY(from_vector) { history<long>(VF_TIER ? 3 : 2, 2, 3); }
VF_ENTRY(large_char) { large<char>(); }
VF_ENTRY(large_double) { large<double>(); }
VF_ENTRY(shrink_int) { shrink<int>(); }
VF_ENTRY(shrink_double) { shrink<double>(); }
VF_ENTRY(growth_int) { growth<int>(2); }
VF_ENTRY(growth_wide) { growth<Wide>(VF_TIER ? 2 : 1); }
VF_ENTRY(large_wide) { large<Wide>(); }
VF_ENTRY(shrink_wide) { shrink<Wide>(); }
VF_ENTRY(wide_elements) { history<Wide>(VF_TIER ? 2 : 1, 3, 2); }
