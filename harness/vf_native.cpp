// Native implementation of the harness API, used to replay a counterexample
// against the real code. argv: <entry> <inputs file>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <new>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sstream>
#include <string>
#include <iomanip>
#include <exception>
#include <sanitizer/allocator_interface.h>
#if __has_feature(thread_sanitizer)
#define TSAN 1
#include <thread>
#endif
#include <sanitizer/asan_interface.h>
#ifdef TSAN
#undef __asan_poison_memory_region
#undef __asan_unpoison_memory_region
#define __asan_poison_memory_region(...) ((void)0)
#define __asan_unpoison_memory_region(...) ((void)0)
#endif

struct In { char name[96]; char kind[8]; unsigned long long v; };
static In *ins; static int nin, pos;
static int symheap; static long failat = -1, nalloc; static bool counting;
struct Slot { void *p; void *raw; int kind; size_t size; };
static Slot slots[1 << 16]; static long live;
static size_t base_bytes;

static void fail(const char *k, const char *m) { printf("VF_FAIL %s: %s\n", k, m); fflush(stdout); _exit(3); }
static unsigned long long next(const char *name, const char *kind)
{
    if (pos >= nin) return 0;   // inputs the symbolic path never asked for
    In &i = ins[pos++];
    if (strcmp(i.kind, kind) || strncmp(i.name, name, strlen(name)))
        { printf("VF_DIVERGED %s/%s vs %s/%s\n", name, kind, i.name, i.kind); fflush(stdout); _exit(4); }
    return i.v;
}
#ifndef TSAN
// references to malloc etc. are redirected to __wrap_* by the linker
extern "C" {
void *__real_malloc(size_t);
void __real_free(void*);
void *__real_aligned_alloc(size_t, size_t);
}
static void *do_alloc(size_t n, int kind, size_t align = 16)
{
    if (counting && failat >= 0 && nalloc++ == failat) return 0;
    if (n > (1ull << 31)) return 0;
    void *raw, *p;
    if (symheap && counting) {
        unsigned long long m = next("heapbase", "base");
        size_t tot = n + 3 * 8192;
        raw = __real_aligned_alloc(8192, (tot + 8191) / 8192 * 8192);
        memset(raw, 0xAA, tot);
        p = (char*)raw + 16 * m;
        __asan_poison_memory_region(raw, 16 * m / 8 * 8);
        char *e = (char*)p + (n + 7) / 8 * 8;
        __asan_poison_memory_region(e, (char*)raw + tot - e);
    } else {
        raw = p = align > 16 ? __real_aligned_alloc(align, (n + align - 1) / align * align) : __real_malloc(n ? n : 1);
        if (!p) return 0;
        memset(p, 0xAA, n);
    }
    for (size_t i = 0; i < sizeof(slots) / sizeof(*slots); ++i)
        if (!slots[i].p) { slots[i].p = p; slots[i].raw = raw; slots[i].kind = kind; slots[i].size = n; break; }
    ++live;
    return p;
}
static void *do_new(size_t n, int kind, size_t align = 16)
{
    void *p = do_alloc(n, kind, align);
    if (!p) throw std::bad_alloc();
    return p;
}
static void do_free(void *p, int kind, size_t size, bool sized)
{
    if (!p) return;
    for (size_t i = 0; i < sizeof(slots) / sizeof(*slots); ++i)
        if (slots[i].p == p) {
            if (slots[i].kind != kind && counting) fail("memory", "mismatched deallocation");
            if (sized && counting && kind == 1 && slots[i].size != size) fail("memory", "sized delete with wrong size");
            void *raw = slots[i].raw;
            if (raw != p) { __asan_unpoison_memory_region(raw, slots[i].size + 3 * 8192); }
            slots[i].p = 0; --live;
            memset(p, 0xDD, slots[i].size);
            __real_free(raw);
            return;
        }
    if (kind == 0 && !counting) { __real_free(p); return; }
    if (counting) { printf("VF_FAIL memory: free of a pointer that is not allocated\n"); fflush(stdout); _exit(3); }
}
void *operator new(size_t n) { return do_new(n, 1); }
void *operator new[](size_t n) { return do_new(n, 2); }
void *operator new(size_t n, const std::nothrow_t&) noexcept { return do_alloc(n, 1); }
void *operator new[](size_t n, const std::nothrow_t&) noexcept { return do_alloc(n, 2); }
void operator delete(void *p) noexcept { do_free(p, 1, 0, false); }
void operator delete(void *p, size_t n) noexcept { do_free(p, 1, n, true); }
void operator delete[](void *p) noexcept { do_free(p, 2, 0, false); }
void operator delete[](void *p, size_t n) noexcept { do_free(p, 2, n, true); }
#if __cplusplus >= 201703L
void *operator new(size_t n, std::align_val_t a) { return do_new(n, 3, size_t(a)); }
void *operator new[](size_t n, std::align_val_t a) { return do_new(n, 4, size_t(a)); }
void operator delete(void *p, std::align_val_t) noexcept { do_free(p, 3, 0, false); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { do_free(p, 3, 0, false); }
void operator delete[](void *p, std::align_val_t) noexcept { do_free(p, 4, 0, false); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { do_free(p, 4, 0, false); }
#endif
extern "C" {
void *__wrap_malloc(size_t n) { return do_alloc(n, 0); }
void *__wrap_calloc(size_t n, size_t m)
{
    void *p = do_alloc(n * m, 0);
    if (p) memset(p, 0, n * m);
    return p;
}
void *__wrap_aligned_alloc(size_t a, size_t n) { return do_alloc(n, 0, a); }
int __wrap_posix_memalign(void **p, size_t a, size_t n)
{
    void *q = do_alloc(n, 0, a);
    if (!q) return 12;
    *p = q;
    return 0;
}
void __wrap_free(void *p) { do_free(p, 0, 0, false); }
}
#endif
extern "C" {
uint8_t vf_u8(const char *n) { return next(n, "u8"); }
uint16_t vf_u16(const char *n) { return next(n, "u16"); }
uint32_t vf_u32(const char *n) { return next(n, "u32"); }
uint64_t vf_u64(const char *n) { return next(n, "u64"); }
float vf_f32(const char *n) { uint32_t v = next(n, "f32"); float f; memcpy(&f, &v, 4); return f; }
double vf_f64(const char *n) { uint64_t v = next(n, "f64"); double f; memcpy(&f, &v, 8); return f; }
void vf_assume(bool c) { if (!c) { printf("VF_ASSUME\n"); fflush(stdout); _exit(5); } }
void vf_check(bool c, const char *m) { if (!c) fail("check", m); }
void vf_check_eq_f32(float a, float b, const char *m)
{
    if (a != a && b != b) return;
    if (memcmp(&a, &b, 4)) { printf("got %.9g expected %.9g\n", a, b); fail("check", m); }
}
void vf_check_eq_f64(double a, double b, const char *m)
{
    if (a != a && b != b) return;
    if (memcmp(&a, &b, 8)) { printf("got %.17g expected %.17g\n", a, b); fail("check", m); }
}
void vf_check_close_f64(double a, double b, double r, const char *m)
{
    if (!(std::fabs(a - b) <= r * std::fabs(b))) { printf("got %.17g expected %.17g\n", a, b); fail("check", m); }
}
void vf_check_close_i32(int a, double b, int x, double r, const char *m)
{
    if (a != x && !(std::fabs(a - b) <= r * std::fabs(b) + 1)) { printf("got %d expected %.17g or %d\n", a, b, x); fail("check", m); }
}
void vf_check_close_f32(float a, float b, double r, const char *m) { vf_check_close_f64(a, b, r, m); }
uint64_t vf_select(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
void vf_reach(const char*) {}
uint32_t vf_live_allocs()
{
    if (live) return live;
    return __sanitizer_get_current_allocated_bytes() > base_bytes ? 1 : 0;
}
void vf_sym_heap(int on) { symheap = on; }
void vf_alloc_fail_at(uint32_t k) { failat = k; nalloc = 0; }
uint64_t vf_concrete_u64(uint64_t v) { return v; }
void vf_thread(int) {}
char *vf_huge(uint64_t n)
{
    return (char*)mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
// device memory: accessible in kernels and by copies only
struct Dev { char *p; size_t n; };
static Dev devs[1 << 12];
static int ndevs, devmode;
static void dev_show(int m)
{
    devmode = m;
    for (int i = 0; i < ndevs; ++i)
        if (devs[i].p) {
            if (m) __asan_unpoison_memory_region(devs[i].p, devs[i].n);
            else __asan_poison_memory_region(devs[i].p, devs[i].n);
        }
    // host memory while kernels run
    for (size_t i = 0; i < sizeof(slots) / sizeof(*slots); ++i)
        if (slots[i].p && slots[i].kind < 5) {
            if (m == 1) __asan_poison_memory_region(slots[i].p, slots[i].size);
            else __asan_unpoison_memory_region(slots[i].p, slots[i].size);
        }
}
void *vf_dev_alloc(size_t n)
{
    if (!n) return 0;
    if (counting && failat >= 0 && nalloc++ == failat) return 0;
    bool c = counting;
    counting = false;
    char *raw = (char*)mmap(0, n + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    counting = c;
    memset(raw, 0xAA, n + 8192);
    __asan_poison_memory_region(raw, n + 8192);
    devs[ndevs].p = raw + 4096;
    devs[ndevs++].n = n;
    ++live;
    return raw + 4096;
}
void vf_dev_free(void *p)
{
    if (!p) return;
    for (int i = 0; i < ndevs; ++i)
        if (devs[i].p == p) { devs[i].p = 0; --live; __asan_poison_memory_region(p, devs[i].n); return; }
    fail("memory", "free of a pointer that is not allocated");
}
void vf_dev_mode(int m) { dev_show(m); }
void vf_dev_copy(void *d, const void *s, size_t n, int kind)
{
    if (!n) return;
    bool dd = false, sd = false;
    for (int i = 0; i < ndevs; ++i)
        if (devs[i].p) {
            dd |= d >= devs[i].p && d < devs[i].p + devs[i].n;
            sd |= s >= devs[i].p && s < devs[i].p + devs[i].n;
        }
    if (kind != 4 && (dd != (kind == 1 || kind == 3) || sd != (kind == 2 || kind == 3))) fail("memory", "copy of the wrong kind");
    dev_show(2);
    memmove(d, s, n);
    dev_show(0);
}
static std::ostringstream *os;
std::ostream *vf_os()
{
    bool c = counting;
    counting = false;
    os = new std::ostringstream();
    os->precision(17);
    counting = c;
    return os;
}
static void os_lanes(double (*lane)(const void*, unsigned), const void *p, unsigned n, const char *m)
{
    counting = false;
    std::string s = os->str();
    printf("printed %s\n", s.c_str());
    const char *c = s.c_str();
    for (unsigned i = 0; i < n; ++i) {
        const char *sep = i ? ", " : "[";
        if (strncmp(c, sep, strlen(sep))) fail("check", m);
        c += strlen(sep);
        if (*c == ' ') fail("check", m);
        char *e;
        double d = strtod(c, &e), x = lane(p, i);
        if (e == c || !(d == x || (d != d && x != x)) || std::signbit(d) != std::signbit(x)) fail("check", m);
        c = e;
    }
    if (strcmp(c, "]")) fail("check", m);
    counting = true;
}
void vf_os_lanes_f32(const float *p, unsigned n, const char *m) { os_lanes([](const void *q, unsigned i) { return (double)((const float*)q)[i]; }, p, n, m); }
void vf_os_lanes_f64(const double *p, unsigned n, const char *m) { os_lanes([](const void *q, unsigned i) { return ((const double*)q)[i]; }, p, n, m); }
void vf_os_lanes_i32(const int *p, unsigned n, const char *m) { os_lanes([](const void *q, unsigned i) { return (double)((const int*)q)[i]; }, p, n, m); }
void vf_shared(const void*) {}
void vf_run2(void (*f)(void*), void *a, void (*g)(void*), void *b)
{
#ifdef TSAN
    std::thread x(f, a), y(g, b);
    x.join();
    y.join();
#endif
}
}

static void on_terminate() { fail("exception", "program terminates"); }

int main(int argc, char **argv)
{
    setvbuf(stdout, 0, _IONBF, 0);
    FILE *f = fopen(argv[2], "r");
    ins = (In*)malloc(sizeof(In) * 100000);
    while (nin < 100000 && fscanf(f, "%95s %7s %llu", ins[nin].name, ins[nin].kind, &ins[nin].v) == 3) ++nin;
    fclose(f);
    void (*h)() = (void(*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!h) { printf("VF_NOENTRY\n"); return 6; }
    try { throw 1; } catch (int) {}     // warm up the unwinder's own allocations
    std::set_terminate(on_terminate);
    base_bytes = __sanitizer_get_current_allocated_bytes();
    live = 0;
    counting = true;
    h();
    counting = false;
    printf("VF_OK\n");
    fflush(stdout);
    _exit(0);
}
