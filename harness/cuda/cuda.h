// Stand-in for the CUDA runtime: kernel launches (which engine/cuda.py has rewritten into calls of vf_cuda::launch)
// run all threads of all blocks one after another, in either order; device and host memory are kept apart.
#ifndef VF_CUDA_H
#define VF_CUDA_H
#include <cstddef>
#include <cstring>

#define __global__
#define __host__
#define __device__
#define __constant__
#define __shared__ static
#define __forceinline__ inline
#define __noinline__
#define __launch_bounds__(...)

struct uint3
{
    unsigned x, y, z;
};

struct dim3
{
    unsigned x, y, z;
    dim3(unsigned x = 1, unsigned y = 1, unsigned z = 1) : x(x), y(y), z(z) {}
    dim3(uint3 v) : x(v.x), y(v.y), z(v.z) {}
    operator uint3() const { uint3 r = { x, y, z }; return r; }
};

extern "C" {
void *vf_dev_alloc(std::size_t);
void vf_dev_free(void*);
void vf_dev_copy(void*, const void*, std::size_t, int);
void vf_dev_mode(int);
}

enum cudaMemcpyKind { cudaMemcpyHostToHost, cudaMemcpyHostToDevice, cudaMemcpyDeviceToHost, cudaMemcpyDeviceToDevice, cudaMemcpyDefault };
enum cudaError { cudaSuccess = 0, cudaErrorInvalidValue = 1, cudaErrorMemoryAllocation = 2, cudaErrorInvalidConfiguration = 9, cudaErrorUnknown = 999 };
typedef cudaError cudaError_t;
typedef void *cudaStream_t;

template<typename T>
inline cudaError_t cudaMalloc(T **p, std::size_t n)
{
    *p = static_cast<T*>(vf_dev_alloc(n));
    return cudaSuccess;
}
inline cudaError_t cudaFree(void *p) { vf_dev_free(p); return cudaSuccess; }
inline cudaError_t cudaMemcpy(void *d, const void *s, std::size_t n, cudaMemcpyKind k)
{
    vf_dev_copy(d, s, n, k);
    return cudaSuccess;
}
inline cudaError_t cudaMemcpyAsync(void *d, const void *s, std::size_t n, cudaMemcpyKind k, cudaStream_t = 0)
{
    return cudaMemcpy(d, s, n, k);
}
template<typename T>
inline cudaError_t cudaMemset(T *p, int v, std::size_t n)
{
    vf_dev_mode(1);
    for (std::size_t i = 0; i < n; ++i) {
        reinterpret_cast<char*>(p)[i] = char(v);
    }
    vf_dev_mode(0);
    return cudaSuccess;
}
template<typename T>
inline cudaError_t cudaMemsetAsync(T *p, int v, std::size_t n, cudaStream_t = 0) { return cudaMemset(p, v, n); }
inline cudaError_t cudaDeviceSynchronize() { return cudaSuccess; }
inline cudaError_t cudaThreadSynchronize() { return cudaSuccess; }
inline cudaError_t cudaStreamSynchronize(cudaStream_t) { return cudaSuccess; }
inline cudaError_t cudaGetLastError() { return cudaSuccess; }
inline cudaError_t cudaPeekAtLastError() { return cudaSuccess; }
inline const char *cudaGetErrorString(cudaError_t) { return "error"; }
inline const char *cudaGetErrorName(cudaError_t) { return "error"; }
inline cudaError_t cudaSetDevice(int) { return cudaSuccess; }
inline cudaError_t cudaGetDevice(int *d) { *d = 0; return cudaSuccess; }
template<typename T>
inline T __ldg(const T *p) { return *p; }

namespace vf_cuda {
static dim3 grid, block, block_index, thread_index;
static bool backwards;

struct launcher
{
    dim3 g, b;
    launcher(dim3 g, dim3 b, std::size_t = 0, cudaStream_t = 0) : g(g), b(b) {}
    template<typename K, typename... ARGS>
    void run(K kernel, ARGS... args) const
    {
        grid = g;
        block = b;
        // launches beyond the limits of all devices fail
        if ((unsigned long)b.x * b.y * b.z > 1024 || b.z > 64 || g.y > 65535 || g.z > 65535 || g.x > 2147483647u) {
            return;
        }
        const unsigned long blocks = (unsigned long)g.x * g.y * g.z, threads = (unsigned long)b.x * b.y * b.z, n = blocks * threads;
        vf_dev_mode(1);
        for (unsigned long k = 0; k < n; ++k) {
            unsigned long i = backwards ? n - 1 - k : k, t = i % threads, c = i / threads;
            thread_index = dim3(t % b.x, t / b.x % b.y, t / b.x / b.y);
            block_index = dim3(c % g.x, c / g.x % g.y, c / g.x / g.y);
            kernel(args...);
        }
        vf_dev_mode(0);
    }
};
inline launcher launch(dim3 g, dim3 b, std::size_t s = 0, cudaStream_t t = 0) { return launcher(g, b, s, t); }
}
#define gridDim (::vf_cuda::grid)
#define blockDim (::vf_cuda::block)
#define blockIdx (::vf_cuda::block_index)
#define threadIdx (::vf_cuda::thread_index)
#endif
