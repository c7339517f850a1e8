// what a CUDA compiler provides, for kernels compiled as C++
#include <math.h>
#include <cfloat>
#include <cstdint>
#include <cstdlib>
#include <climits>
using std::isnan; using std::isinf; using std::isfinite;
struct uint3e { unsigned x, y, z; };
typedef uint3e dim3;
extern "C" {
extern struct emu_indices { uint3e thread, block, dim, grid; } emu_idx_block;
void emu_sync();
float emu_atomic_add_f(float *, float);
int emu_atomic_add_i(int *, int);
float emu_atomic_exch_f(float *, float);
int emu_atomic_cas_i(int *, int, int);
int emu_atomic_max_i(int *, int);
extern char __ehdr_start __attribute__((visibility("hidden")));
extern char _end __attribute__((visibility("hidden")));
}
#define threadIdx (((const emu_indices *)&emu_idx_block)->thread)
#define blockIdx (((const emu_indices *)&emu_idx_block)->block)
#define blockDim (((const emu_indices *)&emu_idx_block)->dim)
#define gridDim (((const emu_indices *)&emu_idx_block)->grid)
#define warpSize 32
#define __global__
#define __device__ __attribute__((visibility("hidden")))
#define __host__
#define __forceinline__ inline
#define __restrict__ __restrict
#define __constant__ static const
#define __shared__ static
#define __syncthreads() emu_sync()
#define __launch_bounds__(...)
#define __noinline__ __attribute__((noinline))
#define __ldg(p) (*(p))
#define __mul24(a, b) ((a) * (b))
#define __fmul_rn(a, b) ((a) * (b))
#define __fadd_rn(a, b) ((a) + (b))
#define __expf expf
#define __powf powf
#define __saturatef(a) fminf(1.f, fmaxf(0.f, (a)))
#define __logf logf
static inline float __fdividef(float a, float b) { return a / b; }
static inline float rsqrtf(float a) { return 1 / sqrtf(a); }
static inline int min(int a, int b) { return a < b ? a : b; }
static inline int max(int a, int b) { return a > b ? a : b; }
static inline unsigned min(unsigned a, unsigned b) { return a < b ? a : b; }
static inline unsigned max(unsigned a, unsigned b) { return a > b ? a : b; }
static inline float min(float a, float b) { return fminf(a, b); }
static inline float max(float a, float b) { return fmaxf(a, b); }
static inline double min(double a, double b) { return fmin(a, b); }
static inline double max(double a, double b) { return fmax(a, b); }
static inline float atomicAdd(float *p, float v) { return emu_atomic_add_f(p, v); }
static inline int atomicAdd(int *p, int v) { return emu_atomic_add_i(p, v); }
static inline int atomicSub(int *p, int v) { return emu_atomic_add_i(p, -v); }
static inline float atomicExch(float *p, float v) { return emu_atomic_exch_f(p, v); }
static inline int atomicCAS(int *p, int c, int v) { return emu_atomic_cas_i(p, c, v); }
static inline int atomicMax(int *p, int v) { return emu_atomic_max_i(p, v); }
static inline int __float_as_int(float f) { int i; __builtin_memcpy(&i, &f, 4); return i; }
static inline float __int_as_float(int i) { float f; __builtin_memcpy(&f, &i, 4); return f; }

// how a kernel is called: its parameters' kinds, and a call through an array of pointers to them
template<class T> struct emu_kind { static const char k = '?'; };
template<class T> struct emu_kind<T *> { static const char k = 'P'; };
template<class T> struct emu_kind<T *const> { static const char k = 'P'; };
template<class T> struct emu_kind<const T> : emu_kind<T> {};
#define EMU_KIND(T, c) template<> struct emu_kind<T> { static const char k = c; };
EMU_KIND(float, 'f') EMU_KIND(double, 'd') EMU_KIND(int, 'i') EMU_KIND(unsigned, 'I')
EMU_KIND(long, 'l') EMU_KIND(unsigned long, 'L') EMU_KIND(short, 'h') EMU_KIND(char, 'b') EMU_KIND(bool, 'B')
template<int... I> struct emu_seq {};
template<int N, int... I> struct emu_mk : emu_mk<N - 1, N - 1, I...> {};
template<int... I> struct emu_mk<0, I...> { typedef emu_seq<I...> type; };
template<class T> struct emu_bare { typedef T type; };
template<class T> struct emu_bare<const T> { typedef T type; };
template<class... A, int... I> __attribute__((noinline, no_sanitize_thread))
void emu_call2(void (*f)(A...), void **a, emu_seq<I...>) { f(*(typename emu_bare<A>::type *)a[I]...); }
template<class... A> __attribute__((noinline, no_sanitize_thread))
void emu_call(void (*f)(A...), void **a) { emu_call2(f, a, typename emu_mk<sizeof...(A)>::type()); }
template<class... A> __attribute__((noinline, no_sanitize_thread))
const char *emu_signature(void (*)(A...)) { static const char s[] = {emu_kind<A>::k..., 0}; return s; }
#define EMU_EXPORT(NAME) extern "C" __attribute__((visibility("default"), no_sanitize_thread)) void emu_entry_##NAME(void **a) { emu_call(NAME, a); } \
    extern "C" __attribute__((visibility("default"), no_sanitize_thread)) const char *emu_sig_##NAME() { return emu_signature(NAME); } \
    extern "C" __attribute__((visibility("default"), no_sanitize_thread)) void emu_image_##NAME(uintptr_t *r) { r[0] = (uintptr_t)&__ehdr_start; r[1] = (uintptr_t)&_end; }
