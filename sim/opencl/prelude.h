// OpenCL C kernels as C++: what the kernels of the repository use of the language.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" double exp(double) noexcept;
namespace sim { extern thread_local size_t g_cl_gid[3]; }
namespace cl_kernels {
typedef unsigned int uint;
struct float4 { float v[4]; };
inline size_t get_global_id(uint d) { return d < 3 ? sim::g_cl_gid[d] : 0; }
inline float4 vload4(size_t i, const float* p) { p += 4 * i; return float4{{p[0], p[1], p[2], p[3]}}; }
inline float dot(const float4& a, const float4& b) { float s = 0; for (int i = 0; i < 4; i++) s += a.v[i] * b.v[i]; return s; }
inline float dot(const float4& a, double b) { float s = 0; for (int i = 0; i < 4; i++) s += a.v[i] * (float)b; return s; }
template <class T> inline T min(T a, T b) { return b < a ? b : a; }
template <class T> inline T max(T a, T b) { return a < b ? b : a; }
// the device calculates functions with excess precision, in the same way as the host
inline double exp(float x) { return ::exp((double)x); }
inline double tanh(float x) { return 1.0 - 2.0 / (::exp(2.0 * (double)x) + 1.0); }
inline float fabs(float x) { return x < 0 ? -x : x; }
}
#ifndef FLT_MAX
#define FLT_MAX __FLT_MAX__
#define FLT_MIN __FLT_MIN__
#define FLT_EPSILON __FLT_EPSILON__
#define INFINITY __builtin_inff()
#endif
#define __kernel static inline
#define __global
#define __local
#define __private
#define __constant const
#define __read_only
#define __write_only
#define __read_write
namespace sim {
struct ClKernelInfo { const char* file; const char* name; int nargs; const char* kinds; void (*run)(const void* const* args); };   // kinds: m memory, f u i scalars of 4 bytes
struct ClProgramInfo { const char* file; const char* text; size_t size; };
extern const ClKernelInfo cl_kernels_table[]; extern const int cl_kernels_count;
extern const ClProgramInfo cl_programs_table[]; extern const int cl_programs_count;
}
