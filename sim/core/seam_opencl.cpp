#include "seams.h"
#include "seam_opencl.h"
#include "../opencl/prelude.h"
#undef __kernel
#undef __global
#undef __local
#undef __private
#undef __constant
#undef __read_only
#undef __write_only
#undef __read_write
#define CL_TARGET_OPENCL_VERSION 120
#define CL_USE_DEPRECATED_OPENCL_1_1_APIS
#define CL_USE_DEPRECATED_OPENCL_1_2_APIS
#include <CL/cl.h>
#include "../opencl/clBLAS.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <deque>
#include <map>
#include <memory>
#include <algorithm>
namespace sim {
thread_local size_t g_cl_gid[3];
bool take_fault(int kind, uint64_t at, long long* param);
static ClConfig g_cfg;
static Rng g_rng(1);
struct Mem { char* p; size_t n; ~Mem(); };
static std::vector<char>* g_left = nullptr;    // what the last released buffer held
Mem::~Mem() { if (!g_left) g_left = new std::vector<char>(); g_left->assign(p, p + std::min(n, (size_t)1 << 16)); free(p); }
typedef std::shared_ptr<Mem> MemP;
struct Kern { const ClKernelInfo* i; std::vector<std::vector<char>> args; std::vector<bool> set; };
struct Cmd { const ClKernelInfo* k = nullptr; std::vector<MemP> mem; std::vector<void*> ptr; std::vector<std::vector<char>> val; size_t g[3] = {1, 1, 1}; std::function<void()> f; };
struct Dev {   // handles are never used twice
  uintptr_t next = 0x51000000; std::map<uintptr_t, MemP> mem; std::map<uintptr_t, std::string> prog; std::map<uintptr_t, bool> built; std::map<uintptr_t, Kern> kern; uintptr_t context = 0, queue = 0;
  std::deque<Cmd> q; uint64_t calls = 0; bool lost = false, full = false;
};
static Dev* g_dev = nullptr;
static Dev& D() { if (!g_dev) g_dev = new Dev(); return *g_dev; }
static uintptr_t handle() { return D().next += 16; }
void cl_set(const ClConfig& c) { g_cfg = c; g_rng.reseed(c.seed ^ 0xc1de71ceull); }
static void run(Cmd& c) {
  if (!c.k) { c.f(); return; }
  std::vector<const void*> a; size_t m = 0; for (int i = 0; i < c.k->nargs; i++) if (c.k->kinds[i] == 'm') a.push_back(&c.ptr[m++]); else a.push_back(c.val[(size_t)i].data());
  const size_t n = c.g[0] * c.g[1] * c.g[2]; size_t mul = 1, add = 0;
  if (g_cfg.order == 2 && n > 1) { do mul = 1 + g_rng.below(n - 1); while (std::__gcd(mul, n) != 1); add = g_rng.below(n); }
  for (size_t i = 0; i < n; i++) {
    const size_t j = g_cfg.order == 1 ? n - 1 - i : (size_t)(((unsigned __int128)i * mul + add) % n);
    g_cl_gid[0] = j % c.g[0]; g_cl_gid[1] = j / c.g[0] % c.g[1]; g_cl_gid[2] = j / c.g[0] / c.g[1]; c.k->run(a.data());
  }
  count("device.work_items", n);
}
static void pump(size_t n) { while (n-- && !D().q.empty()) { Cmd c = std::move(D().q.front()); D().q.pop_front(); run(c); ev("cl-run", c.k ? hash_bytes(c.k->name, strlen(c.k->name)) : 0, D().q.size()); } }
static void drain() { pump(D().q.size()); }
static void enqueue(Cmd&& c) {
  D().q.push_back(std::move(c)); count("device.commands");
  if (g_cfg.lag == 0) drain(); else if (D().q.size() > 1) count("probe.command_waited");
}
// every call passes here; returns the error a fault makes it report
static cl_int call(const char* name, cl_int error, bool alloc = false) {
  Dev& d = D(); const uint64_t n = ++d.calls; if (g_sh && g_sh->life < MAX_LIVES) g_sh->life_cl[g_sh->life] = n;
  ev(name, n); if (g_cfg.lag == 2 && g_rng.chance(1, 3)) pump((size_t)g_rng.below(4));
  long long param = 0;
  if (seams_active() && take_fault(F_DEVICE, n, &param)) { evs("device-fault", name, (uint64_t)param); if (param % 3 == 1) d.lost = true; if (param % 3 == 2) d.full = true; else return error; }
  if (d.lost) return error;
  if (d.full && alloc) return CL_MEM_OBJECT_ALLOCATION_FAILURE;
  return CL_SUCCESS;
}
static MemP mem(const void* h) { auto i = D().mem.find((uintptr_t)h); return i == D().mem.end() ? MemP() : i->second; }
bool cl_peek(void* h, std::vector<float>& out) { MemP m = mem(h); if (!m) return false; drain(); out.resize(m->n / 4); memcpy(out.data(), m->p, out.size() * 4); return true; }
static cl_int text(const char* s, size_t n, void* p, size_t* ret) { size_t k = strlen(s) + 1; if (ret) *ret = k; if (p) { if (n < k) return CL_INVALID_VALUE; memcpy(p, s, k); } return CL_SUCCESS; }
} // namespace sim
using namespace sim;
#define CALL(name, error) do { cl_int e_ = call(name, error); if (e_ != CL_SUCCESS) return e_; } while (0)
extern "C" {
cl_int clGetPlatformIDs(cl_uint n, cl_platform_id* p, cl_uint* count_) {
  CALL("clGetPlatformIDs", CL_OUT_OF_HOST_MEMORY); if (n == 0 && p) return CL_INVALID_VALUE; if (!p && !count_) return CL_INVALID_VALUE;
  if (g_cfg.platforms == 0) { if (count_) *count_ = 0; return -1001; }
  if (count_) *count_ = (cl_uint)g_cfg.platforms; if (p) for (cl_uint i = 0; i < n && i < (cl_uint)g_cfg.platforms; i++) p[i] = (cl_platform_id)(uintptr_t)(0x1000 + 0x100 * i); return CL_SUCCESS;
}
cl_int clGetDeviceIDs(cl_platform_id pl, cl_device_type, cl_uint n, cl_device_id* p, cl_uint* count_) {
  CALL("clGetDeviceIDs", CL_OUT_OF_RESOURCES); const uintptr_t i = (uintptr_t)pl; if (i < 0x1000 || i >= 0x1000u + 0x100u * (unsigned)g_cfg.platforms || i % 0x100) return CL_INVALID_PLATFORM;
  if (n == 0 && p) return CL_INVALID_VALUE; if (!p && !count_) return CL_INVALID_VALUE;
  if (g_cfg.devices == 0) { if (count_) *count_ = 0; return CL_DEVICE_NOT_FOUND; }
  if (count_) *count_ = (cl_uint)g_cfg.devices; if (p) for (cl_uint k = 0; k < n && k < (cl_uint)g_cfg.devices; k++) p[k] = (cl_device_id)(i + 1 + k); return CL_SUCCESS;
}
static bool good_device(cl_device_id d) { const uintptr_t i = (uintptr_t)d; return i >= 0x1000 && (i >> 8) < 0x10u + (unsigned)g_cfg.platforms && (i & 0xff) >= 1 && (i & 0xff) <= (unsigned)g_cfg.devices; }
cl_int clGetDeviceInfo(cl_device_id d, cl_device_info what, size_t n, void* p, size_t* ret) {
  CALL("clGetDeviceInfo", CL_OUT_OF_RESOURCES); if (!good_device(d)) return CL_INVALID_DEVICE; const uintptr_t i = (uintptr_t)d;
  if (what == CL_DEVICE_NAME) { char b[64]; snprintf(b, sizeof b, "simulated device %u of platform %u", (unsigned)(i & 0xff) - 1, (unsigned)(i >> 8) - 0x10); return text(b, n, p, ret); }
  if (what == CL_DEVICE_VERSION) return text("OpenCL 1.2 simulated", n, p, ret);
  if (what == CL_DEVICE_IMAGE_SUPPORT) { if (p) { if (n < 4) return CL_INVALID_VALUE; *(cl_bool*)p = 0; } if (ret) *ret = 4; return CL_SUCCESS; }
  return CL_INVALID_VALUE;
}
cl_context clCreateContext(const cl_context_properties*, cl_uint n, const cl_device_id* d, void (*)(const char*, const void*, size_t, void*), void*, cl_int* err) {
  cl_int e = call("clCreateContext", CL_DEVICE_NOT_AVAILABLE); if (!e && (n != 1 || !good_device(*d))) e = CL_INVALID_DEVICE; if (err) *err = e; if (e) return nullptr; return (cl_context)(D().context = handle());
}
cl_command_queue clCreateCommandQueue(cl_context c, cl_device_id d, cl_command_queue_properties pr, cl_int* err) {
  cl_int e = call("clCreateCommandQueue", CL_OUT_OF_RESOURCES); if (!e && (!c || (uintptr_t)c != D().context)) e = CL_INVALID_CONTEXT; if (!e && !good_device(d)) e = CL_INVALID_DEVICE; if (!e && pr) e = CL_INVALID_QUEUE_PROPERTIES; if (err) *err = e; if (e) return nullptr; return (cl_command_queue)(D().queue = handle());
}
cl_program clCreateProgramWithSource(cl_context c, cl_uint n, const char** s, const size_t* len, cl_int* err) {
  cl_int e = call("clCreateProgramWithSource", CL_OUT_OF_HOST_MEMORY); if (!e && (!c || (uintptr_t)c != D().context)) e = CL_INVALID_CONTEXT; if (!e && (n == 0 || !s)) e = CL_INVALID_VALUE; if (err) *err = e; if (e) return nullptr;
  uintptr_t h = handle(); std::string& t = D().prog[h]; for (cl_uint i = 0; i < n; i++) t += len && len[i] ? std::string(s[i], len[i]) : std::string(s[i]); return (cl_program)h;
}
static const ClProgramInfo* known(const std::string& t) { for (int i = 0; i < cl_programs_count; i++) if (t == std::string(cl_programs_table[i].text, cl_programs_table[i].size)) return &cl_programs_table[i]; return nullptr; }
cl_int clBuildProgram(cl_program p, cl_uint, const cl_device_id*, const char*, void (*)(cl_program, void*), void*) {
  CALL("clBuildProgram", CL_BUILD_PROGRAM_FAILURE); auto i = D().prog.find((uintptr_t)p); if (i == D().prog.end()) return CL_INVALID_PROGRAM;
  if (!known(i->second)) { count("probe.kernel_build_failed"); return CL_BUILD_PROGRAM_FAILURE; } D().built[(uintptr_t)p] = true; return CL_SUCCESS;
}
cl_int clGetProgramBuildInfo(cl_program p, cl_device_id, cl_program_build_info what, size_t n, void* b, size_t* ret) {
  CALL("clGetProgramBuildInfo", CL_OUT_OF_RESOURCES); if (!D().prog.count((uintptr_t)p)) return CL_INVALID_PROGRAM; if (what != CL_PROGRAM_BUILD_LOG) return CL_INVALID_VALUE; return text("error: expected something else", n, b, ret);
}
cl_kernel clCreateKernel(cl_program p, const char* name, cl_int* err) {
  cl_int e = call("clCreateKernel", CL_OUT_OF_RESOURCES); const ClKernelInfo* k = nullptr; if (!e && !D().prog.count((uintptr_t)p)) e = CL_INVALID_PROGRAM; if (!e && !D().built[(uintptr_t)p]) e = CL_INVALID_PROGRAM_EXECUTABLE;
  if (!e) { const ClProgramInfo* f = known(D().prog[(uintptr_t)p]); for (int i = 0; i < cl_kernels_count; i++) if (!strcmp(cl_kernels_table[i].file, f->file) && !strcmp(cl_kernels_table[i].name, name)) k = &cl_kernels_table[i]; if (!k) e = CL_INVALID_KERNEL_NAME; }
  if (err) *err = e; if (e) return nullptr; uintptr_t h = handle(); Kern& n = D().kern[h]; n.i = k; n.args.resize((size_t)k->nargs); n.set.assign((size_t)k->nargs, false); return (cl_kernel)h;
}
cl_int clSetKernelArg(cl_kernel k, cl_uint i, size_t n, const void* v) {
  CALL("clSetKernelArg", CL_OUT_OF_RESOURCES); auto it = D().kern.find((uintptr_t)k); if (it == D().kern.end()) return CL_INVALID_KERNEL; Kern& r = it->second; if (i >= (cl_uint)r.i->nargs) return CL_INVALID_ARG_INDEX;
  const bool m = r.i->kinds[i] == 'm'; if (n != (m ? sizeof(cl_mem) : 4)) return CL_INVALID_ARG_SIZE; if (!v && !m) return CL_INVALID_ARG_VALUE;
  if (m && v) { void* h; memcpy(&h, v, sizeof h); if (h && !mem(h)) { count("probe.invalid_buffer"); return CL_INVALID_MEM_OBJECT; } }
  r.args[i].assign(n, 0); if (v) memcpy(r.args[i].data(), v, n); r.set[i] = true; return CL_SUCCESS;
}
cl_int clEnqueueNDRangeKernel(cl_command_queue q, cl_kernel k, cl_uint dim, const size_t* off, const size_t* g, const size_t*, cl_uint, const cl_event*, cl_event*) {
  CALL("clEnqueueNDRangeKernel", CL_OUT_OF_RESOURCES); if (!q || (uintptr_t)q != D().queue) return CL_INVALID_COMMAND_QUEUE; auto it = D().kern.find((uintptr_t)k); if (it == D().kern.end()) return CL_INVALID_KERNEL; Kern& r = it->second;
  for (bool b : r.set) if (!b) return CL_INVALID_KERNEL_ARGS; if (dim < 1 || dim > 3) return CL_INVALID_WORK_DIMENSION; if (off) return CL_INVALID_GLOBAL_OFFSET; if (!g) return CL_INVALID_GLOBAL_WORK_SIZE;
  Cmd c; c.k = r.i; for (cl_uint d = 0; d < dim; d++) { if (g[d] == 0) return CL_INVALID_GLOBAL_WORK_SIZE; c.g[d] = g[d]; } if (c.g[0] > (1u << 24) || c.g[1] > (1u << 24) || c.g[2] > (1u << 24) || c.g[0] * c.g[1] * c.g[2] > (1u << 24)) return CL_INVALID_GLOBAL_WORK_SIZE;
  c.val = r.args; for (int i = 0; i < r.i->nargs; i++) if (r.i->kinds[i] == 'm') { void* h; memcpy(&h, r.args[(size_t)i].data(), sizeof h); MemP m = h ? mem(h) : MemP(); if (h && !m) { count("probe.invalid_buffer"); return CL_INVALID_MEM_OBJECT; } c.mem.push_back(m); c.ptr.push_back(m ? m->p : nullptr); }
  enqueue(std::move(c)); return CL_SUCCESS;
}
cl_mem clCreateBuffer(cl_context c, cl_mem_flags fl, size_t n, void* host, cl_int* err) {
  cl_int e = call("clCreateBuffer", CL_MEM_OBJECT_ALLOCATION_FAILURE, true); if (!e && (!c || (uintptr_t)c != D().context)) e = CL_INVALID_CONTEXT; if (!e && (n == 0 || n > ((size_t)1 << 31))) e = CL_INVALID_BUFFER_SIZE; if (!e && (host || fl & (CL_MEM_USE_HOST_PTR | CL_MEM_COPY_HOST_PTR))) e = CL_INVALID_HOST_PTR;
  if (err) *err = e; if (e) return nullptr; MemP m(new Mem{(char*)malloc(n), n}); count("device.buffers");
  switch (g_cfg.garbage) { case 0: memset(m->p, 0, n); break; case 1: memset(m->p, 0xff, n); break; case 3: if (g_left && !g_left->empty()) { for (size_t i = 0; i < n; i++) m->p[i] = (*g_left)[i % g_left->size()]; break; }   // fall through
    default: for (size_t i = 0; i + 4 <= n; i += 4) { float f = g_rng.f(-3, 3); memcpy(m->p + i, &f, 4); } }
  uintptr_t h = handle(); D().mem[h] = m; return (cl_mem)h;
}
cl_int clReleaseMemObject(cl_mem m) { ev("clReleaseMemObject"); auto i = D().mem.find((uintptr_t)m); if (i == D().mem.end()) { count("probe.invalid_buffer"); return CL_INVALID_MEM_OBJECT; } D().mem.erase(i); return CL_SUCCESS; }
cl_int clEnqueueWriteBuffer(cl_command_queue q, cl_mem h, cl_bool block, size_t off, size_t n, const void* p, cl_uint, const cl_event*, cl_event*) {
  CALL("clEnqueueWriteBuffer", CL_OUT_OF_RESOURCES); if (!q || (uintptr_t)q != D().queue) return CL_INVALID_COMMAND_QUEUE; MemP m = mem(h); if (!m) return CL_INVALID_MEM_OBJECT; if (!p || n == 0 || off > m->n || n > m->n - off) { count("probe.bad_transfer"); return CL_INVALID_VALUE; }
  Cmd c; c.mem.push_back(m); c.f = [m, off, n, p] { memcpy(m->p + off, p, n); }; enqueue(std::move(c)); if (block) drain(); return CL_SUCCESS;
}
cl_int clEnqueueReadBuffer(cl_command_queue q, cl_mem h, cl_bool block, size_t off, size_t n, void* p, cl_uint, const cl_event*, cl_event*) {
  CALL("clEnqueueReadBuffer", CL_OUT_OF_RESOURCES); if (!q || (uintptr_t)q != D().queue) return CL_INVALID_COMMAND_QUEUE; MemP m = mem(h); if (!m) return CL_INVALID_MEM_OBJECT; if (!p || n == 0 || off > m->n || n > m->n - off) { count("probe.bad_transfer"); return CL_INVALID_VALUE; }
  Cmd c; c.mem.push_back(m); c.f = [m, off, n, p] { memcpy(p, m->p + off, n); }; enqueue(std::move(c)); if (block) drain(); return CL_SUCCESS;
}
cl_int clFlush(cl_command_queue q) { CALL("clFlush", CL_OUT_OF_RESOURCES); return q && (uintptr_t)q == D().queue ? CL_SUCCESS : CL_INVALID_COMMAND_QUEUE; }
cl_int clFinish(cl_command_queue q) { CALL("clFinish", CL_OUT_OF_RESOURCES); if (!q || (uintptr_t)q != D().queue) return CL_INVALID_COMMAND_QUEUE; drain(); return CL_SUCCESS; }
cl_int clReleaseEvent(cl_event) { return CL_SUCCESS; }
cl_int clWaitForEvents(cl_uint, const cl_event*) { CALL("clWaitForEvents", CL_OUT_OF_RESOURCES); drain(); return CL_SUCCESS; }
cl_int clblasSetup(void) { CALL("clblasSetup", CL_OUT_OF_HOST_MEMORY); return CL_SUCCESS; }
void clblasTeardown(void) {}
enum { BLAS_MEM = -1021, BLAS_LEAD = -1018 };
static bool fits(const MemP& m, size_t off, size_t rows, size_t cols, size_t ld) { return m && rows && cols && ld >= cols && (off + (rows - 1) * ld + cols) * 4 <= m->n; }
clblasStatus clblasSgemm(clblasOrder o, clblasTranspose tA, clblasTranspose tB, size_t M, size_t N, size_t K, cl_float alpha, const cl_mem hA, size_t oA, size_t lA, const cl_mem hB, size_t oB, size_t lB, cl_float beta, cl_mem hC, size_t oC, size_t lC, cl_uint nq, cl_command_queue* q, cl_uint, const cl_event*, cl_event* out) {
  CALL("clblasSgemm", CL_OUT_OF_RESOURCES); if (nq != 1 || !q || (uintptr_t)*q != D().queue) return CL_INVALID_COMMAND_QUEUE; if (o != clblasRowMajor || !M || !N || !K) return CL_INVALID_VALUE; MemP A = mem(hA), B = mem(hB), C = mem(hC); if (!A || !B || !C) { count("probe.invalid_buffer"); return CL_INVALID_MEM_OBJECT; }
  if (!fits(A, oA, tA ? K : M, tA ? M : K, lA) || !fits(B, oB, tB ? N : K, tB ? K : N, lB) || !fits(C, oC, M, N, lC)) { count("probe.bad_transfer"); return BLAS_MEM; }
  Cmd c; c.mem = {A, B, C}; const bool rev = g_cfg.order == 1;
  c.f = [=] { const float *a = (float*)A->p + oA, *b = (float*)B->p + oB; float* r = (float*)C->p + oC; for (size_t e = 0; e < M * N; e++) { const size_t x = rev ? M * N - 1 - e : e, i = x / N, j = x % N; float s = 0; for (size_t k = 0; k < K; k++) s += (tA ? a[k * lA + i] : a[i * lA + k]) * (tB ? b[j * lB + k] : b[k * lB + j]); r[lC * i + j] = beta == 0.0f ? alpha * s : beta * r[lC * i + j] + alpha * s; } };
  enqueue(std::move(c)); count("device.gemm"); if (out) *out = (cl_event)handle(); return CL_SUCCESS;
}
clblasStatus clblasSgemv(clblasOrder o, clblasTranspose tA, size_t M, size_t N, cl_float alpha, const cl_mem hA, size_t oA, size_t lA, const cl_mem hX, size_t oX, int iX, cl_float beta, cl_mem hY, size_t oY, int iY, cl_uint nq, cl_command_queue* q, cl_uint, const cl_event*, cl_event* out) {
  CALL("clblasSgemv", CL_OUT_OF_RESOURCES); if (nq != 1 || !q || (uintptr_t)*q != D().queue) return CL_INVALID_COMMAND_QUEUE; if (o != clblasRowMajor || !M || !N || iX != 1 || iY != 1) return CL_INVALID_VALUE; MemP A = mem(hA), X = mem(hX), Y = mem(hY); if (!A || !X || !Y) { count("probe.invalid_buffer"); return CL_INVALID_MEM_OBJECT; }
  if (!fits(A, oA, M, N, lA) || !fits(X, oX, 1, tA ? M : N, ~(size_t)0 >> 4) || !fits(Y, oY, 1, tA ? N : M, ~(size_t)0 >> 4)) { count("probe.bad_transfer"); return BLAS_MEM; }
  Cmd c; c.mem = {A, X, Y};
  c.f = [=] { const float *a = (float*)A->p + oA, *x = (float*)X->p + oX; float* y = (float*)Y->p + oY; const size_t R = tA ? N : M, S = tA ? M : N; for (size_t i = 0; i < R; i++) { float s = 0; for (size_t j = 0; j < S; j++) s += x[j] * (tA ? a[j * lA + i] : a[i * lA + j]); y[i] = beta == 0.0f ? alpha * s : beta * y[i] + alpha * s; } };
  enqueue(std::move(c)); count("device.gemv"); if (out) *out = (cl_event)handle(); return CL_SUCCESS;
}
} // extern C
