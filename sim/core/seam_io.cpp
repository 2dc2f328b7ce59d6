// Seams: file system (libc calls of libstdc++, libpng, libjpeg and cn24 itself), clocks, heap.
#include "seams.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <malloc.h>
#include <chrono>
#include <new>
#include <algorithm>

namespace sim {
const char* fault_name[F_KINDS] = {"none", "fault.eio_read", "fault.short_read", "fault.eintr_read", "fault.eio_write", "fault.short_write", "fault.eintr_write", "fault.enospc",
  "fault.open_fail", "fault.close_fail", "fault.mmap_fail", "fault.crash", "fault.crash_torn", "fault.alloc_fail", "fault.clock_jump", "fault.seek_fail", "fault.device"};

static bool g_active = false;
static int g_life = 0;
static size_t g_alloc_out = ~(size_t)0;   // allocations from this size on fail
static std::vector<Fault> g_faults;       // all faults of the plan
static unsigned g_fired_total = 0;
static bool g_fired_kind[F_KINDS];
static uint64_t g_io = 0, g_alloc = 0, g_clk = 0;
static bool g_disk_full = false; static long long g_disk_left = 0;
static int g_chunk = 0; static Rng g_chunk_rng(1);
static bool g_in = false;                 // re-entrancy guard
static unsigned char g_simfd[1024];

struct Quiet { bool o; Quiet() : o(g_in) { g_in = true; } ~Quiet() { g_in = o; } };

void faults_from_plan(const Plan& p) {
  Quiet q; g_faults.clear();
  for (auto& s : p.steps) if (s.op == "fault") {
    int k = (int)s.arg(1); if (k <= F_NONE || k >= F_KINDS) continue;
    g_faults.push_back(Fault{(int)s.arg(0), k, s.arg(2), s.arg(3), false});
  }
}
void begin_life(int life) {
  g_life = life; g_io = g_alloc = g_clk = 0; g_disk_full = false; g_alloc_out = ~(size_t)0; g_fired_total = 0; memset(g_fired_kind, 0, sizeof g_fired_kind);
  for (auto& f : g_faults) f.fired = f.life != life;
  memset(g_simfd, 0, sizeof g_simfd);
  g_active = true;
}
void end_life() {
  if (!g_active) return;
  g_active = false;
}
bool seams_active() { return g_active; }
void io_chunk(uint64_t seed, int m) { g_chunk = m; g_chunk_rng.reseed(seed); }
bool fault_fired(int k) { return g_fired_kind[k]; }
unsigned faults_fired() { return g_fired_total; }

static void fired(Fault& f, uint64_t at) {
  f.fired = true; g_fired_total++; g_fired_kind[f.kind] = true;
  count(fault_name[f.kind]); ev(fault_name[f.kind], at, (uint64_t)f.param); sched_ev(mix((uint64_t)f.kind, mix(at, (uint64_t)f.param)));
}
// Which fault (if any) hits this operation? mask = kinds applicable.
static Fault* take(uint64_t mask, uint64_t at) {
  for (auto& f : g_faults) if (!f.fired && (mask >> f.kind & 1) && (long long)at >= f.at) { fired(f, at); return &f; }
  return nullptr;
}
bool take_fault(int kind, uint64_t at, long long* param) { Fault* f = take(1ull << kind, at); if (f && param) *param = f->param; return f != nullptr; }
static const char* g_exe = ""; void exe_path(const char* p) { g_exe = p; }
[[noreturn]] static void crash_now() { syscall(SYS_exit_group, EXIT_CRASHFAULT); __builtin_unreachable(); }
enum { M_CRASH = 1u << F_CRASH, M_TORN = 1u << F_CRASH_TORN, M_OPEN = 1u << F_OPEN_FAIL, M_CLOSE = 1u << F_CLOSE_FAIL, M_MMAP = 1u << F_MMAP_FAIL, M_SEEK = 1u << F_SEEK_FAIL,
  M_R = 1u << F_EIO_READ | 1u << F_SHORT_READ | 1u << F_EINTR_READ, M_W = 1u << F_EIO_WRITE | 1u << F_SHORT_WRITE | 1u << F_EINTR_WRITE | 1u << F_ENOSPC };
static uint64_t op(const char* kind, uint64_t a, uint64_t b) {
  uint64_t n = ++g_io;
  if (g_sh) { if (g_life < MAX_LIVES) g_sh->life_io[g_life] = n; }
  ev(kind, a, b, n);
  if (n > 3000000) syscall(SYS_exit_group, EXIT_HANG);
  if (take(M_CRASH, n)) crash_now();
  return n;
}
static bool sim_path(const char* p) {
  if (!p) return false;
  if (p[0] != '/') return strncmp(p, ".sim", 4) != 0 && strncmp(p, ".run", 4) != 0;
  return false;
}
static bool on() { return g_active && !g_in; }
static bool simfd(int fd) { return fd >= 0 && fd < 1024 && g_simfd[fd]; }
static size_t chunked(size_t n) { if (g_chunk > 0 && n > 1) { size_t m = 1 + (size_t)g_chunk_rng.below((uint64_t)g_chunk); if (m < n) { count("io.chunked"); return m; } } return n; }

// returns true when the fault decided the outcome (result in *res)
static bool read_fault(uint64_t n, size_t want, size_t* limit, ssize_t* res) {
  *limit = want;
  if (Fault* f = take(M_R, n)) {
    if (f->kind == F_EIO_READ) { errno = EIO; *res = -1; return true; }
    if (f->kind == F_EINTR_READ) { errno = EINTR; *res = -1; return true; }
    if (want > 1) *limit = 1 + (size_t)f->param % (want - 1);
  }
  *limit = chunked(*limit);
  return false;
}
static bool write_fault(uint64_t n, size_t want, size_t* limit, ssize_t* res) {
  *limit = want;
  if (Fault* f = take(M_W, n)) {
    if (f->kind == F_EIO_WRITE) { errno = EIO; *res = -1; return true; }
    if (f->kind == F_EINTR_WRITE) { errno = EINTR; *res = -1; return true; }
    if (f->kind == F_SHORT_WRITE && want > 1) *limit = 1 + (size_t)f->param % (want - 1);
    if (f->kind == F_ENOSPC) { g_disk_full = true; g_disk_left = f->param; }
  }
  if (g_disk_full) {
    if (g_disk_left <= 0) { errno = ENOSPC; *res = -1; return true; }
    if ((size_t)g_disk_left < *limit) *limit = (size_t)g_disk_left;
    g_disk_left -= (long long)*limit;
  } else *limit = chunked(*limit);
  return false;
}
template <class T> static T real(T& cache, const char* name) { if (!cache) { Quiet q; cache = (T)dlsym(RTLD_NEXT, name); } return cache; }
static void std_op() { if (g_sh && ++g_sh->std_ops > 400000) syscall(SYS_exit_group, EXIT_HANG); }

// ------------------------------------------------------------------- clock
static int64_t g_wall = 1430000000000000000ll, g_mono = 5000000000ll, g_tick = 1000; static Rng g_clk_rng(1);
void clock_seed(uint64_t seed, int64_t start, int64_t tick) { g_clk_rng.reseed(seed); g_wall = start; g_mono = 1000000000ll + (int64_t)(seed % 100000) * 1000000ll; g_tick = tick < 1 ? 1 : tick; }
void clock_advance(int64_t ns) { g_wall += ns; g_mono += ns; if (g_sh && ns > 0) g_sh->sim_ns += (uint64_t)ns; }
void clock_jump(int64_t ns) { g_wall += ns; count("fault.clock_jump"); ev("clock-jump", (uint64_t)ns); sched_ev(mix(0xC10C, (uint64_t)ns)); }
int64_t clock_wall() { return g_wall; }
int64_t clock_mono() { return g_mono; }
static void clock_read() {
  g_clk++; if (g_sh && g_life < MAX_LIVES) g_sh->life_clock[g_life] = g_clk;
  clock_advance(1 + (int64_t)g_clk_rng.below((uint64_t)g_tick));
  for (auto& f : g_faults) if (!f.fired && f.kind == F_CLOCK_JUMP && (long long)g_clk >= f.at) { fired(f, g_clk); g_wall += f.param; }
}

// --------------------------------------------------------------- allocation
static int g_fill = 0; static Rng g_fill_rng(1); static size_t g_alloc_max = (size_t)1 << 30; static int g_scatter = 0; static Rng g_scatter_rng(1);
void alloc_fill(int mode, uint64_t seed) { g_fill = mode; g_fill_rng.reseed(seed); }
void alloc_limit(size_t m) { g_alloc_max = m; }
void alloc_scatter(uint64_t seed) { g_scatter = seed != 0; g_scatter_rng.reseed(seed ? seed : 1); }
static void fill(void* p, size_t n) {
  switch (g_fill) {
    case 1: memset(p, 0, n); break;
    case 2: memset(p, 0xff, n); break;
    case 3: { float* f = (float*)p; size_t k = n / 4; for (size_t i = 0; i < k; i++) f[i] = (float)((double)(g_fill_rng.u64() >> 40) / 16777216.0 * 8 - 4); break; }
    case 4: { unsigned char* c = (unsigned char*)p; for (size_t i = 0; i < n; i++) c[i] = (unsigned char)(g_fill_rng.u64() >> 13); break; }
  }
}
static const size_t MAX_SCATTERED = 512; static void* g_reservoir[MAX_SCATTERED + 1][8];
static Rng g_entropy_rng(1); static int g_pid = 0;
void entropy_seed(uint64_t seed, int pid) { g_entropy_rng.reseed(seed); g_pid = pid; }
static void entropy(void* p, size_t n) { count("probe.entropy_drawn"); for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)(g_entropy_rng.u64() >> 17); }
static const char* entropy_file(const char* path) {
  if (!on() || !path || (strcmp(path, "/dev/urandom") && strcmp(path, "/dev/random"))) return path;
  Quiet q; std::string b(65536, 0); entropy(&b[0], b.size()); spit(".sim.entropy", b); return ".sim.entropy";
}

static void failed_alloc(size_t n) { if (g_sh && g_life < MAX_LIVES && (!g_sh->alloc_failed[g_life] || g_sh->alloc_failed[g_life] > n)) g_sh->alloc_failed[g_life] = n ? n : 1; }
static void* sim_new(size_t n) {
  if (on()) {
    g_alloc++; if (g_sh && g_life < MAX_LIVES) g_sh->life_alloc[g_life] = g_alloc;
    if (n > g_alloc_max) { count("probe.huge_alloc_refused"); return nullptr; }
    // a single failure of at least param bytes, or (param < 0) all of at least -1 - param bytes from then on
    for (auto& f : g_faults) if (f.kind == F_ALLOC_FAIL && (long long)g_alloc >= f.at && n >= (size_t)(f.param < 0 ? -1 - f.param : f.param)) { if (!f.fired) { fired(f, g_alloc); if (f.param < 0) g_alloc_out = (size_t)(-1 - f.param); failed_alloc(n); return nullptr; } }
    if (n >= g_alloc_out) { failed_alloc(n); return nullptr; }
    if (g_scatter) {   // fresh objects come from a reservoir in random order, so that addresses follow no order
      Quiet q; if (g_scatter_rng.chance(1, 4)) { void* junk = malloc(16 + g_scatter_rng.below(512)); (void)junk; }
      if (n && n <= MAX_SCATTERED) { void*& slot = g_reservoir[n][g_scatter_rng.below(8)]; void* p = slot; slot = malloc(n); if (!p) p = malloc(n); if (p && g_fill) fill(p, n); return p; }
    }
  }
  void* p = malloc(n ? n : 1);
  if (p && g_fill && on()) fill(p, n);
  return p;
}
} // namespace sim
using namespace sim;

void* operator new(size_t n) { void* p = sim_new(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = sim_new(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

namespace std { namespace chrono { inline namespace _V2 {
  system_clock::time_point system_clock::now() noexcept { if (!on()) { timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); return time_point(duration(t.tv_sec * 1000000000ll + t.tv_nsec)); } clock_read(); return time_point(duration(g_wall)); }
  steady_clock::time_point steady_clock::now() noexcept { if (!on()) { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return time_point(duration(t.tv_sec * 1000000000ll + t.tv_nsec)); } clock_read(); return time_point(duration(g_mono)); }
}}}
#include <random>
// the entropy of the machine
std::random_device::result_type std::random_device::_M_getval() { unsigned v = 0; if (on()) { Quiet q; sim::entropy(&v, sizeof v); } else v = 4; return v; }
void std::random_device::_M_init(const std::string&) { _M_file = nullptr; }
void std::random_device::_M_fini() {}
extern "C" {
ssize_t getrandom(void* p, size_t n, unsigned f) { if (!on()) return syscall(SYS_getrandom, p, n, f); Quiet q; entropy(p, n); return (ssize_t)n; }
int getentropy(void* p, size_t n) noexcept { if (!on()) return syscall(SYS_getrandom, p, n, 0) == (long)n ? 0 : -1; Quiet q; entropy(p, n); return 0; }
pid_t getpid() noexcept { return on() && g_pid ? g_pid : (pid_t)syscall(SYS_getpid); }
int clock_gettime(clockid_t c, struct timespec* t) noexcept {
  if (!on()) return (int)syscall(SYS_clock_gettime, c, t);
  clock_read(); int64_t v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? g_wall : g_mono; t->tv_sec = v / 1000000000ll; t->tv_nsec = v % 1000000000ll; return 0;
}
int gettimeofday(struct timeval* t, void*) noexcept { timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time(time_t* o) noexcept { timespec s; clock_gettime(CLOCK_REALTIME, &s); if (o) *o = s.tv_sec; return s.tv_sec; }
clock_t clock() noexcept { timespec s; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &s); return s.tv_sec * 1000000 + s.tv_nsec / 1000; }

// ---------------------------------------------------------------- open/close
static int open_common(const char* path, int flags, int mode, int dirfd) {
  path = entropy_file(path);
  if (!on() || !sim_path(path)) return (int)syscall(SYS_openat, dirfd, path, flags, mode);
  uint64_t n = op("open", hash_bytes(path, strlen(path)), (uint64_t)flags);
  if (Fault* f = take(M_OPEN, n)) { static const int es[] = {EMFILE, EACCES, EIO, ENFILE}; errno = es[(size_t)f->param % 4]; return -1; }
  int fd = (int)syscall(SYS_openat, dirfd, path, flags, mode);
  if (fd >= 0 && fd < 1024) g_simfd[fd] = 1;
  return fd;
}
int open(const char* path, int flags, ...) { int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } return open_common(path, flags, mode, AT_FDCWD); }
int open64(const char* path, int flags, ...) { int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } return open_common(path, flags, mode, AT_FDCWD); }
int creat(const char* path, mode_t mode) { return open_common(path, O_CREAT | O_WRONLY | O_TRUNC, (int)mode, AT_FDCWD); }
int __open_2(const char* path, int flags) { return open_common(path, flags, 0, AT_FDCWD); }
int __open64_2(const char* path, int flags) { return open_common(path, flags, 0, AT_FDCWD); }
int openat(int d, const char* path, int flags, ...) { int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } return open_common(path, flags, mode, d); }
int close(int fd) {
  if (!on() || !simfd(fd)) return (int)syscall(SYS_close, fd);
  uint64_t n = op("close", 0, 0);
  g_simfd[fd] = 0;
  int r = (int)syscall(SYS_close, fd);
  if (take(M_CLOSE, n)) { errno = EIO; return -1; }
  return r;
}
static FILE* fopen_common(FILE* (*rf)(const char*, const char*), const char* path, const char* mode) {
  path = entropy_file(path);
  if (!on() || !sim_path(path)) return rf(path, mode);
  uint64_t n = op("fopen", hash_bytes(path, strlen(path)), hash_bytes(mode, strlen(mode)));
  if (Fault* f = take(M_OPEN, n)) { static const int es[] = {EMFILE, EACCES, EIO, ENFILE}; errno = es[(size_t)f->param % 4]; return nullptr; }
  FILE* fp; { Quiet q; fp = rf(path, mode); }
  if (fp) { int fd = fileno(fp); if (fd >= 0 && fd < 1024) g_simfd[fd] = 1; }
  return fp;
}
typedef FILE* (*fopen_t)(const char*, const char*);
FILE* fopen(const char* p, const char* m) { static fopen_t r; return fopen_common(real(r, "fopen"), p, m); }
FILE* fopen64(const char* p, const char* m) { static fopen_t r; return fopen_common(real(r, "fopen64"), p, m); }
int fclose(FILE* fp) {
  typedef int (*T)(FILE*); static T r; real(r, "fclose");
  int fd = fp ? fileno(fp) : -1;
  if (!on() || !simfd(fd)) return r(fp);
  uint64_t n = op("fclose", 0, 0);
  g_simfd[fd] = 0;
  int x; { Quiet q; x = r(fp); }
  if (take(M_CLOSE, n)) { errno = EIO; return EOF; }
  return x;
}
// ---------------------------------------------------------------- read/write
ssize_t read(int fd, void* b, size_t want) {
  if (!on() || !simfd(fd)) { if (on() && fd == 0) std_op(); return syscall(SYS_read, fd, b, want); }
  uint64_t n = op("read", want, 0); size_t lim; ssize_t res;
  if (read_fault(n, want, &lim, &res)) return res;
  return syscall(SYS_read, fd, b, lim);
}
ssize_t __read_chk(int fd, void* b, size_t want, size_t) { return read(fd, b, want); }
ssize_t pread(int fd, void* b, size_t want, off_t o) {
  if (!on() || !simfd(fd)) return syscall(SYS_pread64, fd, b, want, o);
  uint64_t n = op("pread", want, (uint64_t)o); size_t lim; ssize_t res;
  if (read_fault(n, want, &lim, &res)) return res;
  return syscall(SYS_pread64, fd, b, lim, o);
}
static void torn(uint64_t n, int fd, const void* b, size_t want) {
  if (Fault* f = take(M_TORN, n)) { size_t k = want ? (size_t)f->param % (want + 1) : 0; if (k) syscall(SYS_write, fd, b, k); crash_now(); }
}
ssize_t write(int fd, const void* b, size_t want) {
  if (!on() || !simfd(fd)) { if (on() && (fd == 1 || fd == 2)) std_op(); return syscall(SYS_write, fd, b, want); }
  uint64_t n = op("write", want, hash_bytes(b, want)); size_t lim; ssize_t res;
  torn(n, fd, b, want);
  if (write_fault(n, want, &lim, &res)) return res;
  return syscall(SYS_write, fd, b, lim);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!on() || !simfd(fd)) return syscall(SYS_writev, fd, v, c);
  Quiet* q = new (alloca(sizeof(Quiet))) Quiet();
  std::string all; for (int i = 0; i < c; i++) all.append((const char*)v[i].iov_base, v[i].iov_len);
  q->~Quiet();
  uint64_t n = op("writev", all.size(), hash_bytes(all.data(), all.size())); size_t lim; ssize_t res;
  torn(n, fd, all.data(), all.size());
  if (write_fault(n, all.size(), &lim, &res)) return res;
  return syscall(SYS_write, fd, all.data(), lim);
}
ssize_t pwrite(int fd, const void* b, size_t want, off_t o) {
  if (!on() || !simfd(fd)) return syscall(SYS_pwrite64, fd, b, want, o);
  uint64_t n = op("pwrite", want, hash_bytes(b, want)); size_t lim; ssize_t res;
  if (write_fault(n, want, &lim, &res)) return res;
  return syscall(SYS_pwrite64, fd, b, lim, o);
}
off_t lseek(int fd, off_t o, int w) noexcept {
  if (!on() || !simfd(fd)) return syscall(SYS_lseek, fd, o, w);
  uint64_t n = op("lseek", (uint64_t)o, (uint64_t)w);
  if (take(M_SEEK, n)) { errno = EIO; return -1; }
  return syscall(SYS_lseek, fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) noexcept { return lseek(fd, o, w); }
int fsync(int fd) { if (on() && simfd(fd)) { op("fsync", 0, 0); count("probe.fsync"); } return 0; }
int fdatasync(int fd) { return fsync(fd); }
size_t fread(void* b, size_t sz, size_t nm, FILE* fp) {
  typedef size_t (*T)(void*, size_t, size_t, FILE*); static T r; real(r, "fread");
  int fd = fileno(fp);
  if (!on() || !simfd(fd)) return r(b, sz, nm, fp);
  uint64_t n = op("fread", sz, nm); size_t want = sz * nm, lim; ssize_t res;
  (void)lim; (void)res;
  if (Fault* f = take(1u << F_EIO_READ, n)) { (void)f; int k = fileno(fp); (void)k; clearerr(fp); fp->_flags |= 0x20; errno = EIO; return 0; }
  (void)want;
  Quiet q; return r(b, sz, nm, fp);
}
size_t fwrite(const void* b, size_t sz, size_t nm, FILE* fp) {
  typedef size_t (*T)(const void*, size_t, size_t, FILE*); static T r; real(r, "fwrite");
  int fd = fileno(fp);
  if (!on() || !simfd(fd)) { if (on() && fd >= 0 && fd <= 2) std_op(); return r(b, sz, nm, fp); }
  uint64_t n = op("fwrite", sz * nm, hash_bytes(b, sz * nm)); size_t want = sz * nm, lim; ssize_t res;
  if (Fault* f = take(M_TORN, n)) { { Quiet q; r(b, 1, want ? (size_t)f->param % (want + 1) : 0, fp); fflush(fp); } crash_now(); }
  if (write_fault(n, want, &lim, &res)) { fp->_flags |= 0x20; return 0; }
  if (lim < want && g_disk_full) { Quiet q; r(b, 1, lim, fp); fp->_flags |= 0x20; return lim / (sz ? sz : 1); }
  Quiet q; return r(b, sz, nm, fp);
}
int fflush(FILE* fp) {
  typedef int (*T)(FILE*); static T r; real(r, "fflush");
  int fd = fp ? fileno(fp) : -1;
  if (!on() || !simfd(fd)) { if (on() && fp) std_op(); return r(fp); }
  op("fflush", 0, 0);
  Quiet q; return r(fp);
}
// ---------------------------------------------------------------- mmap, names
void* mmap(void* a, size_t len, int prot, int flags, int fd, off_t o) noexcept {
  if (!on() || !simfd(fd)) return (void*)syscall(SYS_mmap, a, len, prot, flags, fd, o);
  uint64_t n = op("mmap", len, (uint64_t)o);
  if (take(M_MMAP, n)) { errno = ENOMEM; return MAP_FAILED; }
  return (void*)syscall(SYS_mmap, a, len, prot, flags, fd, o);
}
void* mmap64(void* a, size_t len, int prot, int flags, int fd, off64_t o) noexcept { return mmap(a, len, prot, flags, fd, o); }
int rename(const char* a, const char* b) noexcept {
  if (on() && sim_path(a)) { uint64_t n = op("rename", hash_bytes(a, strlen(a)), hash_bytes(b, strlen(b))); if (Fault* f = take(M_OPEN | 1u << F_EIO_WRITE, n)) { (void)f; errno = EIO; return -1; } }
  return (int)syscall(SYS_rename, a, b);
}
int unlink(const char* a) noexcept { if (on() && sim_path(a)) op("unlink", hash_bytes(a, strlen(a)), 0); return (int)syscall(SYS_unlink, a); }
int remove(const char* a) noexcept { if (on() && sim_path(a)) op("remove", hash_bytes(a, strlen(a)), 0); return (int)syscall(SYS_unlink, a); }
int mkdir(const char* a, mode_t m) noexcept { if (on() && sim_path(a)) { uint64_t n = op("mkdir", hash_bytes(a, strlen(a)), 0); if (take(M_OPEN, n)) { errno = EACCES; return -1; } } return (int)syscall(SYS_mkdir, a, m); }
ssize_t readlink(const char* p, char* b, size_t n) noexcept {
  if (on() && *g_exe && !strcmp(p, "/proc/self/exe")) { size_t k = strlen(g_exe); if (k > n) k = n; memcpy(b, g_exe, k); return (ssize_t)k; }
  return syscall(SYS_readlink, p, b, n);
}
ssize_t __readlink_chk(const char* p, char* b, size_t n, size_t) noexcept { return readlink(p, b, n); }
int usleep(useconds_t us) { if (on()) { clock_advance((int64_t)us * 1000); return 0; } timespec t{us / 1000000, (long)(us % 1000000) * 1000}; return (int)syscall(SYS_nanosleep, &t, nullptr); }
int nanosleep(const struct timespec* t, struct timespec* r) { if (on()) { clock_advance(t->tv_sec * 1000000000ll + t->tv_nsec); return 0; } return (int)syscall(SYS_nanosleep, t, r); }
} // extern C
