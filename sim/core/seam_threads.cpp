// Seam: worker threads. cn24's parallel loops are compiled with -fopenmp and with
// -fsanitize=thread instrumentation, but linked against THIS file instead of libgomp
// and libtsan: every "thread" is a fiber, every instrumented memory access is a point
// at which the seeded scheduler may switch, so one seed is one exact interleaving.
#include "seams.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <cstring>
#include <cstdlib>

namespace sim {
static SchedConfig g_cfg; static Rng g_rng(1);
struct Fiber {
  ucontext_t ctx; void* stack; bool done, blocked; int tid; uint64_t prio;
};
struct Team {
  std::vector<Fiber> f; int cur = 0; int n = 1; ucontext_t main; void (*fn)(void*); void* data;
  uint64_t accesses = 0; long countdown = 0; int barrier_waiting = 0; uint64_t barrier_gen = 0;
  // work sharing
  long ws_next = 0, ws_end = 0, ws_incr = 1, ws_chunk = 1; bool ws_active = false; int ws_left = 0; uint64_t ws_gen = 0;
  std::vector<uint64_t> my_ws, my_single; uint64_t single_gen = 0;
  std::vector<uint64_t> change;
};
static Team* g_team = nullptr;
static uint64_t g_switches = 0, g_regions = 0, g_region_seq = 0;
static const size_t STACK = 256 << 10;
static std::vector<void*> g_stacks;
static std::unordered_map<uintptr_t, std::pair<uint32_t, uint32_t>> g_shadow;   // granule -> reader mask, writer mask
static std::unordered_set<uintptr_t> g_conf; static std::unordered_map<uintptr_t, std::vector<uintptr_t>> g_sites;
static std::unordered_set<uintptr_t> g_hot;
static bool g_in_sched = false;
extern "C" char __executable_start;

void sched_set(const SchedConfig& c) {
  g_cfg = c; g_rng.reseed(c.seed); g_switches = g_regions = 0; g_shadow.clear(); g_sites.clear(); if (c.record) g_conf.clear();
  g_hot.clear(); for (auto h : c.hot) g_hot.insert(h);
}
std::vector<uintptr_t> sched_conflicts() { std::vector<uintptr_t> v(g_conf.begin(), g_conf.end()); std::sort(v.begin(), v.end()); return v; }
uint64_t sched_switches() { return g_switches; }
uint64_t sched_regions() { return g_regions; }

static void fiber_main(unsigned lo, unsigned hi) {
  Team* t = (Team*)(((uintptr_t)hi << 32) | lo);
  t->fn(t->data);
  t->f[(size_t)t->cur].done = true;
  // never returns here
  extern void fiber_exit(Team*);
  fiber_exit(t);
}
static int pick(Team* t, bool allow_cur) {
  int cand[128], n = 0;
  for (int i = 0; i < t->n; i++) if (!t->f[(size_t)i].done && !t->f[(size_t)i].blocked && (allow_cur || i != t->cur)) cand[n++] = i;
  if (!n) return -1;
  switch (g_cfg.policy) {
    case 2: { for (int d = 1; d <= t->n; d++) { int k = (t->cur + d) % t->n; if (!t->f[(size_t)k].done && !t->f[(size_t)k].blocked) return k; } return cand[0]; }
    case 3: { int b = cand[0]; for (int i = 1; i < n; i++) if (t->f[(size_t)cand[i]].prio > t->f[(size_t)b].prio) b = cand[i]; return b; }
    case 5: return cand[n - 1];
    default: return cand[g_rng.below((uint64_t)n)];
  }
}
static void switch_to(Team* t, int k) {
  if (k == t->cur || k < 0) return;
  int old = t->cur; t->cur = k; g_switches++;
  sched_ev(mix(g_region_seq, mix(t->accesses, (uint64_t)(old * 64 + k))));
  swapcontext(&t->f[(size_t)old].ctx, &t->f[(size_t)k].ctx);
}
void fiber_exit(Team* t) {
  int k = pick(t, false);
  if (k < 0) {
    for (int i = 0; i < t->n; i++) if (!t->f[(size_t)i].done) { fail("deadlock", "all worker threads blocked in a parallel region"); stop(); }
    setcontext(&t->main);
  }
  t->cur = k; g_switches++; sched_ev(mix(g_region_seq, mix(t->accesses, (uint64_t)(1000 + k))));
  setcontext(&t->f[(size_t)k].ctx);
}
static void next_countdown(Team* t) {
  switch (g_cfg.policy) {
    case 1: t->countdown = 1 + (long)g_rng.below((uint64_t)g_cfg.period * 2); break;
    case 2: t->countdown = g_cfg.period; break;
    default: t->countdown = 1L << 60;
  }
}
static void run_team(void (*fn)(void*), void* data, int n) {
  Team t; t.fn = fn; t.data = data; t.n = n; t.f.resize((size_t)n); t.my_ws.assign((size_t)n, 0); t.my_single.assign((size_t)n, 0);
  g_in_sched = true;
  g_regions++; g_region_seq++; g_shadow.clear(); g_sites.clear();
  while ((int)g_stacks.size() < n) { void* s = ::mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); g_stacks.push_back(s); }
  for (int i = 0; i < n; i++) {
    Fiber& f = t.f[(size_t)i]; f.done = f.blocked = false; f.tid = i; f.prio = 1000 + g_rng.below(1000000); f.stack = g_stacks[(size_t)i];
    getcontext(&f.ctx); f.ctx.uc_stack.ss_sp = f.stack; f.ctx.uc_stack.ss_size = STACK; f.ctx.uc_link = nullptr;
    makecontext(&f.ctx, (void (*)())fiber_main, 2, (unsigned)(uintptr_t)&t, (unsigned)((uintptr_t)&t >> 32));
  }
  if (g_cfg.policy == 3) for (int d = 0; d < g_cfg.depth; d++) t.change.push_back(1 + g_rng.below((uint64_t)g_cfg.period * (uint64_t)n * 8));
  next_countdown(&t);
  int first = g_cfg.policy == 2 ? 0 : g_cfg.policy == 5 ? n - 1 : (int)g_rng.below((uint64_t)n);
  if (g_cfg.policy == 3) { first = 0; for (int i = 1; i < n; i++) if (t.f[(size_t)i].prio > t.f[(size_t)first].prio) first = i; }
  t.cur = first; sched_ev(mix(g_region_seq, (uint64_t)(5000 + first)));
  g_team = &t; g_in_sched = false;
  swapcontext(&t.main, &t.f[(size_t)first].ctx);
  g_team = nullptr;
  if (g_cfg.record) for (auto& s : g_shadow) {
    uint32_t r = s.second.first, w = s.second.second;
    if (w && ((w & (w - 1)) || (r & ~w))) { for (auto pc : g_sites[s.first]) g_conf.insert(pc); }
  }
}
static inline void access(const void* p, bool write, void* pc) {
  Team* t = g_team;
  if (!t || g_in_sched) return;
  char* sp = (char*)__builtin_frame_address(0);
  char* st = (char*)t->f[(size_t)t->cur].stack;
  (void)sp;
  if ((char*)p >= st && (char*)p < st + STACK) return;      // private to this worker
  t->accesses++;
  if (g_cfg.record) {
    g_in_sched = true;
    uintptr_t g = (uintptr_t)p >> 2; auto& m = g_shadow[g]; uint32_t bit = 1u << (t->cur & 31);
    if (write) m.second |= bit; else m.first |= bit;
    auto& v = g_sites[g]; uintptr_t rel = (uintptr_t)pc - (uintptr_t)&__executable_start; if (v.size() < 8 && std::find(v.begin(), v.end(), rel) == v.end()) v.push_back(rel);
    g_in_sched = false;
  }
  switch (g_cfg.policy) {
    case 1: case 2: if (--t->countdown <= 0) { next_countdown(t); g_in_sched = true; int k = pick(t, false); g_in_sched = false; switch_to(t, k); } break;
    case 3:
      for (auto& c : t->change) if (c == t->accesses) { t->f[(size_t)t->cur].prio = g_rng.below(1000); g_in_sched = true; int k = pick(t, true); g_in_sched = false; switch_to(t, k); break; }
      break;
    case 4: {
      uintptr_t rel = (uintptr_t)pc - (uintptr_t)&__executable_start;
      if (g_hot.count(rel) && g_rng.chance(1, 2)) { g_in_sched = true; int k = pick(t, false); g_in_sched = false; switch_to(t, k); }
    } break;
  }
}
static void yield_point() { if (g_team && !g_in_sched) { g_in_sched = true; int k = pick(g_team, false); g_in_sched = false; switch_to(g_team, k); } }
static void block_until(bool (*ready)(void*), void* a) {
  Team* t = g_team; if (!t) return;
  long spins = 0;
  while (!ready(a)) { int k = pick(t, false); if (k < 0 || ++spins > 10000000) { fail("deadlock", "worker thread waits for ever in a parallel region"); stop(); } switch_to(t, k); }
}
} // namespace sim
using namespace sim;

extern "C" {
// ---------------------------------------------------------- OpenMP user API
int omp_get_thread_num() { return g_team ? g_team->cur : 0; }
int omp_get_num_threads() { return g_team ? g_team->n : 1; }
int omp_get_max_threads() { return g_cfg.threads; }
int omp_get_num_procs() { return g_cfg.threads; }
int omp_in_parallel() { return g_team != nullptr; }
void omp_set_num_threads(int) {}
void omp_set_dynamic(int) {} void omp_set_nested(int) {}
double omp_get_wtime() { return clock_mono() * 1e-9; }
struct omp_lock { int held; };
void omp_init_lock(omp_lock* l) { l->held = 0; } void omp_destroy_lock(omp_lock*) {}
void omp_set_lock(omp_lock* l) { block_until([](void* p) { return ((omp_lock*)p)->held == 0; }, l); l->held = 1; }
void omp_unset_lock(omp_lock* l) { l->held = 0; yield_point(); }
int omp_test_lock(omp_lock* l) { if (l->held) return 0; l->held = 1; return 1; }
// ------------------------------------------------------------ libgomp entry
void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) {
  int n = nt ? (int)nt : g_cfg.threads;
  if (n < 1) n = 1; if (n > 64) n = 64;
  if (g_team || n == 1) { Team* o = g_team; if (!o) { g_regions++; fn(data); return; }
    // nested region: runs as a team of one
    struct Save { int cur, n; } s{o->cur, o->n}; (void)s; Team solo; solo.n = 1; solo.f.resize(1); solo.f[0].done = false; solo.f[0].blocked = false; solo.f[0].stack = o->f[(size_t)o->cur].stack; solo.my_ws.assign(1, 0); solo.my_single.assign(1, 0); solo.countdown = 1L << 60;
    g_team = nullptr; fn(data); g_team = o; return; }
  run_team(fn, data, n);
}
void GOMP_barrier() {
  Team* t = g_team; if (!t) return;
  uint64_t gen = t->barrier_gen;
  if (++t->barrier_waiting == t->n) { t->barrier_waiting = 0; t->barrier_gen++; for (auto& f : t->f) f.blocked = false; yield_point(); return; }
  t->f[(size_t)t->cur].blocked = true;
  while (t->barrier_gen == gen) { int k = pick(t, false); if (k < 0) { fail("deadlock", "barrier never completes"); stop(); } switch_to(t, k); }
}
bool GOMP_barrier_cancel() { GOMP_barrier(); return false; }
static int g_crit;
void GOMP_critical_start() { block_until([](void*) { return g_crit == 0; }, nullptr); g_crit = 1; }
void GOMP_critical_end() { g_crit = 0; yield_point(); }
void GOMP_critical_name_start(void** p) { block_until([](void* q) { return *(void**)q == nullptr; }, p); *p = (void*)1; }
void GOMP_critical_name_end(void** p) { *p = nullptr; yield_point(); }
void GOMP_atomic_start() { GOMP_critical_start(); }
void GOMP_atomic_end() { GOMP_critical_end(); }
bool GOMP_single_start() { Team* t = g_team; if (!t) return true; uint64_t mine = ++t->my_single[(size_t)t->cur]; if (mine > t->single_gen) { t->single_gen = mine; return true; } return false; }
void GOMP_ordered_start() {} void GOMP_ordered_end() {}
bool GOMP_loop_dynamic_next(long* s, long* e) {
  Team* t = g_team; static long sn, se, si, sc; (void)sn; (void)se; (void)si; (void)sc;
  if (!t) return false;
  yield_point();
  if ((t->ws_incr > 0 && t->ws_next >= t->ws_end) || (t->ws_incr < 0 && t->ws_next <= t->ws_end)) return false;
  *s = t->ws_next; long n = t->ws_next + t->ws_chunk * t->ws_incr;
  if ((t->ws_incr > 0 && n > t->ws_end) || (t->ws_incr < 0 && n < t->ws_end)) n = t->ws_end;
  t->ws_next = n; *e = n; return true;
}
bool GOMP_loop_dynamic_start(long start, long end, long incr, long chunk, long* s, long* e) {
  Team* t = g_team;
  if (!t) { *s = start; *e = end; return incr > 0 ? start < end : start > end; }
  uint64_t mine = ++t->my_ws[(size_t)t->cur];
  if (mine > t->ws_gen) { t->ws_gen = mine; t->ws_next = start; t->ws_end = end; t->ws_incr = incr; t->ws_chunk = chunk < 1 ? 1 : chunk; }
  return GOMP_loop_dynamic_next(s, e);
}
#define DYN(name) \
  bool GOMP_loop_##name##_start(long a, long b, long i, long c, long* s, long* e) { return GOMP_loop_dynamic_start(a, b, i, c, s, e); } \
  bool GOMP_loop_##name##_next(long* s, long* e) { return GOMP_loop_dynamic_next(s, e); }
DYN(static) DYN(guided) DYN(nonmonotonic_dynamic) DYN(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long a, long b, long i, long* s, long* e) { return GOMP_loop_dynamic_start(a, b, i, 1, s, e); }
bool GOMP_loop_runtime_next(long* s, long* e) { return GOMP_loop_dynamic_next(s, e); }
bool GOMP_loop_nonmonotonic_runtime_start(long a, long b, long i, long* s, long* e) { return GOMP_loop_dynamic_start(a, b, i, 1, s, e); }
bool GOMP_loop_nonmonotonic_runtime_next(long* s, long* e) { return GOMP_loop_dynamic_next(s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long i, long* s, long* e) { return GOMP_loop_dynamic_start(a, b, i, 1, s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* s, long* e) { return GOMP_loop_dynamic_next(s, e); }
// unsigned long long flavour (size_t loop counters)
bool GOMP_loop_ull_dynamic_next(unsigned long long* s, unsigned long long* e) { return GOMP_loop_dynamic_next((long*)s, (long*)e); }
bool GOMP_loop_ull_dynamic_start(bool, unsigned long long a, unsigned long long b, unsigned long long i, unsigned long long c, unsigned long long* s, unsigned long long* e) { return GOMP_loop_dynamic_start((long)a, (long)b, (long)i, (long)c, (long*)s, (long*)e); }
#define DYNU(name) \
  bool GOMP_loop_ull_##name##_start(bool, unsigned long long a, unsigned long long b, unsigned long long i, unsigned long long c, unsigned long long* s, unsigned long long* e) { return GOMP_loop_dynamic_start((long)a, (long)b, (long)i, (long)c, (long*)s, (long*)e); } \
  bool GOMP_loop_ull_##name##_next(unsigned long long* s, unsigned long long* e) { return GOMP_loop_dynamic_next((long*)s, (long*)e); }
DYNU(guided) DYNU(nonmonotonic_dynamic) DYNU(nonmonotonic_guided) DYNU(static)
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { GOMP_barrier(); return false; }
struct PL { void (*fn)(void*); void* data; long a, b, i, c; };
static void pl_prep(PL* p) { (void)p; }
#define PLOOP(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned nt, long a, long b, long i, long c, unsigned) { \
    PL p{fn, data, a, b, i, c}; pl_prep(&p); \
    GOMP_parallel([](void* q) { PL* p = (PL*)q; Team* t = g_team; if (t) { uint64_t mine = ++t->my_ws[(size_t)t->cur]; if (mine > t->ws_gen) { t->ws_gen = mine; t->ws_next = p->a; t->ws_end = p->b; t->ws_incr = p->i; t->ws_chunk = p->c < 1 ? 1 : p->c; } p->fn(p->data); } \
      else { Team solo; solo.n = 1; solo.f.resize(1); solo.my_ws.assign(1, 1); solo.my_single.assign(1, 0); solo.ws_gen = 1; solo.ws_next = p->a; solo.ws_end = p->b; solo.ws_incr = p->i; solo.ws_chunk = p->c < 1 ? 1 : p->c; solo.f[0].done = solo.f[0].blocked = false; solo.f[0].stack = (void*)8; solo.countdown = 1L << 60; int pol = g_cfg.policy; g_cfg.policy = 0; g_team = &solo; p->fn(p->data); g_team = nullptr; g_cfg.policy = pol; } }, &p, nt, 0); }
PLOOP(dynamic) PLOOP(guided) PLOOP(static) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned nt, long a, long b, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, nt, a, b, i, 1, f); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned nt, long a, long b, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, nt, a, b, i, 1, f); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned nt, long a, long b, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, nt, a, b, i, 1, f); }
unsigned GOMP_sections_next() { long s, e; return GOMP_loop_dynamic_next(&s, &e) ? (unsigned)s : 0; }
unsigned GOMP_sections_start(unsigned c) { long s, e; return GOMP_loop_dynamic_start(1, (long)c + 1, 1, 1, &s, &e) ? (unsigned)s : 0; }
void GOMP_sections_end() { GOMP_barrier(); } void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned c, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, nt, 1, (long)c + 1, 1, 1, f); }
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool, unsigned, void**, int, void*) {
  if (cpy) { char* b = (char*)malloc((size_t)(sz + al)); char* a = (char*)(((uintptr_t)b + (size_t)al - 1) & ~((uintptr_t)al - 1)); cpy(a, data); fn(a); free(b); } else fn(data);
}
void GOMP_taskwait() {} void GOMP_taskyield() { yield_point(); } void GOMP_taskgroup_start() {} void GOMP_taskgroup_end() {}

// ------------------------------------------------------- tsan instrumentation
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { access(p, false, PC); } void __tsan_write##n(void* p) { access(p, true, PC); } \
  void __tsan_unaligned_read##n(void* p) { access(p, false, PC); } void __tsan_unaligned_write##n(void* p) { access(p, true, PC); } \
  void __tsan_volatile_read##n(void* p) { access(p, false, PC); } void __tsan_volatile_write##n(void* p) { access(p, true, PC); } \
  void __tsan_read##n##_pc(void* p, void* pc) { access(p, false, pc); } void __tsan_write##n##_pc(void* p, void* pc) { access(p, true, pc); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long) { access(p, false, PC); }
void __tsan_write_range(void* p, unsigned long) { access(p, true, PC); }
void __tsan_vptr_update(void**, void*) {} void __tsan_vptr_read(void**) {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(d, true, PC); return memcpy(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(d, true, PC); return memset(d, c, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(d, true, PC); return memmove(d, s, n); }
// atomics (fibers run on one OS thread, so plain operations are atomic between switch points)
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int) { access((const void*)a, false, PC); return *a; } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int) { access((const void*)a, false, PC); *a = v; } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { access((const void*)a, false, PC); T o = *a; *a = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { access((const void*)a, false, PC); T o = *a; *a = (T)(o + v); return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { access((const void*)a, false, PC); T o = *a; *a = (T)(o - v); return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { T o = *a; *a = o ^ v; return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { access((const void*)a, false, PC); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int m, int f) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, m, f); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { T o = *a; if (o == c) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
