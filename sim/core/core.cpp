#include "sim.h"
#include "seams.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/personality.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <signal.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cerrno>
#include <ctime>
#include <algorithm>
#include <set>
#include <unordered_set>
#include <sstream>
#include <iostream>
#include <fstream>
#include <stdexcept>

#if defined(SIM_ASAN)
extern "C" const char* __asan_default_options() {
  return "exitcode=66:detect_leaks=0:allocator_may_return_null=1:alloc_dealloc_mismatch=0:symbolize=0:"
         "handle_abort=0:detect_odr_violation=0:max_malloc_fill_size=0:quarantine_size_mb=16:"
         "detect_stack_use_after_return=0:allocator_release_to_os_interval_ms=-1";
}
#endif

namespace sim {

Shared* g_sh = nullptr;
bool g_tracing = false;
static std::string g_scratch;      // this worker's scratch directory
static char g_counter_names[MAX_COUNTERS][40];  // interned before any fork (and in children, deterministically by hash slot)

// ------------------------------------------------------------- raw syscalls
static long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0) { return syscall(n, a, b, c, d); }
std::string slurp(const std::string& path) {
  std::string r;
  int fd = (int)raw(SYS_openat, AT_FDCWD, (long)path.c_str(), O_RDONLY | O_CLOEXEC, 0);
  if (fd < 0) return r;
  char buf[65536]; long n;
  while ((n = raw(SYS_read, fd, (long)buf, sizeof buf)) > 0) r.append(buf, (size_t)n);
  raw(SYS_close, fd);
  return r;
}
bool spit(const std::string& path, const std::string& data) {
  int fd = (int)raw(SYS_openat, AT_FDCWD, (long)path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
  if (fd < 0) return false;
  size_t o = 0;
  while (o < data.size()) { long n = raw(SYS_write, fd, (long)(data.data() + o), (long)(data.size() - o)); if (n <= 0) break; o += (size_t)n; }
  raw(SYS_close, fd);
  return o == data.size();
}
bool exists(const std::string& p) { struct stat st; return ::lstat(p.c_str(), &st) == 0; }
bool remove_file(const std::string& p) { return raw(SYS_unlinkat, AT_FDCWD, (long)p.c_str(), 0) == 0; }
static void clean_dir(const std::string& d, bool self) {
  DIR* dir = opendir(d.c_str());
  if (!dir) return;
  while (dirent* e = readdir(dir)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string p = d + "/" + n; struct stat st;
    if (::lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) clean_dir(p, true);
    else raw(SYS_unlinkat, AT_FDCWD, (long)p.c_str(), 0);
  }
  closedir(dir);
  if (self) raw(SYS_unlinkat, AT_FDCWD, (long)d.c_str(), AT_REMOVEDIR);
}
std::string scratch_dir() { return g_scratch; }
void clean_scratch() { if (g_scratch.size() > 12) clean_dir(g_scratch, false); }

std::string strf(const char* fmt, ...) { char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }
uint64_t hash_bytes(const void* p, size_t n, uint64_t h) {
  const unsigned char* c = (const unsigned char*)p;
  while (n >= 8) { uint64_t v; memcpy(&v, c, 8); h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; c += 8; n -= 8; }
  while (n--) h = (h ^ *c++) * 1099511628211ull;
  return h;
}

// --------------------------------------------------------------------- log
static int g_trace_fd = -1;
static uint64_t hstr(const char* s) { uint64_t h = 1469598103934665603ull; while (*s) h = (h ^ (unsigned char)*s++) * 1099511628211ull; return h; }
void ev(const char* kind, uint64_t a, uint64_t b, uint64_t c) {
  if (!g_sh) return;
  g_sh->hash = mix(mix(mix(mix(g_sh->hash, hstr(kind)), a), b), c);
  g_sh->events++;
  if (g_tracing && g_trace_fd >= 0) {
    char line[256]; int n = snprintf(line, sizeof line, "%llu life%d %s %lld %lld %lld\n", (unsigned long long)g_sh->events, g_sh->life, kind, (long long)a, (long long)b, (long long)c);
    raw(SYS_write, g_trace_fd, (long)line, n);
  }
}
void evs(const char* kind, const std::string& s, uint64_t a, uint64_t b) {
  if (g_tracing && g_trace_fd >= 0) { char l[320]; int n = snprintf(l, sizeof l, "    %s \"%.200s\"\n", kind, s.c_str()); raw(SYS_write, g_trace_fd, (long)l, n); }
  ev(kind, hash_bytes(s.data(), s.size()), a, b);
}
void sched_ev(uint64_t a) { if (g_sh) g_sh->trace_hash = mix(g_sh->trace_hash, a); }
static char (*g_names_shared)[40] = nullptr;  // shared between all processes of the search
static int* g_names_lock = nullptr;
static int counter_slot(const char* name) {
  unsigned h = (unsigned)(hstr(name) % MAX_COUNTERS);
  for (unsigned i = 0; i < MAX_COUNTERS; i++) {
    unsigned k = (h + i) % MAX_COUNTERS;
    if (!strncmp(g_names_shared[k], name, 39)) return (int)k;
    if (g_names_shared[k][0] == 0) {
      while (__sync_lock_test_and_set(g_names_lock, 1)) {}
      if (g_names_shared[k][0] == 0) { char b[40] = {0}; strncpy(b, name, 39); memcpy(g_names_shared[k] + 1, b + 1, 39); __sync_synchronize(); g_names_shared[k][0] = b[0]; }
      __sync_lock_release(g_names_lock);
      if (!strncmp(g_names_shared[k], name, 39)) return (int)k;
    }
  }
  return 0;
}
void count(const char* name, uint64_t n) { if (g_sh && g_names_shared) g_sh->counters[counter_slot(name)] += n; }
void where(const char* fmt, ...) {
  if (!g_sh) return;
  va_list ap; va_start(ap, fmt); vsnprintf(g_sh->where, sizeof g_sh->where, fmt, ap); va_end(ap);
}
void fail(const char* cls, const char* fmt, ...) {
  if (!g_sh || g_sh->violated) return;
  g_sh->violated = 1;
  snprintf(g_sh->cls, sizeof g_sh->cls, "%s", cls);
  va_list ap; va_start(ap, fmt); vsnprintf(g_sh->detail, sizeof g_sh->detail, fmt, ap); va_end(ap);
  for (char* p = g_sh->detail; *p; p++) if (*p == '\n') *p = ' ';
  ev("violation", hstr(cls));
}
void stop() { raw(SYS_exit_group, 0); __builtin_unreachable(); }

// -------------------------------------------------------------------- plan
std::string Plan::text() const {
  std::ostringstream o;
  o << "property " << prop << "\nseed " << seed << "\n";
  for (auto& e : env) o << "env " << e.first << " " << e.second << "\n";
  for (auto& s : steps) { o << "step " << s.op; for (auto v : s.a) o << " " << v; o << "\n"; }
  return o.str();
}
bool Plan::parse(const std::string& t, Plan& p) {
  std::istringstream in(t); std::string l; bool ok = false;
  while (std::getline(in, l)) {
    if (l.empty() || l[0] == '#') continue;
    std::istringstream w(l); std::string k; w >> k;
    if (k == "property") { w >> p.prop; ok = true; }
    else if (k == "seed") w >> p.seed;
    else if (k == "env") { std::string n; long long v; w >> n >> v; p.env[n] = v; }
    else if (k == "step") { Step s; w >> s.op; long long v; while (w >> v) s.a.push_back(v); p.steps.push_back(s); }
  }
  return ok;
}

// ------------------------------------------------------------------- lives
std::string LifeResult::ending() const {
  if (crashed) return "crashed";
  if (hung) return "hung";
  if (unsafe) return strf("memory error (signal %d, exit %d) %s", sig, code, report.c_str());
  if (threw) return "exception: " + what;
  if (sig) return strf("signal %d", sig);
  return strf("exit %d", code);
}
// kind and stack of a sanitizer report, resolved to functions of this executable
static std::string asan_summary(const std::string& out) {
  size_t p = out.find("ERROR: AddressSanitizer: "); if (p == std::string::npos) return "";
  p += 25; std::string kind = out.substr(p, out.find_first_of(" \n", p) - p);
  std::string exe(500, 0); long n = raw(SYS_readlink, (long)"/proc/self/exe", (long)&exe[0], 499); exe.resize(n > 0 ? (size_t)n : 0);
  std::string offs; int c = 0;
  for (size_t q = p; c < 5 && (q = out.find("(" + exe + "+0x", q)) != std::string::npos; c++) { q += exe.size() + 2; offs += " " + out.substr(q, out.find(')', q) - q); }
  std::string names;
  if (!offs.empty()) if (FILE* f = popen(("addr2line -Csfe '" + exe + "'" + offs + " 2>/dev/null").c_str(), "r")) {
    char l[600]; bool fn = true;
    while (fgets(l, sizeof l, f)) { l[strcspn(l, "\n")] = 0; if (fn) { l[strcspn(l, "(")] = 0; names += std::string(names.empty() ? "" : " < ") + l; } else names += strf("[%s]", l); fn = !fn; }
    pclose(f);
  }
  return kind + " in " + names;
}
static void redirect(const char* f, int to, int flags) {
  int fd = (int)raw(SYS_openat, AT_FDCWD, (long)f, flags, 0644);
  if (fd >= 0) { raw(SYS_dup2, fd, to); raw(SYS_close, fd); }
}
// contents of stack memory before the program starts: uninitialised locals read it
static uint64_t g_stack_seed = 0;
void stack_fill(uint64_t seed) { g_stack_seed = seed; }
__attribute__((noinline, no_sanitize("address"), no_sanitize("thread"))) static void dirty_stack(uint64_t seed) {
  volatile uint64_t buf[64 * 1024];   // 512 KB below the current frame
  Rng r(seed); uint64_t mode = r.below(4), v = r.u64();
  for (size_t i = 0; i < sizeof buf / 8; i++) { switch (mode) { case 0: v = r.u64(); break; case 1: v = ~0ull; break; case 2: v = r.below(40) | r.below(40) << 32; break; default: v += 0x100000001ull; } buf[i] = v; }
}
LifeResult run_life(const std::function<int()>& f, const std::string& stdin_file, bool merged) {
  LifeResult r;
  int life = g_sh->life;
  const std::string base = g_scratch + "/.sim";
  remove_file(base + ".out"); remove_file(base + ".err"); remove_file(base + ".what");
  ev("life-start", life);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    redirect(stdin_file.empty() ? "/dev/null" : stdin_file.c_str(), 0, O_RDONLY);
    redirect((base + ".out").c_str(), 1, O_WRONLY | O_CREAT | O_APPEND);
    redirect((base + (merged ? ".out" : ".err")).c_str(), 2, O_WRONLY | O_CREAT | O_APPEND);
    int code;
    if (g_stack_seed) dirty_stack(g_stack_seed);
    begin_life(life);
    try { code = f() & 0xff; if (code == EXIT_THREW || code == EXIT_ASAN || code == EXIT_CRASHFAULT || code == EXIT_HANG) code = 1; }
    catch (std::exception& e) { end_life(); spit(base + ".what", e.what()); code = EXIT_THREW; }
    catch (...) { end_life(); spit(base + ".what", "unknown exception"); code = EXIT_THREW; }
    end_life();
    std::cout.flush(); std::cerr.flush(); fflush(nullptr);
    raw(SYS_exit_group, code);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st)) {
    r.sig = WTERMSIG(st);
    if (r.sig == SIGXCPU || r.sig == SIGKILL || r.sig == SIGXFSZ) r.hung = true;
    else if (r.sig == SIGSEGV || r.sig == SIGBUS || r.sig == SIGFPE || r.sig == SIGILL || r.sig == SIGTRAP) r.unsafe = true;
  } else {
    r.exited = true; r.code = WEXITSTATUS(st);
    if (r.code == EXIT_CRASHFAULT) r.crashed = true;
    else if (r.code == EXIT_THREW) { r.threw = true; r.what = slurp(base + ".what"); }
    else if (r.code == EXIT_ASAN) r.unsafe = true;
    else if (r.code == EXIT_HANG) r.hung = true;
  }
  r.out = slurp(base + ".out"); r.err = slurp(base + ".err");
  if (r.unsafe) r.report = asan_summary(r.out + r.err);
  ev("life-end", life, (uint64_t)(r.exited ? r.code : 1000 + r.sig));
  g_sh->life++;
  if (g_sh->violated) stop();
  return r;
}

// -------------------------------------------------------------- executions
struct Outcome { bool violated = false; std::string cls, detail; uint64_t hash = 0, trace_hash = 0, events = 0; };
static double now_s() { timespec t; raw(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t); return t.tv_sec + t.tv_nsec * 1e-9; }

static Outcome execute(const Plan& plan, bool trace = false) {
  clean_scratch();
  memset(g_sh, 0, sizeof *g_sh);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    signal(SIGINT, SIG_DFL);
    rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = 40; rl.rlim_max = 41; setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 96u << 20; setrlimit(RLIMIT_FSIZE, &rl);   // runaway output counts as a hang
    if (chdir(g_scratch.c_str()) != 0) raw(SYS_exit_group, 99);
    if (trace) { g_tracing = true; g_trace_fd = (int)raw(SYS_dup, 1); }
    redirect("/dev/null", 0, O_RDONLY);
    redirect((g_scratch + "/.run.out").c_str(), 1, O_WRONLY | O_CREAT | O_APPEND);
    redirect((g_scratch + "/.run.err").c_str(), 2, O_WRONLY | O_CREAT | O_APPEND);
    try { g_property.execute(plan); }
    catch (std::exception& e) { fail("unexpected-exception", "%s (at %s)", e.what(), g_sh->where); }
    std::cout.flush(); std::cerr.flush();
    raw(SYS_exit_group, 0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Outcome o;
  if (!g_sh->violated) {
    if (WIFSIGNALED(st)) {
      int s = WTERMSIG(st);
      const char* n = s == SIGSEGV ? "SIGSEGV" : s == SIGBUS ? "SIGBUS" : s == SIGABRT ? "SIGABRT" : s == SIGFPE ? "SIGFPE" : s == SIGXCPU || s == SIGKILL || s == SIGXFSZ ? "hang" : "signal";
      fail(strf("died-%s", n).c_str(), "simulated process died with signal %d at: %s; stderr: %s", s, g_sh->where, slurp(g_scratch + "/.run.err").substr(0, 600).c_str());
    } else if (WEXITSTATUS(st) == EXIT_ASAN) {
      std::string e = slurp(g_scratch + "/.run.err"); size_t p = e.find("ERROR: AddressSanitizer");
      std::string kind = "memory-error";
      if (p != std::string::npos) { size_t q = e.find(' ', p + 25); kind = e.substr(p + 25, q - p - 25); }
      fail(("asan-" + kind).c_str(), "memory error at: %s; %s", g_sh->where, asan_summary(e).c_str());
    } else if (WEXITSTATUS(st) == EXIT_HANG) fail("no-progress", "step budget exhausted at: %s", g_sh->where);
    else if (WEXITSTATUS(st) == EXIT_CRASHFAULT) {}
    else if (WEXITSTATUS(st) != 0) fail("died-exit", "simulated process exited with %d at: %s", WEXITSTATUS(st), g_sh->where);
  }
  o.violated = g_sh->violated; o.cls = g_sh->cls; o.detail = g_sh->detail; o.hash = g_sh->hash; o.trace_hash = g_sh->trace_hash; o.events = g_sh->events;
  return o;
}
DryInfo dry_run(const Plan& p) {
  DryInfo d; Outcome o = execute(p);
  d.ok = !o.violated;
  for (int i = 0; i < MAX_LIVES; i++) { d.io[i] = g_sh->life_io[i]; d.alloc[i] = g_sh->life_alloc[i]; d.clock[i] = g_sh->life_clock[i]; d.cl[i] = g_sh->life_cl[i]; if (d.io[i] || d.alloc[i]) d.lives = i + 1; }
  return d;
}

// ------------------------------------------------------------- minimisation
static bool same(const Outcome& o, const std::string& cls) { return o.violated && o.cls == cls; }
static Plan minimise(Plan p, const std::string& cls, double budget_s, int& evals) {
  const double end = now_s() + budget_s; evals = 0;
  auto ok = [&](const Plan& q) { if (now_s() > end) return false; evals++; return same(execute(q), cls); };
  bool progress = true;
  while (progress && now_s() < end) {
    progress = false;
    for (size_t chunk = std::max<size_t>(1, p.steps.size() / 2); chunk >= 1; chunk /= 2) {
      for (size_t i = 0; i + chunk <= p.steps.size() && now_s() < end;) {
        Plan q = p; q.steps.erase(q.steps.begin() + (long)i, q.steps.begin() + (long)(i + chunk));
        if (ok(q)) { p = q; progress = true; } else i++;
      }
      if (chunk == 1) break;
    }
    for (auto it = p.env.begin(); it != p.env.end() && now_s() < end;) {
      Plan q = p; q.env.erase(it->first); std::string k = it->first;
      if (ok(q)) { p = q; progress = true; it = p.env.upper_bound(k); } else ++it;
    }
    for (auto& kv : std::map<std::string, long long>(p.env)) {
      for (long long v : {0LL, 1LL, kv.second / 2, kv.second - 1}) {
        if (v < 0 || v >= p.env[kv.first] || now_s() > end) continue;
        Plan q = p; q.env[kv.first] = v; if (ok(q)) { p = q; progress = true; break; }
      }
    }
    for (size_t i = 0; i < p.steps.size(); i++)
      for (size_t j = 0; j < p.steps[i].a.size(); j++)
        for (long long v : {0LL, 1LL, p.steps[i].a[j] / 2, p.steps[i].a[j] - 1}) {
          if (v < 0 || v >= p.steps[i].a[j] || now_s() > end) continue;
          if (p.steps[i].op == "fault" && j < 2) continue;
          Plan q = p; q.steps[i].a[j] = v; if (ok(q)) { p = q; progress = true; break; }
        }
  }
  return p;
}

// -------------------------------------------------------------- the search
struct Total {                 // shared by all workers
  volatile int stop;
  uint64_t runs[64], counters[MAX_COUNTERS], events, sim_ns, known[16];
  uint64_t nontrivial;
  int reported;                // index+1 of the worker which found a violation
  char replay[512], cls[160], detail[3000];
  int gate_failed; char gate_msg[1000];
  uint64_t minimise_evals;
};
static const size_t HCAP = 1 << 20;
struct Known { std::string cls, text; };
static std::vector<Known> load_known(const std::string& verif, const std::string& prop) {
  std::vector<Known> r; std::istringstream in(slurp(verif + "/known_findings.txt")); std::string l;
  while (std::getline(in, l)) {
    if (l.compare(0, 6, "known:") != 0) continue;
    std::istringstream w(l.substr(6)); std::string a, b; w >> a >> b;
    if (a == "property=" + prop && b.compare(0, 6, "class=") == 0) { std::string rest; std::getline(w, rest); r.push_back({b.substr(6), rest}); }
  }
  return r;
}
static std::string json_str(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += strf("\\u%04x", c); else o += (char)c; }
  return o + "\"";
}
static std::string json_list(const std::vector<std::string>& v) { std::string o = "["; for (size_t i = 0; i < v.size(); i++) o += (i ? ", " : "") + json_str(v[i]); return o + "]"; }

static Plan make_plan(uint64_t master, uint64_t index, int tier) {
  uint64_t s = master * 0x9E3779B97F4A7C15ull + 77; s = mix(mix(s, hstr(g_property.id)), index);
  Plan p; p.prop = g_property.id; p.seed = s;
  Rng r(s);
  g_property.generate(r, tier, index, p);
  return p;
}

static void setup_scratch(int w) {
  const char* base = getenv("SIM_SCRATCH");
  std::string b = base && *base ? base : "/dev/shm";
  struct stat st; if (stat(b.c_str(), &st) != 0) b = "/tmp";
  g_scratch = strf("%s/cn24sim.%d.%d", b.c_str(), (int)getpid(), w);
  mkdir(g_scratch.c_str(), 0755);
}

static int replay(const std::string& file, bool trace) {
  Plan p; if (!Plan::parse(slurp(file), p)) { fprintf(stderr, "bad replay file %s\n", file.c_str()); return 2; }
  setup_scratch(0);
  Outcome o = execute(p, trace);
  std::string err = slurp(g_scratch + "/.run.err");
  clean_dir(g_scratch, true);
  printf("replay hash=%016llx events=%llu\n", (unsigned long long)o.hash, (unsigned long long)o.events);
  if (o.violated) { printf("VIOLATION property=%s replay=%s\n  class=%s\n  %s\n", p.prop.c_str(), file.c_str(), o.cls.c_str(), o.detail.c_str()); return 1; }
  printf("no violation\n");
  return 0;
}

static int driver(int argc, char** argv) {
  std::string mode = argc > 1 ? argv[1] : "quick";
  const char* verif_env = getenv("SIM_VERIF"); std::string verif = verif_env ? verif_env : "/verif";
  g_names_shared = (char(*)[40])mmap(nullptr, MAX_COUNTERS * 40, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_names_lock = (int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (mode == "--replay") return replay(argv[2], argc > 3 && !strcmp(argv[3], "--trace"));
  const char* se = getenv("VERIF_SEED"); uint64_t master = se && *se ? strtoull(se, nullptr, 10) : 1;
  if (mode == "--plan") { setup_scratch(0); Plan p = make_plan(master, strtoull(argv[2], nullptr, 10), argc > 3 ? atoi(argv[3]) : 0); clean_dir(g_scratch, true); printf("%s", p.text().c_str()); return 0; }
  int tier = mode == "thorough" ? 1 : 0;
  if (mode == "--hashes") {  // determinism proof: print the hash of runs a..b
    setup_scratch(0); uint64_t a = strtoull(argv[2], nullptr, 10), b = strtoull(argv[3], nullptr, 10);
    for (uint64_t i = a; i < b; i++) { Plan p = make_plan(master, i, tier); Outcome o = execute(p); printf("%llu %016llx %016llx %s\n", (unsigned long long)i, (unsigned long long)o.hash, (unsigned long long)hash_bytes(p.text().data(), p.text().size()), o.violated ? o.cls.c_str() : "-"); fflush(stdout); }
    clean_dir(g_scratch, true); return 0;
  }
  const int nw = getenv("SIM_WORKERS") ? atoi(getenv("SIM_WORKERS")) : 8;
  const uint64_t max_runs = getenv("SIM_RUNS") ? strtoull(getenv("SIM_RUNS"), nullptr, 10) : (uint64_t)(tier ? g_property.thorough_runs : g_property.quick_runs);
  const double max_s = getenv("SIM_SECONDS") ? atof(getenv("SIM_SECONDS")) : (tier ? g_property.thorough_seconds : g_property.quick_seconds);
  std::vector<Known> known = load_known(verif, g_property.id);
  printf("cn24-sim property=%s tier=%s VERIF_SEED=%llu workers=%d runs<=%llu seconds<=%.0f\n", g_property.id, tier ? "thorough" : "quick", (unsigned long long)master, nw, (unsigned long long)max_runs, max_s);
  fflush(stdout);
  Total* T = (Total*)mmap(nullptr, sizeof(Total), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  uint64_t* H = (uint64_t*)mmap(nullptr, HCAP * sizeof(uint64_t) * 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  const size_t per = HCAP / (size_t)nw;
  uint64_t* nH = (uint64_t*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  const double t0 = now_s();
  std::vector<pid_t> pids;
  const std::string replay_dir = verif + "/evidence/replay"; mkdir((verif + "/evidence").c_str(), 0755); mkdir(replay_dir.c_str(), 0755);
  for (int w = 0; w < nw; w++) {
    pid_t pid = fork();
    if (pid) { pids.push_back(pid); continue; }
    g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    setup_scratch(w);
    for (uint64_t i = (uint64_t)w; i < max_runs && !T->stop && now_s() - t0 < max_s; i += (uint64_t)nw) {
      Plan p = make_plan(master, i, tier);
      Outcome o = execute(p);
      T->runs[w]++;
      for (int c = 0; c < MAX_COUNTERS; c++) if (g_sh->counters[c]) __sync_fetch_and_add(&T->counters[c], g_sh->counters[c]);
      __sync_fetch_and_add(&T->events, o.events); __sync_fetch_and_add(&T->sim_ns, g_sh->sim_ns);
      if (o.trace_hash && nH[w] < per) H[per * (size_t)w + nH[w]++] = mix(o.trace_hash, 0);
      if (!o.violated) continue;
      bool is_known = false;
      for (size_t k = 0; k < known.size() && k < 16; k++) if (known[k].cls == o.cls) { __sync_fetch_and_add(&T->known[k], 1); is_known = true; }
      if (is_known) continue;
      // gate: the same seed must reproduce the same violation and event log
      Outcome o2 = execute(p);
      const bool hang = o.cls.find("hang") != std::string::npos || o.cls == "no-progress";
      if (!same(o2, o.cls) || (!hang && o2.hash != o.hash)) {
        T->gate_failed = 1; snprintf(T->gate_msg, sizeof T->gate_msg, "run %llu: %s (%s) not reproduced: second execution %s hash %016llx vs %016llx", (unsigned long long)i, o.cls.c_str(), o.detail.c_str(), o2.violated ? o2.cls.c_str() : "clean", (unsigned long long)o.hash, (unsigned long long)o2.hash);
        std::string f = replay_dir + "/gate-" + g_property.id + ".plan"; spit(f, p.text());
        continue;       // never report what cannot be reproduced; keep searching
      }
      if (__sync_fetch_and_add(&T->stop, 1)) break;   // someone else reports
      T->reported = w + 1;
      int evals = 0; Plan m = minimise(p, o.cls, 40, evals); T->minimise_evals = (uint64_t)evals;
      Outcome om = execute(m);
      if (!same(om, o.cls)) { m = p; om = execute(m); }
      std::string f = strf("%s/%s-%llu.replay", replay_dir.c_str(), g_property.id, (unsigned long long)i);
      std::string body = "# cn24-sim replay; run with: bash /verif/bin/replay.sh " + f + "\n# VERIF_SEED=" + std::to_string(master) + " run=" + std::to_string(i) +
        strf("\n# original plan: %zu steps; minimised: %zu steps (%d executions)\n# class %s\n# %s\n# hash %016llx\n", p.steps.size(), m.steps.size(), evals, om.cls.c_str(), om.detail.c_str(), (unsigned long long)om.hash) + m.text();
      spit(f, body);
      snprintf(T->replay, sizeof T->replay, "%s", f.c_str()); snprintf(T->cls, sizeof T->cls, "%s", om.cls.c_str()); snprintf(T->detail, sizeof T->detail, "%s", om.detail.c_str());
      break;
    }
    clean_dir(g_scratch, true);
    raw(SYS_exit_group, 0);
  }
  bool worker_bad = false;
  for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) worker_bad = true; }
  const double wall = now_s() - t0;
  uint64_t runs = 0; for (int w = 0; w < nw; w++) runs += T->runs[w];
  std::unordered_set<uint64_t> distinct; for (int w = 0; w < nw; w++) for (uint64_t k = 0; k < nH[w]; k++) distinct.insert(H[per * (size_t)w + k]);
  // evidence
  setup_scratch(99);
  std::vector<std::string> samples;
  for (uint64_t i : {0ull, 1ull, 2ull}) if (i < runs) samples.push_back(make_plan(master, i, tier).text());
  clean_dir(g_scratch, true);
  std::map<std::string, uint64_t> fc, oc;
  for (int c = 0; c < MAX_COUNTERS; c++) if (g_names_shared[c][0]) { std::string n = g_names_shared[c]; if (n.compare(0, 6, "fault.") == 0) fc[n.substr(6)] = T->counters[c]; else oc[n] = T->counters[c]; }
  std::ostringstream e;
  auto jmap = [](const std::map<std::string, uint64_t>& m) { std::string o = "{"; bool f = true; for (auto& k : m) { o += (f ? "" : ", ") + json_str(k.first) + ": " + std::to_string(k.second); f = false; } return o + "}"; };
  uint64_t known_hits = 0; for (auto k : T->known) known_hits += k;
  e << "{\n \"property\": " << json_str(g_property.id) << ",\n \"tier\": \"" << (tier ? "thorough" : "quick") << "\",\n \"seed\": " << master << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
    << "  \"evaluations\": " << runs << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n  \"rule\": " << json_str(g_property.rule) << ",\n  \"distinct_measure\": " << json_str(g_property.distinct_measure)
    << ",\n  \"simulated_runs_per_hour\": " << (uint64_t)(runs / (wall > 0 ? wall : 1) * 3600) << ",\n  \"seeds_per_hour\": " << (uint64_t)(runs / (wall > 0 ? wall : 1) * 3600)
    << ",\n  \"simulated_seconds\": " << (T->sim_ns / 1000000000ull) << ",\n  \"logged_events\": " << T->events
    << ",\n  \"faults_fired\": " << jmap(fc) << ",\n  \"probes\": " << jmap(oc)
    << ",\n  \"real_components\": " << json_list(g_property.real_components) << ",\n  \"stub_components\": " << json_list(g_property.stub_components)
    << ",\n  \"known_finding_hits\": " << known_hits
    << ",\n  \"samples\": " << json_list(samples) << "\n },\n \"assumptions\": " << json_list(g_property.assumptions) << ",\n \"wall_s\": " << strf("%.2f", wall) << ",\n \"violations\": " << (T->reported ? 1 : 0) << "\n}\n";
  spit(verif + "/evidence/" + g_property.id + ".json", e.str());
  for (size_t k = 0; k < known.size() && k < 16; k++) printf("KNOWN-FINDING: property=%s class=%s%s (hit %llu times)\n", g_property.id, known[k].cls.c_str(), known[k].text.c_str(), (unsigned long long)T->known[k]);
  printf("runs=%llu distinct=%zu wall=%.1fs events=%llu faults=%s probes=%s\n", (unsigned long long)runs, distinct.size(), wall, (unsigned long long)T->events, jmap(fc).c_str(), jmap(oc).c_str());
  if (T->gate_failed) printf("GATE FAILED: %s\n", T->gate_msg);
  if (T->reported) {
    // fresh-process replay of the minimised file
    std::string cmd = std::string(argv[0]) + " --replay " + T->replay + " > " + T->replay + ".out 2>&1";
    int rc = system(cmd.c_str());
    std::string ro = slurp(std::string(T->replay) + ".out");
    if (!WIFEXITED(rc) || WEXITSTATUS(rc) != 1 || ro.find(std::string("class=") + T->cls) == std::string::npos) { printf("GATE FAILED: fresh-process replay of %s did not reproduce %s:\n%s\n", T->replay, T->cls, ro.c_str()); return 3; }
    printf("VIOLATION property=%s replay=%s\n  class=%s\n  %s\n", g_property.id, T->replay, T->cls, T->detail);
    return 1;
  }
  if (T->gate_failed) return 3;
  if (worker_bad) { printf("worker failed\n"); return 4; }
  if (runs == 0) { printf("no runs\n"); return 5; }
  return 0;
}
} // namespace sim

int main(int argc, char** argv) {
  // same address space layout in every process: addresses can never leak into behaviour
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  setenv("TZ", "UTC", 1); setenv("LC_ALL", "C", 1); setenv("HOME", "/nonexistent", 1);
  return sim::driver(argc, argv);
}
