// Deterministic simulation core: PRNG, plans (the replayable description of one
// simulated execution), event log, shared run state and the search driver.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace sim {

// ---------------------------------------------------------------- randomness
struct Rng {
  uint64_t s[4];
  explicit Rng(uint64_t seed = 1) { reseed(seed); }
  static uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  void reseed(uint64_t seed) { for (auto& v : s) v = splitmix(seed); }
  uint64_t u64() {
    const uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
  }
  static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
  long long range(long long a, long long b) { return a + (long long)below((uint64_t)(b - a + 1)); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  double unit() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
  float f(float a, float b) { return a + (float)unit() * (b - a); }
};
inline uint64_t mix(uint64_t a, uint64_t b) { uint64_t x = a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2)); return Rng::splitmix(x); }

// ---------------------------------------------------------------------- plan
struct Step { std::string op; std::vector<long long> a;
  long long arg(size_t i, long long d = 0) const { return i < a.size() ? a[i] : d; } };
struct Plan {
  std::string prop;
  uint64_t seed = 0;                       // seed of the run
  std::map<std::string, long long> env;    // environment and knobs
  std::vector<Step> steps;                 // operations and faults
  long long get(const std::string& k, long long d = 0) const { auto i = env.find(k); return i == env.end() ? d : i->second; }
  void add(const std::string& op, std::vector<long long> a = {}) { steps.push_back(Step{op, std::move(a)}); }
  std::string text() const;
  static bool parse(const std::string& text, Plan& out);
};

// -------------------------------------------------------------- shared state
// Lives in MAP_SHARED memory: every simulated process (life) of one run writes here.
enum { MAX_COUNTERS = 96, MAX_LIVES = 24 };
struct Shared {
  uint64_t hash;          // hash of the full event log
  uint64_t trace_hash;    // hash of the schedule / fault trace only (distinctness measure)
  uint64_t events;
  int violated;
  char cls[160];
  char detail[3000];
  uint64_t counters[MAX_COUNTERS];
  uint64_t life_io[MAX_LIVES], life_alloc[MAX_LIVES], life_clock[MAX_LIVES], life_cl[MAX_LIVES];
  uint64_t alloc_failed[MAX_LIVES];   // size of the smallest allocation a fault made fail
  uint64_t sim_ns;        // simulated time covered
  uint64_t std_ops;
  int life;
  char where[200];        // last progress marker
};
extern Shared* g_sh;
extern bool g_tracing;    // print every event (replay --trace)

void ev(const char* kind, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0);       // event log
void evs(const char* kind, const std::string& s, uint64_t a = 0, uint64_t b = 0);
void sched_ev(uint64_t a);                          // schedule/fault decision that took effect
void count(const char* name, uint64_t n = 1);       // named counter (faults fired, probes)
void where(const char* fmt, ...);                   // progress marker
void fail(const char* cls, const char* fmt, ...);   // record a violation (first one wins)
[[noreturn]] void stop();                           // end this simulated execution now (child)
#define SIM_FAIL(cls, ...) do { sim::fail(cls, __VA_ARGS__); sim::stop(); } while (0)
#define SIM_CHECK(c, cls, ...) do { if (!(c)) SIM_FAIL(cls, __VA_ARGS__); } while (0)

// ------------------------------------------------------------------ lives
// One simulated process of the system under test: fork, run f with stdin/stdout/
// stderr redirected to files of the scratch disk, and report how it ended.
struct LifeResult {
  bool exited = false; int code = 0; int sig = 0;
  bool crashed = false;      // killed by the simulator (crash fault)
  bool threw = false;        // uncaught exception, i.e. loud failure
  bool unsafe = false;       // SIGSEGV/SIGBUS/SIGFPE/sanitizer report
  bool hung = false;         // step budget or CPU budget exhausted
  std::string what;
  std::string report;        // sanitizer report, resolved
  std::string out, err;
  std::string ending() const;
};
LifeResult run_life(const std::function<int()>& f, const std::string& stdin_file = "", bool merged = false);

enum { EXIT_CRASHFAULT = 137, EXIT_THREW = 70, EXIT_ASAN = 66, EXIT_HANG = 78 };

// ----------------------------------------------------------------- property
// Implemented once per property (sim/props/<id>.cpp).
struct Property {
  const char* id;
  void (*generate)(Rng&, int tier, uint64_t index, Plan&);
  void (*execute)(const Plan&);
  const char* rule;
  const char* distinct_measure;
  std::vector<std::string> real_components, stub_components, assumptions, faults;
  int quick_runs, thorough_runs, quick_seconds, thorough_seconds;
};
extern Property g_property;
// Executes a plan in a scratch child (used by generators to learn how many I/O ops,
// allocations and clock reads each life performs, so faults land inside real work).
struct DryInfo { bool ok = false; uint64_t io[MAX_LIVES] = {}, alloc[MAX_LIVES] = {}, clock[MAX_LIVES] = {}, cl[MAX_LIVES] = {}; int lives = 0; };
DryInfo dry_run(const Plan&);

std::string scratch_dir();   // the simulated disk of this worker
// raw helpers that bypass the seams
std::string slurp(const std::string& path);
bool spit(const std::string& path, const std::string& data);
bool exists(const std::string& path);
bool remove_file(const std::string& path);
void clean_scratch();
std::string strf(const char* fmt, ...);
uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull);

} // namespace sim
