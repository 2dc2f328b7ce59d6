// The seams: every source of nondeterminism the properties touch.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include "sim.h"
namespace sim {

// ------------------------------------------------------------- file system
enum FaultKind {
  F_NONE = 0, F_EIO_READ, F_SHORT_READ, F_EINTR_READ, F_EIO_WRITE, F_SHORT_WRITE, F_EINTR_WRITE, F_ENOSPC,
  F_OPEN_FAIL, F_CLOSE_FAIL, F_MMAP_FAIL, F_CRASH, F_CRASH_TORN, F_ALLOC_FAIL, F_CLOCK_JUMP, F_SEEK_FAIL, F_DEVICE, F_KINDS
};
extern const char* fault_name[F_KINDS];
// A fault of the plan: step "fault" with args {life, kind, at, param}.
struct Fault { int life, kind; long long at, param; bool fired; };
void faults_from_plan(const Plan&);          // parse "fault" steps
void begin_life(int life);                   // switch seams on for process life n
void end_life();                             // switch seams off
bool seams_active();
void io_chunk(uint64_t seed, int max_chunk); // 0: off; else every read/write moves at most 1..max_chunk bytes
bool fault_fired(int kind);                  // in the current life (same process only)
unsigned faults_fired();
bool take_fault(int kind, uint64_t at, long long* param);   // for seams of their own
void exe_path(const char* path);             // what /proc/self/exe names (empty: the truth)

// ------------------------------------------------------------------- clock
void clock_seed(uint64_t seed, int64_t start_ns, int64_t tick_max_ns);
void clock_advance(int64_t ns);              // both clocks
void clock_jump(int64_t ns);                 // wall clock only
int64_t clock_wall(); int64_t clock_mono();

// ------------------------------------------------- entropy and process identity
void entropy_seed(uint64_t seed, int pid);   // random_device, getrandom, /dev/urandom; getpid

// -------------------------------------------------------------- allocation
void alloc_fill(int mode, uint64_t seed);    // contents of fresh memory: 0 off,1 zero,2 0xff(NaN),3 random floats,4 random bytes
void alloc_limit(size_t max_single);         // larger requests fail
void alloc_scatter(uint64_t seed);           // seeded placement

void stack_fill(uint64_t seed);              // contents of the stack before the next lives' programs start (0: untouched)

// ----------------------------------------------------------------- threads
struct SchedConfig {
  int threads = 1;            // worker threads per parallel region
  int policy = 0;             // 0 run-to-end in random order, 1 random switch, 2 round robin, 3 PCT, 4 conflict-directed, 5 reverse order
  uint64_t seed = 1;
  int period = 50;            // mean accesses between switches
  int depth = 3;              // PCT change points
  bool record = false;        // record conflicting access sites
  std::vector<uintptr_t> hot; // code addresses to preempt at (relative)
  bool order_only = false;
};
void sched_set(const SchedConfig&);
std::vector<uintptr_t> sched_conflicts();    // after a recording run
uint64_t sched_switches();
uint64_t sched_regions();
} // namespace sim
