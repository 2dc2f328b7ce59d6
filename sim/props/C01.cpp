// VARIANT: asan
// Float tensor streams deliver exactly what was stored, or fail loudly.
#include "stream_check.h"
using namespace sim;
static void gen(Rng& r, int tier, uint64_t, Plan& p) { stream_gen(r, tier, p); }
static void exec(const Plan& p) { stream_exec(p, false); }
Property sim::g_property = {"C01", gen, exec,
  "non-trivial: the stream was written, then loaded (or rejected) and read by random access",
  "hash over the sequence of reads, their outcome and the faults that fired",
  {"Tensor", "FloatTensorStream", "TensorStream::FromFile", "libstdc++ streams"}, {"disk (scratch directory behind an interposed libc, including mmap)", "initial memory contents (seeded)"},
  {"reference decoder written from the format; files do not change while they are mapped"}, {}, 6000, 300000, 45, 900};
