// VARIANT: asan
// Compressed tensor streams are lossless and fail loudly when damaged.
#include "stream_check.h"
using namespace sim;
static void gen(Rng& r, int tier, uint64_t, Plan& p) { stream_gen(r, tier, p); }
static void exec(const Plan& p) { stream_exec(p, true); }
Property sim::g_property = {"C02", gen, exec,
  "non-trivial: the stream was written, then loaded (or rejected) and read by random access",
  "hash over the sequence of reads, their outcome and the faults that fired",
  {"Tensor", "CompressedTensor", "CompressedTensorStream", "TensorStream::FromFile", "libstdc++ streams"}, {"disk (scratch directory behind an interposed libc, including mmap)", "initial memory contents (seeded)"},
  {"reference decoder written from the format; files do not change while they are mapped"}, {}, 6000, 300000, 45, 900};
