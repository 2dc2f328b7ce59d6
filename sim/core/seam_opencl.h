// A simulated OpenCL device (and clBLAS on top of it): in-order command queue whose progress, work item order,
// buffer contents and failures the simulator decides. The kernels are the repository's own, compiled as C++.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
namespace sim {
struct ClConfig {
  int platforms = 1, devices = 1;
  uint64_t seed = 1;
  int lag = 0;          // 0 commands run at once, 1 as late as allowed, 2 seeded progress
  int order = 0;        // work items: 0 forward, 1 backward, 2 seeded permutation
  int garbage = 0;      // contents of new buffers: 0 zero, 1 NaN, 2 seeded numbers, 3 what an earlier buffer left behind
};
void cl_set(const ClConfig&);
bool cl_peek(void* mem, std::vector<float>& out);   // contents of a buffer after everything enqueued so far
}
