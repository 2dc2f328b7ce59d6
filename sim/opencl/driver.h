// The computations of sim/opencl/driver.cpp and the tools, per configuration of cn24.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
namespace sim {
inline namespace world_cpu { int bench_compute(uint64_t net, const std::vector<int>& ops, const std::string& file); int tensor_compute(const std::vector<std::pair<int, uint64_t>>& ops, const std::string& file); }
namespace world_Ocl { int bench_compute(uint64_t net, const std::vector<int>& ops, const std::string& file); int tensor_compute(const std::vector<std::pair<int, uint64_t>>& ops, const std::string& file); }
namespace world_Blas { int bench_compute(uint64_t net, const std::vector<int>& ops, const std::string& file); int tensor_compute(const std::vector<std::pair<int, uint64_t>>& ops, const std::string& file); }
}
int trainNetworkOcl_main(int, char**); int trainNetworkBlas_main(int, char**);
int classifyImage_main(int, char**); int classifyImageOcl_main(int, char**); int classifyImageBlas_main(int, char**);
