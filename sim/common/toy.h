// Generated inputs for the system under test, written with the harness's own
// encoders (never with the code under test): images, labels, float tensor streams,
// dataset and network descriptions.
#pragma once
#include "sim.h"
#include <string>
#include <vector>
namespace sim {

// A plain tensor of the harness: layout sample, map, row, column (column fastest).
struct HT {
  uint64_t s = 0, w = 0, h = 0, m = 0;
  std::vector<float> d;
  HT() {}
  HT(uint64_t s_, uint64_t w_, uint64_t h_, uint64_t m_) : s(s_), w(w_), h(h_), m(m_), d(s_ * w_ * h_ * m_, 0.f) {}
  float& at(uint64_t x, uint64_t y, uint64_t map, uint64_t smp = 0) { return d[((smp * m + map) * h + y) * w + x]; }
  float at(uint64_t x, uint64_t y, uint64_t map, uint64_t smp = 0) const { return d[((smp * m + map) * h + y) * w + x]; }
};
std::string ht_encode(const HT&);                              // one serialized tensor
std::string ht_encode_stream(const std::vector<HT>&);
bool ht_decode_stream(const std::string&, std::vector<HT>&);   // false if bytes remain or are missing

struct ToyOptions {
  int hybrid = -1;          // -1 random
  bool stochastic = true;   // allow dropout / loss sampling (seeded, so still deterministic)
  int max_side = 12, min_side = 6;
  bool no_pool = false;
  bool rich = true;          // skip connections, parametrised activations
  int max_train = 4, max_test = 3;
  int force_classes = 0;
  bool small_iterations = true;
};
struct Toy {
  bool hybrid = false;
  int classes = 3, in_maps = 1, label_maps = 3;
  int pbatch = 1, sbatch = 1, iterations = 2;
  int rfx = 1, rfy = 1;     // patch size in hybrid mode
  bool quickprop = false, dropout = false;
  std::vector<HT> train, test;   // alternating image, label
  std::vector<float> weights; bool kitti = false, has_weights = false;
  std::string net_text, set_text;
};
Toy make_toy(uint64_t seed, const ToyOptions& = ToyOptions());
// writes net.net, data.set, train.Tensor, test.Tensor into the current directory
void write_toy(const Toy&);
HT random_image(Rng&, int w, int h, int maps);
HT random_label(Rng&, int w, int h, int classes);   // one-hot blobs; classes==1: +-1
// lines of output that must be equal in equal runs (removes the build banner and timings)
std::string result_lines(const std::string& out);
} // namespace sim
