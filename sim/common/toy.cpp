#include "toy.h"
#include <cstring>
#include <sstream>
namespace sim {
static void put64(std::string& o, uint64_t v) { o.append((const char*)&v, 8); }
std::string ht_encode(const HT& t) {
  std::string o; put64(o, t.s); put64(o, t.w); put64(o, t.h); put64(o, t.m);
  o.append((const char*)t.d.data(), t.d.size() * 4); return o;
}
std::string ht_encode_stream(const std::vector<HT>& v) { std::string o; for (auto& t : v) o += ht_encode(t); return o; }
bool ht_decode_stream(const std::string& b, std::vector<HT>& out) {
  size_t p = 0;
  while (p < b.size()) {
    if (b.size() - p < 32) return false;
    uint64_t v[4]; memcpy(v, b.data() + p, 32); p += 32;
    for (auto x : v) if (x > (1u << 24)) return false;
    unsigned __int128 n = (unsigned __int128)v[0] * v[1] * v[2] * v[3];
    if (n * 4 > b.size() - p) return false;
    HT t(v[0], v[1], v[2], v[3]); memcpy(t.d.data(), b.data() + p, t.d.size() * 4); p += t.d.size() * 4;
    out.push_back(t);
  }
  return true;
}
HT random_image(Rng& r, int w, int h, int maps) {
  HT t(1, w, h, maps);
  for (auto& v : t.d) v = (float)r.range(0, 255) / 127.5f - 1.f;
  return t;
}
HT random_label(Rng& r, int w, int h, int classes) {
  HT t(1, w, h, classes);
  int c = (int)r.below(classes == 1 ? 2 : classes);
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
    if (r.chance(1, 4)) c = (int)r.below(classes == 1 ? 2 : classes);
    if (classes == 1) t.at(x, y, 0) = c ? 1.f : -1.f; else t.at(x, y, c) = 1.f;
  }
  return t;
}
Toy make_toy(uint64_t seed, const ToyOptions& o) {
  Rng r(seed ^ 0x70795eedull);
  Toy t;
  t.hybrid = o.hybrid < 0 ? r.chance(1, 2) : o.hybrid != 0;
  t.classes = o.force_classes ? o.force_classes : (r.chance(1, 4) ? 1 : (int)r.range(2, 4));
  t.label_maps = t.classes;
  t.in_maps = (int)r.range(1, 3);
  t.pbatch = (int)r.range(1, 3); t.sbatch = (int)r.range(1, 2);
  t.iterations = (int)r.range(1, 3);
  t.quickprop = r.chance(1, 4);
  // network
  std::ostringstream n;
  const bool across_ok = true; (void)across_ok;
  int depth = (int)r.range(1, 2);
  int px = 0, py = 0, fx = 1, fy = 1;
  n << "# generated network\n";
  bool pooled = false;
  for (int l = 0; l < depth; l++) {
    int kx = (int)r.range(1, 3), ky = r.chance(2, 3) ? kx : (int)r.range(1, 3);
    if (kx == 1) ky = 1; else if (ky == 1) ky = 2;   // the factory pads FCN inputs only when both axes need it
    int k = (int)r.range(1, 4);
    n << "?convolutional kernels=" << k << " size=" << kx << "x" << ky;
    
    if (r.chance(1, 4)) n << " llr=" << r.range(1, 3);
    n << "\n";
    px += fx * (kx - 1); py += fy * (ky - 1);
    if (!o.no_pool && !pooled && r.chance(1, 3)) {
      pooled = true;
      if (r.chance(1, 2)) { n << "?maxpooling size=2x2\n"; fx *= 2; fy *= 2; }
      else { n << "?amaxpooling size=2x2 stride=2x2\n"; px += fx; py += fy; fx *= 2; fy *= 2; }
    }
    switch (r.below(4)) { case 0: n << "?tanh\n"; break; case 1: n << "?relu\n"; break; case 2: n << "?sigm\n"; break; default: break; }
    if (r.chance(1, 12)) n << "?lrn method=" << (r.chance(1, 2) ? "across" : "within") << " size=3 alpha=0.5 beta=0.75\n";
  }
  if (o.rich && r.chance(1, 3)) {   // skip connections: two branches of 1x1 convolutions merged again
    int k = (int)r.range(1, 3); bool sum = r.chance(1, 2); const char* st = r.chance(1, 2) ? "a" : "b";
    n << "?convolutional kernels=" << k << " size=1x1\n" << (r.chance(1, 2) ? "?tanh\n" : "?relu\n") << "push" << st << "\n";
    n << "?convolutional kernels=" << (sum ? k : (int)r.range(1, 3)) << " size=1x1" << (r.chance(1, 3) ? " llr=2" : "") << "\n?sigm\npush" << st << "\n";
    if (sum) n << "?sum stack=" << st << "\n"; else n << "?concat stack=" << st << "\n";
    if (r.chance(1, 2)) n << "?tanh\n";
  }
  if (o.rich && r.chance(1, 6)) n << "?hmax mu=0.5 weight=" << (r.chance(1, 2) ? "0.01" : "0") << "\n";
  if (r.chance(1, 4)) n << "?spatialprior\n";
  n << "?fullyconnected neurons=(o)\n?output\n\n";
  if (t.hybrid) n << "method=patch\n";
  t.rfx = px + fx; t.rfy = py + fy;
  n << "l1=" << (r.chance(1, 2) ? "0.001" : "0") << "\nl2=0.0005\nlr=" << (r.chance(1, 2) ? "0.05" : "0.01") << "\ngamma=0.01\nmomentum=" << (r.chance(1, 3) ? "0" : "0.9") << "\nexponent=0.75\n";
  n << "iterations=" << t.iterations << "\nsbatchsize=" << t.sbatch << "\npbatchsize=" << t.pbatch << "\n";
  if (t.quickprop) n << "optimization=quickprop\nmu=1.75\neta=1.5\n";
  t.net_text = n.str();
  // data
  int lo = std::max(o.min_side, std::max(t.rfx, t.rfy) + 1), hi = std::max(o.max_side, lo);
  int ntr = (int)r.range(1, o.max_train), nte = (int)r.range(1, o.max_test);
  for (int i = 0; i < ntr + nte; i++) {
    int w = (int)r.range(lo, hi), h = (int)r.range(lo, hi);
    auto& dst = i < ntr ? t.train : t.test;
    dst.push_back(random_image(r, w, h, t.in_maps)); dst.push_back(random_label(r, w, h, t.label_maps));
  }
  std::ostringstream s;
  t.has_weights = r.chance(1, 3); t.kitti = r.chance(1, 6);
  s << "# generated dataset\ntesting=test.Tensor\ntraining=train.Tensor\nclasses=" << t.classes << "\n";
  for (int c = 0; c < t.classes; c++) s << "class" << c << "\n";
  s << "colors\n";
  for (int c = 0; c < t.classes; c++) s << strf("0x%06x\n", (unsigned)r.below(0x1000000));
  for (int c = 0; c < t.classes; c++) t.weights.push_back(1.f);
  if (t.has_weights) { s << "weights\n"; for (int c = 0; c < t.classes; c++) { t.weights[c] = (float)r.range(1, 8) / 4.f; s << t.weights[c] << "\n"; } }
  s << "localized_error=" << (t.kitti ? "kitti" : "default") << "\n";
  t.set_text = s.str();
  return t;
}
void write_toy(const Toy& t) {
  spit("net.net", t.net_text); spit("data.set", t.set_text);
  spit("train.Tensor", ht_encode_stream(t.train)); spit("test.Tensor", ht_encode_stream(t.test));
}
std::string result_lines(const std::string& out) {
  std::istringstream in(out); std::string l, o;
  while (std::getline(in, l)) {
    if (l.find("version") != std::string::npos || l.find("throughput") != std::string::npos || l.find("Throughput") != std::string::npos || l.find("Frame Rate") != std::string::npos || l.find("econds") != std::string::npos) continue;
    o += l + "\n";
  }
  return o;
}
} // namespace sim
