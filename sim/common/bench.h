// Networks assembled directly from layers, covering every layer type with shapes of their own.
#pragma once
#include "world.h"
#include <cstring>
#include <unistd.h>
#include <algorithm>
namespace sim { inline namespace SIM_NS {
struct Bench {
  Conv::NetGraph* graph = nullptr;
  Conv::Tensor *data = nullptr, *label = nullptr, *helper = nullptr, *weight = nullptr;
  std::vector<Conv::NetGraphNode*> nodes;    // in the order of construction; nodes[0] is the input
  std::vector<std::string> names;
  std::vector<Conv::CombinedTensor*> params;
  struct Pool { Conv::NetGraphNode* n; int a, c, sx, sy; }; std::vector<Pool> pools;
  int classes = 1;
  void fill(Rng& q) {
    for (size_t i = 0; i < data->elements(); i++) data->data_ptr()[i] = (float)q.range(-100, 100) / 100.f;
    for (size_t i = 0; i < helper->elements(); i++) helper->data_ptr()[i] = (float)q.range(0, 100) / 100.f;
    for (size_t i = 0; i < weight->elements(); i++) weight->data_ptr()[i] = (float)q.range(0, 8) / 4.f;
    label->Clear(classes == 1 ? -1 : 0); for (size_t s = 0; s < label->samples(); s++) for (size_t y = 0; y < label->height(); y++) for (size_t x = 0; x < label->width(); x++) *label->data_ptr(x, y, q.below(classes), s) = 1;
  }
};
struct BenchOptions { int max_side = 12, max_batch = 5, min_batch = 1, max_ops = 7; bool stats = true; };
// order: permutation seed of the insertion into the graph (0: order of construction)
inline Bench make_bench(uint64_t seed, const BenchOptions& o = BenchOptions(), uint64_t order = 0) {
  using namespace Conv; system_init();
  Rng q(seed ^ 0xbe7cull); Bench b;
  struct V { NetGraphNode* n; int w, h, m; bool in; };
  const int B = (int)q.range(o.min_batch, o.max_batch); const bool flat = q.chance(1, 10);
  int w0 = (int)q.range(4, o.max_side), h0 = flat ? 1 : (int)q.range(3, o.max_side), m0 = (int)q.range(1, 4);
  b.data = new Tensor(B, w0, h0, m0);
  std::vector<V> v; std::vector<NetGraphNode*> rest;
  auto add = [&](Layer* l, std::vector<V> in, int w, int h, int m, const char* name) {
    NetGraphNode* n = new NetGraphNode(l); for (auto& i : in) n->input_connections.push_back(NetGraphConnection(i.n)); rest.push_back(n); b.nodes.push_back(n); b.names.push_back(name);
    V r{n, w, h, m, false}; v.push_back(r); return r; };
  // the input node is created last, when the shape of the labels is known
  NetGraphNode* in = nullptr; struct Later { NetGraphNode* n; size_t at; }; 
  NetGraphNode placeholder(new TanhLayer()); (void)placeholder;
  V cur{&placeholder, w0, h0, m0, true}; v.push_back(cur);
  for (int ops = (int)q.range(2, o.max_ops); ops > 0; ops--) {
    if (q.chance(1, 5)) { cur = v[q.below(v.size())]; }   // go on from an earlier point
    switch (q.below(14)) {
      case 0: case 1: case 2: {
        int kx = (int)q.range(1, std::min(3, cur.w)), ky = (int)q.range(1, std::min(3, cur.h)), g = cur.m % 2 == 0 && q.chance(1, 3) ? 2 : 1, k = (int)q.range(1, 4) * g, px = (int)q.below(2), py = flat ? 0 : (int)q.below(2), sx = q.chance(1, 4) ? 2 : 1, sy = q.chance(1, 4) ? 2 : 1;
        cur = add(new ConvolutionLayer((unsigned)kx, (unsigned)ky, (unsigned)k, (unsigned)sx, (unsigned)sy, (unsigned)px, (unsigned)py, (unsigned)g, (int)q.range(1, 1 << 20)), {cur}, (2 * px + cur.w - kx) / sx + 1, (2 * py + cur.h - ky) / sy + 1, k, "conv"); break; }
      case 3: { int a = cur.w % 3 == 0 ? 3 : cur.w % 2 == 0 ? 2 : 1, c = cur.h % 2 == 0 ? 2 : cur.h % 3 == 0 ? 3 : 1; cur = add(new MaxPoolingLayer((unsigned)a, (unsigned)c), {cur}, cur.w / a, cur.h / c, cur.m, "maxpool"); b.pools.push_back({cur.n, a, c, a, c}); break; }
      case 4: { int a = (int)q.range(1, std::min(3, cur.w)), c = (int)q.range(1, std::min(3, cur.h)), s = (int)q.range(1, 2), t = (int)q.range(1, 2); cur = add(new AdvancedMaxPoolingLayer((unsigned)a, (unsigned)c, (unsigned)s, (unsigned)t), {cur}, (cur.w - a) / s + 1, (cur.h - c) / t + 1, cur.m, "amaxpool"); b.pools.push_back({cur.n, a, c, s, t}); break; }
      case 5: cur = add(new LocalResponseNormalizationLayer((unsigned)q.range(1, 4), q.f(0.1f, 1), q.f(0.2f, 1), q.chance(1, 2) ? LocalResponseNormalizationLayer::ACROSS_CHANNELS : LocalResponseNormalizationLayer::WITHIN_CHANNELS), {cur}, cur.w, cur.h, cur.m, "lrn"); break;
      case 6: cur = add(new TanhLayer(), {cur}, cur.w, cur.h, cur.m, "tanh"); break;
      case 7: cur = add(new SigmoidLayer(), {cur}, cur.w, cur.h, cur.m, "sigm"); break;
      case 8: cur = add(new ReLULayer(), {cur}, cur.w, cur.h, cur.m, "relu"); break;
      case 9: if (cur.h == 1 && cur.m == 1) cur = add(new SoftmaxLayer(), {cur}, cur.w, cur.h, cur.m, "softmax"); else cur = add(new SpatialPriorLayer(), {cur}, cur.w, cur.h, cur.m + 2, "spatialprior"); break;
      case 10: { int x = (int)q.below(4), y = flat ? 0 : (int)q.below(4); cur = add(new ResizeLayer((unsigned)x, (unsigned)y), {cur}, cur.w + x, cur.h + y, cur.m, "resize"); break; }
      case 11: { int x = (int)q.range(1, 2), y = flat ? 1 : (int)q.range(1, 2); if (cur.w * x <= 16 && cur.h * y <= 16) cur = add(new UpscaleLayer((unsigned)x, (unsigned)y), {cur}, cur.w * x, cur.h * y, cur.m, "upscale"); break; }
      default: {   // join with an earlier value of the same size
        std::vector<V> c; bool sum = q.chance(1, 2); for (auto& e : v) if (e.w == cur.w && e.h == cur.h && (!sum || e.m == cur.m) && e.n != cur.n) c.push_back(e);
        if (c.empty()) { c.push_back(add(new ConvolutionLayer(1, 1, (unsigned)cur.m, 1, 1, 0, 0, 1, (int)q.range(1, 1 << 20)), {cur}, cur.w, cur.h, cur.m, "conv")); }
        V d = c[q.below(c.size())]; if (sum) cur = add(new SumLayer(), {cur, d}, cur.w, cur.h, cur.m, "sum"); else if (cur.m + d.m <= 8) cur = add(new ConcatenationLayer(), {cur, d}, cur.w, cur.h, cur.m + d.m, "concat"); break; }
    }
  }
  b.classes = (int)q.range(1, 3);
  cur = add(new ConvolutionLayer(1, 1, (unsigned)b.classes, 1, 1, 0, 0, 1, (int)q.range(1, 1 << 20)), {cur}, cur.w, cur.h, b.classes, "conv");
  if (q.chance(2, 3)) cur = b.classes == 1 ? add(new TanhLayer(), {cur}, cur.w, cur.h, cur.m, "tanh") : add(new SigmoidLayer(), {cur}, cur.w, cur.h, cur.m, "sigm");
  cur.n->is_output = true;
  b.label = new Tensor(B, cur.w, cur.h, b.classes); b.helper = new Tensor(B, w0, h0, 2); b.weight = new Tensor(B, cur.w, cur.h, 1);
  in = new NetGraphNode(new InputLayer(*b.data, *b.label, *b.helper, *b.weight)); in->is_input = true;
  for (bool again = true; again;) {   // values nobody uses have no gradient: leave them out
    again = false;
    for (size_t i = 0; i < rest.size(); i++) {
      bool used = rest[i] == cur.n; for (auto* n : rest) for (auto& c : n->input_connections) used |= c.node == rest[i];
      if (!used) { rest.erase(rest.begin() + (long)i); b.nodes.erase(b.nodes.begin() + (long)i); b.names.erase(b.names.begin() + (long)i); again = true; break; }
    }
  }
  b.pools.erase(std::remove_if(b.pools.begin(), b.pools.end(), [&](Bench::Pool& p) { return std::find(b.nodes.begin(), b.nodes.end(), p.n) == b.nodes.end(); }), b.pools.end());
  auto tail = [&](Layer* l, const char* name) { NetGraphNode* n = new NetGraphNode(l); n->input_connections.push_back(NetGraphConnection(cur.n, 0, dynamic_cast<ErrorLayer*>(l) != nullptr)); n->input_connections.push_back(NetGraphConnection(in, 1, false)); n->input_connections.push_back(NetGraphConnection(in, 3, false)); rest.push_back(n); b.nodes.push_back(n); b.names.push_back(name); };
  tail(new ErrorLayer(1.0f), "error");
  if (!o.stats) {} else if (b.classes == 1) tail(new BinaryStatLayer(13, -1, 1), "binarystat"); else { std::vector<std::string> n; for (int i = 0; i < b.classes; i++) n.push_back(strf("c%d", i)); tail(new ConfusionMatrixLayer(n, (unsigned)b.classes), "confusion"); }
  for (auto* n : rest) for (auto& c : n->input_connections) if (c.node == &placeholder) c.node = in;
  b.nodes.insert(b.nodes.begin(), in); b.names.insert(b.names.begin(), "input"); rest.insert(rest.begin(), in);
  if (order) { Rng s(order); for (size_t i = rest.size() - 1; i > 0; i--) std::swap(rest[i], rest[s.below(i + 1)]); }
  b.graph = new NetGraph(); for (auto* n : rest) b.graph->AddNode(n);
  if (getenv("BENCH")) for (size_t i = 0; i < b.nodes.size(); i++) { fprintf(stderr, "%zu %s %s <-", i, b.names[i].c_str(), b.nodes[i]->layer->GetLayerDescription().c_str()); for (auto& c : b.nodes[i]->input_connections) fprintf(stderr, " %zu.%u%s", (size_t)(std::find(b.nodes.begin(), b.nodes.end(), c.node) - b.nodes.begin()), c.buffer, c.backprop ? "" : "(nobp)"); fprintf(stderr, "\n"); }
  b.graph->Initialize(); b.graph->InitializeWeights();
  for (auto* n : b.nodes) for (auto* p : n->layer->parameters()) b.params.push_back(p);
  return b;
}
// every buffer of the network, by name
typedef std::vector<std::pair<std::string, std::vector<float>>> Snap;
inline void snap_add(Snap& s, const std::string& n, const Conv::Tensor& t) { s.push_back({n, std::vector<float>(t.data_ptr_const(), t.data_ptr_const() + t.elements())}); }
inline void snap_save(const std::string& f, const Snap& s) { std::string o; for (auto& e : s) { o += strf("%s %zu\n", e.first.c_str(), e.second.size()); o.append((const char*)e.second.data(), e.second.size() * 4); } spit(f, o); }
inline bool snap_load(const std::string& f, Snap& s) { std::string b = slurp(f); size_t at = 0; if (b.empty()) return false; while (at < b.size()) { size_t e = b.find('\n', at); if (e == std::string::npos) return false; std::string l = b.substr(at, e - at); size_t sp = l.rfind(' '); size_t n = (size_t)atoll(l.c_str() + sp + 1); at = e + 1; if (b.size() - at < n * 4) return false; std::vector<float> v(n); memcpy(v.data(), b.data() + at, n * 4); at += n * 4; s.push_back({l.substr(0, sp), v}); } return true; }
} } // namespace sim
