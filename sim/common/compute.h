// A computation with every buffer of it written to a file, so that runs under different
// circumstances can be compared.
#pragma once
#include "bench.h"
#include <cmath>
namespace sim { inline namespace SIM_NS {
enum { M_LAYERS, M_PATCH, M_FCN, M_SESSION };
inline void out_snap(Snap& s, Conv::NetGraph& g, const char* at) {
  int i = -1;
  for (auto* n : g.GetNodes()) {
    i++; int k = 0; for (auto& o : n->output_buffers) {
      std::string d = n->layer->GetLayerDescription().substr(0, 20);
      snap_add(s, strf("%s node %d %s data %d", at, i, d.c_str(), k), o.combined_tensor->data);
      if (!n->backprop_connections.empty()) snap_add(s, strf("%s node %d %s gradient %d", at, i, d.c_str(), k), o.combined_tensor->delta);   // otherwise nobody computes it
      k++;
    }
  }
  int k = 0; std::vector<Conv::CombinedTensor*> ps; g.GetParameters(ps);
  for (auto* q : ps) { snap_add(s, strf("%s parameter %d data", at, k), q->data); snap_add(s, strf("%s parameter %d gradient", at, k), q->delta); k++; }
}
struct SnapSink : public Conv::StatSink {
  std::vector<Conv::StatDescriptor*> d; Snap* s = nullptr; int n = 0;
  void Initialize(std::vector<Conv::StatDescriptor*>& x) override { d = x; }
  void SetCurrentExperiment(std::string) override {}
  void Process(Conv::HardcodedStats&, std::vector<Conv::Stat*>& v) override {
    std::vector<float> f;
    for (size_t i = 0; i < v.size(); i++) { if (d[i]->unit.find("/s") != std::string::npos || d[i]->description.find("hroughput") != std::string::npos || d[i]->description.find("Frame") != std::string::npos) continue; f.push_back(v[i]->is_null ? -12345.f : (float)v[i]->value); }
    s->push_back({strf("statistics %d", n++), f});
  }
};
// before(i): called before every pass
inline void compute(int mode, uint64_t net, int passes, const std::string& file, const std::function<void(int)>& before = nullptr) {
  using namespace Conv;
  passes = std::max(1, std::min(6, passes)); Snap s; SnapSink sink; sink.s = &s;
  system_init(); System::stat_aggregator->RegisterSink(&sink); if (before) before(-1);
  if (mode == M_LAYERS) {
    BenchOptions o; o.min_batch = 2; Bench b = make_bench(net, o); system_ready();
    Rng q(net * 7 + 1);
    for (int i = 0; i < passes; i++) {
      if (before) before(i); System::stat_aggregator->StartRecording(); b.fill(q); b.graph->FeedForward(); b.graph->BackPropagate();
      for (auto* n : b.graph->GetStatNodes()) dynamic_cast<StatLayer*>(n->layer)->UpdateAll();
      System::stat_aggregator->StopRecording(); System::stat_aggregator->Generate(); out_snap(s, *b.graph, strf("pass %d", i).c_str()); if (i % 2) System::stat_aggregator->Reset();
    }
  } else {
    ToyOptions to; to.max_side = mode == M_FCN ? 24 : 10; to.hybrid = mode == M_PATCH; to.max_train = 2; to.max_test = 2; Toy t = make_toy(net, to); write_toy(t);
    World w = make_world(t, mode == M_PATCH, LOAD_BOTH, mode == M_FCN ? 2 : 2 + (int)(net % 3)); w.settings.iterations = 2; w.settings.sbatchsize = 1; Trainer tr(*w.graph, w.settings); system_ready();
    for (int i = 0; i < (mode == M_FCN ? 1 : passes); i++) { if (before) before(i); w.graph->FeedForward(); w.graph->BackPropagate(); out_snap(s, *w.graph, strf("pass %d", i).c_str()); }
    if (before) before(passes); tr.Train(1, false); out_snap(s, *w.graph, "after training"); if (mode == M_PATCH) { tr.Test(); out_snap(s, *w.graph, "after testing"); }
  }
  snap_save(file, s);
}
// tol: tolerated difference relative to the largest value of the buffer (0: bit for bit, signs of zero aside)
inline void snap_compare(const Snap& a, const Snap& b, const std::string& ref, const std::string& got, double tol) {
  SIM_CHECK(a.size() == b.size(), "results-differ", "the run with %s produced %zu buffers, the run with %s %zu", got.c_str(), b.size(), ref.c_str(), a.size());
  for (size_t i = 0; i < a.size(); i++) {
    SIM_CHECK(a[i].first == b[i].first && a[i].second.size() == b[i].second.size(), "results-differ", "buffer %zu is %s instead of %s", i, b[i].first.c_str(), a[i].first.c_str());
    if (!memcmp(a[i].second.data(), b[i].second.data(), a[i].second.size() * 4)) continue;
    double top = 0; for (float x : a[i].second) if (std::isfinite(x)) top = std::max(top, (double)std::abs(x));
    for (size_t k = 0; k < a[i].second.size(); k++) { float x = a[i].second[k], y = b[i].second[k]; if (x == y || (std::isnan(x) && std::isnan(y))) continue;
      SIM_CHECK(std::isfinite(x) && std::isfinite(y) && std::abs((double)x - y) <= tol * top, "results-differ", "%s element %zu is %.9g with %s and %.9g with %s", a[i].first.c_str(), k, x, ref.c_str(), y, got.c_str()); }
    count("probe.rounding_differences");
  }
}
} } // namespace sim
