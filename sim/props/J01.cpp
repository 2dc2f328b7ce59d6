// VARIANT: asan
// Networks of any shape, assembled in any order, are evaluated correctly by any history of passes.
#include "bench.h"
#include "compute.h"
#include <map>
using namespace sim;
using namespace Conv;
static const long long P = 4099;   // all values are integers below P, so that sums are exact
struct Spec { int kind = 1; std::vector<std::array<int, 3>> in; int outs = 1; bool out = false; };   // kind 0 source, 1 inner, 2 loss, 3 statistics; in: {node, buffer, backprop}
struct Shape { int s, w, h, m; size_t n() const { return (size_t)s * w * h * m; } };
struct CallLog { std::vector<std::array<int, 3>> v; std::map<int, std::vector<float>> seen; };   // {what (0 forward, 1 backward, 2 weights), node, backprop enabled / gain}
static CallLog* g_log;
static long long coef(int node, int i, int j) { return 1 + (long long)(mix((uint64_t)node * 131 + (uint64_t)i * 17 + (uint64_t)j, 0x51) % (uint64_t)(P - 1)); }
static long long md(long long x) { x %= P; return x < 0 ? x + P : x; }
struct Probe : public Layer {
  int id; Spec sp; Shape sh; std::vector<CombinedTensor*> in, out; std::vector<bool> used, writes; std::vector<long long>* source; CombinedTensor* par = nullptr;
  Probe(int id_, const Spec& s, const Shape& h, const std::vector<bool>& u, const std::vector<bool>& wr, std::vector<long long>* src) : Layer(""), id(id_), sp(s), sh(h), used(u), writes(wr), source(src) { if (id % 2) { par = new CombinedTensor(1, 1, 1, (size_t)(1 + id % 5)); for (size_t i = 0; i < par->data.elements(); i++) par->data.data_ptr()[i] = (float)(id * 100 + (int)i); parameters_.push_back(par); } }
  bool CreateOutputs(const std::vector<CombinedTensor*>& i, std::vector<CombinedTensor*>& o) override {
    SIM_CHECK(i.size() == sp.in.size(), "wiring", "node %d has %zu inputs instead of %zu", id, i.size(), sp.in.size());
    for (auto* t : i) SIM_CHECK(t && t->data.elements() == sh.n(), "wiring", "node %d has an input of another shape", id);
    for (int k = 0; k < sp.outs; k++) o.push_back(new CombinedTensor((size_t)sh.s, (size_t)sh.w, (size_t)sh.h, (size_t)sh.m)); return true; }
  bool Connect(const std::vector<CombinedTensor*>& i, const std::vector<CombinedTensor*>& o, const NetStatus*) override { SIM_CHECK(in.empty() && out.empty(), "initialised-twice", "node %d is connected twice", id); in = i; out = o; return true; }
  void FeedForward() override {
    g_log->v.push_back({0, id, 0});
    for (int j = 0; j < (int)out.size(); j++) for (size_t e = 0; e < sh.n(); e++) { long long x = sp.kind == 0 ? (*source)[(size_t)j * sh.n() + e] : j + id; for (size_t i = 0; i < in.size(); i++) x += coef(id, (int)i, j) * (long long)in[i]->data.data_ptr_const()[e]; out[(size_t)j]->data.data_ptr()[e] = (float)md(x); }
  }
  void BackPropagate() override {
    g_log->v.push_back({1, id, backprop_enabled_});
    { auto& sv = g_log->seen[id]; sv.clear(); for (auto* o : out) for (size_t e = 0; e < sh.n(); e++) sv.push_back(o->delta.data_ptr_const()[e]); }
    if (sp.kind == 3 || sp.kind == 0 || !backprop_enabled_) return;
    for (size_t i = 0; i < in.size(); i++) if (writes[i]) for (size_t e = 0; e < sh.n(); e++) {
      long long x = sp.kind == 2 ? 7 * (long long)in[i]->data.data_ptr_const()[e] + id : 0;
      for (int j = 0; j < (int)out.size(); j++) x += coef(id, (int)i, j) * (long long)out[(size_t)j]->delta.data_ptr_const()[e] % P;
      in[i]->delta.data_ptr()[e] = (float)md(x); }
  }
  void OnLayerConnect(const std::vector<Layer*> next) override { int g = 0; for (auto* l : next) g += (int)l->Gain(); g_log->v.push_back({2, id, g}); }
  unsigned Gain() override { return (unsigned)(id * 3 + 1); }
  std::string GetLayerDescription() override { return strf("Probe %d", id); }
  void CreateBufferDescriptors(std::vector<NetGraphBuffer>& b) override { (void)b; }
  void describe(std::vector<NetGraphBuffer>& b) { for (int i = 0; i < sp.outs; i++) { NetGraphBuffer x; x.description = strf("b%d", i); b.push_back(x); } }
};
struct LossProbe : public Probe, public LossFunctionLayer { using Probe::Probe; datum CalculateLossFunction() override { long long x = id; for (auto* t : in) for (size_t e = 0; e < sh.n(); e++) x += (long long)t->data.data_ptr_const()[e]; return (float)md(x); } };
struct StatProbe : public Probe, public StatLayer { using Probe::Probe; bool disabled = false; void UpdateAll() override {} void Print(std::string, bool) override {} void Reset() override {} void SetDisabled(bool d) override { disabled = d; } };

static std::vector<Spec> make_spec(uint64_t seed, bool multi) {
  Rng r(seed); std::vector<Spec> v; int src = (int)r.range(1, 3), inner = (int)r.range(1, 12), depth = (int)r.range(1, 6);
  for (int i = 0; i < src; i++) { Spec s; s.kind = 0; s.outs = (int)r.range(1, 3); v.push_back(s); }
  auto pick = [&](bool bp) { int lo = r.chance(1, 2) ? std::max(0, (int)v.size() - depth) : 0; int n = (int)r.range(lo, (long long)v.size() - 1); return std::array<int, 3>{n, (int)r.below((uint64_t)v[(size_t)n].outs), bp}; };
  for (int i = 0; i < inner; i++) { Spec s; s.outs = multi && r.chance(1, 3) ? 2 : 1; for (int k = (int)r.range(1, 3); k > 0; k--) { if (!s.in.empty() && r.chance(1, 5)) s.in.push_back(s.in[0]); else s.in.push_back(pick(!r.chance(1, 6))); } s.out = r.chance(1, 5); v.push_back(s); }
  size_t n = v.size();
  for (int i = (int)r.range(1, 3); i > 0; i--) { Spec s; s.kind = 2; s.outs = 0; s.in.push_back({(int)r.range(src, (long long)n - 1), 0, 1}); s.in[0][1] = (int)r.below((uint64_t)v[(size_t)s.in[0][0]].outs); if (r.chance(1, 2)) { int q = (int)r.below((uint64_t)src); s.in.push_back({q, (int)r.below((uint64_t)v[(size_t)q].outs), r.chance(1, 2)}); } v.push_back(s); }
  for (int i = (int)r.range(0, 2); i > 0; i--) { Spec s; s.kind = 3; s.outs = 0; int q = (int)r.below(n); s.in.push_back({q, (int)r.below((uint64_t)v[(size_t)q].outs), 0}); v.push_back(s); }
  v[n - 1].out = true;
  return v;
}
static void gen(Rng& r, int tier, uint64_t, Plan& p) {
  p.env["bench"] = r.chance(1, 6); p.env["net"] = (long long)r.below(1 << 30); p.env["order"] = (long long)r.below(1 << 20); p.env["fill"] = r.range(0, 4); p.env["multi"] = r.chance(1, 3);
  for (int i = (int)r.range(2, tier ? 30 : 14); i > 0; i--) p.add("op", {(long long)r.below(12), (long long)r.below(1 << 30)});
}
static void bench_mode(const Plan& p) {
  alloc_fill((int)p.get("fill") % 5, 5);
  BenchOptions o; Bench a = make_bench((uint64_t)p.get("net"), o), b = make_bench((uint64_t)p.get("net"), o, 1 + (uint64_t)p.get("order")); system_ready();
  Rng q(4), q2(4);
  for (int i = 0; i < 2; i++) {
    a.fill(q); b.fill(q2); a.graph->FeedForward(); a.graph->BackPropagate(); b.graph->FeedForward(); b.graph->BackPropagate(); Snap x, y;
    for (Bench* g : {&a, &b}) for (size_t k = 0; k < g->nodes.size(); k++) { int m = 0; for (auto& out : g->nodes[k]->output_buffers) { snap_add(g == &a ? x : y, strf("pass %d node %zu (%s) data %d", i, k, g->names[k].c_str(), m), out.combined_tensor->data); if (!g->nodes[k]->backprop_connections.empty()) snap_add(g == &a ? x : y, strf("pass %d node %zu (%s) gradient %d", i, k, g->names[k].c_str(), m), out.combined_tensor->delta); m++; } }
    for (size_t k = 0; k < a.params.size(); k++) { snap_add(x, strf("parameter %zu", k), a.params[k]->data); snap_add(y, strf("parameter %zu", k), b.params[k]->data); snap_add(x, strf("gradient of parameter %zu", k), a.params[k]->delta); snap_add(y, strf("gradient of parameter %zu", k), b.params[k]->delta); }
    snap_compare(x, y, "nodes added in order", "nodes added in another order", 1e-4);
    SIM_CHECK(a.graph->AggregateLoss() == b.graph->AggregateLoss(), "loss-differs", "%g and %g", a.graph->AggregateLoss(), b.graph->AggregateLoss());
  }
  count("probe.real_networks"); sched_ev((uint64_t)p.get("net")); sched_ev((uint64_t)p.get("order"));
}
static int life(const Plan& p) {
  system_init(); if (p.get("bench")) { bench_mode(p); return 0; }
  alloc_fill((int)p.get("fill") % 5, 5);
  uint64_t seed = (uint64_t)p.get("net"); Rng r(seed ^ 77); std::vector<Spec> sp = make_spec(seed, p.get("multi")); const int N = (int)sp.size();
  Shape sh{(int)r.range(1, 3), (int)r.range(1, 3), (int)r.range(1, 3), (int)r.range(1, 3)}; const size_t E = sh.n();
  // who uses which buffer; connections to inputs never carry gradients
  auto bp = [&](const std::array<int, 3>& c) { return c[2] && sp[(size_t)c[0]].kind != 0; };
  std::vector<std::vector<std::array<int, 2>>> uses((size_t)N * 3);   // consumers {node, input} of node*3+buffer that return gradients
  for (int n = 0; n < N; n++) for (size_t i = 0; i < sp[(size_t)n].in.size(); i++) { auto& c = sp[(size_t)n].in[i]; if (bp(c)) uses[(size_t)c[0] * 3 + (size_t)c[1]].push_back({n, (int)i}); }
  CallLog log; g_log = &log;
  std::vector<std::vector<long long>> src((size_t)N); std::vector<Probe*> l((size_t)N); std::vector<NetGraphNode*> node((size_t)N);
  for (int n = 0; n < N; n++) {
    Spec& s = sp[(size_t)n]; if (s.kind == 0) { src[(size_t)n].resize(E * (size_t)s.outs); for (auto& x : src[(size_t)n]) x = (long long)r.below(P); }
    std::vector<bool> used, wr; for (int j = 0; j < s.outs; j++) used.push_back(!uses[(size_t)n * 3 + (size_t)j].empty()); for (auto& c : s.in) wr.push_back(bp(c));
    Probe* q = s.kind == 2 ? (Probe*)new LossProbe(n, s, sh, used, wr, nullptr) : s.kind == 3 ? (Probe*)new StatProbe(n, s, sh, used, wr, nullptr) : new Probe(n, s, sh, used, wr, &src[(size_t)n]);
    l[(size_t)n] = q; NetGraphNode* g = new NetGraphNode(q); q->describe(g->output_buffers); g->is_input = s.kind == 0; g->is_output = s.out; if (r.chance(1, 6)) g->unique_name = strf("mine%d", n); node[(size_t)n] = g;
  }
  for (int n = 0; n < N; n++) for (auto& c : sp[(size_t)n].in) node[(size_t)n]->input_connections.push_back(NetGraphConnection(node[(size_t)c[0]], (unsigned)c[1], c[2]));
  std::vector<int> order; for (int n = 0; n < N; n++) order.push_back(n); Rng os((uint64_t)p.get("order")); if (p.get("order")) for (int i = N - 1; i > 0; i--) std::swap(order[(size_t)i], order[os.below((uint64_t)i + 1)]);
  NetGraph g; for (int n : order) g.AddNode(node[(size_t)n]);
  SIM_CHECK(g.IsComplete(), "complete", "a complete network is reported as incomplete");
  g.Initialize();
  { std::map<std::string, int> names; for (auto* n : g.GetNodes()) names[n->unique_name]++; SIM_CHECK(names.size() == g.GetNodes().size(), "names", "node names are not unique"); }
  // model
  std::vector<std::vector<long long>> val((size_t)N * 3, std::vector<long long>(E)); std::map<std::pair<int, int>, std::vector<long long>> grad;   // contribution of (node, input)
  std::vector<char> ff((size_t)N), bpv((size_t)N), valid((size_t)N); std::vector<std::array<int, 3>> expect;
  auto dobp = [&](int n) { for (auto& c : sp[(size_t)n].in) if (bp(c)) return 1; return 0; };
  std::function<void(int)> mff = [&](int n) { if (ff[(size_t)n]) return; auto& s = sp[(size_t)n]; for (auto& c : s.in) mff(c[0]); expect.push_back({0, n, 0}); ff[(size_t)n] = 1;
    for (int j = 0; j < s.outs; j++) for (size_t e = 0; e < E; e++) { long long x = s.kind == 0 ? src[(size_t)n][(size_t)j * E + e] : j + n; for (size_t i = 0; i < s.in.size(); i++) x += coef(n, (int)i, j) * val[(size_t)s.in[i][0] * 3 + (size_t)s.in[i][1]][e]; val[(size_t)n * 3 + (size_t)j][e] = md(x); } };
  auto outgrad = [&](int n, int j, size_t e) { long long x = 0; for (auto& u : uses[(size_t)n * 3 + (size_t)j]) x += grad[{u[0], u[1]}][e]; return x; };
  std::map<int, std::vector<long long>> want_seen;   // gradients a node has to see when it is evaluated
  std::function<void(int)> mbp = [&](int n) { if (bpv[(size_t)n]) return; auto& s = sp[(size_t)n]; for (int j = 0; j < s.outs; j++) for (auto& u : uses[(size_t)n * 3 + (size_t)j]) mbp(u[0]); expect.push_back({1, n, dobp(n)}); bpv[(size_t)n] = 1;
    { auto& w = want_seen[n]; w.clear(); for (int j = 0; j < s.outs; j++) for (size_t e = 0; e < E; e++) w.push_back(outgrad(n, j, e));   // zero if nothing depends on it
       }
    if (s.kind == 3 || s.kind == 0) return; for (size_t i = 0; i < s.in.size(); i++) if (bp(s.in[i])) { auto& gr = grad[{n, (int)i}]; gr.assign(E, 0); for (size_t e = 0; e < E; e++) { long long x = s.kind == 2 ? 7 * val[(size_t)s.in[i][0] * 3 + (size_t)s.in[i][1]][e] + n : 0; for (int j = 0; j < s.outs; j++) if (!uses[(size_t)n * 3 + (size_t)j].empty()) x += coef(n, (int)i, j) * outgrad(n, j, e) % P; gr[e] = md(x); } } };
  auto check_calls = [&](const char* what, int kind) {
    std::map<std::array<int, 3>, int> a, b; std::map<int, size_t> at; size_t k = 0;
    for (auto& c : log.v) { a[c]++; if (c[0] == kind) at[c[1]] = k++; else SIM_FAIL("wrong-call", "%s called node %d for something else", what, c[1]); } for (auto& c : expect) b[c]++;
    for (auto& e : b) SIM_CHECK(a[e.first] == e.second, "evaluation", "%s: node %d is evaluated %d times instead of %d (%s %d)", what, e.first[1], a[e.first], e.second, kind == 2 ? "gain" : "backpropagation enabled", e.first[2]);
    for (auto& e : a) SIM_CHECK(b.count(e.first) || !e.second, "evaluation", "%s: node %d is evaluated %d times (%s %d), which is not expected", what, e.first[1], e.second, kind == 2 ? "gain" : "backpropagation enabled", e.first[2]);
    for (auto& e : expect) for (auto& c : sp[(size_t)e[1]].in) if (at.count(c[0]) && at.count(e[1])) { if (kind == 0) SIM_CHECK(at[c[0]] < at[e[1]], "order", "%s: node %d runs before its input %d", what, e[1], c[0]); else if (bp(c)) SIM_CHECK(at[e[1]] < at[c[0]], "order", "%s: node %d runs before its consumer %d", what, c[0], e[1]); }
    log.v.clear(); expect.clear();
  };
  auto check_values = [&](const char* what) { for (int n = 0; n < N; n++) if (ff[(size_t)n]) for (int j = 0; j < sp[(size_t)n].outs; j++) for (size_t e = 0; e < E; e++) { float x = node[(size_t)n]->output_buffers[(size_t)j].combined_tensor->data.data_ptr_const()[e]; SIM_CHECK(x == (float)val[(size_t)n * 3 + (size_t)j][e], "value", "%s: output %d of node %d element %zu is %g instead of %lld", what, j, n, e, x, val[(size_t)n * 3 + (size_t)j][e]); } };
  auto check_seen = [&](const char* what) {
    for (auto& w : want_seen) { auto& got = log.seen[w.first]; SIM_CHECK(got.size() == w.second.size(), "evaluation", "%s: node %d is not evaluated", what, w.first); for (size_t k = 0; k < got.size(); k++) SIM_CHECK(got[k] == (float)w.second[k], "gradient", "%s: node %d is given %g as gradient of output %zu element %zu instead of %lld", what, w.first, got[k], k / E, k % E, w.second[k]); } };
  auto check_grads = [&](const char* what) { for (int n = 0; n < N; n++) for (int j = 0; j < sp[(size_t)n].outs; j++) if (!uses[(size_t)n * 3 + (size_t)j].empty()) for (size_t e = 0; e < E; e++) { float x = node[(size_t)n]->output_buffers[(size_t)j].combined_tensor->delta.data_ptr_const()[e]; SIM_CHECK(x == (float)outgrad(n, j, e), "gradient", "%s: gradient of output %d of node %d element %zu is %g instead of %lld", what, j, n, e, x, outgrad(n, j, e)); } };
  auto accum = [&](int n, std::vector<NetGraphNode*>& list) { for (auto& c : node[(size_t)n]->backprop_connections) if (dynamic_cast<GradientAccumulationLayer*>(c.node->layer)) { list.push_back(c.node); count("probe.accumulations"); } };
  bool did_ff = false; int ops = 0;
  for (auto& s : p.steps) {
    if (s.op != "op" || ops >= 60) continue; ops++; Rng q((uint64_t)s.arg(1)); where("op %d", ops); sched_ev((uint64_t)s.arg(0)); log.v.clear(); log.seen.clear(); want_seen.clear(); expect.clear();
    std::vector<NetGraphNode*> list; std::vector<int> ids;
    if ((s.arg(0) % 12) >= 6) { for (int n = 0; n < N; n++) if (q.chance(1, 2)) ids.push_back(n); for (size_t i = ids.size(); i > 1; i--) std::swap(ids[i - 1], ids[q.below(i)]); for (int n : ids) { list.push_back(node[(size_t)n]); accum(n, list); } for (size_t i = list.size(); i > 1; i--) std::swap(list[i - 1], list[q.below(i)]); }
    switch (s.arg(0) % 12) {
      case 0: case 1: case 2: { for (int n = 0; n < N; n++) if (sp[(size_t)n].kind == 0) for (auto& x : src[(size_t)n]) x = (long long)q.below(P); std::fill(ff.begin(), ff.end(), 0); for (int n = 0; n < N; n++) mff(n); g.FeedForward(); check_calls("forward pass", 0); check_values("forward pass"); did_ff = true; 
        long long loss = 0; for (int n = 0; n < N; n++) if (sp[(size_t)n].kind == 2) { long long x = n; for (auto& c : sp[(size_t)n].in) for (size_t e = 0; e < E; e++) x += val[(size_t)c[0] * 3 + (size_t)c[1]][e]; loss += md(x); }
        SIM_CHECK(g.AggregateLoss() == (float)loss, "loss", "the loss of the network is %g instead of %lld", g.AggregateLoss(), loss); count("probe.forward_passes"); break; }
      case 3: case 4: case 5: if (!did_ff) break; std::fill(bpv.begin(), bpv.end(), 0); for (int n = 0; n < N; n++) mbp(n); g.BackPropagate(); check_calls("backward pass", 1); check_seen("backward pass"); check_grads("backward pass"); count("probe.backward_passes"); break;
      case 6: case 7: { bool clear = q.chance(2, 3); for (int n : ids) if (clear) ff[(size_t)n] = 0; for (int n : ids) mff(n); g.FeedForward(list, clear); check_calls("forward pass of some nodes", 0); check_values("forward pass of some nodes"); count("probe.partial_passes"); break; }
      case 8: case 9: { if (!did_ff) break; bool clear = q.chance(2, 3); for (int n : ids) if (clear) bpv[(size_t)n] = 0; bool all = true; for (int n = 0; n < N; n++) all &= ff[(size_t)n] != 0; if (!all) break; for (int n : ids) mbp(n); g.BackPropagate(list, clear); check_calls("backward pass of some nodes", 1); check_seen("backward pass of some nodes"); count("probe.partial_passes"); break; }
      case 10: { for (int n = 0; n < N; n++) { int gain = 0; for (int j = 0; j < sp[(size_t)n].outs; j++) for (auto& u : uses[(size_t)n * 3 + (size_t)j]) gain += u[0] * 3 + 1; expect.push_back({2, n, gain}); } g.InitializeWeights(); std::fill(bpv.begin(), bpv.end(), 0); check_calls("weight initialisation", 2); break; }
      default: {
        SIM_CHECK(g.IsComplete(), "complete", "a complete network is reported as incomplete"); g.Initialize(); SIM_CHECK(log.v.empty(), "initialised-twice", "initialising again evaluates nodes");
        std::vector<CombinedTensor*> ps, want; g.GetParameters(ps); for (int n : order) if (l[(size_t)n]->par) want.push_back(l[(size_t)n]->par); SIM_CHECK(ps == want, "parameters", "the parameters of the network are not those of its nodes in the order they were added");
        std::ostringstream o; g.SerializeParameters(o); std::vector<HT> ht; SIM_CHECK(ht_decode_stream(o.str(), ht) && ht.size() == want.size(), "parameters", "the serialised parameters are incomplete"); for (size_t i = 0; i < want.size(); i++) SIM_CHECK(!memcmp(ht[i].d.data(), want[i]->data.data_ptr_const(), ht[i].d.size() * 4), "parameters", "serialised parameter %zu is wrong", i);
        size_t edges = 0, conns = 0; std::ostringstream gr; g.PrintGraph(gr); std::string t = gr.str(); for (size_t a = 0; (a = t.find(" -> ", a)) != std::string::npos; a++) edges++; for (auto* n : g.GetNodes()) conns += n->input_connections.size(); SIM_CHECK(edges == conns, "print", "the printed graph has %zu edges instead of %zu", edges, conns);
        size_t st = 0; bool on = q.chance(1, 2); g.SetStatLayersEnabled(on); for (int n = 0; n < N; n++) if (sp[(size_t)n].kind == 3) { st++; SIM_CHECK(((StatProbe*)l[(size_t)n])->disabled == !on, "statistics", "statistics layer %d is not switched %s", n, on ? "on" : "off"); } SIM_CHECK(st == g.GetStatNodes().size(), "statistics", "wrong number of statistics nodes");
        break; }
    }
  }
  // incomplete networks are noticed
  if (N > 2) {
    Rng q(seed * 3 + 1); int n = (int)q.below((uint64_t)N); auto& c = node[(size_t)n]->input_connections; if (!c.empty()) { NetGraphConnection keep = c[0]; switch (q.below(3)) { case 0: c[0].node = nullptr; break; case 1: c[0].buffer = 17; break; default: { Spec s; s.outs = 1; Probe* q2 = new Probe(99, s, sh, {false}, {}, nullptr); NetGraphNode* stranger = new NetGraphNode(q2); q2->describe(stranger->output_buffers); c[0].node = stranger; c[0].buffer = 0; } } SIM_CHECK(!g.IsComplete(), "complete", "a network with a broken connection is reported as complete"); c[0] = keep; }
  }
  return 0;
}
static void exec(const Plan& p) {
  g_sh->life = 0; LifeResult r = run_life([&] { return life(p); });
  SIM_CHECK(!r.hung && !r.unsafe && r.exited && r.code == 0, "run-failed", "%s %s", r.ending().c_str(), r.report.c_str());
}
Property sim::g_property = {"J01", gen, exec,
  "non-trivial: at least one pass over a network was compared with the model; distinct = distinct (network, order, history)",
  "hash over network, insertion order and operations",
  {"NetGraph, NetGraphNode, GradientAccumulationLayer; all layers in networks of real layers"}, {"layers (probes with exact integer arithmetic) in networks of probes", "heap contents"},
  {"partial passes list the accumulation nodes of the nodes they list"}, {"insertion orders", "histories of complete and partial passes", "uninitialised memory contents"}, 40000, 2000000, 40, 900};
