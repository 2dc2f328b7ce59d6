// VARIANT: asan
// Every statistics report covers exactly what was recorded since the previous one.
#include "world.h"
#include <cmath>
using namespace sim;
using namespace Conv;

// ---------------------------------------------------------------- generation
static void gen(Rng& r, int tier, uint64_t, Plan& p) {
  bool trainer = r.chance(1, 2); p.env["trainer"] = trainer; p.env["seed"] = (long long)r.below(1 << 30); p.env["sinks"] = r.range(1, 3); p.env["fill"] = r.range(0, 4);
  if (!trainer) for (int i = (int)r.range(0, 3); i > 0; i--) p.add("early", {(long long)r.below(6)});
  int n = (int)r.range(3, tier ? 60 : 25);
  for (int i = 0; i < n; i++) switch (r.below(trainer ? 12 : 10)) {
    case 0: p.add("start"); break;
    case 1: p.add("stop"); break;
    case 2: p.add(r.chance(1, 2) ? "generate" : "snapshot"); break;
    case 3: p.add(r.chance(1, 2) ? "reset" : "snapshot"); break;
    case 4: p.add(r.chance(1, 2) ? "experiment" : "init"); break;
    case 5: p.add("work", {(long long)r.below(4) ? r.range(1, 2000000000) : r.range(1, 4000000000000ll)}); break;
    case 6: p.add("jump", {r.range(-4000000000000ll, 4000000000000ll)}); break;
    case 7: case 8: case 9: if (!trainer) { for (int k = (int)r.range(1, 5); k > 0; k--) p.add("update", {(long long)r.below(12), r.range(-50, 50)}); break; } p.add("train", {r.range(1, 3), (long long)r.below(3), (long long)r.below(2)}); break;
    case 10: p.add("test", {(long long)r.below(3)}); break;
    default: if (r.chance(1, 2)) p.add("epoch", {(long long)r.below(40)}); else p.add("tstat", {(long long)r.below(2)}); break;
  }
}
// --------------------------------------------------------------------- model
struct Exp { double v; bool null; double tol; };
struct Acc { double sum = 0; long long n = 0; double last = 0, mx = -1e300; };
struct Model {
  int state = 0; long long iter = 0; int64_t ns = 0, open = 0; /* completed intervals, current interval */ long long epoch = 0; bool training = false; std::vector<Acc> acc;
  double loss = 0, loss_abs = 0, pix = 0, frames = 0; bool perf = false, qp = false; int users = 0; /* who ran since the last report */ long long first_its = 0; long long probe_n[2] = {0, 0}, probe[2] = {0, 0}; bool probe_null[2] = {true, true};
  void clear() { iter = 0; ns = 0; for (auto& a : acc) a = Acc(); loss = loss_abs = pix = frames = 0; perf = qp = false; users = 0; first_its = 0; for (int k = 0; k < 2; k++) { probe_n[k] = probe[k] = 0; probe_null[k] = true; } }
};
static Model M;
static int64_t g_sink_work = 0;
static void work(int64_t ns) { clock_advance(ns); if (M.state == 2) M.open += ns; }
struct Kind { int k; };
static std::vector<int> g_kinds;               // kinds of the custom statistics
static std::vector<StatDescriptor*> g_desc;    // in order of registration
static int g_expect = 0;                       // 0 no report, 1 report, 2 report followed by a reset
static long long g_seen = 0, g_due = 0;
static std::vector<std::string> g_log;         // what the sinks were told
static std::function<void()> g_before_report;  // completes the model at the end of an epoch
struct Sink : public StatSink {
  int id, of; std::vector<StatDescriptor*> descs; std::string exp; int inits = 0;
  Sink(int i, int n) : id(i), of(n) {}
  void Initialize(std::vector<StatDescriptor*>& d) override { descs = d; inits++; }
  void SetCurrentExperiment(std::string e) override { exp = e; g_log.push_back(strf("%d experiment %s", id, e.c_str())); }
  void Process(HardcodedStats& hc, std::vector<Stat*>& st) override {
    if (id == 0) { SIM_CHECK(g_expect != 0, "unexpected-report", "a report is generated although none was asked for"); if (g_before_report) g_before_report(); if (g_expect == 2) { M.ns += M.open; M.open = 0; } }
    g_log.push_back(strf("%d report", id));
    SIM_CHECK(inits == 1, "initialised", "sink %d is initialised %d times before a report", id, inits);
    SIM_CHECK(st.size() == descs.size() && descs == g_desc, "report-shape", "a report has %zu values for %zu statistics", st.size(), g_desc.size());
    double secs = (double)M.ns * 1e-9;
    SIM_CHECK(std::abs(hc.seconds_elapsed - secs) <= 1e-5 + 1e-9 * secs, "elapsed", "a report covers %.9f seconds; %.9f were recorded", hc.seconds_elapsed, secs);
    SIM_CHECK((long long)hc.iterations == M.iter, "iterations", "a report counts %lu iterations instead of %lld", hc.iterations, M.iter);
    SIM_CHECK((long long)hc.epoch == M.epoch, "epoch", "a report names epoch %lu instead of %lld", hc.epoch, M.epoch);
    SIM_CHECK(hc.is_training == M.training, "mode", "a report says it is about %s", hc.is_training ? "training" : "testing");
        auto check = [&](size_t i, Exp e) { SIM_CHECK(st[i]->is_null == e.null, "value", "statistic %zu (%s) is %s instead of %s", i, descs[i]->description.c_str(), st[i]->is_null ? "empty" : strf("%g", st[i]->value).c_str(), e.null ? "empty" : strf("%g", e.v).c_str()); if (!e.null && std::isfinite(e.v)) SIM_CHECK(std::abs(st[i]->value - e.v) <= e.tol * (1 + std::abs(e.v)), "value", "statistic %zu (%s) is %.10g instead of %.10g", i, descs[i]->description.c_str(), st[i]->value, e.v); };
    for (size_t i = 0, c = 0; i < descs.size(); i++) {
      const std::string& d = descs[i]->description;
      if (d.compare(0, 6, "custom") == 0) {
        Acc& a = M.acc[c]; double sec = (double)M.ns * 1e-9; Exp e{0, a.n == 0, 1e-9};
        switch (g_kinds[c]) { case 0: e.v = a.sum; break; case 1: e.v = a.last; break; case 2: e.v = a.mx; break; case 3: e = {(double)a.n, false, 0}; break; case 4: e.v = sec > 1e-3 ? a.sum / sec : NAN; e.tol = 2e-2; break; case 5: e.v = a.sum / (double)M.iter; e.null = a.n == 0 || M.iter == 0; break; default: e = {0, false, 0}; } check(i, e); c++;
      }
      else if (d == "probe 0" || d == "probe 1") { int k = d[6] - '0'; check(i, {(double)M.probe[k], M.probe_null[k], 0}); }
      else if (d == "Average Aggregate Loss") check(i, {M.loss / (double)M.iter, M.iter == 0, 2e-4});
      else if (d == "Pixel Throughput") check(i, {secs > 1e-3 ? M.pix / secs : NAN, !M.perf, 2e-2});
      else if (d == "Frame Rate") check(i, {secs > 1e-3 ? M.frames / secs : NAN, !M.perf, 2e-2});
    }
    if (M.qp && M.iter > 0 && (M.users == 1 || M.users == 2)) { double s = 0; int n = 0; for (size_t i = 0; i < descs.size(); i++) if (descs[i]->description.find("QuickProp Case") == 0 && !st[i]->is_null) { s += st[i]->value; n++; } double want = 100.0 * (double)(M.iter - M.first_its) / (double)M.iter; SIM_CHECK(n == 4 && std::abs(s - want) < 1e-6 * want + 1e-9, "value", "the QuickProp cases add up to %.9g%% instead of %.9g%%", s, want); }
    if (g_sink_work) { clock_advance(g_sink_work); if (M.state == 2 && g_expect == 1) M.open += g_sink_work; }
    count("probe.reports"); ev("report", (uint64_t)id, (uint64_t)hc.iterations);
    if (id == of - 1) { g_seen++; if (g_expect == 2) { int s = M.state; M.clear(); M.state = s; } }
  }
};
static StatDescriptor* custom(int i, int kind) {
  StatDescriptor* d = new StatDescriptor; d->description = strf("custom %d", i); d->nullable = true;
  if (kind == 6) return d;   // the documented defaults
  d->init_function = [](Stat& s) { s.is_null = true; s.value = 0; };
  d->output_function = [](HardcodedStats&, Stat& s) { return s; };
  switch (kind) {
    case 0: d->update_function = [](Stat& s, double v) { s.value += v; s.is_null = false; }; break;
    case 1: d->update_function = [](Stat& s, double v) { s.value = v; s.is_null = false; }; break;
    case 2: d->update_function = [](Stat& s, double v) { s.value = s.is_null ? v : std::max(v, s.value); s.is_null = false; }; break;
    case 3: d->init_function = [](Stat& s) { s.is_null = false; s.value = 0; }; d->update_function = [](Stat& s, double) { s.value += 1; }; break;
    case 4: d->update_function = [](Stat& s, double v) { s.value += v; s.is_null = false; }; d->output_function = [](HardcodedStats& h, Stat& s) { Stat o = s; o.value = s.value / h.seconds_elapsed; return o; }; break;
    default: d->update_function = [](Stat& s, double v) { s.value += v; s.is_null = false; }; d->output_function = [](HardcodedStats& h, Stat& s) { Stat o = s; if (!h.iterations) o.is_null = true; else o.value = s.value / (double)h.iterations; return o; }; break;
  }
  return d;
}
// ------------------------------------------------------- a network of probes
struct Feed { int training = 0; bool testing_mode = false; long long ff = 0, bp = 0, ff_test = 0, bp_test = 0, loss_calls = 0, stat_calls = 0, updates = 0; bool net_testing = false; std::vector<double> losses; const NetStatus* net = nullptr; };
struct Cfg { int lw, lh, batch, train, test; double p; int64_t delay; };
struct In : public Layer, public TrainingLayer {
  Cfg c; Feed& f; In(const Cfg& c_, Feed& f_) : Layer(""), c(c_), f(f_) {}
  void SetTestingMode(bool t) override { f.testing_mode = t; }
  unsigned int GetSamplesInTrainingSet() override { return (unsigned)c.train; } unsigned int GetSamplesInTestingSet() override { return (unsigned)c.test; }
  unsigned int GetBatchSize() override { return (unsigned)c.batch; } datum GetLossSamplingProbability() override { return (datum)c.p; }
  unsigned int GetLabelWidth() override { return (unsigned)c.lw; } unsigned int GetLabelHeight() override { return (unsigned)c.lh; }
  bool CreateOutputs(const std::vector<CombinedTensor*>&, std::vector<CombinedTensor*>& o) override { o.push_back(new CombinedTensor(1, 1, 1, 1)); return true; }
  bool Connect(const std::vector<CombinedTensor*>&, const std::vector<CombinedTensor*>& o, const NetStatus* n) override { f.net = n; o[0]->data.Clear(1); return true; }
  void FeedForward() override { work(c.delay); f.ff++; if (f.testing_mode) f.ff_test++; SIM_CHECK(f.net->IsTesting() == f.testing_mode, "mode", "the network is in %s mode while its input is in %s mode", f.net->IsTesting() ? "testing" : "training", f.testing_mode ? "testing" : "training"); }
  void BackPropagate() override {} std::string GetLayerDescription() override { return "In"; }
  void CreateBufferDescriptors(std::vector<NetGraphBuffer>& b) override { NetGraphBuffer x; x.description = "o"; b.push_back(x); }
};
struct Loss : public Layer, public LossFunctionLayer {
  Feed& f; int k; Rng r; CombinedTensor* out = nullptr; int64_t delay; bool last;
  Loss(Feed& f_, int k_, uint64_t seed, int64_t d, bool l) : Layer(""), f(f_), k(k_), r(seed), delay(d), last(l) { for (int i = 0; i < k % 3; i++) { CombinedTensor* t = new CombinedTensor(1, 1, 1, (size_t)(1 + i * 2)); t->data.Clear(0.25f); t->delta.Clear(0); parameters_.push_back(t); } }
  bool CreateOutputs(const std::vector<CombinedTensor*>&, std::vector<CombinedTensor*>&) override { return true; }
  bool Connect(const std::vector<CombinedTensor*>&, const std::vector<CombinedTensor*>&, const NetStatus*) override { return true; }
  void FeedForward() override { work(delay); }
  void BackPropagate() override { work(delay); if (last) f.bp++; SIM_CHECK(!f.testing_mode, "mode", "gradients are computed while testing"); for (auto* p : parameters_) for (size_t e = 0; e < p->delta.elements(); e++) p->delta[e] = r.f(-1, 1); }
  datum CalculateLossFunction() override { double v = (double)r.range(0, 4000) / 16; f.losses.push_back(v); return (datum)v; }
  std::string GetLayerDescription() override { return "Loss"; } void CreateBufferDescriptors(std::vector<NetGraphBuffer>& b) override { (void)b; }
};
struct Probe : public Layer, public StatLayer {
  Feed& f; bool disabled = false; long long n = 0; StatDescriptor* d;
  Probe(Feed& f_, int k) : Layer(""), f(f_) { d = new StatDescriptor; d->description = strf("probe %d", k); d->nullable = true; d->init_function = [this](Stat& s) { s.is_null = true; s.value = 0; Reset(); }; d->update_function = [](Stat& s, double v) { s.value = v; s.is_null = false; }; System::stat_aggregator->RegisterStat(d); }
  void UpdateAll() override { f.updates++; System::stat_aggregator->Update(d->stat_id, (double)n); }
  void Print(std::string, bool) override {} void Reset() override { n = 0; } void SetDisabled(bool x) override { disabled = x; }
  bool CreateOutputs(const std::vector<CombinedTensor*>&, std::vector<CombinedTensor*>&) override { return true; }
  bool Connect(const std::vector<CombinedTensor*>&, const std::vector<CombinedTensor*>&, const NetStatus*) override { return true; }
  void FeedForward() override { if (!disabled) n++; } void BackPropagate() override {}
  std::string GetLayerDescription() override { return "Probe"; } void CreateBufferDescriptors(std::vector<NetGraphBuffer>& b) override { (void)b; }
};
static int life(const Plan& p) {
  alloc_fill((int)p.get("fill") % 5, 9); clock_seed((uint64_t)p.get("seed"), 1447900000000000000ll, 1);
  system_init(); Rng r((uint64_t)p.get("seed")); const bool trainer = p.get("trainer");
  StatAggregator* ag = trainer ? System::stat_aggregator : new StatAggregator(); M = Model(); M.epoch = 0;
  int ns = (int)std::max(1LL, std::min(p.get("sinks", 1), 3LL)); std::vector<Sink*> sinks; for (int i = 0; i < ns; i++) { sinks.push_back(new Sink(i, ns)); SIM_CHECK(ag->RegisterSink(sinks.back()) == (unsigned)i, "registration", "sink %d gets another number", i); }
  g_sink_work = r.chance(1, 2) ? (int64_t)r.range(1, 5000000000ll) : 0;
  auto reg_custom = [&](int n) { for (int i = 0; i < n; i++) { int k = (int)r.below(7); StatDescriptor* d = custom((int)g_kinds.size(), k); unsigned id = ag->RegisterStat(d); SIM_CHECK((trainer || id == g_desc.size()) && d->stat_id == id, "registration", "statistic %zu gets number %u", g_desc.size(), id); g_desc.push_back(d); g_kinds.push_back(k); } };
  reg_custom((int)r.range(trainer ? 0 : 1, 6));
  // trainer mode
  Feed f[2]; Cfg cfg[2]; NetGraph* g[2] = {nullptr, nullptr}; Trainer* tr[2] = {nullptr, nullptr}; TrainerSettings ts[2]; Probe* pr[2] = {nullptr, nullptr}; long long ep[2] = {0, 0}; bool first[2] = {true, true}, tstat[2]; int nl[2]; int nets = trainer ? (r.chance(1, 2) ? 2 : 1) : 0;
  for (int k = 0; k < nets; k++) {
    cfg[k] = {(int)r.range(1, 5), (int)r.range(1, 5), (int)r.range(1, 4), (int)r.range(1, 6), (int)r.range(0, 7), k || r.chance(1, 2) ? 1.0 : 0.5, r.range(0, 900000000)};
    g[k] = new NetGraph(); In* in = new In(cfg[k], f[k]); NetGraphNode* inn = new NetGraphNode(in); inn->is_input = true; g[k]->AddNode(inn);
    nl[k] = (int)r.range(1, 3); for (int i = 0; i < nl[k]; i++) { Loss* l = new Loss(f[k], (int)(i == 0 ? 1 + 3 * r.below(2) : r.below(4)), r.u64(), r.range(0, 300000000), i == nl[k] - 1); NetGraphNode* n = new NetGraphNode(l); n->input_connections.push_back(NetGraphConnection(inn, 0, true)); n->is_output = i == 0; g[k]->AddNode(n); }
    if (r.chance(2, 3)) { pr[k] = new Probe(f[k], k); g_desc.push_back(pr[k]->d); NetGraphNode* n = new NetGraphNode(pr[k]); n->input_connections.push_back(NetGraphConnection(inn, 0, false)); g[k]->AddNode(n); }
    SIM_CHECK(g[k]->IsComplete(), "harness", "incomplete network"); g[k]->Initialize();
    ts[k].optimization_method = r.chance(1, 2) ? QUICKPROP : GRADIENT_DESCENT; ts[k].sbatchsize = (unsigned)r.range(1, 3); ts[k].pbatchsize = (unsigned)cfg[k].batch; ts[k].iterations = r.chance(1, 4) ? 0 : (unsigned)r.range(1, 5); ts[k].stats_during_training = tstat[k] = r.chance(1, 2); ts[k].learning_rate = 0.01f;
    tr[k] = new Trainer(*g[k], ts[k]);
  }
  if (trainer) reg_custom((int)r.range(0, 3));
  // the statistics of trainers and layers are registered by them; learn the order from the first sink
  for (auto& s : p.steps) if (s.op == "early" && !trainer) { where("early %lld", s.arg(0)); switch (s.arg(0) % 6) { case 0: ag->StartRecording(); break; case 1: ag->StopRecording(); break; case 2: ag->Snapshot(); break; case 3: ag->Reset(); break; case 4: ag->Update(0, 3); break; default: ag->SetCurrentExperiment("early"); } }
  SIM_CHECK(g_log.empty(), "unexpected-report", "sinks are used before the statistics are initialised");
  ag->Initialize(); M.state = 1; M.acc.resize(g_kinds.size());
  if (trainer) { // custom statistics and probes keep their relative order; each descriptor appears exactly once
    std::vector<StatDescriptor*> known, seen = sinks[0]->descs; for (auto* d : seen) for (auto* q : g_desc) if (d == q) known.push_back(d); SIM_CHECK(known.size() == g_desc.size(), "registration", "%zu of %zu statistics are known to the sinks", known.size(), g_desc.size());
    for (size_t i = 0; i < seen.size(); i++) { SIM_CHECK(seen[i]->stat_id == i, "registration", "statistic %zu has number %u", i, seen[i]->stat_id); for (size_t j = i + 1; j < seen.size(); j++) SIM_CHECK(seen[i] != seen[j], "registration", "statistic %zu appears twice", i); }
    std::vector<StatDescriptor*> cs; std::vector<int> kinds; for (auto* d : seen) if (d->description.compare(0, 6, "custom") == 0) { cs.push_back(d); kinds.push_back(g_kinds[(size_t)atoi(d->description.c_str() + 7)]); }
    g_kinds = kinds; g_desc = seen;
  }
  auto log_is = [&](const char* op, std::vector<std::string> want) { SIM_CHECK(g_log == want, "sinks", "%s: the sinks are told %zu things instead of %zu, or others", op, g_log.size(), want.size()); g_log.clear(); };
  auto all = [&](const std::string& s, int times = 1) { std::vector<std::string> v; for (int t = 0; t < times; t++) for (int i = 0; i < ns; i++) v.push_back(strf("%d %s", i, s.c_str())); return v; };
  for (auto* s : sinks) SIM_CHECK(s->inits == 1 && s->exp.size(), "initialised", "a sink is not initialised or not told the experiment");
  g_log.clear(); int ops = 0;
  for (auto& s : p.steps) {
    if (s.op == "early" || ops >= 120) continue; ops++; where("op %d %s", ops, s.op.c_str()); sched_ev(hash_bytes(s.op.data(), s.op.size()) + (uint64_t)M.state * 7 + (uint64_t)s.arg(0)); g_expect = 0; g_seen = 0; g_before_report = nullptr;
    if (s.op == "start") { ag->StartRecording(); if (M.state == 1) M.state = 2; }
    else if (s.op == "stop") { ag->StopRecording(); if (M.state == 2) { M.state = 1; M.ns += M.open; M.open = 0; } }
    else if (s.op == "generate") { g_expect = 1; int st = M.state; 
      ag->Generate(); M.state = st; SIM_CHECK(g_seen == 1, "missing-report", "%lld reports are generated instead of one", g_seen); log_is("generate", all("report")); continue; }
    else if (s.op == "snapshot") { g_expect = 2; bool rec = M.state == 2; ag->Snapshot(); SIM_CHECK(g_seen == rec, "missing-report", "a snapshot generates %lld reports", g_seen); log_is("snapshot", rec ? all("report") : std::vector<std::string>()); continue; }
    else if (s.op == "reset") { ag->Reset(); if (M.state == 1) M.clear(); }
    else if (s.op == "init") ag->Initialize();
    else if (s.op == "experiment") { ag->SetCurrentExperiment(strf("e%d", ops)); log_is("experiment", M.state == 1 ? all(strf("experiment e%d", ops)) : std::vector<std::string>()); continue; }
    else if (s.op == "work") work(s.arg(0) % 4000000000000ll);
    else if (s.op == "jump") { clock_jump(s.arg(0) % 4000000000000ll); }
    else if (s.op == "update") {
      size_t i = (size_t)s.arg(0); ag->Update(i < g_desc.size() ? g_desc[i]->stat_id : (unsigned)i, (double)s.arg(1) / 4);
      if (M.state == 2 && i < M.acc.size()) { Acc& a = M.acc[i]; double v = (double)s.arg(1) / 4; a.sum += v; a.n++; a.last = v; a.mx = std::max(a.mx, v); }
    }
    else if (s.op == "tstat" && trainer) { for (int k = 0; k < nets; k++) { tr[k]->SetStatsDuringTraining(s.arg(0) & 1); tstat[k] = s.arg(0) & 1; } }
    else if (s.op == "epoch" && trainer) { for (int k = 0; k < nets; k++) { ep[k] = s.arg(0); tr[k]->SetEpoch((unsigned)s.arg(0)); first[k] = true; } }
    else if ((s.op == "train" || s.op == "test") && trainer) {
      bool test = s.op == "test"; int k = test ? nets - 1 : (s.arg(2) && nets == 2 ? 1 : 0); if (test && s.arg(0) == 2) k = 0; Feed& q = f[k]; long long ff = q.ff, bp = q.bp, fft = q.ff_test, up = q.updates; q.losses.clear(); bool rec = M.state == 2;
      long long its = test ? cfg[k].test / cfg[k].batch + 1 : ts[k].iterations ? ts[k].iterations : cfg[k].train, epochs = test ? 1 : std::max(1LL, std::min(s.arg(0), 3LL)), sb = test ? 1 : ts[k].sbatchsize; bool snaps = !test && s.arg(1) > 0; const double N = (double)cfg[k].lw * cfg[k].lh * cfg[k].batch;
      size_t used = 0; bool fi = first[k];
      auto finish = [&] {   // one epoch or one test is over
        double sum = 0; for (size_t i = used; i < q.losses.size(); i++) sum += q.losses[i]; SIM_CHECK(q.losses.size() - used == (size_t)(its * sb * nl[k]), "passes", "the losses are computed %zu times instead of %lld", q.losses.size() - used, its * sb * nl[k]); used = q.losses.size();
        M.training = !test; M.users |= test ? 4 : 1 << k; if (rec) M.iter += its;
        if (rec) { M.loss += sum / (N * (double)sb * (test ? 1.0 : cfg[k].p)); M.pix += N * (double)(its * sb); M.frames += (double)(cfg[k].batch * its * sb); M.perf = true; }
        if (!test) { M.epoch = ep[k]++; if (ts[k].optimization_method == QUICKPROP) { if (rec) { M.qp = true; if (fi) M.first_its++; } fi = false; } }
        if (pr[k]) { if (test || tstat[k]) { M.probe_n[k] += its * sb; if (rec) { M.probe[k] = M.probe_n[k]; M.probe_null[k] = false; } } }
      };
      if (rec && snaps) { g_expect = 2; g_before_report = finish; }
      if (test) tr[k]->Test(); else tr[k]->Train((unsigned)epochs, snaps);
      if (!(rec && snaps)) { for (long long e = 0; e < epochs; e++) { // losses of all epochs are in one list
          size_t per = (size_t)(its * sb * nl[k]); SIM_CHECK(q.losses.size() == per * (size_t)epochs, "passes", "the losses are computed %zu times instead of %zu", q.losses.size(), per * (size_t)epochs); std::vector<double> keep = q.losses; q.losses.resize(used + per); finish(); q.losses = keep; } }
      SIM_CHECK(g_seen == (rec && snaps ? epochs : 0), "missing-report", "%lld reports are generated while training %lld epochs", g_seen, epochs);
      log_is(s.op.c_str(), rec && snaps ? all("report", (int)epochs) : std::vector<std::string>());
      SIM_CHECK(q.ff - ff == its * sb * epochs && q.bp - bp == (test ? 0 : its * sb * epochs) && q.ff_test - fft == (test ? its : 0), "passes", "%s: %lld forward (%lld testing) and %lld backward passes for %lld iterations of %lld", s.op.c_str(), q.ff - ff, q.ff_test - fft, q.bp - bp, its * epochs, sb);
      SIM_CHECK(!q.testing_mode, "mode", "the input layer is left in testing mode"); if (pr[k]) SIM_CHECK(q.updates - up == (test || tstat[k] ? epochs : 0), "passes", "statistics layers are asked %lld times for their values", q.updates - up);
      if (pr[k]) SIM_CHECK(!pr[k]->disabled, "mode", "statistics layers are left disabled");
      first[k] = fi; count(test ? "probe.tests" : "probe.epochs", (uint64_t)epochs); continue;
    }
    log_is(s.op.c_str(), {});
  }
  // a last report
  if (M.state == 2) { ag->StopRecording(); M.state = 1; M.ns += M.open; M.open = 0; } g_expect = 1; g_seen = 0; g_before_report = nullptr; ag->Generate(); SIM_CHECK(g_seen == 1, "missing-report", "no report is generated");
  return 0;
}
static void exec(const Plan& p) {
  g_sh->life = 0; g_kinds.clear(); g_desc.clear(); g_log.clear(); LifeResult r = run_life([&] { return life(p); });
  SIM_CHECK(!r.hung && !r.unsafe && r.exited && r.code == 0, "run-failed", "%s %s", r.ending().c_str(), r.report.c_str());
}
Property sim::g_property = {"G01", gen, exec,
  "non-trivial: at least one report was compared with the model; distinct = distinct histories of operations and recording states",
  "hash over operations, their arguments and the state of the recording",
  {"StatAggregator, Trainer (statistics, passes, modes), NetGraph"}, {"layers (probes that take simulated time and return scripted losses)", "sinks (they compare every report)", "clock"},
  {"a test doesn't start an epoch: reports on tests name the last trained epoch"}, {"wall clock jumps", "slow layers", "slow sinks", "uninitialised memory contents"}, 40000, 2000000, 40, 900};
