// VARIANT: asan
// TOOLS: trainNetwork
// Reported test results are those of the current parameters on the test set.
#include "session.h"
#include "world.h"
#include <sstream>
#include <cmath>
#include <cstring>
#include <sys/stat.h>
using namespace sim;
using namespace Conv;

static void gen(Rng& r, int tier, uint64_t, Plan& p) {
  p.env["toy"] = (long long)r.below(1 << 20);
  p.env["hybrid"] = r.chance(2, 3);
  int n = (int)r.range(2, tier ? 8 : 5);
  for (int i = 0; i < n; i++) switch (r.below(9)) {
    case 0: case 1: case 2: p.add("train", {(long long)r.range(1, 2), (long long)r.below(2)}); break;
    case 3: p.add("reset"); break;
    case 4: p.add("load", {(long long)r.below(2), 0}); break;
    case 5: p.add("load", {(long long)r.below(2), (long long)r.range(1, 6)}); break;
    case 6: p.add("keep", {(long long)r.below(2)}); break;
    case 7: p.add("tstat", {(long long)r.below(2)}); break;
    default: p.add("test"); break;
  }
  p.add("test");
  if (r.chance(3, 4)) return;
  DryInfo d = dry_run(p);
  static const int kinds[] = {F_EIO_WRITE, F_ENOSPC, F_SHORT_WRITE, F_OPEN_FAIL, F_EIO_READ, F_SHORT_READ, F_EINTR_READ, F_CLOSE_FAIL};
  for (int i = (int)r.range(1, 2); i > 0; i--) { long long m = (long long)d.io[0]; p.add("fault", {0, kinds[r.below(sizeof kinds / sizeof *kinds)], r.range(1, m), (long long)r.below(4000)}); }
}
// ------------------------------------------------------------------ oracle
struct Want { double lps = 0, agg = 0, total = 0; std::vector<std::vector<double>> conf; std::vector<double> tp, fp, tn, fn; };
static int up64(int v) { return (v + 63) / 64 * 64; }
struct Oracle {
  Toy t; int batch, W = 0, H = 0; std::unique_ptr<std::istringstream> in; NetGraph* g; Tensor data, label, helper, weight; NetGraphNode* out = nullptr; std::vector<CombinedTensor*> params;
  Oracle(const Toy& toy, int b) : t(toy), batch(b) {
    system_init();
    for (auto* v : {&t.test, &t.train}) { if (v == &t.train && t.hybrid) continue; for (auto& x : *v) { W = std::max(W, (int)x.w); H = std::max(H, (int)x.h); } }
    W = up64(W); H = up64(H);
    data.Resize(1, W, H, t.in_maps); label.Resize(1, W, H, t.label_maps); helper.Resize(1, W, H, 2); weight.Resize(1, W, H, 1);
    in.reset(new std::istringstream(t.net_text));
    ConfigurableFactory* f = new ConfigurableFactory(*in, 1, false);
    g = new NetGraph(); NetGraphNode* n = new NetGraphNode(new InputLayer(data, label, helper, weight)); n->is_input = true; g->AddNode(n);
    if (!f->AddLayers(*g, NetGraphConnection(n), t.classes, false)) SIM_FAIL("oracle", "cannot build the reference network");
    g->Initialize(); g->SetIsTesting(true);
    out = g->GetOutputNodes().at(0); g->GetParameters(params);
  }
  // reference values of the localised error
  double lerr(int x, int y, int w, int h) const { return t.kitti ? (double)KITTIData::LocalizedError(x, y, w, h) : 1.0; }
  Want eval(const std::vector<HT>& model) {
    if (model.size() != params.size()) SIM_FAIL("model-shape", "saved model has %zu tensors, the network %zu", model.size(), params.size());
    for (size_t i = 0; i < params.size(); i++) {
      if (model[i].d.size() != params[i]->data.elements()) SIM_FAIL("model-shape", "tensor %zu of the saved model has %zu elements, the network %zu", i, model[i].d.size(), params[i]->data.elements());
      memcpy(params[i]->data.data_ptr(), model[i].d.data(), model[i].d.size() * 4);
    }
    Want w; int K = t.classes; w.conf.assign(K, std::vector<double>(K, 0)); w.tp.assign(13, 0); w.fp = w.tn = w.fn = w.tp;
    double loss = 0; size_t N = t.test.size() / 2;
    for (size_t i = 0; i < N; i++) {
      const HT &im = t.test[2 * i], &lb = t.test[2 * i + 1];
      data.Clear(); label.Clear(); helper.Clear(); weight.Clear();
      for (int y = 0; y < (int)im.h; y++) for (int x = 0; x < (int)im.w; x++) {
        for (int m = 0; m < t.in_maps; m++) *data.data_ptr(x, y, m) = im.at(x, y, m);
        *helper.data_ptr(x, y, 0) = (float)x / (float)(im.w - 1); *helper.data_ptr(x, y, 1) = (float)y / (float)(im.h - 1);
      }
      g->FeedForward();
      const Tensor& o = out->output_buffers[0].combined_tensor->data;
      for (int y = 0; y < (int)im.h; y++) for (int x = 0; x < (int)im.w; x++) {
        int act = 0, cls = 0;
        for (int m = 1; m < t.label_maps; m++) { if (lb.at(x, y, m) > lb.at(x, y, act)) act = m; if (*o.data_ptr_const(x, y, m, 0) > *o.data_ptr_const(x, y, cls, 0)) cls = m; }
        double wt = t.weights[act] * lerr(x, y, im.w, im.h);
        for (int m = 0; m < t.label_maps; m++) { double d = (double)*o.data_ptr_const(x, y, m, 0) - lb.at(x, y, m); loss += d * d * wt * 0.5; }
        w.conf[cls][act] += wt; w.total += wt;
        if (K == 1) for (int k = 0; k < 13; k++) { float th = -1.f + (2.f / 12.f) * k; bool s = *o.data_ptr_const(x, y, 0, 0) > th, e = lb.at(x, y, 0) > 0; (s ? (e ? w.tp : w.fp) : (e ? w.fn : w.tn))[k] += wt; }
      }
    }
    double it = (double)(N / batch + 1);
    w.lps = loss / (it * (double)W * H * batch);
    return w;
  }
};
static bool value(const std::string& s, const char* label, double& v) {
  // several layers print "lps:"; the one of the classification loss is meant
  size_t from = label[0] == ' ' ? s.find("Square Loss Layer") : 0; if (from == std::string::npos) return false;
  size_t q = s.find(label, from); if (q == std::string::npos) return false;
  q += strlen(label); while (q < s.size() && (s[q] == ' ' || s[q] == ':')) q++;
  char* e; v = strtod(s.c_str() + q, &e); return e != s.c_str() + q;
}
static bool close_to(double a, double b, double rel = 2e-4) { return std::abs(a - b) <= rel * std::max(std::abs(a), std::abs(b)) + 1e-6; }

static void exec(const Plan& p) {
  faults_from_plan(p);
  ToyOptions o; o.hybrid = (int)p.get("hybrid"); Toy toy = make_toy((uint64_t)p.get("toy"), o); write_toy(toy); mkdir("csv", 0755);
  std::vector<std::string> cmd; std::vector<std::pair<int, int>> tests;   // (save command, test command), 1-based
  int sv = 0;
  auto snap = [&](bool first) { cmd.push_back(strf("save file=at%d.Tensor", sv++)); (void)first; return (int)cmd.size(); };
  for (auto& s : p.steps) {
    if (s.op == "train") cmd.push_back(strf("train epochs=%lld%s", std::max(1LL, std::min(s.arg(0), 3LL)), s.arg(1) ? " no_snapshots=1" : ""));
    else if (s.op == "reset") cmd.push_back("reset");
    else if (s.op == "keep") cmd.push_back(strf("save file=keep%lld.Tensor", s.arg(0) & 1));
    else if (s.op == "load") cmd.push_back(strf("load file=keep%lld.Tensor%s", s.arg(0) & 1, s.arg(1) ? strf(" last_layer=%lld", s.arg(1)).c_str() : ""));
    else if (s.op == "tstat") cmd.push_back(strf("tstat enable=%lld", s.arg(0) & 1));
    else if (s.op == "test") {
      // the parameters are read back either before or after the test
      if (sv % 2) { cmd.push_back("test"); int t = (int)cmd.size(); tests.push_back({snap(false), t}); }
      else { int c = snap(true); cmd.push_back("test"); tests.push_back({c, (int)cmd.size()}); }
    }
  }
  where("session"); g_sh->life = 0;
  Session s = run_session(cmd);
  SIM_CHECK(!s.r.unsafe, "memory-error", "session: %s: %s", s.r.ending().c_str(), s.r.out.substr(0, 1500).c_str());
  bool faulted = false; for (auto& st : p.steps) if (st.op == "fault") faulted = true;
  SIM_CHECK(faulted || (s.r.exited && s.r.code == 0), "fault-free-session-failed", "session ended with %s: %s", s.r.ending().c_str(), s.r.out.substr(s.r.out.size() > 400 ? s.r.out.size() - 400 : 0).c_str());
  SIM_CHECK(!s.r.hung, "no-progress", "session did not end");
  where("oracle"); g_sh->life = 1;
  int batch = toy.hybrid ? 1 : toy.pbatch;
  LifeResult lr = run_life([&] {
    Oracle orc(toy, batch);
    for (size_t k = 0; k < tests.size(); k++) {
      int cs = tests[k].first, ct = tests[k].second;
      if (!s.acked(cs) || !s.acked(ct) || s.err(cs) || s.err(ct)) { count("probe.interrupted"); continue; }
      std::vector<HT> model; std::string f = strf("at%zu.Tensor", k);
      if (!ht_decode_stream(slurp(f), model)) SIM_FAIL("model-unreadable", "file written by acknowledged command %d (save) is not a sequence of tensors", cs);
      bool finite = true; for (auto& m : model) for (float v : m.d) if (!(std::abs(v) < 1e4f)) finite = false;
      if (!finite) { count("probe.diverged"); continue; }
      Want w = orc.eval(model);
      std::string m = metrics(s.seg[ct]); double v;
      auto need = [&](const char* label, double want, double rel) {
        if (!value(m, label, v)) SIM_FAIL("metric-missing", "test %zu printed no '%s': [%s]", k, label, m.substr(0, 900).c_str());
        if (!close_to(v, want, rel)) SIM_FAIL("wrong-metric", "test %zu (%s mode, command %d) printed %s %g; the saved parameters give %g: [%s]", k, toy.hybrid ? "hybrid" : "FCN", ct, label, v, want, m.substr(0, 700).c_str());
      };
      need(" lps:", w.lps, 3e-4);
      // the aggregate loss averages the same quantity
      need("Average Aggregate Loss:", w.lps, 3e-4);
      if (toy.classes > 1) {
        double right = 0, arr = 0, iou = 0; int cc = 0; int K = toy.classes;
        for (int c = 0; c < K; c++) {
          right += w.conf[c][c]; double col = 0, row = 0; for (int q = 0; q < K; q++) { col += w.conf[q][c]; row += w.conf[c][q]; }
          if (col > 0) { arr += w.conf[c][c] / col; cc++; }
          double u = col + row - w.conf[c][c]; if (u > 0) iou += w.conf[c][c] / u;
        }
        if (w.total >= 1) { need("Overall Recognition Rate:", 100 * right / w.total, 1e-4); need("Average Recognition Rate:", 100 * arr / cc, 1e-4); need("Average Intersection over Union:", 100 * iou / K, 1e-4); }
      } else {
        // any threshold whose F1 is (up to rounding) the best explains the printed values
        double best = -2; std::vector<double> f1(13, -1);
        for (int q = 0; q < 13; q++) { double pp = w.tp[q] + w.fp[q], rr = w.tp[q] + w.fn[q]; if (pp > 0 && rr > 0) f1[q] = w.tp[q] > 0 ? 2 * (w.tp[q] / pp) * (w.tp[q] / rr) / (w.tp[q] / pp + w.tp[q] / rr) : 0; best = std::max(best, f1[q]); }
        if (best > 0) {
          bool ok = false; double pf = 0, pa = 0; bool have = value(m, "F1 Value:", pf) && value(m, "Accuracy:", pa);
          SIM_CHECK(have, "metric-missing", "test %zu printed no F1 value or accuracy: [%s]", k, m.substr(0, 900).c_str());
          for (int q = 0; q < 13; q++) if (f1[q] > best - 1e-4 && close_to(pf, 100 * f1[q], 1e-3) && close_to(pa, 100 * (w.tp[q] + w.tn[q]) / w.total, 1e-3)) {
            double a; bool good = true;
            if (value(m, "Precision:", a)) good &= close_to(a, 100 * w.tp[q] / (w.tp[q] + w.fp[q]), 1e-3);
            if (value(m, "Recall:", a)) good &= close_to(a, 100 * w.tp[q] / (w.tp[q] + w.fn[q]), 1e-3);
            if (value(m, "False Negative Rate:", a)) good &= close_to(a, 100 * w.fn[q] / (w.tp[q] + w.fn[q]), 1e-3);
            if (w.fp[q] + w.tn[q] > 0 && value(m, "False Positive Rate:", a)) good &= close_to(a, 100 * w.fp[q] / (w.fp[q] + w.tn[q]), 1e-3);
            ok |= good;
          }
          SIM_CHECK(ok, "wrong-metric", "test %zu (%s mode) printed F1 %g accuracy %g; no threshold of the saved parameters gives these values (best F1 %g): [%s]", k, toy.hybrid ? "hybrid" : "FCN", pf, pa, 100 * best, m.substr(0, 700).c_str());
        }
      }
      count("probe.tests_checked"); ev("test", (uint64_t)k, hash_bytes(m.data(), m.size())); sched_ev(hash_bytes(m.data(), m.size()));
    }
    return 0;
  });
  SIM_CHECK(lr.exited && lr.code == 0, "oracle-failed", "reference evaluation ended with %s: %s", lr.ending().c_str(), (lr.report + lr.err).substr(0, 1500).c_str());
  for (auto& c : cmd) sched_ev(hash_bytes(c.data(), c.size()));
}
Property sim::g_property = {"F01", gen, exec,
  "non-trivial: at least one test command was compared, or the session ended with a reported fault",
  "hash over commands, printed test results and faults that fired",
  {"tools/trainNetwork.cpp", "NetGraph", "layers of the generated network", "datasets", "statistics layers", "Trainer::Test"}, {"disk (scratch directory behind an interposed libc)", "clock (simulated)"},
  {"network outputs are computed by the real layers (trusted: N02) on inputs assembled by the harness; loss, weighting and statistics are computed by the harness"}, {}, 4500, 60000, 45, 900};
