// VARIANT: asan
// Parameter updates against an independent reference optimiser, over histories.
#include "world.h"
#include "toy.h"
#include <cmath>
using namespace sim;
using namespace Conv;

// steps: train e | test | reset | weights | epoch n | stats b
static void gen(Rng& r, int tier, uint64_t, Plan& p) {
  p.env["toy"] = (long long)r.below(1 << 20);
  p.env["start"] = r.chance(1, 3) ? (long long)r.below(50) : 0;
  p.env["opt"] = (long long)r.below(1 << 20);      // perturbation of the training settings
  int n = (int)r.range(2, tier ? 12 : 7);
  for (int i = 0; i < n; i++) switch (r.below(9)) {
    case 0: case 1: case 2: case 3: p.add("train", {(long long)r.range(1, 3)}); break;
    case 4: p.add("test"); break;
    case 5: p.add("reset"); break;
    case 6: p.add("epoch", {(long long)r.below(r.chance(1, 3) ? 2000 : 6)}); break;
    case 7: p.add("weights", {(long long)r.below(1 << 20)}); break;
    default: p.add("stats", {(long long)r.below(2)}); break;
  }
  p.add("train", {2});
}
struct Ref {           // the reference optimiser, written from the documentation of the update rules
  World w; TrainerSettings s; unsigned epoch = 0; bool first = true; bool doubtful = false;
  std::vector<std::vector<double>> last_step, last_slope, err_step, err_sum;   // err_*: bounds on what rounding can change (QuickProp)
  void forget() { for (auto& v : last_step) for (auto& x : v) x = 0; for (auto& v : last_slope) for (auto& x : v) x = 0; for (auto& v : err_step) for (auto& x : v) x = 0; first = true; }
  void init() { for (auto* p : w.params) { last_step.emplace_back(p->data.elements(), 0.0); last_slope.emplace_back(p->data.elements(), 0.0); err_step.emplace_back(p->data.elements(), 0.0); err_sum.emplace_back(p->data.elements(), 0.0); } }
  void run_epoch(const std::vector<double>& llr) {
    unsigned its = s.iterations == 0 ? w.input->GetSamplesInTrainingSet() : s.iterations;
    double N = (double)w.input->GetLabelWidth() * w.input->GetLabelHeight() * w.input->GetBatchSize();
    w.graph->SetIsTesting(false); w.input->SetTestingMode(false);
    double drift = 2e-7; for (auto& v : err_sum) for (auto& x : v) x = 0;
    for (unsigned i = 0; i < its; i++) {
      const double drifted = drift;
      std::vector<std::vector<double>> acc; for (auto* p : w.params) acc.emplace_back(p->data.elements(), 0.0);
      for (unsigned b = 0; b < s.sbatchsize; b++) {
        w.graph->FeedForward(); w.graph->BackPropagate();
        for (size_t k = 0; k < w.params.size(); k++) for (size_t e = 0; e < acc[k].size(); e++) acc[k][e] += (double)w.params[k]->delta(e);
      }
      const double lr = (double)s.learning_rate * std::pow(1.0 + (double)s.gamma * (double)(epoch * its + i), -(double)s.exponent);
      for (size_t k = 0; k < w.params.size(); k++) for (size_t e = 0; e < acc[k].size(); e++) {
        float& wt = w.params[k]->data[e];
        if (!std::isfinite(acc[k][e])) doubtful = true;
        // the sign of a weight this close to zero depends on rounding
        if (s.l1_weight != 0 && i > 0 && std::abs(wt) < 2e-6 && !(wt == 0 && last_step[k][e] == 0)) doubtful = true;
        const double sign = wt > 0 ? 1 : wt < 0 ? -1 : 0;
        const double slope = llr[k] * (acc[k][e] / (N * s.sbatchsize) * (double)w.loss_p) + llr[k] * ((double)s.l2_weight * wt + (double)s.l1_weight * sign);
        double step;
        if (s.optimization_method == GRADIENT_DESCENT) {
          step = lr * slope + (double)s.momentum * last_step[k][e];
          wt = (float)(wt - step);
        } else {
          const double ls = last_slope[k][e], lst = last_step[k][e], d = ls - slope, mu = (double)s.mu;
          auto sg = [](double v) { return v > 0 ? 1 : v < 0 ? -1 : 0; };
          // how far rounding (and rounding of earlier steps) may move the slope; earlier slopes alike
          const double es = llr[k] * (1e-6 * (std::abs(acc[k][e]) / N + std::abs((double)s.l2_weight * wt) + s.l1_weight) + drifted) + 1e-9, el = err_step[k][e];
          double err = lr * es;
          if (first) { step = -0.1 * slope; err = 0.1 * es; }
          else if (slope == 0 && acc[k][e] == 0) step = -slope * lr;   // an exact zero
          else {
            if (std::abs(slope) <= es || (std::abs(ls) <= es && ls != 0) || std::abs(d) <= 2 * es || (std::abs(lst) <= el && lst != 0) || std::abs(std::abs(slope) - std::abs(mu * d)) <= (1 + 2 * mu) * es) doubtful = true;
            const bool quad = std::abs(slope) < std::abs(mu * d) && sg(lst) != sg(d);
            double q = quad ? lst * slope / d : mu * lst;
            err += quad ? (std::abs(lst) * es + std::abs(slope) * el) / std::abs(d) + 2 * std::abs(lst * slope) * es / (d * d) : mu * el;
            step = sg(slope) == sg(ls) ? q - lr * slope : q;
          }
          err_step[k][e] = err; err_sum[k][e] += err; drift = std::max(drift, err_sum[k][e]);
          if (drift > 1e-3) doubtful = true;
          wt = (float)(wt + step);
          last_slope[k][e] = slope;
        }
        last_step[k][e] = step;
      }
      if (s.optimization_method == QUICKPROP) first = false;
    }
    epoch++;
  }
};
static void exec(const Plan& p) {
  ToyOptions o; o.max_train = 3; o.max_test = 2; o.max_side = 9;
  Toy t = make_toy((uint64_t)p.get("toy"), o); write_toy(t);
  std::vector<double> llr;
  const bool patch = t.hybrid;
  // training settings drawn from the plan, on top of the generated ones
  Rng r((uint64_t)p.get("opt") + 5);
  World a = make_world(t, patch, patch ? LOAD_TRAINING_ONLY : LOAD_BOTH);
  Ref ref; ref.w = make_world(t, patch, patch ? LOAD_TRAINING_ONLY : LOAD_BOTH);
  TrainerSettings s = a.settings;
  s.iterations = r.chance(1, 5) ? 0 : (unsigned)r.range(1, 3);
  s.sbatchsize = (unsigned)r.range(1, 3);
  s.learning_rate = r.chance(1, 2) ? 0.05f : 0.002f; s.gamma = r.chance(1, 2) ? 0.1f : 0.003f; s.exponent = r.chance(1, 2) ? 0.75f : 1.5f;
  s.momentum = r.chance(1, 4) ? 0.f : r.f(0.1f, 0.95f); s.l1_weight = r.chance(1, 2) ? 0.f : 0.01f; s.l2_weight = r.chance(1, 2) ? 0.f : 0.02f; s.mu = r.f(1.2f, 2.f);
  if (r.chance(1, 3)) s.optimization_method = t.quickprop ? GRADIENT_DESCENT : QUICKPROP;
  Trainer trainer(*a.graph, s);
  ref.s = s; ref.init();
  system_ready();
  // configured per-layer learning rates, read from the generated text
  { std::istringstream in(t.net_text); std::string l; while (std::getline(in, l)) { if (l.find("?hmax") == 0) { llr.push_back(1); continue; } if (l.find("?convolutional") != 0 && l.find("?fullyconnected") != 0) continue; double v = 1; size_t q = l.find("llr="); if (q != std::string::npos) v = atof(l.c_str() + q + 4); llr.push_back(v); llr.push_back(v); } }
  if (llr.size() != a.params.size()) SIM_FAIL("parameter-sets", "network has %zu parameter sets, expected %zu", a.params.size(), llr.size());
  ref.w.set_weights(a.weights());
  if (p.get("start")) { trainer.SetEpoch((unsigned)p.get("start")); ref.epoch = (unsigned)p.get("start"); }
  int step = 0;
  for (auto& st : p.steps) {
    step++; where("step %d %s", step, st.op.c_str());
    if (st.op == "train") for (long long e = 0; e < std::min(st.arg(0), 4LL); e++) {
      trainer.Train(1, false);
      ref.run_epoch(llr);
      SIM_CHECK(trainer.epoch() == ref.epoch, "epoch-counter", "step %d: epoch is %u, expected %u", step, trainer.epoch(), ref.epoch);
      if (ref.doubtful) { count("probe.quickprop_ties"); return; }
      double worst = 0;
      for (size_t k = 0; k < a.params.size(); k++) for (size_t i = 0; i < a.params[k]->data.elements(); i++) {
        double x = a.params[k]->data(i), y = ref.w.params[k]->data(i);
        if (!std::isfinite(y) || std::abs(y) > 1e6) { count("probe.diverged"); return; }
        double tol = 2e-5 + 1e-3 * std::abs(y) * 0.05 + 2e-3 * std::abs(ref.last_step[k][i]) + ref.err_sum[k][i];
        SIM_CHECK(std::abs(x - y) <= tol, "wrong-update", "step %d epoch %u: parameter set %zu element %zu is %.9g, the documented update gives %.9g (last step %.4g, rounding bound %.3g; %s, lr=%g gamma=%g exponent=%g momentum=%g l1=%g l2=%g iterations=%u sbatch=%u pbatch=%u)", step, ref.epoch, k, i, x, y, ref.last_step[k][i], tol,
          s.optimization_method == QUICKPROP ? "quickprop" : "gradient descent", s.learning_rate, s.gamma, s.exponent, s.momentum, s.l1_weight, s.l2_weight, s.iterations, s.sbatchsize, a.input->GetBatchSize());
        worst = std::max(worst, std::abs(x - y));
      }
      count("probe.epochs"); ref.w.set_weights(a.weights());   // rounding differences do not accumulate
    }
    else if (st.op == "test") { if (!patch) { trainer.Test(); count("probe.tests"); } }
    else if (st.op == "reset") { trainer.Reset(); ref.forget(); }
    else if (st.op == "epoch") { trainer.SetEpoch((unsigned)st.arg(0)); ref.epoch = (unsigned)st.arg(0); ref.forget(); }
    else if (st.op == "weights") { Rng q((uint64_t)st.arg(0)); auto w = a.weights(); for (auto& v : w) for (auto& x : v) x = q.chance(1, 6) ? 0.f : q.f(-0.5f, 0.5f); a.set_weights(w); ref.w.set_weights(w); }
    else if (st.op == "stats") trainer.SetStatsDuringTraining(st.arg(0) != 0);
    ev("state", a.weight_hash(), trainer.epoch()); sched_ev(mix(a.weight_hash(), trainer.epoch()));
  }
}
Property sim::g_property = {"E01", gen, exec,
  "non-trivial: at least one training epoch was compared; distinct = distinct sequence of parameter states",
  "hash over the parameters and epoch after every step of the history",
  {"Trainer", "NetGraph", "all layers of the generated network", "DatasetInputLayer", "datasets", "ConfigurableFactory"}, {"disk (scratch files)", "clock"},
  {"reference optimiser in double precision on a second instance of the same network; gradients themselves are taken from the network"}, {}, 4000, 200000, 40, 900};
