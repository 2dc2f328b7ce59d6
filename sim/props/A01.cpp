// VARIANT: sched
// TOOLS: trainNetwork
// Results do not depend on the number of worker threads or on how they interleave.
#include "compute.h"
#include "session.h"
#include <cmath>
#include <sys/stat.h>
using namespace sim;
using namespace Conv;

static const int MAXN = 4;
static void gen(Rng& r, int tier, uint64_t, Plan& p) {
  int m = r.chance(3, 5) ? M_LAYERS : r.chance(1, 2) ? M_PATCH : r.chance(1, 3) ? M_FCN : M_SESSION;
  p.env["mode"] = m; p.env["net"] = (long long)r.below(1 << 30);
  p.env["passes"] = (long long)r.range(1, tier ? 4 : 2);
  p.env["record"] = r.chance(2, 3);
  int n = (int)r.range(1, tier ? MAXN : 2);
  static const int pol[] = {1, 1, 1, 2, 3, 3, 5, 0};
  for (int i = 0; i < n; i++) p.add("schedule", {r.chance(1, 4) ? (long long)r.range(9, 16) : (long long)r.range(2, 8), pol[r.below(8)], (long long)r.below(1 << 30), r.chance(1, 2) ? (long long)r.range(1, 20) : (long long)r.range(20, 400), (long long)r.range(1, 5)});
}
// runs the plan's computation and leaves every buffer in the file
static int run(const Plan& p, const std::string& file, const SchedConfig& c) {
  sched_set(c); clock_seed(5, 1000000000LL, 1000); compute((int)p.get("mode"), (uint64_t)p.get("net"), (int)p.get("passes"), file);
  std::string cf; for (auto x : sched_conflicts()) cf += strf("%llx\n", (unsigned long long)x); spit(".sim.conflicts", cf);
  count("sched.switches", sched_switches()); count("sched.regions", sched_regions());
  return 0;
}
static std::string describe(const SchedConfig& c) { static const char* n[] = {"random order, no preemption", "random preemption", "round robin", "priorities", "preemption at conflicting accesses", "reverse order"}; return strf("%d worker threads, %s, seed %llu, period %d", c.threads, n[c.policy], (unsigned long long)c.seed, c.period); }
static void session_mode(const Plan& p) {
  ToyOptions o; o.max_side = 10; o.max_train = 2; o.max_test = 2; Toy t = make_toy((uint64_t)p.get("net"), o); write_toy(t); mkdir("csv", 0777);
  auto cmds = [&](const char* f) { return std::vector<std::string>{"train epochs=1", strf("save file=%s", f), "test"}; };
  g_sh->life = 0; sched_set(SchedConfig()); where("reference session");
  Session a = run_session(cmds("ref.Tensor")); SIM_CHECK(a.r.exited && a.r.code == 0 && !a.any_err(), "reference-failed", "%s %s", a.r.ending().c_str(), (a.r.out + a.r.err).c_str());
  int k = 0;
  for (auto& s : p.steps) {
    if (s.op != "schedule" || k >= MAXN) continue;
    k++; SchedConfig c; c.threads = std::max(1, std::min(32, (int)s.arg(0))); c.policy = (int)s.arg(1) % 6; if (c.policy == 4) c.policy = 1; c.seed = (uint64_t)s.arg(2); c.period = std::max(1, (int)s.arg(3)); c.depth = (int)s.arg(4, 1); sched_set(c);
    g_sh->life = k; where("session with %s", describe(c).c_str()); remove_file("got.Tensor");
    Session b = run_session(cmds("got.Tensor"));
    SIM_CHECK(!b.r.hung && !b.r.unsafe && b.r.exited && b.r.code == 0 && !b.any_err(), "run-failed", "session with %s: %s %s", describe(c).c_str(), b.r.ending().c_str(), b.r.report.c_str());
    std::vector<HT> x, y; ht_decode_stream(slurp("ref.Tensor"), x); SIM_CHECK(ht_decode_stream(slurp("got.Tensor"), y) && x.size() == y.size(), "results-differ", "saved models have different structure");
    for (size_t i = 0; i < x.size(); i++) { double top = 0; for (float f : x[i].d) top = std::max(top, (double)std::abs(f)); SIM_CHECK(x[i].d.size() == y[i].d.size(), "results-differ", "parameter %zu has another size", i); for (size_t e = 0; e < x[i].d.size(); e++) SIM_CHECK(x[i].d[e] == y[i].d[e] || std::abs((double)x[i].d[e] - y[i].d[e]) <= 1e-4 * top, "results-differ", "trained parameter %zu element %zu is %.9g with one thread and %.9g with %s", i, e, x[i].d[e], y[i].d[e], describe(c).c_str()); }
    if (slurp("ref.Tensor") == slurp("got.Tensor")) { std::string m = metrics(a.seg[3]), n = metrics(b.seg[3]); SIM_CHECK(m == n, "test-differs", "test results with one thread and with %s: %s", describe(c).c_str(), first_diff(m, n).c_str()); }
    count("probe.sessions_compared");
  }
}
static void exec(const Plan& p) {
  if (p.get("mode") == M_SESSION) return session_mode(p);
  g_sh->life = 0; where("one thread");
  LifeResult r = run_life([&] { return run(p, "ref.snap", SchedConfig()); });
  SIM_CHECK(r.exited && r.code == 0, "reference-failed", "%s %s", r.ending().c_str(), r.report.c_str());
  Snap a, b; SIM_CHECK(snap_load("ref.snap", a), "reference-failed", "no results");
  int life = 0;
  auto go = [&](const SchedConfig& c) {
    life++; g_sh->life = life; where("%s", describe(c).c_str()); remove_file("got.snap");
    LifeResult q = run_life([&] { return run(p, "got.snap", c); });
    SIM_CHECK(!q.hung && !q.unsafe && q.exited && q.code == 0, "run-failed", "run with %s: %s %s", describe(c).c_str(), q.ending().c_str(), q.report.c_str());
    b.clear(); SIM_CHECK(snap_load("got.snap", b), "run-failed", "no results"); snap_compare(a, b, "one thread", describe(c), 2e-5); count("probe.schedules_compared");
  };
  int k = 0;
  for (auto& s : p.steps) {
    if (s.op != "schedule" || k >= MAXN) continue;
    k++; SchedConfig c; c.threads = std::max(1, std::min(32, (int)s.arg(0))); c.policy = (int)s.arg(1) % 6; c.seed = (uint64_t)s.arg(2); c.period = std::max(1, (int)s.arg(3)); c.depth = (int)s.arg(4, 1);
    if (c.policy == 4) c.policy = 1;
    if (k == 1 && p.get("record") && p.get("mode") != M_FCN) {
      SchedConfig rc = c; rc.record = true; rc.policy = 0; go(rc);
      std::string cf = slurp(".sim.conflicts"); std::vector<uintptr_t> hot; for (size_t at = 0; at < cf.size();) { hot.push_back((uintptr_t)strtoull(cf.c_str() + at, nullptr, 16)); at = cf.find('\n', at) + 1; }
      if (!hot.empty()) { count("probe.runs_with_conflicting_accesses"); for (int i = 0; i < 3; i++) { SchedConfig d = c; d.policy = 4; d.hot = hot; d.seed = c.seed + (uint64_t)i * 7919; go(d); } }
    }
    go(c);
  }
}
Property sim::g_property = {"A01", gen, exec,
  "non-trivial: at least one run with several worker threads was compared buffer by buffer with the single-threaded run; distinct = distinct sequences of switches between workers",
  "hash over (parallel region, number of memory accesses so far, from worker, to worker) of every switch",
  {"all layers, NetGraph, Trainer, TensorMath, datasets, tools/trainNetwork.cpp (compiled with OpenMP and access instrumentation)"}, {"libgomp (fibers under a seeded scheduler)", "libtsan entry points (preemption points)", "clock", "disk (scratch files)"},
  {"preemption happens at instrumented memory accesses of cn24's own code; compiler reordering and weak memory are not simulated", "differences up to 2e-5 of a buffer's largest value count as rounding (there are none on the current tree)"}, {"schedules: random preemption, round robin, priorities, reverse order, preemption at conflicting accesses"}, 3000, 120000, 60, 1200};
