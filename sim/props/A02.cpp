// VARIANT: asan
// TOOLS: trainNetwork
// Results depend on nothing but the inputs: not on the clock, the contents and placement of
// memory, how I/O is chunked, the entropy of the machine or other networks in the process.
#include "compute.h"
#include "session.h"
#include <sys/stat.h>
using namespace sim;
using namespace Conv;
static const int MAXN = 3;
static void gen(Rng& r, int tier, uint64_t, Plan& p) {
  int m = r.chance(1, 2) ? M_LAYERS : r.chance(1, 3) ? M_PATCH : r.chance(1, 4) ? M_FCN : M_SESSION;
  p.env["mode"] = m; p.env["net"] = (long long)r.below(1 << 30); p.env["passes"] = (long long)r.range(1, tier ? 4 : 3);
  int n = (int)r.range(1, tier ? MAXN : 2);
  for (int i = 0; i < n; i++) {
    // memory contents, placement, clock start (s), tick (ns), chunk, entropy, another network in the process
    p.add("world", {r.range(0, 4), r.chance(1, 2) ? (long long)r.range(1, 1 << 20) : 0, r.chance(1, 2) ? (long long)r.below(4000000000u) : (long long)r.below(1000), r.chance(1, 2) ? (long long)r.range(1, 1000) : (long long)r.range(1, 2000000000), r.chance(1, 2) ? (long long)r.range(1, 5000) : 0, (long long)r.below(1 << 30), r.chance(1, 3) ? (long long)r.range(1, 1 << 20) : 0});
    if (r.chance(1, 2)) p.add("fault", {i + 1, F_CLOCK_JUMP, (long long)r.below(60), (r.chance(1, 2) ? -1 : 1) * (long long)r.below(1000000000000000ll)});
    if (r.chance(1, 4)) p.add("fault", {i + 1, r.chance(1, 2) ? F_EINTR_READ : F_SHORT_READ, (long long)r.below(120), (long long)r.range(1, 40)});
  }
  if (m == M_SESSION) for (int i = (int)r.range(1, 6); i > 0; i--) p.add("cmd", {(long long)r.below(8), (long long)r.range(1, 2)});
}
static void enter(const Step& s, int k) {
  alloc_fill((int)(s.arg(0) & 7) % 5, (uint64_t)s.arg(5) + 1); alloc_scatter((uint64_t)s.arg(1)); clock_seed((uint64_t)s.arg(5) + 3, (s.arg(2) & 0xffffffffll) * 1000000000ll, std::max(1ll, std::min(2000000000ll, s.arg(3))));
  io_chunk((uint64_t)s.arg(5) + 7, (int)std::max(0ll, std::min(1ll << 16, s.arg(4)))); entropy_seed((uint64_t)s.arg(5) + 11, 1000 + k * 77);
}
static std::string describe(const Step& s) { static const char* f[] = {"left as it is", "zero", "not-a-number", "random numbers", "random bytes"}; return strf("fresh memory %s, %s, clock starting at %lld s and advancing up to %lld ns per reading, %s%s", f[(s.arg(0) & 7) % 5], s.arg(1) ? "objects placed at random" : "objects placed in order", s.arg(2), s.arg(3), s.arg(4) ? "I/O in small pieces" : "whole I/O", s.arg(6) ? ", another network in the process" : ""); }
static Step reference_world() { Step s; s.op = "world"; s.a = {1, 0, 1000, 1000, 0, 5, 0}; return s; }
static int run(const Plan& p, const std::string& file, const Step& s, int k) {
  enter(s, k); Bench other; Rng oq(99); bool have = false;
  std::function<void(int)> before;
  if (s.arg(6)) before = [&](int i) {
    if (i < 0) { BenchOptions o; o.stats = false; o.max_side = 8; other = make_bench((uint64_t)s.arg(6), o); have = true; count("probe.other_networks"); return; }
    other.fill(oq); other.graph->FeedForward(); other.graph->BackPropagate();
    for (auto* q : other.params) for (size_t e = 0; e < q->data.elements(); e++) q->data.data_ptr()[e] -= 0.01f * q->delta.data_ptr()[e];
  };
  compute((int)p.get("mode"), (uint64_t)p.get("net"), (int)p.get("passes"), file, before);
  return 0;
}
static std::string csv_rows(const std::string& f) {   // without times and throughput
  std::string b = slurp(f), o; std::istringstream in(b); std::string l; std::vector<bool> keep; bool head = true;
  while (std::getline(in, l)) {
    std::istringstream c(l); std::string v; size_t i = 0;
    while (std::getline(c, v, ',')) { if (head) keep.push_back(v.find("Seconds") == std::string::npos && v.find("hroughput") == std::string::npos && v.find("Frame") == std::string::npos); if (i < keep.size() && keep[i]) o += v + ","; i++; }
    head = false; o += "\n";
  }
  return o;
}
static void session_mode(const Plan& p) {
  ToyOptions o; o.max_side = 10; o.max_train = 3; o.max_test = 2; Toy t = make_toy((uint64_t)p.get("net"), o); write_toy(t); mkdir("csv", 0777);
  std::vector<std::string> cmds; int saves = 0;
  for (auto& s : p.steps) if (s.op == "cmd" && cmds.size() < 8) {
    switch (s.arg(0) & 7) { case 0: case 1: case 2: cmds.push_back(strf("train epochs=%lld", std::max(1ll, std::min(2ll, s.arg(1))))); break; case 3: cmds.push_back("test"); break; case 4: cmds.push_back("reset"); break; case 5: cmds.push_back(strf("save file=m%d.Tensor", saves++)); break; case 6: cmds.push_back(saves ? strf("load file=m%d.Tensor", (int)(s.arg(1) % saves)) : "set epoch=3"); break; default: cmds.push_back(strf("set experiment=e%lld", s.arg(1))); }
  }
  cmds.push_back("train epochs=1"); cmds.push_back("save file=last.Tensor"); cmds.push_back("test");
  auto in_world = [&](const Step& s, int k) { enter(s, k); };
  std::vector<std::string> files = {"last.Tensor"}; for (int i = 0; i < saves; i++) files.push_back(strf("m%d.Tensor", i));
  std::vector<std::string> csvs = {"csv/unnamed.csv", "csv/e1.csv", "csv/e2.csv"};
  g_sh->life = 0; where("reference session"); in_world(reference_world(), 0);
  Session a = run_session(cmds); SIM_CHECK(a.r.exited && a.r.code == 0 && !a.any_err(), "reference-failed", "%s %s", a.r.ending().c_str(), a.r.err.c_str());
  std::vector<std::string> ref, rows; for (auto& f : files) { ref.push_back(slurp(f)); remove_file(f); } for (auto& f : csvs) { rows.push_back(csv_rows(f)); remove_file(f); }
  int k = 0;
  for (auto& s : p.steps) {
    if (s.op != "world" || k >= MAXN) continue;
    sched_ev((uint64_t)p.get("net")); sched_ev(hash_bytes((const char*)s.a.data(), s.a.size() * sizeof s.a[0])); k++; in_world(s, k); g_sh->life = k; where("session %d: %s", k, describe(s).c_str());
    Session b = run_session(cmds);
    SIM_CHECK(!b.r.hung && !b.r.unsafe && b.r.exited && b.r.code == 0 && !b.any_err(), "run-failed", "with %s: %s %s", describe(s).c_str(), b.r.ending().c_str(), b.r.report.c_str());
    SIM_CHECK(a.seg.size() == b.seg.size(), "output-differs", "number of prompts differs");
    for (size_t i = 0; i < a.seg.size(); i++) { std::string m = metrics(a.seg[i]), n = metrics(b.seg[i]); SIM_CHECK(m == n, "output-differs", "%s: %s with %s", i ? cmds[std::min(i, cmds.size()) - 1].c_str() : "start", first_diff(m, n).c_str(), describe(s).c_str()); }
    for (size_t i = 0; i < files.size(); i++) { SIM_CHECK(slurp(files[i]) == ref[i], "model-differs", "saved model %s differs with %s", files[i].c_str(), describe(s).c_str()); remove_file(files[i]); }
    for (size_t i = 0; i < csvs.size(); i++) { std::string g = csv_rows(csvs[i]); SIM_CHECK(g == rows[i], "statistics-differ", "%s: %s with %s", csvs[i].c_str(), first_diff(rows[i], g).c_str(), describe(s).c_str()); remove_file(csvs[i]); }
    count("probe.sessions_compared");
  }
}
static void exec(const Plan& p) {
  faults_from_plan(p);
  if (p.get("mode") == M_SESSION) return session_mode(p);
  g_sh->life = 0; where("reference");
  LifeResult r = run_life([&] { return run(p, "ref.snap", reference_world(), 0); });
  SIM_CHECK(r.exited && r.code == 0, "reference-failed", "%s %s", r.ending().c_str(), r.report.c_str());
  Snap a, b; SIM_CHECK(snap_load("ref.snap", a), "reference-failed", "no results");
  int k = 0;
  for (auto& s : p.steps) {
    if (s.op != "world" || k >= MAXN) continue;
    k++; g_sh->life = k; where("%s", describe(s).c_str()); remove_file("got.snap");
    LifeResult q = run_life([&] { return run(p, "got.snap", s, k); });
    SIM_CHECK(!q.hung && !q.unsafe && q.exited && q.code == 0, "run-failed", "run with %s: %s %s", describe(s).c_str(), q.ending().c_str(), q.report.c_str());
    b.clear(); SIM_CHECK(snap_load("got.snap", b), "run-failed", "no results"); sched_ev((uint64_t)p.get("net") * 4 + (uint64_t)p.get("mode")); sched_ev(hash_bytes((const char*)s.a.data(), s.a.size() * sizeof s.a[0])); snap_compare(a, b, "zeroed memory and a steady clock", describe(s), 0); count("probe.worlds_compared");
  }
}
Property sim::g_property = {"A02", gen, exec,
  "non-trivial: at least one run under other circumstances was compared with the reference; distinct = distinct (computation, circumstances) pairs reached",
  "hash over (network, kind of computation, circumstances) of every compared run and the injected faults",
  {"all layers, NetGraph, Trainer, datasets, StatAggregator, CSVStatSink, tools/trainNetwork.cpp"}, {"clock", "heap contents and placement (operator new)", "disk (scratch files, chunked)", "entropy (random_device, getrandom, /dev/urandom), process id"},
  {"memory from malloc used by libpng and libjpeg is not varied", "comparison is bit for bit, except that +0 and -0 count as equal"}, {"clock jumps, clock rates and start times", "uninitialised memory contents", "placement of objects", "short and interrupted reads", "entropy", "other networks in the process"}, 4000, 120000, 45, 1200};
