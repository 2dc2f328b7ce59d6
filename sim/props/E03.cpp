// VARIANT: asan
// TOOLS: trainNetwork
// reset leaves nothing behind of what was trained or loaded before.
#include "session.h"
#include "toy.h"
#include <sstream>
#include <sys/stat.h>
using namespace sim;

static void gen(Rng& r, int tier, uint64_t, Plan& p) {
  p.env["toy"] = (long long)r.below(1 << 20);
  int n = (int)r.range(1, tier ? 6 : 4);
  for (int i = 0; i < n; i++) {
    for (int k = (int)r.range(0, 3); k > 0; k--) switch (r.below(8)) {
      case 0: case 1: case 2: p.add("train", {(long long)r.range(1, 2)}); break;
      case 3: p.add("save", {(long long)r.below(2)}); break;
      case 4: p.add("load", {(long long)r.below(2), 0}); break;
      case 5: p.add("load", {(long long)r.below(2), (long long)r.range(1, 5)}); break;
      case 6: p.add("epoch", {(long long)r.below(4)}); break;
      default: p.add("test"); break;
    }
    p.add("reset", {(long long)r.below(3)});
  }
  if (r.chance(2, 3)) return;
  DryInfo d = dry_run(p);
  static const int kinds[] = {F_EIO_WRITE, F_ENOSPC, F_SHORT_WRITE, F_OPEN_FAIL, F_EIO_READ, F_SHORT_READ, F_EINTR_READ, F_CLOSE_FAIL};
  for (int i = (int)r.range(1, 2); i > 0; i--) { long long m = (long long)d.io[1]; p.add("fault", {1, kinds[r.below(sizeof kinds / sizeof *kinds)], r.range(m / 3, m), (long long)r.below(4000)}); }
}
// the statistics carry the number of the epoch trained last, which reset does not concern
static std::string no_epoch(const std::string& m) {
  std::istringstream in(m); std::string l, o; while (std::getline(in, l)) if (l.find("Stats for epoch") == std::string::npos) o += l + "\n"; return o;
}
static void exec(const Plan& p) {
  faults_from_plan(p);
  Toy toy = make_toy((uint64_t)p.get("toy")); write_toy(toy); mkdir("csv", 0755);
  std::vector<std::string> ref, full; std::vector<int> ri, fi;   // positions (1-based) of the observations
  int k = 0; std::vector<bool> tested;
  for (auto& s : p.steps) {
    if (s.op == "train") full.push_back(strf("train epochs=%lld", std::max(1LL, std::min(s.arg(0), 3LL))));
    else if (s.op == "save") full.push_back(strf("save file=keep%lld.Tensor", s.arg(0) & 1));
    else if (s.op == "load") full.push_back(strf("load file=keep%lld.Tensor%s", s.arg(0) & 1, s.arg(1) ? strf(" last_layer=%lld", s.arg(1)).c_str() : ""));
    else if (s.op == "epoch") full.push_back(strf("set epoch epoch=%lld", s.arg(0)));
    else if (s.op == "test") full.push_back("test");
    else if (s.op == "reset") {
      for (auto* v : {&ref, &full}) {
        v->push_back("reset");
        v->push_back("set epoch epoch=0");
        v->push_back(strf("save file=%s%d.Tensor", v == &ref ? "ref" : "got", k));
        (v == &ref ? ri : fi).push_back((int)v->size());
        v->push_back("test");
      }
      k++;
    }
  }
  if (!k) return;
  g_sh->life = 0; where("reference session");
  Session a = run_session(ref);
  SIM_CHECK(a.r.exited && a.r.code == 0, "fault-free-session-failed", "session of resets ended with %s: %s", a.r.ending().c_str(), a.r.out.substr(a.r.out.size() > 400 ? a.r.out.size() - 400 : 0).c_str());
  g_sh->life = 1; where("session");
  Session b = run_session(full);
  SIM_CHECK(!b.r.unsafe, "memory-error", "session: %s: %s", b.r.ending().c_str(), b.r.out.substr(0, 1500).c_str());
  SIM_CHECK(!b.r.hung, "no-progress", "session did not end");
  for (int i = 0; i < k; i++) {
    int c = fi[i], t = c + 1; if (!b.acked(c)) { count("probe.ended_early"); break; }
    if (!b.err(c)) {
      std::string x = slurp(strf("ref%d.Tensor", i)), y = slurp(strf("got%d.Tensor", i));
      std::vector<HT> hx, hy; SIM_CHECK(ht_decode_stream(y, hy) && ht_decode_stream(x, hx), "model-unreadable", "model saved by acknowledged command %d (%s) is not a sequence of tensors", c, full[c - 1].c_str());
      if (x != y) for (size_t q = 0; q < hx.size() && q < hy.size(); q++) SIM_CHECK(hx[q].d == hy[q].d, "not-initial", "after reset %d parameter tensor %zu (%zu elements) differs from that of a network that was only reset: %g instead of %g", i, q, hx[q].d.size(), hy[q].d[0], hx[q].d[0]);
      SIM_CHECK(x == y, "not-initial", "after reset %d the saved model differs from that of a network that was only reset", i);
      count("probe.models_compared"); ev("model", hash_bytes(y.data(), y.size()), (uint64_t)i);
    }
    if (!b.acked(t)) break;
    if (!b.err(t)) {
      std::string x = no_epoch(metrics(a.seg[ri[i] + 1])), y = no_epoch(metrics(b.seg[t]));
      SIM_CHECK(x == y, "test-not-initial", "test after reset %d and one of a network that was only reset differ: %s", i, first_diff(y, x).c_str());
      count("probe.tests_compared"); sched_ev(hash_bytes(y.data(), y.size()));
    }
  }
  for (auto& c : full) sched_ev(hash_bytes(c.data(), c.size()));
}
Property sim::g_property = {"E03", gen, exec,
  "non-trivial: at least one reset that follows other commands was compared, or the faulted session ended with a report",
  "hash over command sequence, faults that fired and test results after each reset",
  {"tools/trainNetwork.cpp", "NetGraph", "Trainer", "layers of the generated network", "datasets"}, {"disk (scratch directory behind an interposed libc)", "clock (simulated)"},
  {"reference is the same program when the same number of resets is the only thing that happened; a reset draws new random numbers, hence the equal number"}, {}, 3000, 80000, 45, 900};
