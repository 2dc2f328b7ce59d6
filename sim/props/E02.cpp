// VARIANT: asan
// TOOLS: trainNetwork
// Commands that only observe never influence training, even when they fail.
#include "session.h"
#include "toy.h"
#include <sstream>
#include <sys/stat.h>
using namespace sim;

// steps: "train n" (units of one epoch each), "reset", "epoch n", and observers: test, save, saveload, tstat, graph, wstat, dstat, exp, help, junk, view
static const char* OBS[] = {"test", "test", "test", "save", "saveload", "tstat", "graph", "wstat", "dstat", "exp", "help", "junk", "loadbad", "testview"};
static void gen(Rng& r, int tier, uint64_t, Plan& p) {
  p.env["toy"] = (long long)r.below(1 << 20);
  p.env["csv"] = r.chance(3, 4);
  int n = (int)r.range(1, tier ? 6 : 4);
  for (int i = 0; i < n; i++) {
    for (int k = (int)r.below(3); k > 0; k--) p.add("obs", {(long long)r.below(sizeof OBS / sizeof *OBS), (long long)r.below(1 << 16)});
    switch (r.below(8)) {
      case 0: p.add("reset"); p.add("train", {1}); break;
      case 1: p.add("epoch", {(long long)r.below(5)}); p.add("train", {1}); break;
      default: p.add("train", {(long long)r.range(1, 2)}); break;
    }
  }
  for (int k = (int)r.below(3); k > 0; k--) p.add("obs", {(long long)r.below(sizeof OBS / sizeof *OBS), (long long)r.below(1 << 16)});
  if (r.chance(1, 2)) { std::vector<Step> v; for (auto& s : p.steps) { v.push_back(s); if (s.op == "obs" && s.arg(0) < 3) { if (r.chance(1, 2)) v.push_back(Step{"obs", {(long long)r.below(sizeof OBS / sizeof *OBS), (long long)r.below(1 << 16)}}); v.push_back(Step{"obs", {0, 0}}); } } p.steps = v; }
  if (r.chance(1, 3)) return;
  DryInfo d = dry_run(p);
  static const int kinds[] = {F_EIO_WRITE, F_ENOSPC, F_SHORT_WRITE, F_EINTR_WRITE, F_OPEN_FAIL, F_CLOSE_FAIL, F_EIO_READ, F_SHORT_READ};
  int nf = (int)r.range(1, 3);
  for (int i = 0; i < nf; i++) { long long n1 = (long long)d.io[1]; p.add("fault", {1, kinds[r.below(sizeof kinds / sizeof *kinds)], r.range(n1 / 3, n1), (long long)r.below(4000)}); }
}
static std::vector<std::string> lps_lines(const Session& s) {
  std::vector<std::string> v;
  for (auto& g : s.seg) { std::istringstream in(metrics(g)); std::string l; while (std::getline(in, l)) if (l.find("Training (Epoch") != std::string::npos) v.push_back(l); }
  return v;
}
static void exec(const Plan& p) {
  faults_from_plan(p);
  Toy toy = make_toy((uint64_t)p.get("toy")); write_toy(toy);
  if (p.get("csv")) mkdir("csv", 0755);
  std::vector<std::string> plain, full; std::vector<int> kind;   // kind: -1 plain command, else observer index
  std::vector<long long> epoch_key;    // number of training units and resets done before this command
  long long key = 0; int sv = 0;
  for (auto& s : p.steps) {
    if (s.op == "train") {
      long long n = std::max(1LL, std::min(s.arg(0), 4LL));
      plain.push_back(strf("train epochs=%lld", n));
      // the decorated session trains the same epochs in separate commands
      for (long long e = 0; e < n; e++) { key++; full.push_back((key & 1) ? "train epochs=1" : "train no_snapshots=1 epochs=1"); kind.push_back(-1); epoch_key.push_back(key); }
    } else if (s.op == "reset" || s.op == "epoch") {
      key++; std::string c = s.op == "reset" ? "reset" : strf("set epoch epoch=%lld", s.arg(0));
      plain.push_back(c); full.push_back(c); kind.push_back(-1); epoch_key.push_back(key);
    } else if (s.op == "obs") {
      std::string o = OBS[(size_t)s.arg(0) % (sizeof OBS / sizeof *OBS)]; long long x = s.arg(1);
      auto add = [&](const std::string& c) { full.push_back(c); kind.push_back((int)s.arg(0)); epoch_key.push_back(key); };
      if (o == "test") add("test");
      else if (o == "testview") add("test view=0");
      else if (o == "save") add(strf("save file=obs%d.Tensor", (int)(x % 2)));
      else if (o == "saveload") { std::string f = strf("sl%d.Tensor", sv++); add("save file=" + f); add("load file=" + f); }
      else if (o == "loadbad") add(x & 1 ? "load file=missing.Tensor" : "load file=data.set");
      else if (o == "tstat") add(strf("tstat enable=%d", (int)(x % 2)));
      else if (o == "graph") add(strf("graph file=g.dot %s", x & 1 ? "test" : "train"));
      else if (o == "wstat" || o == "dstat") add(strf("%s node=node%d", o.c_str(), (int)(x % 9)));
      else if (o == "exp") add(strf("set experiment name=exp%d", (int)(x % 3)));
      else if (o == "help") add("help");
      else add("frobnicate the=network");
    }
  }
  plain.push_back("save file=final.Tensor"); 
  full.push_back("save file=final.Tensor"); kind.push_back(-1); epoch_key.push_back(key);
  g_sh->life = 0; where("plain session");
  Session a = run_session(plain);
  SIM_CHECK(a.r.exited && a.r.code == 0, "fault-free-session-failed", "session without observers ended with %s: %s", a.r.ending().c_str(), a.r.out.substr(a.r.out.size() > 400 ? a.r.out.size() - 400 : 0).c_str());
  const std::string want = slurp("final.Tensor"); remove_file("final.Tensor");
  g_sh->life = 1; where("observed session");
  Session b = run_session(full);
  SIM_CHECK(!b.r.unsafe, "memory-error", "observed session: %s: %s", b.r.ending().c_str(), b.r.out.substr(0, 1500).c_str());
  SIM_CHECK(!b.r.hung, "no-progress", "observed session did not end");
  // training trajectory: loss of every epoch
  auto la = lps_lines(a), lb = lps_lines(b);
  for (size_t i = 0; i < lb.size() && i < la.size(); i++) SIM_CHECK(la[i] == lb[i], "training-influenced", "training epoch %zu printed [%s] but [%s] when other commands are interleaved", i, la[i].c_str(), lb[i].c_str());
  bool startup = b.started(1);
  int last = (int)full.size();
  if (startup && b.acked(last) && !b.err(last)) {
    SIM_CHECK(la.size() == lb.size(), "epochs-lost", "%zu training epochs reported instead of %zu", lb.size(), la.size());
    SIM_CHECK(slurp("final.Tensor") == want, "parameters-influenced", "the final model differs when observing commands are interleaved (%s)", p.steps.empty() ? "" : "see plan");
    count("probe.compared");
  } else count("probe.ended_early");
  // tests between the same training commands agree with each other
  std::map<long long, std::string> seen;
  for (size_t i = 0; i < full.size(); i++) {
    int c = (int)i + 1; if (!b.acked(c)) break;
    if (kind[i] < 0 || (full[i] != "test" && full[i] != "test view=0") || b.err(c)) continue;
    auto it = seen.find(epoch_key[i]);
    if (it == seen.end()) seen[epoch_key[i]] = metrics(b.seg[c]);
    else { SIM_CHECK(it->second == metrics(b.seg[c]), "test-not-repeatable", "two tests with no training in between printed [%s] and [%s]", it->second.substr(0, 700).c_str(), metrics(b.seg[c]).substr(0, 700).c_str()); count("probe.test_pairs"); }
  }
  ev("final", hash_bytes(want.data(), want.size()), lb.size()); sched_ev(mix(hash_bytes(want.data(), want.size()), hash_bytes(b.r.out.data(), 0)));
  for (size_t i = 0; i < full.size(); i++) sched_ev(hash_bytes(full[i].data(), full[i].size()));
}
Property sim::g_property = {"E02", gen, exec,
  "non-trivial: both sessions trained at least one epoch and the final models were compared, or the faulted session ended with a report",
  "hash over command sequence, faults that fired and final model",
  {"tools/trainNetwork.cpp", "Trainer", "NetGraph", "DatasetInputLayer", "datasets", "statistics layers and sinks", "layers of the generated network"}, {"disk (scratch directory behind an interposed libc)", "clock (simulated)"},
  {"reference is the same program without the observing commands and without faults"}, {}, 2500, 100000, 45, 900};
