// VARIANT: asan
// TOOLS: trainNetwork
// Model persistence over histories of commands, faults, crashes and restarts.
#include "session.h"
#include "toy.h"
#include <set>
#include <sstream>
#include <sys/stat.h>
using namespace sim;

static const int NFILES = 2;
static std::string fname(int k) { return strf("model%d.Tensor", k); }

// steps: "train e", "test", "save k", "load k", "reset", "epoch n", "tstat b", "restart", "fault life kind at param"
static void gen(Rng& r, int tier, uint64_t, Plan& p) {
  p.env["toy"] = (long long)r.below(1 << 20);
  int lives = (int)r.range(1, tier ? 4 : 3);
  for (int l = 0; l < lives; l++) {
    if (l) p.add("restart");
    int n = (int)r.range(2, 6);
    for (int i = 0; i < n; i++) switch (r.below(8)) {
      case 0: case 1: p.add("train", {(long long)r.range(1, 2)}); break;
      case 2: p.add("test"); break;
      case 3: case 4: p.add("save", {(long long)r.below(NFILES)}); break;
      case 5: p.add("load", {(long long)r.below(NFILES)}); break;
      case 6: if (r.chance(1, 3)) p.add("reset"); else p.add("save", {(long long)r.below(NFILES)}); break;
      case 7: p.add("epoch", {(long long)r.below(4)}); break;
    }
    if (r.chance(2, 3)) p.add("save", {(long long)r.below(NFILES)});
    p.add("test");
  }
  if (r.chance(1, 6)) return;    // fault free
  DryInfo d = dry_run(p);
  // simulated processes come in pairs: 2l is the fault-free reference of life l, 2l+1 the real one
  static const int kinds[] = {F_CRASH, F_CRASH, F_CRASH_TORN, F_CRASH_TORN, F_EIO_WRITE, F_ENOSPC, F_SHORT_WRITE, F_EINTR_WRITE, F_OPEN_FAIL, F_CLOSE_FAIL, F_EIO_READ, F_SHORT_READ, F_EINTR_READ};
  int nf = (int)r.range(1, 3);
  for (int i = 0; i < nf; i++) {
    int l = (int)r.below(lives), ph = 2 * l + 1;
    long long n = ph < MAX_LIVES ? (long long)d.io[ph] : 0;
    int k = kinds[r.below(sizeof kinds / sizeof *kinds)];
    p.add("fault", {ph, k, r.chance(3, 4) ? r.range(n / 3, n + 1) : r.range(1, n + 1), (long long)r.below(4000)});
  }
}

static void exec(const Plan& p) {
  faults_from_plan(p);
  Toy toy = make_toy((uint64_t)p.get("toy"));
  write_toy(toy); 
  mkdir("csv", 0755);
  // split into lives
  std::vector<std::vector<Step>> lives(1);
  for (auto& s : p.steps) { if (s.op == "fault") continue; if (s.op == "restart") lives.emplace_back(); else lives.back().push_back(s); }
  // knowledge across lives: printed test result of each model content ever tested
  std::map<std::string, std::string> tested;   // model bytes -> metrics of a test right after save/load of it
  for (size_t l = 0; l < lives.size() && 2 * l + 1 < MAX_LIVES; l++) {
    auto& ops = lives[l];
    std::vector<std::string> before(NFILES); std::vector<bool> had(NFILES);
    for (int k = 0; k < NFILES; k++) { had[k] = exists(fname(k)); before[k] = slurp(fname(k)); }
    auto script = [&](bool ref) {
      std::vector<std::string> c; std::map<int, std::string> cur;
      for (size_t i = 0; i < ops.size(); i++) {
        auto& s = ops[i]; int k = (int)s.arg(0) % NFILES; if (k < 0) k = 0;
        std::string f = cur.count(k) ? cur[k] : fname(k);
        if (s.op == "train") c.push_back(strf("train epochs=%lld", s.arg(0)));
        else if (s.op == "test") c.push_back("test");
        else if (s.op == "save") { if (ref) { cur[k] = strf("ref%zu.Tensor", i); f = cur[k]; } c.push_back("save file=" + f); }
        else if (s.op == "load") c.push_back("load file=" + f);
        else if (s.op == "reset") c.push_back("reset");
        else if (s.op == "epoch") c.push_back(strf("set epoch epoch=%lld", s.arg(0)));
        else c.push_back("tstat enable=1");
      }
      return c;
    };
    // reference: the same commands, no faults, every save under its own name
    where("life %zu reference", l);
    g_sh->life = (int)(2 * l);
    Session ref = run_session(script(true));
    SIM_CHECK(ref.r.exited && ref.r.code == 0, "fault-free-session-failed", "life %zu without faults ended with %s: %s", l, ref.r.ending().c_str(), ref.r.out.substr(ref.r.out.size() > 400 ? ref.r.out.size() - 400 : 0).c_str());
    std::vector<std::string> want(ops.size());
    std::map<int, std::string> refcontent; for (int k = 0; k < NFILES; k++) if (had[k]) refcontent[k] = before[k];
    std::string weights; bool known_w = false;    // model bytes currently held by the network, when known
    for (size_t i = 0; i < ops.size(); i++) {
      int k = (int)ops[i].arg(0) % NFILES; if (k < 0) k = 0;
      const std::string& op = ops[i].op;
      if (op == "save") {
        std::string f = strf("ref%zu.Tensor", i);
        want[i] = slurp(f); remove_file(f);
        std::vector<HT> t; SIM_CHECK(!ref.err((int)i + 1) && ht_decode_stream(want[i], t) && t.size() >= 2, "save-incomplete", "life %zu command %zu (save): file does not hold a complete model, no fault injected", l, i);
        if (known_w) SIM_CHECK(want[i] == weights, "load-save-differs", "life %zu command %zu: model saved after loading it differs from the loaded file", l, i);
        weights = want[i]; known_w = true; refcontent[k] = want[i]; count("probe.saves");
      } else if (op == "load") {
        bool had_file = refcontent.count(k);
        SIM_CHECK(ref.err((int)i + 1) == !had_file, "load-report", "life %zu command %zu: load of %s file %s", l, i, had_file ? "an intact" : "a missing", had_file ? "reported an error" : "reported no error");
        if (had_file) { weights = refcontent[k]; known_w = true; count("probe.loads"); }
      } else if (op == "train" || op == "reset") known_w = false;
      else if (op == "test" && known_w) {
        std::string m = metrics(ref.seg[i + 1]); size_t e = m.find("Epoch"); (void)e;
        // epoch numbers are part of the text; compare numbers after the headline only
        std::string key = weights; std::string norm;
        std::istringstream in(m); std::string line;
        while (std::getline(in, line)) { size_t q; while ((q = line.find("poch ")) != std::string::npos) { size_t z = q + 5; while (z < line.size() && isdigit((unsigned char)line[z])) z++; line.erase(q, z - q); } norm += line + "\n"; }
        auto it = tested.find(key);
        if (it == tested.end()) tested[key] = norm;
        else { SIM_CHECK(it->second == norm, "test-differs-after-restart", "life %zu command %zu: testing the same saved parameters printed different results: [%s] vs [%s]", l, i, it->second.substr(0, 500).c_str(), norm.substr(0, 500).c_str()); count("probe.test_pairs"); }
      }
    }
    // real life with faults
    where("life %zu", l);
    g_sh->life = (int)(2 * l + 1);
    Session s = run_session(script(false));
    SIM_CHECK(!s.r.unsafe, "memory-error", "life %zu: %s: %s", l, s.r.ending().c_str(), s.r.out.substr(0, 1500).c_str());
    SIM_CHECK(!s.r.hung, "no-progress", "life %zu did not end", l);
    // files
    for (int k = 0; k < NFILES; k++) {
      std::vector<std::pair<bool, std::string>> allowed = {{had[k], before[k]}};
      std::string story; bool load_error = false; (void)load_error;
      std::vector<bool> stale(NFILES, false);
      bool tainted = false;   // an earlier command reported an error: network contents may legitimately differ from the reference
      for (size_t i = 0; i < ops.size(); i++) {
        int c = (int)i + 1; if (!s.started(c)) break;
        if (s.err(c) && ops[i].op == "load" && !ref.err(c)) tainted = true;
        int kk = (int)ops[i].arg(0) % NFILES; if (kk < 0) kk = 0;
        if (ops[i].op == "save") stale[kk] = s.err(c);
        if (ops[i].op == "load" && stale[kk]) tainted = true;    // the file legitimately holds an older version
        if (ops[i].op != "save" || kk != k) continue;
        if (tainted) { allowed.clear(); break; }
        bool ok = s.acked(c) && !s.err(c);
        story += strf(" save#%zu:%s", i, ok ? "acknowledged" : s.err(c) ? "reported-failed" : "interrupted");
        if (ok) allowed.clear();
        allowed.push_back({true, want[i]});
      }
      if (allowed.empty()) continue;
      bool ex = exists(fname(k)); std::string now = slurp(fname(k)); bool good = false;
      for (auto& a : allowed) if (a.first == ex && (!ex || a.second == now)) good = true;
      if (!good) {
        bool last_ok = allowed.size() == 1 && !story.empty();
        SIM_FAIL(last_ok ? "acknowledged-save-lost" : "previous-model-destroyed", "life %zu (%s), %s: file is %s (%zu bytes) but must be one of %zu versions;%s", l, s.r.ending().c_str(), fname(k).c_str(), ex ? "different" : "missing", now.size(), allowed.size(), story.c_str());
      }
    }
    // outputs: as long as nothing was reported, every finished command printed what the fault-free run printed
    bool reported = s.started(0) && s.seg[0].find("ERR [") != std::string::npos;
    for (size_t i = 0; i < ops.size() && !reported; i++) {
      int c = (int)i + 1; if (!s.acked(c)) break;
      if (s.err(c) != ref.err(c)) { reported = true; break; }
      if (ops[i].op == "test" || ops[i].op == "train") SIM_CHECK(metrics(s.seg[c]) == metrics(ref.seg[c]), "silent-difference", "life %zu command %zu (%s): no error reported, yet the output differs from the run without faults: [%s] vs [%s]", l, i, ops[i].op.c_str(), metrics(s.seg[c]).substr(0, 600).c_str(), metrics(ref.seg[c]).substr(0, 600).c_str());
    }
    if (!s.r.crashed && !reported && !s.any_err()) SIM_CHECK(s.acked((int)ops.size()), "session-cut-short", "life %zu ended early without reporting an error: %s", l, s.r.ending().c_str());
    ev("life-files", hash_bytes(slurp(fname(0)).data(), slurp(fname(0)).size()), hash_bytes(slurp(fname(1)).data(), slurp(fname(1)).size()));
    sched_ev(mix(hash_bytes(slurp(fname(0)).data(), slurp(fname(0)).size()), s.seg.size()));
  }
}
Property sim::g_property = {"B01", gen, exec,
  "a run is non-trivial when at least one simulated process executed its commands to a prompt; distinct = distinct (fault trace, resulting model files, commands acknowledged)",
  "hash over faults that fired (kind, operation index, parameter) and model file contents after every process life",
  {"tools/trainNetwork.cpp main and parseCommand", "NetGraph::SerializeParameters/DeserializeParameters", "Tensor", "Trainer", "all layers", "TensorStreamDataset/TensorStreamPatchDataset", "libstdc++ streams"},
  {"disk (real files on a scratch tmpfs behind an interposed libc that injects faults)", "process crash (exit without flushing)", "clock (simulated)"},
  {"process-crash model: data handed to the kernel survives; power loss is not modelled because the program never calls fsync", "reference = the same binary without faults from the same disk contents; independent oracles: load/save identity, equal test results in different processes"},
  {}, 1200, 60000, 45, 1200};
