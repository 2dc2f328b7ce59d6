// VARIANT: asan
// TOOLS: trainNetwork
// What a session reports is also in the files it exports, or it says that it isn't.
#include "session.h"
#include "seams.h"
#include "toy.h"
#include <sstream>
#include <cmath>
#include <cstring>
#include <sys/stat.h>
using namespace sim;

static void gen(Rng& r, int tier, uint64_t, Plan& p) {
  p.env["toy"] = (long long)r.below(1 << 20); p.env["dir"] = r.chance(1, 12) ? 0 : r.chance(1, 20) ? 2 : 1;   // 0 no csv directory, 2 a file of that name
  if (r.chance(1, 4)) p.env["chunk"] = r.range(1, 40);
  int n = (int)r.range(2, tier ? 12 : 7);
  for (int i = 0; i < n; i++) switch (r.below(10)) {
    case 0: case 1: case 2: p.add("train", {r.range(1, 3), (long long)r.below(3)}); break;
    case 3: case 4: p.add("test"); break;
    case 5: case 6: p.add("experiment", {(long long)r.below(3)}); break;
    case 7: p.add("tstat", {(long long)r.below(2)}); break;
    case 8: p.add("graph", {(long long)r.below(2), (long long)r.below(2)}); break;
    default: if (r.chance(1, 2)) p.add("epoch", {(long long)r.below(50)}); else p.add("reset"); break;
  }
  if (r.chance(1, 4)) return;
  DryInfo d = dry_run(p);
  static const int kinds[] = {F_EIO_WRITE, F_ENOSPC, F_SHORT_WRITE, F_EINTR_WRITE, F_OPEN_FAIL, F_CLOSE_FAIL, F_CRASH, F_CRASH_TORN};
  for (int i = (int)r.range(1, 3); i > 0; i--) { long long m = (long long)d.io[0]; if (m > 0) p.add("fault", {0, kinds[r.below(sizeof kinds / sizeof *kinds)], r.range(1, m), (long long)r.below(4000)}); }
  if (r.chance(1, 3)) p.add("fault", {0, F_CLOCK_JUMP, (long long)r.range(1, 40), r.range(-4000000000000ll, 4000000000000ll)});
}
struct Report { long long epoch = 0; std::vector<std::pair<std::string, double>> v; bool complete = false; };
static std::string strip(const std::string& s) { std::string t; for (char c : s) if (isalnum((unsigned char)c)) t += c; return t; }
static std::vector<Report> reports(const std::string& seg) {
  std::vector<Report> r; std::istringstream in(seg); std::string l;
  while (std::getline(in, l)) {
    std::string t; for (size_t i = 0; i < l.size(); i++) { if (l[i] == 27) { while (i < l.size() && l[i] != 'm') i++; continue; } t += l[i]; }
    size_t q = t.find("Stats for epoch "); if (q != std::string::npos) { Report x; x.epoch = atoll(t.c_str() + q + 16); r.push_back(x); continue; }
    size_t k = t.find("RESULT --- "); if (k == std::string::npos) { if (!r.empty()) r.back().complete = true; continue; } if (r.empty() || r.back().complete) continue;
    size_t c = t.find(": ", k); if (c == std::string::npos) continue; const char* v = t.c_str() + c + 2; char* e; double d = strtod(v, &e); if (e == v) continue;
    std::string d0 = t.substr(k + 11, c - k - 11); size_t f = d0.find_first_not_of(' '); if (f == std::string::npos) continue; r.back().v.push_back({strip(d0.substr(f)), d});
  }
  return r;
}
struct Row { std::vector<std::string> c; };
static std::vector<std::string> split(const std::string& l) { std::vector<std::string> v(1); for (char c : l) if (c == ',') v.emplace_back(); else v.back() += c; return v; }
static bool same(double a, double b) { if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); if (std::isinf(a) || std::isinf(b)) return a == b; return std::abs(a - b) <= 6e-6 * std::max(std::abs(a), std::abs(b)) + 1e-12; }

static void exec(const Plan& p) {
  faults_from_plan(p); ToyOptions o; o.max_side = 9; o.max_train = 2; o.max_test = 2; Toy toy = make_toy((uint64_t)p.get("toy"), o); write_toy(toy);
  long long dir = p.get("dir", 1); if (dir == 1) mkdir("csv", 0755); else if (dir == 2) spit("csv", "a file");
  struct Cmd { std::string text; int kind; long long n; bool snaps; std::string exp; };   // kind 0 other, 1 train, 2 test, 3 experiment, 4 graph
  std::vector<Cmd> cmd; std::string exp = "unnamed"; int gr = 0;
  for (auto& s : p.steps) {
    if (s.op == "train") { long long e = std::max(1LL, std::min(s.arg(0), 3LL)); bool ns = s.arg(1) == 2; cmd.push_back({strf("train epochs=%lld%s", e, ns ? " no_snapshots=1" : ""), 1, e, !ns, exp}); }
    else if (s.op == "test") cmd.push_back({"test", 2, 1, true, exp});
    else if (s.op == "experiment") { exp = strf("e%lld", s.arg(0) % 3); cmd.push_back({"set experiment name=" + exp, 3, 0, false, exp}); }
    else if (s.op == "tstat") cmd.push_back({strf("tstat enable=%lld", s.arg(0) & 1), 0, 0, false, exp});
    else if (s.op == "graph") { cmd.push_back({strf("graph %sfile=g%d.dot", s.arg(0) ? "test " : "", gr++), 4, s.arg(0) & 1, false, exp}); }
    else if (s.op == "epoch") cmd.push_back({strf("set epoch epoch=%lld", s.arg(0)), 0, 0, false, exp});
    else if (s.op == "reset") cmd.push_back({"reset", 0, 0, false, exp});
  }
  std::vector<std::string> lines; for (auto& c : cmd) lines.push_back(c.text);
  where("session"); g_sh->life = 0; if (p.get("chunk")) io_chunk((uint64_t)p.get("toy"), (int)p.get("chunk"));
  Session s = run_session(lines);
  bool faulted = false; for (auto& st : p.steps) if (st.op == "fault" && st.arg(1) != F_CLOCK_JUMP) faulted = true;
  SIM_CHECK(!s.r.unsafe, "memory-error", "%s: %s", s.r.ending().c_str(), s.r.report.c_str()); SIM_CHECK(!s.r.hung, "no-progress", "the session did not end");
  SIM_CHECK(faulted || (s.r.exited && s.r.code == 0), "fault-free-session-failed", "session ended with %s", s.r.ending().c_str());
  if (dir != 1) { SIM_CHECK(faulted || s.err(0), "silent-loss", "there is no place for the statistics files, and the session does not say so"); }
  std::map<std::string, std::string> files; for (const char* n : {"unnamed", "e0", "e1", "e2"}) files[n] = slurp(strf("csv/%s.csv", n));
  // the graphs an undisturbed session writes
  std::string want_graph[2]; if (gr) { where("reference"); g_sh->life = 1; io_chunk(0, 0); mkdir("ref", 0755); Session q = run_session({"graph file=ref0.dot", "graph test file=ref1.dot"}); want_graph[0] = slurp("ref0.dot"); want_graph[1] = slurp("ref1.dot"); SIM_CHECK(q.acked(1) && q.acked(2) && want_graph[0].size() > 20, "harness", "no reference graph"); }
  // the file of an experiment holds what was reported since it was last begun
  struct File { bool ok = false; std::vector<std::string> rows; std::vector<int> by; bool header_known = false; }; std::map<std::string, size_t> begun; begun["unnamed"] = 0; std::map<std::string, bool> usable; usable["unnamed"] = dir == 1 && !s.err(0) && s.started(1);
  int g = 0; std::map<std::string, std::vector<std::pair<int, Report>>> expect; std::map<std::string, bool> sure; sure["unnamed"] = true;
  bool stopped = false; std::string last_begun = "unnamed";
  for (size_t i = 0; i < cmd.size() && !stopped; i++) {
    int k = (int)i + 1; Cmd& c = cmd[i]; bool ack = s.acked(k), err = s.err(k); if (!s.started(k)) break; if (!ack) stopped = true;
    if (c.kind == 3) { expect[c.exp].clear(); usable[c.exp] = ack && !err; sure[c.exp] = true; last_begun = c.exp; continue; }
    if (c.kind == 4) { if (ack && !err) { std::string f = slurp(strf("g%d.dot", g)); SIM_CHECK(f == want_graph[c.n], "incomplete-graph", "command %d (%s) reports no error, but its file has %zu bytes instead of %zu, or others", k, c.text.c_str(), f.size(), want_graph[c.n].size()); count("probe.graphs"); } g++; continue; }
    if (c.kind != 1 && c.kind != 2) continue;
    std::vector<Report> rp = reports(s.seg[(size_t)k]); size_t n = c.kind == 2 ? 1 : c.snaps ? (size_t)c.n : 1;
    if (!ack) { if (rp.size() < n) {} } else SIM_CHECK(rp.size() == n, "reports", "command %d (%s) prints %zu reports instead of %zu", k, c.text.c_str(), rp.size(), n);
    if (err || !ack) sure[c.exp] = false;     // told, or interrupted: rows of this command may be missing
    if (!sure[c.exp] || !usable[c.exp]) continue;
    for (auto& x : rp) expect[c.exp].push_back({k, x});
  }
  if (dir != 1) { count("probe.no_directory"); sched_ev(1); return; }
  for (auto& e : expect) {
    if (!usable[e.first] && e.first != last_begun) continue; if (!usable[e.first]) continue;
    std::string name = "csv/" + e.first + ".csv", text = files[e.first]; std::vector<std::string> ls; size_t a = 0; while (true) { size_t q = text.find('\n', a); if (q == std::string::npos) break; ls.push_back(text.substr(a, q - a)); a = q + 1; }
    std::string torn = text.substr(a); if (e.second.empty()) continue;
    SIM_CHECK(!ls.empty(), "lost-rows", "%s has no header although %zu reports were given without an error", name.c_str(), e.second.size());
    std::vector<std::string> head = split(ls[0]); SIM_CHECK(head.size() > 4 && head[0] == "IsTraining" && head[1] == "Epoch" && head[2] == "Iterations" && head[3] == "SecondsElapsed", "format", "%s has header [%s]", name.c_str(), ls[0].c_str());
    SIM_CHECK(ls.size() >= e.second.size() + 1, "lost-rows", "%s has %zu rows after %zu reports without an error", name.c_str(), ls.size() - 1, e.second.size());
    if (sure[e.first] && !faulted) SIM_CHECK(ls.size() == e.second.size() + 1 && torn.empty(), "extra-rows", "%s has %zu rows after %zu reports", name.c_str(), ls.size() - 1, e.second.size());
    for (size_t r = 0; r < e.second.size(); r++) {
      std::vector<std::string> row = split(ls[r + 1]); Cmd& c = cmd[(size_t)e.second[r].first - 1]; const Report& x = e.second[r].second;
      SIM_CHECK(row.size() == head.size(), "format", "row %zu of %s has %zu columns instead of %zu: [%s]", r, name.c_str(), row.size(), head.size(), ls[r + 1].c_str());
      SIM_CHECK(row[0] == (c.kind == 1 ? "1" : "0"), "wrong-row", "row %zu of %s is marked %s, but belongs to '%s'", r, name.c_str(), row[0].c_str(), c.text.c_str());
      SIM_CHECK(atoll(row[1].c_str()) == x.epoch, "wrong-row", "row %zu of %s names epoch %s, the console %lld", r, name.c_str(), row[1].c_str(), x.epoch);
      long long tb = toy.hybrid ? 1 : toy.pbatch, its = c.kind == 2 ? (long long)(toy.test.size() / 2) / tb + 1 : toy.iterations * (c.snaps ? 1 : c.n);
      SIM_CHECK(atoll(row[2].c_str()) == its, "wrong-row", "row %zu of %s counts %s iterations instead of %lld ('%s')", r, name.c_str(), row[2].c_str(), its, c.text.c_str());
      double secs = strtod(row[3].c_str(), nullptr); SIM_CHECK(secs > 0 && secs < 1000, "wrong-row", "row %zu of %s covers %s seconds", r, name.c_str(), row[3].c_str());
      size_t filled = 0; std::vector<bool> used(x.v.size(), false);
      for (size_t q = 4; q < head.size(); q++) {
        if (row[q].empty()) continue; filled++; bool found = false; double v = strtod(row[q].c_str(), nullptr);
        for (size_t z = 0; z < x.v.size(); z++) if (!used[z] && x.v[z].first == head[q]) { SIM_CHECK(same(x.v[z].second, v), "wrong-row", "row %zu of %s has %s %s, the console printed %g ('%s')", r, name.c_str(), head[q].c_str(), row[q].c_str(), x.v[z].second, c.text.c_str()); used[z] = found = true; break; }
        SIM_CHECK(found, "wrong-row", "row %zu of %s has a value for %s, the console has none", r, name.c_str(), head[q].c_str());
        if (head[q] == "FrameRate") { double frames = (double)its * (c.kind == 2 ? (double)tb : (double)toy.pbatch * toy.sbatch); SIM_CHECK(std::abs(v * secs - frames) <= 1e-6 * frames, "wrong-row", "row %zu of %s has %g frames per second over %g seconds, which are not %g frames", r, name.c_str(), v, secs, frames); }
      }
      SIM_CHECK(filled == x.v.size(), "wrong-row", "row %zu of %s has %zu values, the console %zu", r, name.c_str(), filled, x.v.size());
      count("probe.rows"); ev("row", (uint64_t)r, hash_bytes(ls[r + 1].data(), ls[r + 1].size()));
    }
    if (faulted) count("probe.rows_under_faults");
  }
  for (auto& c : cmd) sched_ev(hash_bytes(c.text.data(), c.text.size())); sched_ev((uint64_t)p.get("toy"));
}
Property sim::g_property = {"G02", gen, exec,
  "non-trivial: at least one row or graph was compared with what the session reported; distinct = distinct sessions and faults that fired",
  "hash over commands, networks and faults that fired",
  {"tools/trainNetwork.cpp, StatAggregator, CSVStatSink, ConsoleStatSink, Trainer, NetGraph::PrintGraph"}, {"disk (scratch directory behind an interposed libc)", "clock (simulated)"},
  {"beginning an experiment again starts its file anew", "after an error about a statistics file, its later rows may be missing"}, {"write errors", "full disk", "short writes", "open and close failures", "crashes with torn writes", "wall clock jumps"}, 4500, 80000, 45, 900};
