// VARIANT: asan
// TOOLS: trainNetwork
// Loading models: complete files are loaded exactly, everything else is reported and changes nothing.
#include "session.h"
#include "world.h"
#include <cstring>
#include <sstream>
#include <sys/stat.h>
using namespace sim;

enum { M_GOOD, M_TRUNC, M_HEADER, M_DROP_FIRST, M_DROP_LAST, M_EXTRA, M_EMPTY, M_VALUE, M_GARBAGE, M_RESIZE, M_BOUNDARY, M_MISSING, M_HUGE, M_KINDS };
static void gen(Rng& r, int tier, uint64_t, Plan& p) {
  p.env["toy"] = (long long)r.below(1 << 20);
  p.env["chunk"] = r.chance(1, 3) ? (long long)r.range(1, 64) : 0;
  int n = (int)r.range(2, tier ? 10 : 6);
  for (int i = 0; i < n; i++) {
    if (r.chance(1, 4)) p.add("train", {1});
    if (r.chance(1, 8)) p.add("reset");
    p.add("load", {(long long)r.below(M_KINDS), (long long)r.below(1 << 20), r.chance(1, 2) ? 0 : (long long)r.range(1, 12)});
  }
  if (r.chance(1, 2)) return;
  DryInfo d = dry_run(p);
  static const int kinds[] = {F_EIO_READ, F_EIO_READ, F_SHORT_READ, F_EINTR_READ, F_OPEN_FAIL, F_SEEK_FAIL, F_CLOSE_FAIL};
  for (int i = (int)r.range(1, 3); i > 0; i--) { long long m = (long long)d.io[1]; p.add("fault", {1, kinds[r.below(sizeof kinds / sizeof *kinds)], r.range(m / 4, m), (long long)r.below(4000)}); }
}
typedef std::vector<std::vector<float>> Params;
static void exec(const Plan& p) {
  faults_from_plan(p);
  Toy toy = make_toy((uint64_t)p.get("toy")); write_toy(toy); mkdir("csv", 0755);
  // which layer owns each parameter set, and its size
  std::vector<int> layer_of; std::vector<std::vector<uint64_t>> dims;
  where("structure"); g_sh->life = 0;
  LifeResult st = run_life([&] {
    World w = make_world(toy, toy.hybrid, toy.hybrid ? Conv::LOAD_TRAINING_ONLY : Conv::LOAD_BOTH);
    std::string o; int l = 0;
    for (auto* n : w.graph->GetNodes()) { for (auto* c : n->layer->parameters()) o += strf("%d %zu %zu %zu %zu\n", l, (size_t)c->data.samples(), (size_t)c->data.width(), (size_t)c->data.height(), (size_t)c->data.maps()); l++; }
    spit(scratch_dir() + "/.sim.struct", o); return 0;
  });
  SIM_CHECK(st.exited && st.code == 0, "structure", "cannot build the network: %s %s", st.ending().c_str(), st.report.substr(0, 800).c_str());
  { std::istringstream in(slurp(scratch_dir() + "/.sim.struct")); int l; uint64_t a, b, c, d; while (in >> l >> a >> b >> c >> d) { layer_of.push_back(l); dims.push_back({a, b, c, d}); } }
  // the files
  auto size_of = [&](size_t k) { return dims[k][0] * dims[k][1] * dims[k][2] * dims[k][3]; };
  auto model = [&](uint64_t seed) { Rng q(seed); std::vector<HT> v; for (auto& d : dims) { HT t(d[0], d[1], d[2], d[3]); for (auto& x : t.d) x = q.f(-0.3f, 0.3f); v.push_back(t); } return v; };
  std::vector<std::string> cmd; std::vector<int> what;   // -1 other, -2 save, else index of step
  int files = 0, saves = 0;
  auto save = [&] { cmd.push_back(strf("save file=s%d.Tensor", saves++)); what.push_back(-2); };
  std::vector<std::string> content; std::vector<bool> present; std::vector<long long> upto;
  save();
  for (auto& s : p.steps) {
    if (s.op == "train") { cmd.push_back("train epochs=1"); what.push_back(-1); save(); }
    else if (s.op == "reset") { cmd.push_back("reset"); what.push_back(-1); save(); }
    else if (s.op == "load") {
      Rng q((uint64_t)s.arg(1) * 77 + 5); auto v = model((uint64_t)s.arg(1)); std::string b = ht_encode_stream(v); bool there = true;
      switch (s.arg(0)) {
        case M_TRUNC: b.resize(q.below(b.size())); break;
        case M_HEADER: { size_t t = q.below(v.size()), at = 0; for (size_t i = 0; i < t; i++) at += 32 + v[i].d.size() * 4; b[at + q.below(32)] ^= (char)(1 << q.below(8)); break; }
        case M_DROP_FIRST: v.erase(v.begin()); b = ht_encode_stream(v); break;
        case M_DROP_LAST: v.resize(v.size() - 1 - q.below(v.size() - 1)); b = ht_encode_stream(v); break;
        case M_EXTRA: b += q.chance(1, 2) ? std::string(q.range(1, 80), 'x') : ht_encode(v[0]); break;
        case M_EMPTY: b.clear(); break;
        case M_VALUE: { size_t t = q.below(v.size()); float f; uint32_t u = (uint32_t)q.u64(); memcpy(&f, &u, 4); if (!(std::abs(f) < 10)) f = 0.5f; v[t].d[q.below(v[t].d.size())] = f; b = ht_encode_stream(v); break; }
        case M_GARBAGE: { size_t at = q.below(b.size()); for (size_t i = at; i < b.size() && i < at + 16; i++) if (i % 32 < 32) b[i] = (char)q.below(256); break; }
        case M_RESIZE: { size_t t = q.below(v.size()); v[t] = HT(1, v[t].w + 1, v[t].h, v[t].m); b = ht_encode_stream(v); break; }
        case M_BOUNDARY: { size_t t = q.below(v.size()), at = 0; for (size_t i = 0; i <= t; i++) at += 32 + v[i].d.size() * 4; long long cut = (long long)at - (long long)q.below(6); b.resize(std::max(0LL, std::min(cut, (long long)b.size()))); break; }
        case M_MISSING: there = false; break;
        case M_HUGE: { uint64_t big = 1ull << q.range(20, 62); memcpy(&b[8 * q.below(4)], &big, 8); break; }
        default: break;
      }
      std::string f = strf("f%d.Tensor", files++); if (there) spit(f, b);
      content.push_back(b); present.push_back(there); upto.push_back(s.arg(2));
      cmd.push_back("load file=" + f + (s.arg(2) ? strf(" last_layer=%lld", s.arg(2)) : "")); what.push_back((int)content.size() - 1);
      save();
    }
  }
  where("session"); g_sh->life = 1;
  if (p.get("chunk")) io_chunk((uint64_t)p.get("chunk"), (int)p.get("chunk"));
  Session s = run_session(cmd);
  io_chunk(0, 0);
  SIM_CHECK(!s.r.unsafe, "memory-error", "session: %s: %s", s.r.ending().c_str(), s.r.out.substr(s.r.out.size() > 1500 ? s.r.out.size() - 1500 : 0).c_str());
  SIM_CHECK(!s.r.hung, "no-progress", "session did not end");
  bool faulted = false; for (auto& x : p.steps) if (x.op == "fault") faulted = true;
  SIM_CHECK(faulted || (s.r.exited && s.r.code == 0), "session-ended", "session ended with %s although nothing but loads of damaged files happened: %s", s.r.ending().c_str(), s.r.out.substr(s.r.out.size() > 400 ? s.r.out.size() - 400 : 0).c_str());
  Params cur; bool known = false; int sv = 0;
  for (size_t i = 0; i < cmd.size(); i++) {
    int c = (int)i + 1; if (!s.acked(c)) { count("probe.ended_early"); break; }
    if (what[i] == -1) known = false;
    else if (what[i] == -2) {
      std::string f = strf("s%d.Tensor", sv++); if (s.err(c)) continue;
      std::vector<HT> t; SIM_CHECK(ht_decode_stream(slurp(f), t) && t.size() == dims.size(), "model-unreadable", "model saved by command %d is not a sequence of %zu tensors", c, dims.size());
      if (known) for (size_t k = 0; k < t.size(); k++) SIM_CHECK(t[k].d.size() == cur[k].size() && !memcmp(t[k].d.data(), cur[k].data(), cur[k].size() * 4), "parameters-wrong", "after [%s] parameter set %zu (layer %d) is not what %s gives; previous command output: %s", i ? cmd[i - 1].c_str() : "", k, layer_of[k], i && s.err(c - 1) ? "leaving the network unchanged after the reported error" : "the file", i ? metrics(s.seg[c - 1]).substr(0, 500).c_str() : "");
      cur.clear(); for (auto& x : t) cur.push_back(x.d); if (known) count("probe.compared"); known = true;
      for (auto& x : t) ev("param", hash_bytes(x.d.data(), x.d.size() * 4));
    } else {
      int n = what[i]; bool rejected = s.err(c);
      // reference loader
      bool ok = present[n]; Params next = cur; size_t at = 0, got = 0; const std::string& b = content[n];
      for (size_t k = 0; ok && k < dims.size() && (!upto[n] || layer_of[k] <= upto[n]); k++) {
        if (got && at == b.size()) break;
        uint64_t h[4]; if (b.size() - at < 32) { ok = false; break; } memcpy(h, b.data() + at, 32); at += 32;
        unsigned __int128 el = 1; for (auto x : h) { if (x > (1ull << 62)) ok = false; el *= x > (1ull << 31) ? (1ull << 31) : x; if (el > (1ull << 40)) { ok = false; break; } }
        if (!ok || el != size_of(k) || b.size() - at < (size_t)el * 4) { ok = false; break; }
        std::vector<float> v((size_t)el); memcpy(v.data(), b.data() + at, v.size() * 4); at += v.size() * 4;
        if (known) next[k] = v; got++;
      }
      if (!rejected) { SIM_CHECK(ok, "damage-accepted", "command %d [%s] reported success although the file (%zu bytes) does not hold the parameters: %s", c, cmd[i].c_str(), b.size(), metrics(s.seg[c]).substr(0, 500).c_str()); if (known) cur = next; count("probe.accepted"); }
      else { SIM_CHECK(!ok || faulted, "intact-rejected", "command %d [%s] reported an error for an intact file: %s", c, cmd[i].c_str(), metrics(s.seg[c]).substr(0, 500).c_str()); count("probe.rejected"); }
      sched_ev(mix(hash_bytes(b.data(), b.size()), rejected));
    }
  }
}
Property sim::g_property = {"B02", gen, exec,
  "non-trivial: at least one load was compared parameter by parameter with the prediction of the reference loader",
  "hash over file contents, outcomes of loads and faults that fired",
  {"tools/trainNetwork.cpp load and save", "NetGraph::DeserializeParameters", "Tensor::Deserialize", "libstdc++ streams"}, {"disk (scratch directory behind an interposed libc)", "clock (simulated)"},
  {"reference loader of the harness; which layer owns which parameter set is taken from a second instance of the network; files carry no checksum, so altered values are valid values"}, {}, 3000, 120000, 45, 900};
