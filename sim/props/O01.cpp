// VARIANT: asan
// OPENCL: yes
// TOOLS: trainNetwork classifyImage
// Networks compute on an OpenCL device what they compute on the CPU, whatever the device's timing; device failures are reported.
#include "compute.h"
#include "session.h"
#include "streams.h"
#include "../core/seam_opencl.h"
#include "../opencl/prelude.h"
#undef __kernel
#undef __global
#undef __local
#undef __private
#undef __constant
#undef __read_only
#undef __write_only
#undef __read_write
#include "../opencl/driver.h"
#include <sstream>
#include <cmath>
#include <cstring>
#include <sys/stat.h>
using namespace sim;
enum { B_BENCH, B_SESSION, B_TENSORS };
static const int MAXN = 3;
// steps: device lag order garbage seed platforms devices platform device setting | pass ops | cmd kind arg | damage life kind seed
static void gen(Rng& r, int tier, uint64_t, Plan& p) {
  const int m = r.chance(1, 2) ? B_BENCH : r.chance(1, 2) ? B_TENSORS : B_SESSION; p.env["mode"] = m; p.env["blas"] = r.chance(1, 2); p.env["net"] = (long long)r.below(1 << 30); p.env["fill"] = (long long)r.below(5);
  const int n = (int)r.range(1, tier ? MAXN : 2);
  for (int i = 0; i < n; i++) { const bool odd = r.chance(1, 6); long long pl = odd || r.chance(1, 3) ? r.range(odd ? 0 : 1, 3) : 1, de = odd || r.chance(1, 3) ? r.range(odd ? 0 : 1, 3) : 1; p.add("device", {(long long)r.below(3), (long long)r.below(3), (long long)r.below(4), (long long)r.below(1 << 20), pl, de, r.chance(1, 3) ? (long long)r.below(odd ? 4 : (uint64_t)pl) : -1, r.chance(1, 3) ? (long long)r.below(odd ? 4 : (uint64_t)de) : -1}); if (r.chance(1, 20)) p.add("damage", {i + 1, (long long)r.below(14), (long long)r.below(1 << 20)}); }
  if (m == B_BENCH) for (int i = (int)r.range(1, tier ? 5 : 3); i > 0; i--) p.add("pass", {(long long)(r.below(16) | (r.chance(2, 3) ? 1 : 0))});
  else if (m == B_TENSORS) for (int i = (int)r.range(4, tier ? 30 : 16); i > 0; i--) p.add("op", {r.chance(1, 3) ? 0 : (long long)r.below(25), (long long)r.below(1 << 30)});
  else for (int i = (int)r.range(1, tier ? 6 : 4); i > 0; i--) p.add("cmd", {(long long)r.below(8), (long long)r.range(1, 2)});
  if (r.chance(1, 2)) return;
  DryInfo d = dry_run(p);
  for (int i = (int)r.range(1, 2); i > 0; i--) { int l = (int)r.range(1, n); if (m == B_SESSION && r.chance(1, 4)) l += 10;
    if (r.chance(3, 4)) { if (d.cl[l]) p.add("fault", {l, F_DEVICE, r.chance(1, 3) ? r.range(1, std::min(120ll, (long long)d.cl[l])) : r.range(1, (long long)d.cl[l]), (long long)r.below(3)}); }
    else if (d.io[l]) { static const int kinds[] = {F_EIO_READ, F_SHORT_READ, F_EINTR_READ, F_OPEN_FAIL, F_CLOSE_FAIL}; p.add("fault", {l, kinds[r.below(5)], r.range(1, (long long)d.io[l]), (long long)r.below(3000)}); } }
}
struct Device { ClConfig c; int platform, device; };
static Device device_of(const Step& s) {
  Device d; d.c.lag = (int)(s.arg(0) & 3) % 3; d.c.order = (int)(s.arg(1) & 3) % 3; d.c.garbage = (int)s.arg(2) & 3; d.c.seed = (uint64_t)s.arg(3); d.c.platforms = std::max(0, std::min(4, (int)s.arg(4, 1))); d.c.devices = std::max(0, std::min(4, (int)s.arg(5, 1)));
  d.platform = std::max(-1, std::min(9, (int)s.arg(6, -1))); d.device = std::max(-1, std::min(9, (int)s.arg(7, -1))); return d;
}
static std::string describe(const Device& d) { static const char* l[] = {"at once", "as late as possible", "at seeded moments"}, *o[] = {"in order", "in reverse order", "in seeded order"}, *g[] = {"zero", "not-a-number", "numbers", "old contents"}; return strf("a device that runs commands %s and work items %s, new buffers hold %s", l[d.c.lag], o[d.c.order], g[d.c.garbage]); }
static std::string kernel_text(int i) { return std::string(cl_programs_table[i].text, cl_programs_table[i].size); }
static void install() { mkdir("kernels", 0755); for (int i = 0; i < cl_programs_count; i++) spit(std::string("kernels/") + cl_programs_table[i].file, kernel_text(i)); }
static bool loud(const LifeResult& r) { return r.crashed || r.threw || !r.exited || r.code != 0; }
// numbers within the rounding of the two computations, everything else equal
static bool same_text(const std::string& a, const std::string& b) {
  size_t i = 0, j = 0;
  while (i < a.size() && j < b.size()) {
    if ((isdigit((unsigned char)a[i]) || a[i] == '-') && (isdigit((unsigned char)b[j]) || b[j] == '-')) {
      char *e, *f; double x = strtod(a.c_str() + i, &e), y = strtod(b.c_str() + j, &f); if (e != a.c_str() + i && f != b.c_str() + j) { if (!(x == y || (std::isnan(x) && std::isnan(y)) || std::fabs(x - y) <= 1e-5 + 2e-3 * std::max(std::fabs(x), std::fabs(y)))) return false; i = (size_t)(e - a.c_str()); j = (size_t)(f - b.c_str()); continue; }
    }
    if (a[i] != b[j]) return false; i++; j++;
  }
  return i == a.size() && j == b.size();
}
static bool close_to(const HT& a, const HT& b, double tol) { if (a.s != b.s || a.w != b.w || a.h != b.h || a.m != b.m) return false; double top = 0; for (float v : a.d) if (std::isfinite(v)) top = std::max(top, (double)std::fabs(v)); for (size_t i = 0; i < a.d.size(); i++) { float x = a.d[i], y = b.d[i]; if (x == y || (std::isnan(x) && std::isnan(y))) continue; if (!(std::fabs((double)x - y) <= tol * top)) return false; } return true; }
static bool sane(const std::vector<HT>& v) { for (auto& t : v) for (float x : t.d) if (!(std::fabs(x) < 1e3f)) return false; return true; }
// life: of the session or computation; classifyImage runs in life 10 + life. hard: faults that may be reported
struct Run { Device d; int life; bool damaged, hard, hard2; };
static std::vector<Run> runs_of(const Plan& p) {
  std::vector<Run> v; for (auto& s : p.steps) if (s.op == "device" && (int)v.size() < MAXN) { Run r; r.d = device_of(s); r.life = (int)v.size() + 1; r.damaged = r.hard = r.hard2 = false; v.push_back(r); }
  for (auto& s : p.steps) for (auto& r : v) { if (s.op == "damage" && s.arg(0) == r.life) r.damaged = true; if (s.op == "fault") { const int k = (int)s.arg(1); if (k == F_SHORT_READ || k == F_EINTR_READ) continue; if (s.arg(0) == r.life) r.hard = true; if (s.arg(0) == r.life + 10) r.hard2 = true; } }
  return v;
}
static bool usable(const Device& d) { return std::max(0, d.platform) < d.c.platforms && std::max(0, d.device) < d.c.devices; }
static void enter(const Plan& p, const Run& r) {
  install(); std::string cfg; if (r.d.platform >= 0) cfg += strf("opencl_platform=%d\n", r.d.platform); if (r.d.device >= 0) cfg += strf("opencl_device=%d\n", r.d.device); if (cfg.empty()) remove_file("config"); else spit("config", cfg);
  for (auto& s : p.steps) if (s.op == "damage" && s.arg(0) == r.life) { const int k = (int)((uint64_t)s.arg(1) % (uint64_t)cl_programs_count); std::string f = std::string("kernels/") + cl_programs_table[k].file, t = kernel_text(k); Rng q((uint64_t)s.arg(2)); if (q.chance(1, 3)) remove_file(f); else { t.resize(q.below(t.size() * 9 / 10)); spit(f, t); } count("probe.damages"); }
  cl_set(r.d.c); g_sh->life = r.life;
}
// before: reports; after: what a run must and must not have done. Returns whether its results count.
static bool judge(const Run& r, bool hard, const LifeResult& l, const char* what) {
  SIM_CHECK(!l.unsafe, "memory-error", "%s with %s: %s %s", what, describe(r.d).c_str(), l.ending().c_str(), l.report.substr(0, 1500).c_str());
  SIM_CHECK(!l.hung, "no-progress", "%s with %s did not end", what, describe(r.d).c_str());
  if (loud(l)) { SIM_CHECK(hard || r.damaged || !usable(r.d), "intact-refused", "%s with %s failed: %s %s", what, describe(r.d).c_str(), l.ending().c_str(), (l.what + " " + l.out.substr(l.out.size() > 400 ? l.out.size() - 400 : 0) + l.err.substr(l.err.size() > 300 ? l.err.size() - 300 : 0)).c_str()); count("probe.failures_reported"); return false; }
  SIM_CHECK(usable(r.d) || hard, "device-invented", "%s ran although platform %d and device %d do not exist (%d platforms with %d devices)", what, r.d.platform, r.d.device, r.d.c.platforms, r.d.c.devices);
  return true;
}
static void bench_mode(const Plan& p) {
  std::vector<int> ops; for (auto& s : p.steps) if (s.op == "pass" && ops.size() < 6) ops.push_back((int)s.arg(0) & 15);
  std::vector<std::pair<int, uint64_t>> hist; for (auto& s : p.steps) if (s.op == "op" && hist.size() < 60) hist.push_back({(int)((uint64_t)s.arg(0) % 25), (uint64_t)s.arg(1)});
  const bool tensors = p.get("mode") == B_TENSORS; if (tensors ? hist.empty() : ops.empty()) return;
  const uint64_t net = (uint64_t)p.get("net"); g_sh->life = 0; where("on the CPU");
  LifeResult l = run_life([&] { return tensors ? world_cpu::tensor_compute(hist, "ref.snap") : world_cpu::bench_compute(net, ops, "ref.snap"); });
  SIM_CHECK(l.exited && l.code == 0, "reference-failed", "%s %s", l.ending().c_str(), l.report.substr(0, 1000).c_str());
  Snap ref; SIM_CHECK(snap_load("ref.snap", ref), "reference-failed", "no results");
  if (!ref.empty() && ref.back().first == "ties") { count("probe.ties_skipped"); sched_ev(net); return; }
  Snap first; std::string first_name;
  for (auto& r : runs_of(p)) {
    enter(p, r); const bool blas = p.get("blas"); where("on %s", describe(r.d).c_str()); remove_file("got.snap");
    l = run_life([&] { exe_path("./trainNetwork"); if (tensors) return blas ? world_Blas::tensor_compute(hist, "got.snap") : world_Ocl::tensor_compute(hist, "got.snap"); return blas ? world_Blas::bench_compute(net, ops, "got.snap") : world_Ocl::bench_compute(net, ops, "got.snap"); });
    sched_ev(net); sched_ev(mix(r.d.c.seed, (uint64_t)(r.d.c.lag * 9 + r.d.c.order * 3 + blas)));
    if (!judge(r, r.hard, l, "computing")) continue;
    Snap got; SIM_CHECK(snap_load("got.snap", got), "run-failed", "no results"); std::string name = strf("%s%s", describe(r.d).c_str(), blas ? " (clBLAS)" : "");
    snap_compare(ref, got, "the CPU", name, 1e-4); if (first.empty()) { first = got; first_name = name; } else { snap_compare(first, got, first_name, name, 0); count("probe.devices_compared"); }
    count(tensors ? "probe.tensor_histories_compared" : "probe.benches_compared");
  }
}
static std::string fraction_same(const std::vector<HT>& a, const std::vector<HT>& b, double& f) { f = 1; if (a.size() != 1 || b.size() != 1 || a[0].d.size() != b[0].d.size()) return "not one tensor of the size of the image"; size_t n = 0; for (size_t i = 0; i < a[0].d.size(); i++) n += std::fabs(a[0].d[i] - b[0].d[i]) <= 1.01f / 255; f = a[0].d.empty() ? 1 : (double)n / (double)a[0].d.size(); return ""; }
static void session_mode(const Plan& p) {
  ToyOptions o; o.max_side = 9; o.max_train = 2; o.max_test = 2; Toy t = make_toy((uint64_t)p.get("net"), o); write_toy(t); mkdir("csv", 0777);
  std::vector<std::string> cmds; int saves = 0;
  for (auto& s : p.steps) if (s.op == "cmd" && cmds.size() < 7) switch (s.arg(0) & 7) { case 0: case 1: case 2: cmds.push_back("train epochs=1"); break; case 3: case 4: cmds.push_back("test"); break; case 5: cmds.push_back("reset"); break; case 6: cmds.push_back(strf("save file=m%d.Tensor", saves++)); break; default: cmds.push_back(saves ? strf("load file=m%d.Tensor", (int)(s.arg(1) % saves)) : "set epoch=2"); }
  cmds.push_back("train epochs=1"); cmds.push_back("save file=last.Tensor"); cmds.push_back("test");
  Rng q((uint64_t)p.get("net") + 5); HT im(1, (uint64_t)q.range(3, 16), (uint64_t)q.range(3, 16), (uint64_t)t.in_maps); for (auto& v : im.d) v = q.f(-1, 1); spit("in.Tensor", ht_encode(im));
  std::vector<std::string> files = {"last.Tensor"}; for (int i = 0; i < saves; i++) files.push_back(strf("m%d.Tensor", i));
  auto classify = [&](int (*f)(int, char**)) { return run_life([&] { exe_path("./classifyImage"); return call_main(f, {"classifyImage", "data.set", "net.net", "model.Tensor", "in.Tensor", "out.Tensor"}); }, "", true); };
  g_sh->life = 0; where("on the CPU"); session_main = nullptr; remove_file("config");
  Session a = run_session(cmds); SIM_CHECK(a.r.exited && a.r.code == 0 && !a.any_err(), "reference-failed", "%s %s", a.r.ending().c_str(), a.r.err.c_str());
  std::vector<std::vector<HT>> ref; bool ok = true; for (auto& f : files) { std::vector<HT> v; SIM_CHECK(ht_decode_stream(slurp(f), v), "reference-failed", "model unreadable"); ok &= sane(v); ref.push_back(v); }
  if (!ok) { count("probe.diverged"); return; }
  spit("model.Tensor", slurp("last.Tensor")); g_sh->life = 20; LifeResult c = classify(classifyImage_main); SIM_CHECK(c.exited && c.code == 0, "reference-failed", "classifyImage: %s %s", c.ending().c_str(), c.out.c_str()); std::vector<HT> pic; SIM_CHECK(ht_decode_stream(slurp("out.Tensor"), pic), "reference-failed", "output unreadable");
  std::vector<std::string> first; const bool blas = p.get("blas");
  for (auto& r : runs_of(p)) {
    for (auto& f : files) remove_file(f); remove_file("out.Tensor"); enter(p, r); where("session on %s", describe(r.d).c_str());
    sched_ev((uint64_t)p.get("net")); sched_ev(mix(r.d.c.seed, (uint64_t)(r.d.c.lag * 9 + r.d.c.order * 3 + blas)));
    static bool use_blas; use_blas = blas; session_main = [](int n, char** v) { exe_path("./trainNetwork"); return use_blas ? trainNetworkBlas_main(n, v) : trainNetworkOcl_main(n, v); };
    Session b = run_session(cmds); session_main = nullptr;
    const bool err = b.any_err() && !loud(b.r);
    if (!judge(r, r.hard, b.r, "a session")) continue;
    if (err) { SIM_CHECK(r.hard, "intact-refused", "a session with %s reported an error: %s", describe(r.d).c_str(), b.r.out.substr(b.r.out.size() > 500 ? b.r.out.size() - 500 : 0).c_str()); count("probe.failures_reported"); continue; }
    SIM_CHECK(r.hard || b.seg[0].find(strf("Using OpenCL device: simulated device %d of platform %d", std::max(0, r.d.device), std::max(0, r.d.platform))) != std::string::npos, "wrong-device", "platform %d and device %d are configured, but: %s", r.d.platform, r.d.device, b.seg[0].c_str());
    SIM_CHECK(a.seg.size() == b.seg.size(), "output-differs", "%zu instead of %zu prompts", b.seg.size(), a.seg.size());
    for (size_t i = 1; i < a.seg.size(); i++) { std::string m = metrics(a.seg[i]), n = metrics(b.seg[i]); SIM_CHECK(same_text(m, n), "output-differs", "%s: %s on the CPU / with %s", cmds[std::min(i, cmds.size()) - 1].c_str(), first_diff(m, n).c_str(), describe(r.d).c_str()); }
    std::vector<std::string> now; for (size_t i = 0; i < files.size(); i++) { std::vector<HT> v; std::string by = slurp(files[i]); now.push_back(by); SIM_CHECK(ht_decode_stream(by, v) && v.size() == ref[i].size(), "model-differs", "%s is damaged with %s", files[i].c_str(), describe(r.d).c_str()); for (size_t k = 0; k < v.size(); k++) SIM_CHECK(close_to(ref[i][k], v[k], 1e-2), "model-differs", "%s: parameter tensor %zu differs from the CPU's with %s", files[i].c_str(), k, describe(r.d).c_str()); }
    if (first.empty()) first = now; else { SIM_CHECK(first == now, "model-differs", "saved models differ between devices that differ in timing only (%s)", describe(r.d).c_str()); count("probe.devices_compared"); }
    count("probe.sessions_compared");
    // the same picture from the same model
    { g_sh->life = r.life + 10; c = classify(blas ? classifyImageBlas_main : classifyImageOcl_main); if (judge(r, r.hard2, c, "classifyImage")) { std::vector<HT> g; double f = 0; std::string bad = ht_decode_stream(slurp("out.Tensor"), g) ? fraction_same(pic, g, f) : "unreadable"; SIM_CHECK(bad.empty() && f >= 0.97, "picture-differs", "classifyImage with %s: %s %.1f %% of the values equal the CPU's", describe(r.d).c_str(), bad.c_str(), f * 100); count("probe.pictures_compared"); } }
  }
}
static void exec(const Plan& p) { faults_from_plan(p); alloc_fill((int)p.get("fill"), 3); clean_scratch(); if (p.get("mode") == B_SESSION) session_mode(p); else bench_mode(p); }
Property sim::g_property = {"O01", gen, exec,
  "non-trivial: at least one computation on a device was compared with the CPU or refused; distinct = distinct (network, device behaviour, faults that fired)",
  "hash over networks, device behaviours and the injected faults",
  {"src/ built for OpenCL and for OpenCL with clBLAS (namespaces renamed), all OpenCL kernels (compiled as C++)", "tools/trainNetwork.cpp, tools/classifyImage.cpp"}, {"OpenCL runtime and device (simulated, in-order queue)", "clBLAS (simulated)", "disk", "heap contents"},
  {"kernels run as C++ with the arithmetic of the host; numerical differences of real devices are outside of the check", "maximum pooling windows with two equal maxima are skipped in buffer comparisons"}, {"device errors of single calls", "lost devices", "device memory exhausted", "delayed commands", "work item order", "contents of new buffers", "read errors, failing opens", "missing and cut off kernels", "missing platforms and devices"}, 4000, 120000, 45, 900};
