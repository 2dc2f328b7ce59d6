// VARIANT: asan
// TOOLS: trainNetwork classifyImage
// classifyImage paints what the trained model predicts, for images of any size, or reports an error.
#include "images.h"
#include "session.h"
#include "streams.h"
#include "world.h"
#include <sstream>
#include <cmath>
#include <cstring>
#include <sys/stat.h>
using namespace sim;
using namespace Conv;
int classifyImage_main(int, char**);

// steps: classify kind seed | damage target kind seed (before the next classification)
// life 0: session, life i+1: classification i, life 20: oracle
static void gen(Rng& r, int tier, uint64_t, Plan& p) {
  p.env["toy"] = (long long)r.below(1 << 20); p.env["epochs"] = (long long)r.below(3); p.env["fill"] = (long long)r.below(5); p.env["chunk"] = r.chance(1, 4) ? (long long)r.range(1, 200) : 0;
  int n = (int)r.range(1, tier ? 6 : 3);
  for (int i = 0; i < n; i++) { if (r.chance(1, 8)) p.add("damage", {(long long)r.below(4), (long long)r.below(4), (long long)r.below(1 << 20)}); p.add("classify", {(long long)r.below(8), (long long)r.below(1 << 20)}); }
  if (r.chance(1, 2)) return;
  DryInfo d = dry_run(p);
  static const int kinds[] = {F_EIO_READ, F_EIO_READ, F_SHORT_READ, F_EINTR_READ, F_OPEN_FAIL, F_SEEK_FAIL, F_CLOSE_FAIL, F_EIO_WRITE, F_EIO_WRITE, F_SHORT_WRITE, F_ENOSPC, F_CRASH, F_CRASH_TORN, F_MMAP_FAIL};
  for (int i = (int)r.range(1, 2); i > 0; i--) { int l = (int)r.range(1, n); if (d.io[l]) p.add("fault", {l, kinds[r.below(sizeof kinds / sizeof *kinds)], r.range(1, (long long)d.io[l]), (long long)r.below(4000)}); }
}
static int up64(int v) { return (v + 63) / 64 * 64; }
struct Job { HT image; std::string out; bool tensor; std::vector<std::string> files; std::string bytes; int n; };
static void exec(const Plan& p) {
  faults_from_plan(p); alloc_fill((int)p.get("fill"), 3);
  ToyOptions o; o.max_side = 10; Toy toy = make_toy((uint64_t)p.get("toy"), o); write_toy(toy); mkdir("csv", 0755);
  where("session"); g_sh->life = 0; std::vector<std::string> cmd; if (p.get("epochs")) cmd.push_back(strf("train epochs=%lld", p.get("epochs"))); cmd.push_back("save file=model.Tensor");
  Session s = run_session(cmd); SIM_CHECK(s.r.exited && s.r.code == 0 && !s.any_err(), "session-failed", "the session that makes the model ended with %s", s.r.ending().c_str());
  const std::string model = slurp("model.Tensor"); std::vector<HT> params; SIM_CHECK(ht_decode_stream(model, params), "model-unreadable", "the saved model is not a sequence of tensors");
  for (auto& t : params) for (float v : t.d) if (!(std::fabs(v) < 1e4f)) { count("probe.diverged"); return; }
  if (p.get("chunk")) io_chunk((uint64_t)p.get("chunk"), (int)p.get("chunk"));
  std::vector<Job> jobs; int n = 0, dmg = -1, dkind = 0; uint64_t dseed = 0;
  for (auto& st : p.steps) {
    if (st.op == "damage") { dmg = (int)st.arg(0); dkind = (int)st.arg(1); dseed = (uint64_t)st.arg(2); continue; }
    if (st.op != "classify" || ++n > 15) continue;
    Rng q((uint64_t)st.arg(1) * 31 + (uint64_t)st.arg(0)); HT im; std::string in; int maps = toy.in_maps; const int kind = (int)st.arg(0);
    int w = (int)q.range(2, 20), h = (int)q.range(2, 20); if (q.chance(1, 5)) w = (int)q.range(60, 70); if (q.chance(1, 8)) h = (int)q.range(60, 70); if (kind == 0) h = w;
    bool wrong_maps = q.chance(1, 25); if (wrong_maps) maps = maps == 1 ? 3 : 1;
    im = HT(1, (uint64_t)w, (uint64_t)h, (uint64_t)maps);
    if (maps != 2 && q.chance(1, 2)) { Image a; a.w = (unsigned)w; a.h = (unsigned)h; a.c = (unsigned)maps; a.depth = 8; a.v.resize((size_t)w * h * maps); for (auto& v : a.v) v = (uint16_t)q.below(256); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int m = 0; m < maps; m++) im.at(x, y, m) = (float)(0.003921569f * (unsigned char)a.at(x, y, m)); in = strf("in%d.png", n); spit(in, png_encode(a, maps == 1 ? 0 : 2, q.chance(1, 4), false, 6)); }
    else { for (auto& v : im.d) v = q.f(-1.5f, 1.5f); in = strf("in%d.Tensor", n); spit(in, ht_encode(im)); }
    Job j; j.tensor = q.chance(1, 3); j.out = strf("out%d.%s", n, j.tensor ? "Tensor" : "png"); j.image = im; j.n = n;
    std::string args[4] = {"data.set", "net.net", "model.Tensor", in}, keep[4]; for (int i = 0; i < 4; i++) keep[i] = slurp(args[i]);
    // damage: what is missing or cut off must be refused (altered values are not detectable)
    bool broken = wrong_maps, maybe = false; std::string now[4]; for (int i = 0; i < 4; i++) now[i] = keep[i];
    if (dmg >= 0) { Rng dq(dseed); int t = dmg % 4; bool gone = dkind == 0; if (gone) remove_file(args[t]); else { if (t >= 2) { now[t].resize(dq.below(now[t].size())); broken = true; } else { now[t].resize(dq.below(now[t].size())); maybe = true; } spit(args[t], now[t]); } broken |= gone; if (t == 3 && in.size() > 4 && in.substr(in.size() - 4) == ".png" && !gone) { maybe = true; broken = wrong_maps; } count("probe.damages"); if (gone) now[t].clear(); }
    bool loud = false, crash = false; for (auto& f : p.steps) if (f.op == "fault" && f.arg(0) == n) { int k = (int)f.arg(1); if (k == F_CRASH || k == F_CRASH_TORN) crash = true; else if (k != F_SHORT_READ && k != F_EINTR_READ && k != F_SHORT_WRITE && k != F_EINTR_WRITE) loud = true; }
    where("classification %d", n); g_sh->life = n;
    LifeResult r = run_life([&] { return call_main(classifyImage_main, {"classifyImage", args[0], args[1], args[2], args[3], j.out}); }, "", true);
    SIM_CHECK(!r.unsafe, "memory-error", "classification %d of a %dx%d image: %s %s", n, w, h, r.ending().c_str(), r.report.substr(0, 1200).c_str()); SIM_CHECK(!r.hung, "no-progress", "classification %d did not end", n);
    for (int i = 0; i < 4; i++) if (exists(args[i])) SIM_CHECK(slurp(args[i]) == now[i], "input-changed", "classification %d changed %s", n, args[i].c_str()); else SIM_CHECK(now[i].empty(), "input-changed", "classification %d removed %s", n, args[i].c_str());
    const bool ok = r.exited && r.code == 0 && !r.crashed;
    if (ok) {
      SIM_CHECK(!broken, "damage-accepted", "%s is missing, cut off or does not fit, but classification %d ended successfully", wrong_maps ? args[3].c_str() : args[dmg % 4].c_str(), n);
      if (!maybe) { j.bytes = slurp(j.out); jobs.push_back(j); }
    } else {
      SIM_CHECK(loud || crash || broken || maybe, "intact-refused", "classification %d of a %dx%d image failed: %s %s", n, w, h, r.ending().c_str(), (r.what + r.out.substr(r.out.size() > 300 ? r.out.size() - 300 : 0)).c_str());
      count("probe.failures_reported");
    }
    for (int i = 0; i < 4; i++) spit(args[i], keep[i]); dmg = -1;
    sched_ev(mix((uint64_t)(w * 100 + h), (uint64_t)st.arg(1))); ev("classified", (uint64_t)n, ok, ok ? hash_bytes(j.bytes.data(), j.bytes.size()) : 0);
  }
  io_chunk(0, 0); if (jobs.empty()) { sched_ev((uint64_t)p.get("toy")); return; }
  // the colours of the dataset
  std::vector<unsigned> col; { std::istringstream set(toy.set_text); std::string l; while (std::getline(set, l)) if (l.compare(0, 2, "0x") == 0) col.push_back((unsigned)strtoul(l.c_str(), nullptr, 16)); }
  where("oracle"); g_sh->life = 20;
  LifeResult lr = run_life([&] {
    system_init();
    for (auto& j : jobs) {
      const int w = (int)j.image.w, h = (int)j.image.h, W = up64(w), H = up64(h); Tensor data(1, W, H, toy.in_maps), helper(1, W, H, 2); data.Clear(); helper.Clear();
      for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { for (int m = 0; m < toy.in_maps; m++) *data.data_ptr(x, y, m) = j.image.at(x, y, m); *helper.data_ptr(x, y, 0) = (float)x / (float)(w - 1); *helper.data_ptr(x, y, 1) = (float)y / (float)(h - 1); }
      std::istringstream in(toy.net_text); ConfigurableFactory f(in, 1, false); NetGraph g; NetGraphNode* in_node = new NetGraphNode(new InputLayer(data, helper)); in_node->is_input = true; g.AddNode(in_node);
      if (!f.AddLayers(g, NetGraphConnection(in_node), toy.classes, false)) SIM_FAIL("oracle", "cannot build the reference network");
      g.Initialize(); g.SetIsTesting(true); std::vector<CombinedTensor*> ps; g.GetParameters(ps); SIM_CHECK(ps.size() == params.size(), "model-shape", "the model has %zu tensors, the network %zu", params.size(), ps.size());
      for (size_t i = 0; i < ps.size(); i++) { SIM_CHECK(ps[i]->data.elements() == params[i].d.size(), "model-shape", "tensor %zu of the model has another size", i); memcpy(ps[i]->data.data_ptr(), params[i].d.data(), params[i].d.size() * 4); }
      g.FeedForward(); const Tensor& out = g.GetOutputNodes().at(0)->output_buffers[0].combined_tensor->data;
      // the written picture
      HT pic(1, (uint64_t)w, (uint64_t)h, 3);
      if (j.tensor) { std::vector<HT> t; SIM_CHECK(ht_decode_stream(j.bytes, t) && t.size() == 1 && t[0].w == pic.w && t[0].h == pic.h && t[0].m == 3 && t[0].s == 1, "output-damaged", "classification %d ended successfully, but its output is not one %dx%d tensor", j.n, w, h); pic = t[0]; }
      else { Image im; SIM_CHECK(png_decode(j.bytes, im) && (int)im.w == w && (int)im.h == h && im.c == 3 && im.depth == 8, "output-damaged", "classification %d ended successfully, but its output is not a %dx%d colour image (%zu bytes)", j.n, w, h, j.bytes.size()); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int m = 0; m < 3; m++) pic.at(x, y, m) = (float)im.at(x, y, m) / 255.f; }
      for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
        bool match = false; float got[3] = {pic.at(x, y, 0), pic.at(x, y, 1), pic.at(x, y, 2)}; int best = 0; const float tol = 1.01f / 255;   // colours are cut off to whole steps
        if (toy.classes == 1) { double v = ((double)*out.data_ptr_const(x, y, 0, 0) + 1) / 2; v = v > 0 ? std::min(v, 1.0) : 0; match = true; for (int m = 0; m < 3; m++) match &= std::fabs(got[m] - v * (col[0] >> (16 - 8 * m) & 255) / 255.0) <= tol; }
        else { for (int c = 1; c < toy.classes; c++) if (*out.data_ptr_const(x, y, c, 0) > *out.data_ptr_const(x, y, best, 0)) best = c;
          for (int c = 0; c < toy.classes; c++) if (!(*out.data_ptr_const(x, y, c, 0) < *out.data_ptr_const(x, y, best, 0))) { bool mm = true; for (int m = 0; m < 3; m++) mm &= std::fabs(got[m] - (col[c] >> (16 - 8 * m) & 255) / 255.0) <= tol; match |= mm; } }
        SIM_CHECK(match, "wrong-prediction", "classification %d (%dx%d): pixel (%d,%d) is painted (%.3f %.3f %.3f), but the model's output is %.6g%s", j.n, w, h, x, y, got[0], got[1], got[2], *out.data_ptr_const(x, y, best, 0), toy.classes == 1 ? "" : strf(" at class %d (0x%06x), %.6g at class 0", best, col[best], *out.data_ptr_const(x, y, 0, 0)).c_str());
      }
      count("probe.images_checked");
    }
    return 0;
  });
  SIM_CHECK(lr.exited && lr.code == 0, "oracle-failed", "reference evaluation ended with %s: %s", lr.ending().c_str(), (lr.report + lr.err).substr(0, 1200).c_str());
  sched_ev((uint64_t)p.get("toy"));
}
Property sim::g_property = {"M01", gen, exec,
  "non-trivial: at least one image was classified or refused; distinct = distinct networks, images and faults that fired",
  "hash over networks, images and faults that fired",
  {"tools/classifyImage.cpp, tools/trainNetwork.cpp", "ConfigurableFactory, NetGraph, layers, Dataset::Colorize, PNGUtil, Tensor files"}, {"disk (scratch directory behind an interposed libc)", "heap contents (seeded)"},
  {"network outputs are computed by the real layers on inputs assembled by the harness", "images of one pixel width or height are not generated (their position prior is undefined)"}, {"read and write errors", "short and interrupted reads and writes", "open, close, seek and mmap failures", "full disks", "crashes and torn writes", "damaged and missing files"}, 6000, 100000, 45, 900};
