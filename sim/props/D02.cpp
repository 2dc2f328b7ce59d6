// VARIANT: asan
// Datasets deliver exactly the images of their files, whatever the format, or fail loudly.
#include "images.h"
#include "streams.h"
#include "world.h"
#include <cmath>
#include <fstream>
#include <stdexcept>
#include <sys/stat.h>
using namespace sim;
using namespace Conv;

enum { K_FLOAT, K_COMPRESSED, K_LIST };
enum { X_NONE, X_TRUNC, X_HEADER, X_MISSING, X_ODD, X_LABEL_SIZE, X_MAPS, X_EMPTY, X_SENTINEL, X_SHORT_LIST, X_KINDS };
static const char* xname[] = {"none", "truncated", "header-bit", "missing", "odd-count", "label-size", "map-count", "empty", "end-marker", "short-label-list"};
// steps: damage kind seed set(0 train,1 test) | classes delta | get test index slot
static void gen(Rng& r, int tier, uint64_t, Plan& p) {
  p.env["data"] = (long long)r.below(1 << 30);
  p.env["patch"] = r.chance(1, 3);
  p.env["ftrain"] = (long long)r.below(3); p.env["ftest"] = (long long)r.below(3);
  p.env["sel"] = (long long)(r.chance(2, 3) ? 2 : r.below(2));
  p.env["nommap"] = r.chance(1, 4); p.env["fill"] = (long long)r.below(5);
  p.env["chunk"] = r.chance(1, 4) ? (long long)r.range(1, 400) : 0;
  if (r.chance(2, 5)) p.add("damage", {(long long)r.range(1, X_KINDS - 1), (long long)r.below(1 << 20), (long long)r.below(2)});
  if (r.chance(1, 12)) p.add("classes", {r.chance(1, 2) ? 1 : -1});
  for (int n = (int)r.range(2, tier ? 24 : 10); n > 0; n--) p.add("get", {(long long)r.below(2), (long long)r.below(1 << 16), (long long)r.below(2)});
  if (r.chance(1, 2)) return;
  DryInfo d = dry_run(p);
  static const int kinds[] = {F_EIO_READ, F_EIO_READ, F_EIO_READ, F_SHORT_READ, F_EINTR_READ, F_OPEN_FAIL, F_SEEK_FAIL, F_CLOSE_FAIL, F_MMAP_FAIL, F_MMAP_FAIL};
  for (int i = (int)r.range(1, 3); i > 0; i--) p.add("fault", {1, kinds[r.below(sizeof kinds / sizeof *kinds)], r.range(1, (long long)d.io[1] + 1), (long long)r.below(4000)});
}
struct Pair { HT im, lb; bool fits = true; };   // fits: image and label go together and with the rest of the dataset
static void exec(const Plan& p) {
  faults_from_plan(p);
  Rng q((uint64_t)p.get("data"));
  const bool patch = p.get("patch"); const int sel = (int)p.get("sel");
  int px = 1, py = 1; if (patch) { px = (int)q.range(1, 6); py = (int)q.range(1, 6); }
  const int maps = q.chance(1, 2) ? 1 : 3, labels = q.chance(1, 4) ? 1 : (int)q.range(2, 5);
  int classes = labels; for (auto& s : p.steps) if (s.op == "classes") classes = std::max(1, labels + (s.arg(0) > 0 ? 1 : -1));
  const bool kitti = q.chance(1, 6), weighted = q.chance(1, 2);
  std::vector<unsigned> colors; std::vector<float> weights;
  while ((int)colors.size() < classes + 1) { unsigned c = (unsigned)q.below(1 << 24); if (q.chance(1, 6)) c = (c & 255) * 0x10101; bool dup = false; for (unsigned x : colors) dup |= x == c; if (!dup) colors.push_back(c); }
  for (int c = 0; c < classes; c++) weights.push_back(weighted ? (float)q.range(0, 8) / 4.f : 1.f);
  bool reject = false, inconsistent = classes != labels, list_used = false; std::vector<Pair> set[2]; std::string spec[2]; int dmg[2] = {X_NONE, X_NONE};
  for (int k = 0; k < 2; k++) {
    int fmt = (int)p.get(k ? "ftest" : "ftrain") % 3; if (patch && fmt != K_FLOAT) fmt = K_FLOAT;
    const char* base = k ? "te" : "tr"; Rng d(1);
    for (auto& s : p.steps) if (s.op == "damage" && (s.arg(2) & 1) == k) { dmg[k] = (int)s.arg(0); d.reseed((uint64_t)s.arg(1)); }
    const int dm = dmg[k], pairs = (int)q.range(1, 3); const size_t victim = d.below((uint64_t)pairs); bool used = sel == 2 || sel == k, rej = false;
    auto side = [&](int least) { return (int)q.range(std::max(3, least + 1), q.chance(1, 8) ? 70 : 20); };
    if (fmt == K_LIST) {   // 8 bit images, labels in class colours
      list_used |= used;
      mkdir(strf("%simg", base).c_str(), 0755); mkdir(strf("%slab", base).c_str(), 0755); std::string il, ll; bool sloppy = q.chance(1, 3);
      for (size_t i = 0; i < (size_t)pairs; i++) {
        Image a, b; a.w = b.w = (unsigned)side(2); a.h = b.h = (unsigned)side(2); a.c = (unsigned)maps; b.c = 3;
        if (q.chance(1, 10)) { bool gray = true; for (int c = 0; c < classes; c++) gray &= (colors[c] & 255) * 0x10101 == colors[c]; if (gray) b.c = 1; }
        a.v.resize((size_t)a.w * a.h * a.c); b.v.resize((size_t)b.w * b.h * b.c); for (auto& v : a.v) v = (uint16_t)q.below(256);
        HT im(1, a.w, a.h, a.c), lb(1, a.w, a.h, (uint64_t)classes); int cl = 0;
        for (unsigned y = 0; y < a.h; y++) for (unsigned x = 0; x < a.w; x++) {
          if (q.chance(1, 3)) cl = (int)q.below(classes);
          unsigned col = colors[cl]; if (classes == 1 ? q.chance(1, 2) : sloppy && q.chance(1, 20)) col = (unsigned)q.below(1 << 24); if (b.c == 1) col = (col & 255) * 0x10101;
          if (classes == 1) { double s = 0; for (int c = 0; c < 3; c++) { double e = (((int)(col >> (16 - 8 * c)) & 255) - ((int)(colors[0] >> (16 - 8 * c)) & 255)) / 255.0; s += e * e; } lb.at(x, y, 0) = (float)(1 - 2 * std::sqrt(s / 3)); }
          else for (int c = 0; c < classes; c++) lb.at(x, y, c) = colors[c] == col;
          for (unsigned c = 0; c < b.c; c++) b.v[(y * b.w + x) * b.c + c] = (uint16_t)(col >> (16 - 8 * c) & 255);
        }
        const bool jpg = q.chance(1, 4); std::string n = strf("pic%zu", i), in = n + (jpg ? ".jpg" : ".png"), ln = n + ".png"; bool skip = false;
        std::string ib, lbb = png_encode(b, b.c == 1 ? 0 : 2, false, false, 6);
        if (jpg) { ib = jpg_encode(a, 90, false); bool bad; Image t; jpg_decode(ib, t, bad); a.v = t.v; } else ib = png_encode(a, a.c == 1 ? 0 : 2, q.chance(1, 5), false, 6);
        for (unsigned y = 0; y < a.h; y++) for (unsigned x = 0; x < a.w; x++) for (unsigned c = 0; c < a.c; c++) im.at(x, y, c) = (float)(a.at(x, y, c) / 255.0);
        if (i == victim) { std::string& w = d.chance(1, 2) && !jpg ? ib : lbb; switch (dm) {
          case X_TRUNC: w.resize(d.below(w.size())); rej = true; break;
          case X_HEADER: w[8 + d.below(25)] ^= 1; rej = true; break;   // length, name, header or check sum of the first chunk
          case X_MISSING: w.clear(); rej = true; break;
          case X_ODD: case X_MAPS: if (!jpg && &w == &ib) { a.c = maps == 1 ? 3 : 1; a.v.assign((size_t)a.w * a.h * a.c, 51); ib = png_encode(a, a.c == 1 ? 0 : 2, false, false, 6); im = HT(1, a.w, a.h, a.c); for (auto& v : im.d) v = 0.2f; } break;
          case X_LABEL_SIZE: { Image z; z.w = a.w + (d.chance(1, 2) ? 1 : 0); z.h = a.h + (z.w == a.w ? 1 : 0); z.c = 3; z.v.resize((size_t)z.w * z.h * 3); lbb = png_encode(z, 2, false, false, 6); skip = true; break; }
        } }
        if (!ib.empty()) spit(strf("%simg/", base) + in, ib);
        if (!lbb.empty()) spit(strf("%slab/", base) + ln, lbb);
        il += in + "\n"; if (dm != X_SHORT_LIST || i < victim) { ll += ln + "\n"; if (!skip && dm != X_EMPTY) { Pair pr; pr.im = im; pr.lb = lb; if (used) set[k].push_back(pr); } }
      }
      if (dm == X_EMPTY) il = ll = "";
      if (q.chance(1, 3) && !il.empty() && !ll.empty()) { il.pop_back(); ll.pop_back(); }
      spit(strf("%s.il", base), il); spit(strf("%s.ll", base), ll);
      spec[k] = strf("list:%s.il;%simg%s;%s.ll;%slab", base, base, q.chance(1, 2) ? "/" : "", base, base);
    } else {
      std::vector<HT> v; for (int i = 0; i < pairs; i++) { int w = side(px), h = side(py); v.push_back(random_image(q, w, h, maps)); v.push_back(random_label(q, w, h, labels)); }
      const size_t vi = victim * 2;
      if (dm == X_ODD) v.pop_back();
      if (dm == X_LABEL_SIZE) { HT l = v[vi + 1]; HT n(1, (uint64_t)std::max<int64_t>(2, (int64_t)l.w + d.range(-2, 2)), (uint64_t)std::max<int64_t>(2, (int64_t)l.h + d.range(-2, 2)), l.m); if (n.w == l.w && n.h == l.h) n = HT(1, l.w - 1, l.h, l.m); v[vi + 1] = n; }
      if (dm == X_MAPS) { size_t w = vi + d.below(2); v[w] = HT(1, v[w].w, v[w].h, v[w].m + (d.chance(1, 2) || v[w].m == 1 ? 1 : -1)); }
      if (dm == X_SENTINEL) v.resize(victim * 2);
      std::string b;
      if (fmt == K_COMPRESSED) { std::ostringstream out; uint64_t m = REF_CTS_MAGIC; out.write((const char*)&m, 8); for (auto& x : v) { Tensor c(x.s, x.w, x.h, x.m); memcpy(c.data_ptr(), x.d.data(), x.d.size() * 4); CompressedTensor z; z.Compress(c); z.Serialize(out); } b = out.str(); }
      else b = ht_encode_stream(v);
      if (dm == X_SENTINEL) b += std::string(fmt == K_COMPRESSED ? 40 : 32, '\0') + "rest";
      if (dm == X_TRUNC) b.resize(d.below(b.size()));
      if (dm == X_HEADER) b[(fmt == K_COMPRESSED ? 8 : 0) + d.below(32)] ^= (char)(1 << d.below(8));
      if (dm == X_EMPTY) b.resize(fmt == K_COMPRESSED ? 8 : 0);
      spec[k] = strf("%s.bin", base); if (dm != X_MISSING) spit(spec[k], b);
      RefStream rs = patch ? ref_float_stream(b) : ref_stream(b);
      rej = rs.damaged || dm == X_MISSING || rs.t.size() % 2;
      for (size_t i = 0; i + 1 < rs.t.size() && !rej && used; i += 2) { Pair pr; pr.im = rs.t[i]; pr.lb = rs.t[i + 1]; if (rs.bad[i] || rs.bad[i + 1]) pr.fits = false; set[k].push_back(pr); }
    }
    if (used) reject |= rej;
  }
  const Pair* first = set[0].empty() ? set[1].empty() ? nullptr : &set[1][0] : &set[0][0];
  if (!first) inconsistent = true;
  for (auto& v : set) for (auto& a : v) {
    a.fits = a.fits && a.im.s == 1 && a.lb.s == 1 && a.im.w == a.lb.w && a.im.h == a.lb.h && a.im.m == first->im.m && a.lb.m == first->lb.m && (int)a.lb.m <= classes && a.im.w <= 200 && a.im.h <= 200 && a.im.w > 1 && a.im.h > 1 && (int)a.im.w >= px && (int)a.im.h >= py;
    if (!a.fits) inconsistent = true;
  }
  { std::string s = "testing=" + spec[1] + "\ntraining=" + spec[0] + strf("\nclasses=%d\n", classes); for (int c = 0; c < classes; c++) s += strf("class %d\n", c);
    s += "colors\n"; for (int c = 0; c < classes; c++) s += strf("0x%06x\n", colors[c]);
    if (weighted) { s += "weights\n"; for (int c = 0; c < classes; c++) s += strf("%g\n", weights[c]); }
    s += strf("localized_error=%s\n%s", kitti ? "kitti" : "default", p.get("nommap") ? "nommap\n" : ""); spit("data.set", s); }
  alloc_fill((int)p.get("fill"), 12); system_init();
  if (p.get("chunk")) io_chunk((uint64_t)p.get("chunk"), (int)p.get("chunk"));
  g_sh->life = 1;
  LifeResult r = run_life([&] {
    const char* what = dmg[0] ? xname[dmg[0]] : xname[dmg[1]]; (void)what;
    auto hard = [] { return fault_fired(F_EIO_READ) || fault_fired(F_OPEN_FAIL) || fault_fired(F_SEEK_FAIL) || fault_fired(F_CLOSE_FAIL) || fault_fired(F_MMAP_FAIL); };
    Dataset* ds = nullptr; std::string err;
    where("opening the dataset");
    try {
      std::ifstream f("data.set", std::ios::in | std::ios::binary);
      if (!f.good()) throw std::runtime_error("dataset description cannot be opened");
      DatasetLoadSelection S = sel == 0 ? LOAD_TRAINING_ONLY : sel == 1 ? LOAD_TESTING_ONLY : LOAD_BOTH;
      ds = patch ? (Dataset*)TensorStreamPatchDataset::CreateFromConfiguration(f, false, S, (unsigned)px, (unsigned)py) : (Dataset*)TensorStreamDataset::CreateFromConfiguration(f, false, S);
    } catch (std::exception& e) { err = e.what(); }
    ev("open", ds != nullptr, set[0].size(), set[1].size()); sched_ev(mix(ds != nullptr, faults_fired()));
    if (!ds) {
      SIM_CHECK(reject || inconsistent || hard(), "intact-rejected", "a dataset whose files are intact was rejected: %s", err.c_str());
      count(reject ? "probe.damage_reported" : inconsistent ? "probe.inconsistency_reported" : "probe.fault_reported"); return 0;
    }
    SIM_CHECK(!reject, "damage-accepted", "a dataset with a damaged file (%s) was opened without an error; it offers %u training and %u testing samples", what, ds->GetTrainingSamples(), ds->GetTestingSamples());
    auto samples = [&](std::vector<Pair>& v) { uint64_t n = 0; for (auto& a : v) n += patch ? (a.im.w - px + 1) * (a.im.h - py + 1) : 1; return n; };
    const uint64_t N[2] = {samples(set[0]), samples(set[1])};
    SIM_CHECK(ds->GetTrainingSamples() == N[0] && ds->GetTestingSamples() == N[1], "sample-count", "the dataset offers %u training and %u testing samples, its files hold %llu and %llu", ds->GetTrainingSamples(), ds->GetTestingSamples(), (unsigned long long)N[0], (unsigned long long)N[1]);
    if (!first) return 0;
    const unsigned W = ds->GetWidth(), H = ds->GetHeight(), IM = ds->GetInputMaps(), LM = ds->GetLabelMaps();
    SIM_CHECK(IM == first->im.m && LM == first->lb.m, "map-count", "the dataset announces %u image and %u label maps, its files have %llu and %llu", IM, LM, (unsigned long long)first->im.m, (unsigned long long)first->lb.m);
    if ((uint64_t)W * H * (IM + LM) > (8u << 20)) return 0;
    if (!patch) for (auto& v : set) for (auto& a : v) SIM_CHECK(a.im.w <= W && a.im.h <= H, "size", "the dataset announces %ux%u, an image has %llux%llu", W, H, (unsigned long long)a.im.w, (unsigned long long)a.im.h);
    Tensor D(2, W, H, IM), L(2, patch ? 1 : W, patch ? 1 : H, LM), Hp(2, patch ? 1 : W, patch ? 1 : H, 2), Wt(2, patch ? 1 : W, patch ? 1 : H, 1); int step = 0;
    for (auto& s : p.steps) {
      if (s.op != "get") continue;
      step++; const int k = (int)(s.arg(0) & 1); const unsigned slot = (unsigned)(s.arg(2) & 1); const uint64_t n = N[k], idx = (uint64_t)s.arg(1) % (n + 2);
      where("get %d: %s sample %llu", step, k ? "testing" : "training", (unsigned long long)idx);
      bool ok = false; std::string e2;
      try { ok = k ? ds->GetTestingSample(D, L, Hp, Wt, slot, (unsigned)idx) : ds->GetTrainingSample(D, L, Hp, Wt, slot, (unsigned)idx); } catch (std::exception& e) { e2 = e.what(); }
      ev("get", idx, ok); sched_ev(mix(idx, (uint64_t)ok * 2 + (uint64_t)k));
      if (idx >= n) { SIM_CHECK(!ok, "no-such-sample", "get %d: %s sample %llu of %llu was delivered", step, k ? "testing" : "training", (unsigned long long)idx, (unsigned long long)n); continue; }
      uint64_t at = idx, c = 0, rr = 0; const Pair* a = nullptr;
      for (auto& x : set[k]) { uint64_t m = patch ? (x.im.w - px + 1) * (x.im.h - py + 1) : 1; if (at < m) { a = &x; if (patch) { c = at % (x.im.w - px + 1); rr = at / (x.im.w - px + 1); } break; } at -= m; }
      if (!ok) { SIM_CHECK(!a->fits || hard(), "intact-refused", "get %d: %s sample %llu was not delivered although its files are intact%s%s", step, k ? "testing" : "training", (unsigned long long)idx, e2.empty() ? "" : ": ", e2.c_str()); count("probe.refused"); continue; }
      if (!a->fits) { count("probe.misfit_delivered"); continue; }
      count("probe.samples_delivered");
      const HT &im = a->im, &lb = a->lb; const unsigned iw = (unsigned)im.w, ih = (unsigned)im.h;
      auto same = [&](double x, double y) { return std::abs(x - y) <= 2e-6 * (1 + std::abs(y)); };
      auto cls = [&](unsigned x, unsigned y) { int b = 0; for (unsigned m = 1; m < LM; m++) if (lb.at(x, y, m) > lb.at(x, y, b)) b = (int)m; return b; };
      auto lerr = [&](unsigned x, unsigned y) { return kitti ? (double)KITTIData::LocalizedError(x, y, iw, ih) : 1.0; };
      const char* kn = k ? "testing" : "training";
      for (unsigned y = 0; y < H; y++) for (unsigned x = 0; x < W; x++) {
        const bool in = patch || (x < iw && y < ih);
        for (unsigned m = 0; m < IM; m++) { double want = in ? im.at(x + c, y + rr, m) : 0, got = *D.data_ptr_const(x, y, m, slot); SIM_CHECK(same(got, want), "wrong-image", "get %d: %s sample %llu, pixel (%u,%u) map %u is %g instead of %g", step, kn, (unsigned long long)idx, x, y, m, got, want); }
        if (patch && (x || y)) continue;
        const unsigned X = patch ? (unsigned)c + px / 2 : x, Y = patch ? (unsigned)rr + py / 2 : y;
        for (unsigned m = 0; m < LM; m++) { double want = in ? lb.at(X, Y, m) : 0, got = *L.data_ptr_const(x, y, m, slot); SIM_CHECK(same(got, want), "wrong-label", "get %d: %s sample %llu, label at (%u,%u) map %u is %g instead of %g", step, kn, (unsigned long long)idx, x, y, m, got, want); }
        double ww = in ? lerr(X, Y) * weights[cls(X, Y)] : 0, gw = *Wt.data_ptr_const(x, y, 0, slot);
        SIM_CHECK(same(gw, ww), "wrong-weight", "get %d: %s sample %llu, weight at (%u,%u) is %g instead of %g", step, kn, (unsigned long long)idx, x, y, gw, ww);
        double hx = in ? (patch ? (double)c : x) / (iw - 1.0) : 0, hy = in ? (patch ? (double)rr : y) / (ih - 1.0) : 0;
        SIM_CHECK(same(*Hp.data_ptr_const(x, y, 0, slot), hx) && same(*Hp.data_ptr_const(x, y, 1, slot), hy), "wrong-helper", "get %d: %s sample %llu, helper at (%u,%u) is (%g,%g) instead of (%g,%g)", step, kn, (unsigned long long)idx, x, y, *Hp.data_ptr_const(x, y, 0, slot), *Hp.data_ptr_const(x, y, 1, slot), hx, hy);
      }
    }
    return 0;
  });
  g_sh->life = 0;
  SIM_CHECK(!r.unsafe && !r.hung && !r.crashed && !r.threw, r.hung ? "hang" : "memory-error", "the process %s (%s) %s", r.ending().c_str(), dmg[0] ? xname[dmg[0]] : xname[dmg[1]], r.report.c_str());
}
Property sim::g_property = {"D02", gen, exec,
  "non-trivial: at least one sample was delivered and compared, or damage was reported; distinct = distinct sequences of requested samples and outcomes",
  "hash over requests, outcomes and faults that fired",
  {"TensorStreamDataset", "TensorStreamPatchDataset", "FloatTensorStream", "CompressedTensorStream", "ListTensorStream", "Tensor", "PNGUtil", "JPGUtil"}, {"disk (scratch files)", "initial memory contents (seeded)"},
  {"KITTI error weights are trusted", "list entries whose image and label sizes differ are skipped by design"}, {"EIO on read", "short read", "EINTR", "open failure", "close failure", "seek failure", "mmap failure", "damaged and inconsistent files"}, 10000, 200000, 50, 900};
