// VARIANT: asan
// Which samples training and testing see, in which order, and what they contain.
#include "world.h"
#include <cmath>
#include <cstring>
using namespace sim;
using namespace Conv;

// steps: ff n (raw forward passes in the current mode) | mode b | train e | test | reset
static void gen(Rng& r, int tier, uint64_t, Plan& p) {
  p.env["toy"] = (long long)r.below(1 << 20);
  p.env["patch"] = r.chance(1, 2);
  p.env["batch"] = (long long)r.range(1, r.chance(1, 4) ? 9 : 4);
  p.env["loss_p"] = (long long)r.below(3);
  p.env["raw"] = r.chance(2, 3);
  p.env["sel"] = (long long)r.below(2);
  p.env["fill"] = (long long)r.below(5);
  if (p.env["raw"] && !p.env["patch"] && r.chance(1, 2)) p.env["big"] = (long long)r.range(1, 1 << 20);
  int n = (int)r.range(2, tier ? 14 : 8);
  for (int i = 0; i < n; i++) switch (r.below(7)) {
    case 0: case 1: case 2: p.add("ff", {(long long)r.range(1, r.chance(1, 3) ? 40 : 6)}); break;
    case 3: p.add("mode", {(long long)r.below(2)}); break;
    case 4: p.add("test"); break;
    case 5: p.add("reset"); break;
    default: p.add("train", {(long long)r.range(1, 2)}); break;
  }
}
static void exec(const Plan& p) {
  ToyOptions o; o.max_side = 30; o.min_side = 4; o.hybrid = (int)p.get("patch"); o.max_train = 5; o.max_test = 4;
  Toy t = make_toy((uint64_t)p.get("toy"), o);
  const bool patch = t.hybrid;
  if (p.get("big") && p.get("raw") && !patch) {   // sizes around those the network is padded to
    Rng q((uint64_t)p.get("big")); const bool wide = q.chance(1, 4);
    auto side = [&] { return q.chance(1, 2) ? 64 : q.chance(1, 3) ? (int)q.range(61, wide ? 67 : 64) : (int)q.range(2, 64); };
    for (auto* v : {&t.train, &t.test}) for (size_t i = 0; i + 1 < v->size(); i += 2) { int iw = side(), ih = side(); (*v)[i] = random_image(q, iw, ih, t.in_maps); (*v)[i + 1] = random_label(q, iw, ih, t.label_maps); }
  }
  write_toy(t); alloc_fill((int)p.get("fill"), 99);
  system_init();
  int px = t.rfx, py = t.rfy;
  // patch datasets can be used for testing as well as for training
  DatasetLoadSelection sel = LOAD_BOTH;
  World w; NetGraph* g; DatasetInputLayer* in; Recorder* rec; Trainer* trainer = nullptr;
  int batch = (int)p.get("batch", 1); if (batch < 1) batch = 1;
  float lp = patch ? 1.f : p.get("loss_p") == 0 ? 1.f : p.get("loss_p") == 1 ? 0.5f : 0.f;
  if (p.get("raw")) {   // the layer alone
    rec = new Recorder(open_dataset(t, patch, sel, px, py));
    in = new DatasetInputLayer(*rec, batch, lp, 4711);
    g = new NetGraph(); NetGraphNode* n = new NetGraphNode(in); n->is_input = true; g->AddNode(n); g->Initialize();
  } else { w = make_world(t, patch, sel, batch); rec = w.data; g = w.graph; in = w.input; lp = w.loss_p; w.settings.sbatchsize = 1 + (unsigned)(p.get("toy") % 3); w.settings.iterations = (unsigned)(p.get("toy") % 4); trainer = new Trainer(*g, w.settings); w.trainer = trainer; }
  system_ready();
  // harness's view of the dataset: (image pair, column, row) of every sample
  struct S { const HT *im, *lb; int c, r; };
  auto list = [&](const std::vector<HT>& v) { std::vector<S> s; for (size_t i = 0; i + 1 < v.size(); i += 2) { const HT& a = v[i]; if (!patch) s.push_back({&a, &v[i + 1], 0, 0}); else for (int y = 0; y + py <= (int)a.h; y++) for (int x = 0; x + px <= (int)a.w; x++) s.push_back({&a, &v[i + 1], x, y}); } return s; };
  const std::vector<S> TR = list(t.train), TE = list(t.test);
  SIM_CHECK(in->GetSamplesInTrainingSet() == TR.size() && in->GetSamplesInTestingSet() == TE.size(), "sample-count", "dataset offers %u training and %u testing samples, there are %zu and %zu", in->GetSamplesInTrainingSet(), in->GetSamplesInTestingSet(), TR.size(), TE.size());
  std::vector<unsigned> pass; bool testing = false; size_t tpos = 0; size_t mark = 0; uint64_t blocks = 0, dropped = 0;
  NetGraphNode* node = nullptr; for (auto* n : g->GetNodes()) if (n->layer == in) node = n;
  auto lerr = [&](int x, int y, int W, int H) { return t.kitti ? (double)KITTIData::LocalizedError(x, y, W, H) : 1.0; };
  int step = 0;
  // one forward pass in the current mode has happened: consume the log
  auto consume = [&](bool inspect) {
    std::vector<const S*> slot(batch, nullptr);
    for (int b = 0; b < batch; b++) {
      SIM_CHECK(mark < rec->log.size(), "no-sample", "step %d: batch slot %d was not filled", step, b);
      auto e = rec->log[mark++];
      SIM_CHECK(e.first == testing, "wrong-set", "step %d: a %s sample was requested while %s", step, e.first ? "testing" : "training", testing ? "testing" : "training");
      if (!testing) {
        SIM_CHECK(e.second < TR.size(), "bad-index", "step %d: training sample %u of %zu", step, e.second, TR.size());
        for (unsigned x : pass) SIM_CHECK(x != e.second, "sample-repeated", "step %d: training sample %u was used a second time after %zu of %zu samples of the pass", step, e.second, pass.size(), TR.size());
        pass.push_back(e.second); if (pass.size() == TR.size()) { pass.clear(); count("probe.passes"); }
        slot[b] = &TR[e.second];
      } else if (tpos < TE.size()) {
        SIM_CHECK(e.second == tpos, "test-order", "step %d: testing sample %u was used instead of %zu", step, e.second, tpos);
        slot[b] = &TE[tpos++];
      } else slot[b] = nullptr;
    }
    if (!inspect) return;
    const Tensor &D = node->output_buffers[0].combined_tensor->data, &L = node->output_buffers[1].combined_tensor->data, &H = node->output_buffers[2].combined_tensor->data, &W = node->output_buffers[3].combined_tensor->data;
    for (int b = 0; b < batch; b++) {
      const S* s = slot[b];
      if (!s) { for (size_t y = 0; y < W.height(); y++) for (size_t x = 0; x < W.width(); x++) SIM_CHECK(*W.data_ptr_const(x, y, 0, b) == 0, "padding-weighted", "step %d: batch slot %d beyond the testing set has weight %g at (%zu,%zu)", step, b, *W.data_ptr_const(x, y, 0, b), x, y); count("probe.empty_slots"); continue; }
      const HT &im = *s->im, &lb = *s->lb; const int iw = (int)im.w, ih = (int)im.h;
      auto cls = [&](int x, int y) { int c = 0; for (int m = 1; m < t.label_maps; m++) if (lb.at(x, y, m) > lb.at(x, y, c)) c = m; return c; };
      auto same = [&](double a, double b2) { return std::abs(a - b2) <= 1e-6 * (1 + std::abs(b2)); };
      if (patch) {
        for (int m = 0; m < t.in_maps; m++) for (int y = 0; y < py; y++) for (int x = 0; x < px; x++) SIM_CHECK(*D.data_ptr_const(x, y, m, b) == im.at(s->c + x, s->r + y, m), "wrong-data", "step %d slot %d: patch at (%d,%d) map %d pixel (%d,%d) is %g instead of %g", step, b, s->c, s->r, m, x, y, *D.data_ptr_const(x, y, m, b), im.at(s->c + x, s->r + y, m));
        int cx = s->c + px / 2, cy = s->r + py / 2;
        for (int m = 0; m < t.label_maps; m++) SIM_CHECK(*L.data_ptr_const(0, 0, m, b) == lb.at(cx, cy, m), "wrong-label", "step %d slot %d: label map %d of the patch at (%d,%d) is wrong", step, b, m, s->c, s->r);
        double want = lerr(cx, cy, iw, ih) * t.weights[cls(cx, cy)];
        SIM_CHECK(same(*W.data_ptr_const(0, 0, 0, b), want), "wrong-weight", "step %d slot %d: weight of the patch at (%d,%d) is %g instead of %g", step, b, s->c, s->r, *W.data_ptr_const(0, 0, 0, b), want);
        SIM_CHECK(same(*H.data_ptr_const(0, 0, 0, b), (float)s->c / (float)(iw - 1)) && same(*H.data_ptr_const(0, 0, 1, b), (float)s->r / (float)(ih - 1)), "wrong-helper", "step %d slot %d: helper of the patch at (%d,%d) of a %dx%d image is (%g,%g)", step, b, s->c, s->r, iw, ih, *H.data_ptr_const(0, 0, 0, b), *H.data_ptr_const(0, 0, 1, b));
      } else {
        const int MW = (int)D.width(), MH = (int)D.height();
        for (int y = 0; y < MH; y++) for (int x = 0; x < MW; x++) {
          bool inside = x < iw && y < ih;
          for (int m = 0; m < t.in_maps; m++) SIM_CHECK(*D.data_ptr_const(x, y, m, b) == (inside ? im.at(x, y, m) : 0.f), "wrong-data", "step %d slot %d: pixel (%d,%d) map %d of a %dx%d image is %g instead of %g", step, b, x, y, m, iw, ih, *D.data_ptr_const(x, y, m, b), inside ? im.at(x, y, m) : 0.f);
          for (int m = 0; m < t.label_maps; m++) SIM_CHECK(*L.data_ptr_const(x, y, m, b) == (inside ? lb.at(x, y, m) : 0.f), "wrong-label", "step %d slot %d: label (%d,%d) map %d of a %dx%d image is %g", step, b, x, y, m, iw, ih, *L.data_ptr_const(x, y, m, b));
          double hx = inside ? (float)x / (float)(iw - 1) : 0, hy = inside ? (float)y / (float)(ih - 1) : 0;
          SIM_CHECK(same(*H.data_ptr_const(x, y, 0, b), hx) && same(*H.data_ptr_const(x, y, 1, b), hy), "wrong-helper", "step %d slot %d: helper of pixel (%d,%d) of a %dx%d image is (%g,%g)", step, b, x, y, iw, ih, *H.data_ptr_const(x, y, 0, b), *H.data_ptr_const(x, y, 1, b));
        }
        for (int by = 0; by < MH; by += 12) for (int bx = 0; bx < MW; bx += 12) {
          int zero = 0, right = 0, n = 0, must = 0, ex = -1, ey = -1; double eg = 0, ew = 0;
          for (int y = by; y < std::min(MH, by + 12); y++) for (int x = bx; x < std::min(MW, bx + 12); x++) {
            double want = x < iw && y < ih ? lerr(x, y, iw, ih) * t.weights[cls(x, y)] : 0, got = *W.data_ptr_const(x, y, 0, b);
            n++; zero += got == 0; if (same(got, want)) right++; else if (ex < 0) { ex = x; ey = y; eg = got; ew = want; } must += want > 1e-5;
          }
          bool drop = zero == n, keep = right == n;
          SIM_CHECK(keep || (drop && !testing && lp < 1), "wrong-weight", "step %d slot %d (%s): weights of the block at (%d,%d) of a %dx%d image are neither those of its classes nor all zero; at (%d,%d) %g instead of %g; %s", step, b, testing ? "testing" : "training", bx, by, iw, ih, ex, ey, eg, ew, t.kitti ? "KITTI error" : "constant error");
          if (!testing && must) { blocks++; dropped += drop; }
        }
      }
      count("probe.samples_inspected");
    }
  };
  auto mode = [&](bool b) { if (b != testing && b) tpos = 0; testing = b; };
  for (auto& s : p.steps) {
    step++; where("step %d %s", step, s.op.c_str());
    if (s.op == "ff" && !(testing == false && TR.empty())) {
      // testing passes go on even when all samples were used
      for (long long i = 0; i < std::min(s.arg(0), 60LL); i++) { g->FeedForward(); consume(true); SIM_CHECK(mark == rec->log.size(), "extra-samples", "step %d: a forward pass requested %zu samples too many", step, rec->log.size() - mark); if (!p.get("raw") && i > 3) break; }
    } else if (s.op == "mode") { in->SetTestingMode(s.arg(0) != 0); mode(s.arg(0) != 0); }
    else if (s.op == "test" && trainer) {
      trainer->Test(); mode(true); size_t n = TE.size() / batch + 1;
      SIM_CHECK(rec->log.size() - mark == n * batch, "test-length", "step %d: the test used %zu samples, %zu batches of %d were expected", step, rec->log.size() - mark, n, batch);
      for (size_t i = 0; i < n; i++) consume(false);
      SIM_CHECK(tpos == TE.size(), "test-incomplete", "step %d: the test used %zu of %zu testing samples", step, tpos, TE.size());
      mode(false); count("probe.tests");
    } else if (s.op == "train" && trainer) {
      for (long long e = 0; e < std::min(s.arg(0), 3LL); e++) {
        trainer->Train(1, false); mode(false);
        size_t n = (w.settings.iterations ? w.settings.iterations : TR.size()) * w.settings.sbatchsize;
        SIM_CHECK(rec->log.size() - mark == n * batch, "epoch-length", "step %d: the epoch used %zu samples, %zu batches of %d were expected", step, rec->log.size() - mark, n, batch);
        for (size_t i = 0; i < n; i++) consume(false);
        count("probe.epochs");
        if (TR.size() > 60) break;
      }
    } else if (s.op == "reset" && trainer) { trainer->Reset(); g->InitializeWeights(); }
    ev("pos", mark, pass.size(), tpos); sched_ev(mix(mark, hash_bytes(pass.data(), pass.size() * 4)));
  }
  if (blocks >= 300 && lp == 0.5f) SIM_CHECK(dropped > blocks / 4 && dropped < blocks * 3 / 4, "loss-sampling-rate", "%llu of %llu blocks were dropped with a sampling probability of 0.5", (unsigned long long)dropped, (unsigned long long)blocks);
  if (blocks && lp == 0.f) SIM_CHECK(dropped == blocks, "loss-sampling-rate", "%llu of %llu blocks were kept with a sampling probability of 0", (unsigned long long)(blocks - dropped), (unsigned long long)blocks);
}
Property sim::g_property = {"D01", gen, exec,
  "non-trivial: at least one batch was attributed to samples; distinct = distinct sequences of sample positions",
  "hash over the sample order after every step",
  {"DatasetInputLayer", "TensorStreamDataset", "TensorStreamPatchDataset", "FloatTensorStream", "Trainer", "NetGraph"}, {"disk (scratch files)", "clock", "initial memory contents (seeded)"},
  {"sample requests are recorded between the layer and the real dataset; KITTI error weights are trusted"}, {}, 3000, 100000, 45, 900};
