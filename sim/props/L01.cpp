// VARIANT: asan
// TOOLS: makeTensorStream makeCompressedTensorStream compressTensorStream tensorStreamTool tensorTool tensorStreamStats
// Tensor stream tools: what they write is what they were given; failures are reported and lose nothing else.
#include "images.h"
#include "streams.h"
#include "session.h"
#include "seams.h"
#include "toy.h"
#include <cmath>
#include <sstream>
using namespace sim;
int makeTensorStream_main(int, char**); int makeCompressedTensorStream_main(int, char**); int compressTensorStream_main(int, char**); int tensorStreamTool_main(int, char**); int tensorTool_main(int, char**); int tensorStreamStats_main(int, char**);

// steps: make slot compressed direct seed | pack from to | trim slot count | edit slot tensor seed | stats slot | damage slot kind seed
// every tool invocation is a simulated process of its own; faults name it by its position
enum { NS = 4, MAX_INV = 12 };
static void gen(Rng& r, int tier, uint64_t, Plan& p) {
  p.env["data"] = (long long)r.below(1 << 30); p.env["fill"] = (long long)r.below(5); p.env["chunk"] = r.chance(1, 3) ? (long long)r.range(1, 200) : 0;
  int n = (int)r.range(1, tier ? 10 : 6); p.add("make", {(long long)r.below(NS), (long long)r.below(2), r.chance(1, 5), (long long)r.below(1 << 20)});
  long long last = p.steps[0].arg(0);
  std::vector<long long> made{last};
  for (int i = 1; i < n; i++) { long long s = r.chance(2, 3) ? last : r.chance(9, 10) ? made[r.below(made.size())] : (long long)r.below(NS); made.push_back(last);
    switch (r.below(12)) {
      case 0: case 1: last = (long long)r.below(NS); p.add("make", {last, (long long)r.below(2), r.chance(1, 5), (long long)r.below(1 << 20)}); break;
      case 2: case 3: { long long to = (long long)r.below(NS); p.add("pack", {s, to == s ? (to + 1) % NS : to}); if (r.chance(1, 2)) last = p.steps.back().arg(1); break; }
      case 4: case 5: case 6: p.add("trim", {s, r.range(0, 9)}); break;
      case 7: case 8: p.add("edit", {s, (long long)r.below(6), (long long)r.below(1 << 20)}); break;
      case 9: case 10: p.add("stats", {s}); break;
      default: p.add("damage", {s, (long long)r.below(3), (long long)r.below(1 << 20)}); break;
    } }
  if (r.chance(2, 5)) return;
  DryInfo d = dry_run(p);
  static const int kinds[] = {F_EIO_READ, F_EIO_READ, F_SHORT_READ, F_EINTR_READ, F_OPEN_FAIL, F_SEEK_FAIL, F_CLOSE_FAIL, F_EIO_WRITE, F_EIO_WRITE, F_SHORT_WRITE, F_EINTR_WRITE, F_ENOSPC, F_ENOSPC, F_CRASH, F_CRASH_TORN, F_MMAP_FAIL};
  for (int i = (int)r.range(1, 3); i > 0; i--) { int inv = (int)r.below(std::min<size_t>(p.steps.size(), MAX_INV)); if (d.io[inv]) p.add("fault", {inv, kinds[r.below(sizeof kinds / sizeof *kinds)], r.range(1, (long long)d.io[inv]), (long long)r.below(4000)}); }
}
struct File { bool there = false; std::string bytes; RefStream s; bool intact = false; bool cts = false; int classes = 0; bool labels = false; std::vector<unsigned> colors;   // labels: alternating images and one-hot labels
  void set(const std::string& b) { there = true; bytes = b; s = ref_stream(b); uint64_t m = 0; if (b.size() >= 8) memcpy(&m, b.data(), 8); cts = m == REF_CTS_MAGIC; intact = !s.damaged; for (bool x : s.bad) intact &= !x; } };
static std::string name(int s) { return strf("s%d.Tensor", s); }
static bool same(const HT& a, const HT& b, float tol = 0) {
  if (a.s != b.s || a.w != b.w || a.h != b.h || a.m != b.m || a.d.size() != b.d.size()) return false;
  for (size_t i = 0; i < a.d.size(); i++) if (!(memcmp(&a.d[i], &b.d[i], 4) == 0 || a.d[i] == b.d[i] || std::fabs(a.d[i] - b.d[i]) <= tol)) return false;
  return true;
}
static std::string shape(const HT& t) { return strf("(%llus@%llux%llux%llum)", (unsigned long long)t.s, (unsigned long long)t.w, (unsigned long long)t.h, (unsigned long long)t.m); }
static float unit(uint16_t v) { return (float)(0.003921569f * (unsigned char)v); }
static void exec(const Plan& p) {
  faults_from_plan(p); alloc_fill((int)p.get("fill"), 3); alloc_limit(64 << 20);
  if (p.get("chunk")) io_chunk((uint64_t)p.get("chunk"), (int)p.get("chunk"));
  File f[NS]; int inv = -1; const uint64_t data = (uint64_t)p.get("data");
  for (auto& st : p.steps) {
    if (st.op == "fault") continue;
    if (++inv >= MAX_INV) break; g_sh->life = inv; where("step %d %s", inv + 1, st.op.c_str());
    bool loud = false, crash = false; for (auto& s : p.steps) if (s.op == "fault" && s.arg(0) == inv) { int k = (int)s.arg(1); if (k == F_CRASH || k == F_CRASH_TORN) crash = true; else if (k != F_SHORT_READ && k != F_EINTR_READ && k != F_SHORT_WRITE && k != F_EINTR_WRITE) loud = true; }
    const int slot = (int)(st.arg(0) % NS); File& F = f[slot]; std::string snap[NS]; for (int i = 0; i < NS; i++) if (f[i].there) snap[i] = f[i].bytes;
    auto told = [&](const LifeResult& r) { return r.threw || r.crashed || r.sig == 6 || (r.exited && r.code != 0) || r.out.find("ERR [") != std::string::npos || r.out.find("Did not work") != std::string::npos; };
    auto basics = [&](const LifeResult& r) { SIM_CHECK(!r.unsafe, "memory-error", "%s: %s %s", st.op.c_str(), r.ending().c_str(), r.report.substr(0, 1200).c_str()); SIM_CHECK(!r.hung, "no-progress", "%s did not end", st.op.c_str()); };
    auto others = [&](int but) { for (int i = 0; i < NS; i++) if (i != but) { bool now = exists(name(i)); SIM_CHECK(now == f[i].there && (!now || slurp(name(i)) == snap[i]), "other-file", "%s on %s changed %s", st.op.c_str(), name(but).c_str(), name(i).c_str()); } };
    if (st.op == "damage") {
      if (!F.there || F.bytes.empty()) continue; std::string b = F.bytes; Rng q((uint64_t)st.arg(2)); bool lab = F.labels;
      switch (st.arg(1)) { case 0: b.resize(q.below(b.size())); break; case 1: b += std::string((size_t)q.range(1, 30), (char)(1 + q.below(2))); break; default: remove_file(name(slot)); F = File(); continue; }
      spit(name(slot), b); F.set(b); F.labels = lab && F.s.t.size() % 2 == 0; count("probe.damages"); continue;
    }
    if (st.op == "make") {
      Rng q(data ^ (uint64_t)st.arg(3) * 7919); const bool cts = st.arg(1) != 0, direct = st.arg(2) != 0; int classes = q.chance(1, 3) ? 1 : (int)q.range(2, 4); std::vector<unsigned> col;
      static const unsigned nice[] = {0x000000, 0xffffff, 0xff0000, 0x00ff00, 0x0000ff, 0x808080}; for (int c = 0; c < classes; c++) col.push_back(q.chance(1, 2) ? nice[q.below(6)] : (unsigned)q.below(0x1000000));
      std::ostringstream set; set << "classes=" << classes << "\n"; for (int c = 0; c < classes; c++) set << "class" << c << "\n"; set << "colors\n"; for (auto c : col) set << strf("0x%06x\n", c); spit("make.set", set.str());
      std::string il, ll; std::vector<HT> want; int pairs = (int)q.range(1, 3); bool gone = false; int faint = 0, direct_gray = 0;
      for (int i = 0; i < pairs; i++) {
        Image a, b; a.w = (unsigned)q.range(1, 9); a.h = (unsigned)q.range(1, 9); a.c = q.chance(1, 3) ? 1 : 3; a.depth = 8; a.v.resize((size_t)a.w * a.h * a.c); for (auto& v : a.v) v = (uint16_t)q.below(256);
        b = a; b.c = q.chance(1, 4) ? 1 : 3; bool mismatch = q.chance(1, 10); if (mismatch) { if (q.chance(1, 2)) b.w++; else b.h++; } b.v.assign((size_t)b.w * b.h * b.c, 0);
        unsigned c = 0; for (unsigned k = 0; k < b.w * b.h; k++) { if (q.chance(1, 3)) c = q.chance(1, 6) ? (unsigned)q.below(0x1000000) : col[q.below(col.size())] ^ (q.chance(1, 12) ? 1u << q.below(24) : 0); if (b.c == 3) { b.v[k * 3] = c >> 16; b.v[k * 3 + 1] = c >> 8 & 255; b.v[k * 3 + 2] = c & 255; } else b.v[k] = c & 255; }
        std::string in = strf("i%d_%d.png", inv, i), ln = strf("l%d_%d.png", inv, i); spit(in, png_encode(a, a.c == 1 ? 0 : 2, q.chance(1, 5), false, 6)); spit(ln, png_encode(b, b.c == 1 ? 0 : 2, false, false, 6));
        if (q.chance(1, 25)) { remove_file(q.chance(1, 2) ? in : ln); gone = true; }
        il += in; ll += ln; bool nl = i + 1 < pairs || q.chance(2, 3); if (nl) { il += "\n"; ll += "\n"; }
        if (mismatch) { faint++; continue; }
        HT t(1, a.w, a.h, a.c), l(1, b.w, b.h, direct ? 3 : (unsigned)classes); if (direct && b.c == 1) direct_gray++;
        for (unsigned y = 0; y < a.h; y++) for (unsigned x = 0; x < a.w; x++) { for (unsigned m = 0; m < a.c; m++) t.at(x, y, m) = unit(a.at(x, y, m));
          unsigned v[3]; for (int m = 0; m < 3; m++) v[m] = b.at(x, y, b.c == 3 ? m : 0);
          if (direct) for (int m = 0; m < 3; m++) l.at(x, y, m) = unit(v[m]);
          else if (classes == 1) { double e = 0; for (int m = 0; m < 3; m++) { double dd = (double)unit(v[m]) - unit(col[0] >> (16 - 8 * m) & 255); e += dd * dd; } l.at(x, y, 0) = (float)(1.0 - 2.0 * std::sqrt(e / 3.0)); }
          else for (int k = 0; k < classes; k++) if (v[0] == (col[k] >> 16 & 255) && v[1] == (col[k] >> 8 & 255) && v[2] == (col[k] & 255)) l.at(x, y, k) = 1.f; }
        want.push_back(t); want.push_back(l);
      }
      spit("i.txt", il); spit("l.txt", ll);
      LifeResult r = run_life([&] { auto m = cts ? makeCompressedTensorStream_main : makeTensorStream_main; return call_main(m, {"make", "make.set", "i.txt", q.chance(1, 2) ? "." : "./", "l.txt", "./", name(slot), direct ? "true" : "false"}); }, "", true);
      basics(r); others(slot); const bool was = F.there; std::string now = exists(name(slot)) ? slurp(name(slot)) : ""; bool ok = r.exited && r.code == 0 && !r.crashed;
      if (ok && !gone) { File n; n.set(now); bool right = exists(name(slot)) && n.intact && n.cts == cts && n.s.t.size() == want.size(); size_t bad = 0; if (right) for (size_t i = 0; i < want.size() && right; i++) { bad = i; right = same(n.s.t[i], want[i], classes == 1 && !direct && i % 2 ? 2e-6f : 0.f); }
        SIM_CHECK(right, loud ? "silent-fault" : "stream-wrong", "%s ended successfully, but the stream has %zu%s of %zu tensors, tensor %zu is %s %s", cts ? "makeCompressedTensorStream" : "makeTensorStream", n.s.t.size(), n.intact ? "" : " (damaged)", want.size(), bad, bad < n.s.t.size() ? shape(n.s.t[bad]).c_str() : "missing", bad < want.size() ? ("instead of " + shape(want[bad])).c_str() : "");
        count("probe.streams_made"); F = n; F.labels = !direct; F.classes = classes; F.colors = col; SIM_CHECK(faint == 0 || told(r), "silent-skip", "a pair of different sizes was skipped without a message");
      } else {
        SIM_CHECK(!(ok && gone), "missing-accepted", "an image is missing, but the tool ended successfully");
        SIM_CHECK(loud || crash || gone, "intact-refused", "%s failed without a reason: %s %s", cts ? "makeCompressedTensorStream" : "makeTensorStream", r.ending().c_str(), r.out.substr(0, 300).c_str());
        (void)was; if (exists(name(slot))) { F = File(); F.set(now); } else F = File(); count("probe.failures_reported");
      }
      (void)direct_gray;
    } else if (st.op == "pack") {
      const int to = (int)(st.arg(1) % NS); if (to == slot) continue; const File src = F; File& D = f[to];
      LifeResult r = run_life([&] { return call_main(compressTensorStream_main, {"compress", name(slot), name(to)}); }, "", true);
      basics(r); others(to); bool ok = r.exited && r.code == 0 && !r.crashed, can = src.there && src.intact && !src.cts && !src.s.t.empty(); const std::string now = exists(name(to)) ? slurp(name(to)) : "";
      if (ok) {
        SIM_CHECK(can, "damage-accepted", "compressTensorStream accepted a %s stream", src.there ? "damaged, compressed or empty" : "missing");
        File n; n.set(now); bool right = n.intact && n.cts && n.s.t.size() == src.s.t.size(); size_t i = 0; for (; right && i < src.s.t.size(); i++) right = same(n.s.t[i], src.s.t[i]);
        SIM_CHECK(right, loud ? "silent-fault" : "stream-wrong", "the compressed stream holds %zu%s instead of %zu tensors or tensor %zu differs", n.s.t.size(), n.intact ? "" : " (damaged)", src.s.t.size(), i);
        n.labels = src.labels; n.classes = src.classes; n.colors = src.colors; D = n; count("probe.streams_packed");
      } else { SIM_CHECK(loud || crash || !can, "intact-refused", "compressTensorStream refused an intact stream: %s", r.ending().c_str()); D = File(); if (exists(name(to))) D.set(now); count("probe.failures_reported"); }
    } else if (st.op == "trim") {
      const File src = F; unsigned n = (unsigned)st.arg(1);
      LifeResult r = run_life([&] { return call_main(tensorStreamTool_main, {"tool", name(slot), std::to_string(n)}); }, "", true);
      basics(r); others(slot); const bool ok = r.exited && r.code == 0 && !r.crashed, can = src.there && src.intact && !src.cts && !src.s.t.empty(); const bool there = exists(name(slot)); const std::string now = there ? slurp(name(slot)) : "";
      std::string cut; size_t have = src.s.t.size(); if (can && n < have) { size_t at = 0; for (unsigned i = 0; i < n; i++) at += 32 + src.s.t[i].d.size() * 4; cut = src.bytes.substr(0, at); }
      if (!src.there) { SIM_CHECK(!ok && !there, "missing-accepted", "a missing stream was accepted"); count("probe.failures_reported"); continue; }
      SIM_CHECK(there && (now == src.bytes || (can && n < have && now == cut)), "stream-lost", "after tensorStreamTool (%s) the stream of %zu tensors is neither the old one nor the first %u tensors: %zu bytes%s", r.ending().c_str(), have, n, now.size(), there ? "" : ", missing");
      if (ok && can && n < have) { SIM_CHECK(now == cut, loud ? "silent-fault" : "not-trimmed", "tensorStreamTool ended successfully, but left %zu bytes instead of %zu", now.size(), cut.size()); count("probe.streams_trimmed"); }
      else if (ok && !told(r)) SIM_CHECK(can && n == have, can ? "silent-failure" : "damage-accepted", "tensorStreamTool asked to leave %u of %zu tensors of a%s stream reported nothing", n, have, can ? "n intact" : " damaged or compressed");
      else { SIM_CHECK(loud || crash || !can || n > have, "intact-refused", "tensorStreamTool refused an intact stream: %s", r.ending().c_str()); count("probe.failures_reported"); }
      bool lab = src.labels; int cl = src.classes; auto co = src.colors; F = File(); F.set(now); F.labels = lab && F.s.t.size() % 2 == 0; F.classes = cl; F.colors = co;
    } else if (st.op == "edit") {
      const File src = F; unsigned tid = (unsigned)st.arg(1); Rng q((uint64_t)st.arg(2)); std::string in, expect; bool wrote = false, bin = false; HT t; bool known = src.there && !src.cts && tid < src.s.t.size(); if (known) t = src.s.t[tid]; HT written; std::string bytes; bool binok = known; std::vector<std::string> lines;
      for (int i = (int)q.range(1, 6); i > 0; i--) switch (q.below(6)) {
        case 0: in += "size\n"; lines.push_back(shape(t)); break;
        case 1: { in += "transpose\n"; HT o(t.s, t.h, t.w, t.m); for (size_t s = 0; s < t.s; s++) for (size_t m = 0; m < t.m; m++) for (size_t y = 0; y < t.h; y++) for (size_t x = 0; x < t.w; x++) o.at(y, x, m, s) = t.at(x, y, m, s); t = o; break; }
        case 2: { uint64_t w = t.w, h = t.h, m = t.m, s = t.s; switch (q.below(4)) { case 0: std::swap(w, h); break; case 1: w = w * h; h = 1; break; case 2: s = s * m; m = 1; break; default: w++; break; } bool fits = w * h * m * s == t.w * t.h * t.m * t.s; in += strf("reshape\n%llu\n%llu\n%llu\n%llu\n", (unsigned long long)w, (unsigned long long)h, (unsigned long long)m, (unsigned long long)s); lines.push_back(strf("Reshaping... %d", fits)); if (fits) { t.w = w; t.h = h; t.m = m; t.s = s; } break; }
        case 3: { if (t.w * t.h * t.m * t.s > 2000) break; unsigned long long s = 0; int px = (int)q.range(1, 3), py = (int)q.range(1, 3); if ((unsigned)px > t.w || (unsigned)py > t.h) break; in += "extractpatches\n"; if (t.s != 1) { s = q.below(t.s); in += strf("%llu\n", s); } in += strf("%d\n%d\n", px, py);
          HT o(t.w * t.h, (unsigned)px, (unsigned)py, t.m); auto mir = [](int v, int n) { if (v < 0) v = -v; if (v >= n) v = 2 * n - 1 - v; return v; };
          for (int y = 0; y < (int)t.h; y++) for (int x = 0; x < (int)t.w; x++) for (int b = 0; b < py; b++) for (int a = 0; a < px; a++) for (size_t m = 0; m < t.m; m++) o.at(a, b, m, (size_t)y * t.w + x) = t.at((size_t)mir(x + a - px / 2, (int)t.w), (size_t)mir(y + b - py / 2, (int)t.h), m, s);
          t = o; break; }
        case 4: in += "write\n"; wrote = true; written = t; break;
        default: { in += "bin\n"; bin = true; bytes.clear(); for (float v : t.d) binok &= v >= -1 && v <= 1; if (!binok) break; if (t.m == 3) { size_t n = t.w * t.h; for (size_t s = 0; s < t.s; s++) for (size_t i = 0; i < n; i++) for (int c = 0; c < 3; c++) bytes += (char)(unsigned char)(127.0f + 127.0f * t.d[s * n * 3 + c * n + i]); } else for (float v : t.d) bytes += (char)(unsigned char)(127.0f + 127.0f * v); break; }
      }
      if (q.chance(1, 2)) in += "quit\n";
      remove_file("binoutput.data"); spit(".sim.in", in);
      if (bin && known && !binok) continue;   // values without a byte
      LifeResult r = run_life([&] { return call_main(tensorTool_main, {"tensorTool", name(slot), std::to_string(tid)}); }, scratch_dir() + "/.sim.in", true);
      basics(r); others(slot); const bool ok = r.exited && r.code == 0 && !r.crashed, there = exists(name(slot)); const std::string now = there ? slurp(name(slot)) : "";
      if (ok && !known && !loud) SIM_FAIL("damage-accepted", "tensorTool accepted tensor %u of a stream with %zu tensors", tid, src.s.t.size());
      if (!known) { SIM_CHECK(!ok, "damage-accepted", "tensorTool accepted tensor %u of a stream with %zu tensors", tid, src.s.t.size()); SIM_CHECK(there == src.there && now == src.bytes, "stream-lost", "tensorTool changed a stream it could not read"); count("probe.failures_reported"); continue; }
      if (!loud && !crash) { SIM_CHECK(ok && !told(r), "intact-refused", "tensorTool failed: %s %s", r.ending().c_str(), r.out.substr(0, 300).c_str()); size_t at = 0; for (auto& l : lines) { size_t x = r.out.find(l, at); SIM_CHECK(x != std::string::npos, "answer-wrong", "tensorTool did not answer '%s' in its place", l.c_str()); at = x + l.size(); } }
      if (ok && !told(r) && !crash) {
        if (wrote) SIM_CHECK(now == ht_encode(written), loud ? "silent-fault" : "write-wrong", "the stream does not hold the tensor %s that was written to it", shape(written).c_str());
        else SIM_CHECK(now == src.bytes, "stream-lost", "tensorTool changed a stream without being told to");
        if (bin) SIM_CHECK(slurp("binoutput.data") == bytes, loud ? "silent-fault" : "write-wrong", "the binary output does not hold the tensor's bytes");
        count("probe.edits");
      } else { SIM_CHECK(wrote || now == src.bytes, "stream-lost", "tensorTool changed a stream without being told to"); count("probe.failures_reported"); }
      if (wrote) { F = File(); if (there) F.set(now); }
    } else if (st.op == "stats") {
      const File src = F; if (!src.there || !src.intact || !src.labels || src.s.t.empty() || src.s.t.size() % 2) continue; bool alike = true; for (size_t i = 0; i < src.s.t.size(); i += 2) alike &= src.s.t[i].m == src.s.t[0].m; if (!alike) continue;
      Rng q(data + (uint64_t)inv); std::ostringstream set; std::vector<double> w; set << "training=" << name(slot) << "\ntesting=" << name(slot) << "\nclasses=" << src.classes << "\n"; for (int c = 0; c < src.classes; c++) set << "class" << c << "\n"; set << "colors\n"; for (auto c : src.colors) set << strf("0x%06x\n", c);
      if (q.chance(1, 2)) { set << "weights\n"; for (int c = 0; c < src.classes; c++) { w.push_back((double)q.range(1, 8) / 4); set << w.back() << "\n"; } } else w.assign((size_t)src.classes, 1.0);
      spit("stats.set", set.str());
      LifeResult r = run_life([&] { return call_main(tensorStreamStats_main, {"stats", "stats.set"}); }, "", true);
      basics(r); others(-1); const bool ok = r.exited && r.code == 0 && !r.crashed;
      if (!ok) { SIM_CHECK(loud || crash, "intact-refused", "tensorStreamStats failed: %s %s", r.ending().c_str(), r.out.substr(0, 300).c_str()); count("probe.failures_reported"); continue; }
      std::vector<long double> n((size_t)src.classes, 0); for (size_t i = 1; i < src.s.t.size(); i += 2) { const HT& l = src.s.t[i]; for (size_t y = 0; y < l.h; y++) for (size_t x = 0; x < l.w; x++) { size_t best = 0; for (size_t c = 1; c < l.m; c++) if (l.at(x, y, c) > l.at(x, y, best)) best = c; n[best] += 1; } }
      size_t at = 0; for (int pass = 0; pass < 2; pass++) { long double total = 0, kinds = 0; std::vector<long double> v = n; for (int c = 0; c < src.classes; c++) { if (pass) v[c] *= w[c]; total += v[c]; kinds += v[c] > 0; }
        for (int c = 0; c < src.classes; c++) { std::string key = strf("Class %30s | ", strf("class%d", c).c_str()); size_t x = r.out.find(key, at); SIM_CHECK(x != std::string::npos, "stats-wrong", "no line for class %d", c); at = x + key.size();
          long cnt = -1, corr = -1; double ratio = -1, fac = -1; int got = sscanf(r.out.c_str() + at, "%ld %lf%% %lf %ld", &cnt, &ratio, &fac, &corr); if (total == 0) continue;
          long double rat = v[c] / total, cf = v[c] > 0 ? 1.0L / kinds / rat : 0;
          SIM_CHECK(got == 4 && cnt == (long)v[c] && std::fabs(ratio - 100.0 * (double)rat) <= 1e-3 * (1 + 100 * (double)rat) && std::fabs(fac - (double)cf) <= 1e-4 * (1 + (double)cf) && std::labs(corr - (long)(cf * v[c])) <= 1, "stats-wrong", "%s: class %d has %.2Lf of %.2Lf pixels (correction %.5Lf), but the line says %s", pass ? "weighted" : "unweighted", c, v[c], total, cf, r.out.substr(at, 70).c_str()); } }
      count("probe.statistics");
    }
    ev("tool", (uint64_t)inv, hash_bytes(st.op.data(), st.op.size())); for (int i = 0; i < NS; i++) if (f[i].there) ev("file", (uint64_t)i, hash_bytes(f[i].bytes.data(), f[i].bytes.size())); sched_ev(mix(hash_bytes(st.op.data(), st.op.size()), (uint64_t)st.arg(1)));
  }
  sched_ev(data);
}
Property sim::g_property = {"L01", gen, exec,
  "non-trivial: at least one tool ran to its end and the files it was given and made were compared; distinct = distinct histories and faults that fired",
  "hash over the tool invocations, the data and the faults that fired",
  {"tools/makeTensorStream, makeCompressedTensorStream, compressTensorStream, tensorStreamTool, tensorTool, tensorStreamStats", "Tensor, CompressedTensor, TensorStream, PNGUtil, TensorStreamDataset"}, {"disk and standard input (scratch directory behind an interposed libc)", "heap contents (seeded)"},
  {"image lists have equal lengths", "JPEG images are covered by H01"}, {"read and write errors", "short and interrupted reads and writes", "open, close, seek and mmap failures", "full disks", "crashes and torn writes", "damaged and missing streams", "missing images"}, 6000, 150000, 45, 900};
