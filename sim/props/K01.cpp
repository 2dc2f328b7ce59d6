// VARIANT: asan
// TOOLS: trainNetwork classifyImage makeTensorStream makeCompressedTensorStream compressTensorStream tensorStreamTool tensorTool tensorStreamStats
// Failing allocations: whatever the programs are doing, they report it, and nothing stored before is damaged.
#include "compute.h"
#include "images.h"
#include "session.h"
#include "seams.h"
#include "streams.h"
#include "toy.h"
#include <sstream>
#include <dirent.h>
#include <sys/stat.h>
using namespace sim;
int classifyImage_main(int, char**); int makeTensorStream_main(int, char**); int makeCompressedTensorStream_main(int, char**); int compressTensorStream_main(int, char**); int tensorStreamTool_main(int, char**); int tensorTool_main(int, char**); int tensorStreamStats_main(int, char**);

// env job: 8-10 library computations (every buffer written to a file), 0 session, 1 classifyImage, 2 makeTensorStream, 3 makeCompressedTensorStream, 4 compressTensorStream, 5 tensorStreamTool, 6 tensorTool, 7 tensorStreamStats
// steps: cmd kind arg (session). life 0: undisturbed, life 2i+1: attempt i, life 2i+2: the same again after attempt i
static void gen(Rng& r, int tier, uint64_t, Plan& p) {
  p.env["toy"] = (long long)r.below(1 << 20); p.env["job"] = r.chance(1, 2) ? 0 : (long long)r.range(1, 10); p.env["script"] = r.chance(1, 3); p.env["data"] = (long long)r.below(1 << 20); p.env["fill"] = (long long)r.below(5);
  for (int i = (int)r.range(1, tier ? 8 : 5); i > 0; i--) p.add("cmd", {(long long)r.below(9), (long long)r.below(1000)});
  DryInfo d = dry_run(p); int n = (int)r.range(1, tier ? 8 : 4);
  static const long long sizes[] = {0, 0, 0, 32, 100, 600, 4096, 20000};
  for (int i = 0; i < n; i++) { long long sz = sizes[r.below(8)]; long long total = std::max<long long>(1, (long long)d.alloc[0]); p.add("fault", {2 * i + 1, F_ALLOC_FAIL, r.chance(1, 4) ? total - (long long)r.below((uint64_t)total / 8 + 1) : r.range(1, total), r.chance(1, 3) ? -1 - sz : sz}); }
}
struct Disk { std::map<std::string, std::string> f; };
static void files_in(const std::string& dir, Disk& d) { DIR* h = opendir(dir.c_str()); if (!h) return; while (auto e = readdir(h)) { std::string n = e->d_name, p = dir == "." ? n : dir + "/" + n; if (n[0] == '.') continue; struct stat s; if (stat(p.c_str(), &s)) continue; if (S_ISDIR(s.st_mode)) files_in(p, d); else d.f[p] = slurp(p); } closedir(h); }
static Disk disk() { Disk d; files_in(".", d); return d; }
static void restore(const Disk& d) { clean_scratch(); mkdir("csv", 0755); for (auto& f : d.f) spit(f.first, f.second); }
static std::string answers(const std::string& out) { std::istringstream in(metrics(out)); std::string l, o; while (std::getline(in, l)) o += l + "\n"; return o; }

static int library_main(int, char** v) { compute(atoi(v[1]), (uint64_t)atoi(v[2]), 2, "lib.snap"); return 0; }
static void exec(const Plan& p) {
  faults_from_plan(p); alloc_fill((int)p.get("fill"), 3); ToyOptions o; o.max_side = 9; o.max_train = 2; o.max_test = 2; Toy toy = make_toy((uint64_t)p.get("toy"), o); write_toy(toy); mkdir("csv", 0755);
  const int job = (int)(p.get("job") % 11); Rng q((uint64_t)p.get("data")); std::string in; std::vector<std::string> args; int (*tool)(int, char**) = trainNetwork_main;
  std::map<std::string, bool> whole;    // outputs; true: replaced as a whole (the old or the new content at any time)
  auto picture = [&](const std::string& name, unsigned w, unsigned h, unsigned c, bool label, const std::vector<unsigned>& col) { Image a; a.w = w; a.h = h; a.c = c; a.depth = 8; a.v.resize((size_t)w * h * c); for (unsigned k = 0; k < w * h; k++) { unsigned v = col[q.below(col.size())]; for (unsigned m = 0; m < c; m++) a.v[k * c + m] = label ? (uint16_t)(v >> (16 - 8 * m) & 255) : (uint16_t)q.below(256); } spit(name, png_encode(a, c == 1 ? 0 : 2, false, false, 6)); };
  if (job <= 1) {   // a model to start from
    where("preparation"); g_sh->life = 20; Session s = run_session({"train epochs=1", "save file=start.Tensor"}); SIM_CHECK(s.r.exited && s.r.code == 0 && !s.any_err(), "session-failed", "the session that makes the model ended with %s", s.r.ending().c_str()); for (auto& f : disk().f) if (f.first.compare(0, 4, "csv/") == 0) remove_file(f.first);
  }
  if (job == 0) {
    int saves = 0, exps = 0; std::string t; for (auto& s : p.steps) if (s.op == "cmd") switch (s.arg(0)) {
      case 0: case 1: t += strf("train epochs=%lld\n", 1 + s.arg(1) % 2); break;
      case 2: t += "test\n"; break;
      case 3: case 4: t += strf("save file=m%d.Tensor\n", saves); whole[strf("m%d.Tensor", saves)] = true; spit(strf("m%d.Tensor", saves), "what was here before"); saves++; break;
      case 5: t += "load file=start.Tensor\n"; break;
      case 6: t += "reset\n"; break;
      case 7: t += strf("set experiment name=an_experiment_with_a_long_name_%d\n", exps++); break;
      default: t += strf("tstat enable=%lld\n", s.arg(1) % 2); break;
    }
    t += "test\nquit\n"; args = {"trainNetwork", "data.set", "net.net"}; if (p.get("script")) { spit("script.txt", t); args.push_back("script.txt"); } else in = t;
  } else if (job == 1) {
    HT im(1, (uint64_t)q.range(2, 40), (uint64_t)q.range(2, 40), (uint64_t)toy.in_maps); std::string name = "in.Tensor"; if (toy.in_maps != 2 && q.chance(1, 2)) { name = "in.png"; picture(name, (unsigned)im.w, (unsigned)im.h, (unsigned)toy.in_maps, false, {0}); } else { for (auto& v : im.d) v = q.f(-1, 1); spit(name, ht_encode(im)); }
    std::string out = q.chance(1, 2) ? "out.png" : "out.Tensor"; args = {"classifyImage", "data.set", "net.net", "start.Tensor", name, out}; whole[out] = false; tool = classifyImage_main;
  } else if (job == 2 || job == 3) {
    int classes = (int)q.range(1, 4); std::vector<unsigned> col; std::string set = strf("classes=%d\n", classes), il, ll; for (int c = 0; c < classes; c++) { set += strf("a_class_with_a_long_name_%d\n", c); col.push_back((unsigned)q.below(0x1000000)); } set += "colors\n"; for (auto c : col) set += strf("0x%06x\n", c); spit("make.set", set);
    for (int i = (int)q.range(1, 3); i > 0; i--) { unsigned w = (unsigned)q.range(1, 9), h = (unsigned)q.range(1, 9); std::string a = strf("an_image_of_the_list_%d.png", i), b = strf("a_label_of_the_list_%d.png", i); picture(a, w, h, q.chance(1, 2) ? 1 : 3, false, col); picture(b, w, h, 3, true, col); il += a + "\n"; ll += b + "\n"; }
    spit("i.txt", il); spit("l.txt", ll); args = {"make", "make.set", "i.txt", ".", "l.txt", ".", "out.Tensor", q.chance(1, 3) ? "true" : "false"}; whole["out.Tensor"] = false; tool = job == 2 ? makeTensorStream_main : makeCompressedTensorStream_main;
  } else if (job == 4) { args = {"compress", "train.Tensor", "out.CTensor"}; whole["out.CTensor"] = false; tool = compressTensorStream_main; }
  else if (job == 5) { args = {"tool", "train.Tensor", std::to_string(q.below(4))}; whole["train.Tensor"] = true; tool = tensorStreamTool_main; }
  else if (job == 6) { for (int i = (int)q.range(1, 5); i > 0; i--) { static const char* c[] = {"size\n", "transpose\n", "extractpatches\n2\n2\n", "write\n"}; in += c[q.below(4)]; } if (in.find("extractpatches") != in.rfind("extractpatches")) in = "transpose\nextractpatches\n3\n2\nwrite\n"; in += "quit\n"; args = {"tensorTool", "train.Tensor", std::to_string(q.below(2))}; whole["train.Tensor"] = false; tool = tensorTool_main; }
  else if (job >= 8) { args = {"library", std::to_string(job == 8 ? M_LAYERS : job == 9 ? M_PATCH : M_FCN), std::to_string(q.below(1 << 20))}; for (auto& f : disk().f) whole[f.first] = false; whole["lib.snap"] = false; tool = library_main; }
  else { args = {"stats", "data.set"}; tool = tensorStreamStats_main; }
  const Disk before = disk();
  auto go = [&](int life) { g_sh->life = life; spit(".sim.in", in); return run_life([&] { return call_main(tool, args); }, in.empty() ? "" : scratch_dir() + "/.sim.in", true); };
  where("undisturbed"); LifeResult r = go(0); SIM_CHECK(!r.unsafe, "memory-error", "%s %s", r.ending().c_str(), r.report.substr(0, 1200).c_str()); SIM_CHECK(!r.hung, "no-progress", "the undisturbed program did not end");
  const std::string want = answers(r.out); const bool err0 = want.find("ERR [") != std::string::npos; SIM_CHECK(r.exited && (job == 5 || r.code == 0) && (job == 5 || !err0), "undisturbed-failed", "job %d without faults ended with %s: %s", job, r.ending().c_str(), r.out.substr(r.out.size() > 300 ? r.out.size() - 300 : 0).c_str()); const int code = r.code;
  const Disk after = disk(); ev("job", (uint64_t)job, hash_bytes(want.data(), want.size()));
  int attempts = 0; for (auto& s : p.steps) if (s.op == "fault") attempts = std::max(attempts, (int)(s.arg(0) + 1) / 2);
  for (int i = 0; i < attempts && 2 * i + 2 < 20; i++) {
    restore(before); where("attempt %d", i); LifeResult a = go(2 * i + 1); const std::string out = answers(a.out);
    SIM_CHECK(!a.unsafe, "memory-error", "job %d: %s %s", job, a.ending().c_str(), a.report.substr(0, 1500).c_str()); SIM_CHECK(!a.hung, "no-progress", "job %d did not end after a failed allocation", job);
    const Disk now = disk(); const bool ok = a.exited && a.code == code, told = !ok || (out.find("ERR [") != std::string::npos && !err0);
    for (auto& f : before.f) if (!whole.count(f.first)) { auto x = now.f.find(f.first); SIM_CHECK(x != now.f.end() && x->second == f.second, "other-file", "job %d: %s is %s after a failed allocation", job, f.first.c_str(), x == now.f.end() ? "gone" : "changed"); }
    // text streams swallow failing allocations of their short buffers; what they print may be cut off, what is stored may not
    const bool text = g_sh->alloc_failed[2 * i + 1] == 513;
    if (!told && !(text && out != want)) {
      SIM_CHECK(out == want, "silent-failure", "job %d: an allocation failed without any report (%s), but the answers differ: %s", job, a.ending().c_str(), first_diff(want, out).c_str());
      if (job >= 8) { Snap u, v; spit(".ref", after.f.at("lib.snap")); SIM_CHECK(snap_load(".ref", u) && snap_load("lib.snap", v), "silent-failure", "job %d: an allocation failed without any report (%s), and there are no results", job, a.ending().c_str()); for (auto* w : {&u, &v}) for (auto& e : *w) if (w->size() == u.size()) e.first = u[(size_t)(&e - w->data())].first; snap_compare(u, v, "enough memory", strf("an allocation of %zu bytes that failed without any report", (size_t)g_sh->alloc_failed[2 * i + 1]), 0); remove_file(".ref"); }
      for (auto& f : after.f) if (f.first != "lib.snap") { auto x = now.f.find(f.first); SIM_CHECK(x != now.f.end() && x->second == f.second, "silent-failure", "job %d: an allocation failed without any report (%s), but %s is %s", job, a.ending().c_str(), f.first.c_str(), x == now.f.end() ? "missing" : "another"); }
      count("probe.faults_without_effect");
    } else {
      count(told ? "probe.faults_reported" : "probe.text_cut_off");
      for (auto& w : whole) if (w.second) { auto x = now.f.find(w.first), b = before.f.find(w.first), c = after.f.find(w.first); bool good = x == now.f.end() ? b == before.f.end() : (b != before.f.end() && x->second == b->second) || (c != after.f.end() && x->second == c->second) || (job == 0 && a.exited && a.code == 0); SIM_CHECK(good, "destroyed", "job %d: after a failed allocation (%s) %s is neither the old nor the new one (%zu bytes)", job, a.ending().c_str(), w.first.c_str(), x == now.f.end() ? 0 : x->second.size()); }
      if (!(a.exited && a.code == 0)) for (auto& f : now.f) if (f.first.compare(0, 4, "csv/") == 0) { auto c = after.f.find(f.first); SIM_CHECK(c != after.f.end() && c->second.compare(0, f.second.size(), f.second) == 0, "reports-damaged", "after a failed allocation (%s) %s is no beginning of what it is otherwise", a.ending().c_str(), f.first.c_str()); }
      if (job == 5 || job == 6) restore(before);
      where("again after attempt %d", i); LifeResult b = go(2 * i + 2); const std::string out2 = answers(b.out); const Disk then = disk();   // with the memory back, everything is as if nothing had happened
      SIM_CHECK(!b.unsafe && b.exited && b.code == code && out2 == want, "no-recovery", "job %d after an attempt that ran out of memory ended with %s: %s", job, b.ending().c_str(), first_diff(want, out2).c_str());
      for (auto& f : after.f) { auto x = then.f.find(f.first); SIM_CHECK(x != then.f.end() && x->second == f.second, "no-recovery", "job %d after an attempt that ran out of memory: %s differs", job, f.first.c_str()); }
      count("probe.recoveries");
    }
    ev("attempt", (uint64_t)i, told, hash_bytes(out.data(), out.size())); sched_ev(mix((uint64_t)job, (uint64_t)p.get("toy")));
  }
}
Property sim::g_property = {"K01", gen, exec,
  "non-trivial: an allocation failed while a program ran, and what it reported and left behind was compared; distinct = distinct programs, inputs and failures",
  "hash over the program, its inputs and the allocations that failed",
  {"tools/trainNetwork, classifyImage, makeTensorStream, makeCompressedTensorStream, compressTensorStream, tensorStreamTool, tensorTool, tensorStreamStats", "the library behind them"}, {"operator new (interposed, seeded contents)", "disk and standard input (scratch directory behind an interposed libc)"},
  {"allocations of operator new fail; those within libpng, libjpeg and libc do not"}, {"single failing allocations, of any or of large size", "memory exhausted from some point on"}, 6000, 100000, 60, 900};
