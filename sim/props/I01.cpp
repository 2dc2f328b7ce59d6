// VARIANT: asan
// TOOLS: trainNetwork
// Sessions end, answer every command, and are decided by the text of their inputs alone.
#include "session.h"
#include "seams.h"
#include "toy.h"
#include <sstream>
#include <sys/stat.h>
using namespace sim;

static const char* net_words[] = {"popa", "popb", "pusha", "pushb", "?sum", "?sum stack=b", "?concat", "?concat stack=b", "?lrn", "?lrn method=across size=3", "?lrn method=within", "?upscale factor=2x2", "?upscale factor=1x1 is_output=1",
  "?amaxpooling size=2x2", "?amaxpooling", "?amaxpooling size=3x3 stride=1x1", "?maxpooling", "?maxpooling size=2x2", "?maxpooling size=3x1", "?downsampling size=2x2", "?downsampling", "?convolutional", "?convolutional kernels=3", "?convolutional size=2x2", "?convolutional size=3x3 pad=1x1 kernels=2",
  "?convolutional size=3x3 stride=2x2 kernels=2", "?convolutional size=1x1 kernels=4 group=2", "?convolutional size=1x1 kernels=4 group=3", "?convolutional size=1x1 kernels=2 dropout=0.5", "?fullyconnected", "?fullyconnected neurons=3", "?spatialprior", "?output", "?tanh", "?hmax", "?relu", "?flatten", "?", "#", "(o)", "?nosuchlayer",
  "manual rfx=4 rfy=4 factorx=2 factory=2", "manual rfx=3 rfy=5", "manual", "method=patch", "method=", "lr", "lr=", "iterations", "iterations=", "iterations=0", "pbatchsize=0", "sbatchsize=0", "pbatchsize=", "optimization=quickprop", "optimization", "optimization=nothing", "mu=", "l1", "momentum=x"};
static const char* set_words[] = {"classes=0", "classes=1", "classes=2", "classes=5", "classes", "classes=", "colors", "weights", "localized_error", "localized_error=", "localized_error=kitti", "localized_error=default", "localized_error=none", "training", "training=", "training=test.Tensor", "training=nosuch.Tensor",
  "testing", "testing=", "testing=train.Tensor", "testing=data.set", "training=.", "0x0", "1", "-1", "nan", "0xfffffffff", ""};
static const char* cmd_words[] = {"train epochs=", "train epochs=0", "train", "train view=", "test view=", "test view=0", "load", "load file=", "load file=nosuch", "load file=net.net", "load file=.", "save", "save file=", "save file=nosuch/x", "save file=.", "set", "set epoch", "set epoch epoch=", "set experiment", "set experiment name=", "set experiment name=a/b", "set experiment name=x",
  "reset", "help", "graph", "graph file=", "graph file=g", "graph file=.", "wstat", "wstat node=", "wstat node=1", "dstat", "dstat node=1", "tstat", "tstat enable=", "tstat enable=7", "", " ", "q ", "trai", "=", "x=y", "trainepochs=1", "testing", "load last_layer=1", "load file=m last_layer=99", "load file=m last_layer=-1", "save file=m"};
#define N(a) ((long long)(sizeof a / sizeof *a))

// file: 0 network, 1 dataset, 2 commands
static std::vector<std::string> lines_of(const std::string& t) { std::vector<std::string> v(1); for (char c : t) if (c == '\n') v.emplace_back(); else v.back() += c; return v; }
static std::string join(const std::vector<std::string>& v) { std::string t; for (size_t i = 0; i < v.size(); i++) { if (i) t += '\n'; t += v[i]; } return t; }
// a layer with parameters of any kind
static std::string any_layer(uint64_t seed) {
  Rng r(seed * 77 + 5); auto n = [&] { static const int v[] = {0, 1, 1, 2, 2, 3, 4, 6}; return v[r.below(8)]; }; auto xy = [&](const char* k, int num) { return r.chance(1, 2) ? std::string() : strf(" %s=%dx%d", k, r.chance(num, 8) ? n() : 1 + (int)r.below(3), 1 + (int)r.below(3)); };
  std::string t; switch (r.below(10)) {
    case 0: case 1: case 2: case 3: t = strf("?convolutional kernels=%d size=%dx%d", n(), (int)r.range(1, 3), (int)r.range(1, 3)) + xy("stride", 2) + xy("pad", 2); if (r.chance(1, 2)) t += strf(" group=%d", n()); if (r.chance(1, 6)) t += strf(" llr=%d", n()); break;
    case 4: t = "?amaxpooling" + xy("size", 2) + xy("stride", 2); break;
    case 5: t = "?maxpooling" + xy("size", 2); break;
    case 6: t = "?upscale" + xy("factor", 2); break;
    case 7: t = "?downsampling" + xy("size", 2); break;
    case 8: t = strf("?lrn method=%s size=%d alpha=%d beta=%d", r.chance(1, 2) ? "across" : "within", n(), n(), n()); break;
    default: t = strf("?fullyconnected neurons=%d", n()); break;
  }
  static const char* tail[] = {"", "", "", "", "\n?tanh", "\n?relu", "\npusha", "\n?sum", "\n?concat", "\n?hmax mu=0.5 weight=1"}; t += tail[r.below(10)]; return t;
}
static std::string mutate(std::string t, int file, const Step& s) {
  long long kind = s.arg(1), pos = s.arg(2), par = s.arg(3); std::vector<std::string> l = lines_of(t); size_t i = (size_t)(pos % (long long)l.size()), j = (size_t)(par % (long long)l.size());
  switch (kind) {
    case 0: return t.substr(0, (size_t)(pos % (long long)(t.size() + 1)));
    case 1: l.erase(l.begin() + (long)i); return join(l);
    case 2: l.insert(l.begin() + (long)j, l[i]); return join(l);
    case 3: std::swap(l[i], l[j]); return join(l);
    case 4: {   // another number in its place
      std::vector<std::pair<size_t, size_t>> n; for (size_t a = 0; a < t.size();) { if (!isdigit((unsigned char)t[a])) { a++; continue; } size_t b = a; while (b < t.size() && isdigit((unsigned char)t[b])) b++; n.push_back({a, b}); a = b; }
      if (n.empty()) return t; auto p = n[(size_t)pos % n.size()];
      static const char* v[] = {"0", "1", "2", "3", "5", "8", "", "-1", "x", "0x2", "100000", "4294967295", "99999999999", "-2147483648"};
      bool loops = file == 2; if (file == 0) { size_t b = t.rfind('\n', p.first); b = b == std::string::npos ? 0 : b + 1; loops = t.compare(b, 4, "iter") == 0 || t.compare(b, 4, "sbat") == 0 || t.compare(b, 4, "pbat") == 0; }   // legitimately long otherwise
      return t.substr(0, p.first) + v[par % (loops ? 7 : 14)] + t.substr(p.second);
    }
    case 5: if (t.empty()) return t; t[(size_t)pos % t.size()] = (char)par; return t;
    case 6: { const char* w = file == 0 ? net_words[par % N(net_words)] : file == 1 ? set_words[par % N(set_words)] : cmd_words[par % N(cmd_words)]; l.insert(l.begin() + (long)i, w); return join(l); }
    case 7: { std::string o; for (char c : t) { if (c == '\n') o += '\r'; o += c; } return o; }
    case 8: { size_t e = l[i].find('='); if (e != std::string::npos) l[i] = l[i].substr(0, e + (par & 1)); return join(l); }
    case 9: { const char* w = file == 0 ? (par & 1 ? "pusha" : "pushb") : file == 1 ? "weights" : "nonsense"; l.insert(l.begin() + (long)i, (size_t)(60 + par % 12), w); return join(l); }
    case 10: l[i].insert(l[i].size() ? (size_t)par % l[i].size() : 0, (size_t)(par % 300), "x= y"[par & 3]); return join(l);
    case 11: return "";
    case 13: if (file == 0) { std::string w = any_layer((uint64_t)par); bool repl = pos & 1; i = (size_t)((pos >> 1) % (long long)l.size()); if (repl) l[i] = w; else l.insert(l.begin() + (long)i, w); } return join(l);
    default: { size_t e = l[i].find('='); std::string tail = l[j]; size_t f = tail.find('='); if (e != std::string::npos && f != std::string::npos) l[i] = l[i].substr(0, e) + tail.substr(f); return join(l); }
  }
}
// changes of the text that mean nothing
static std::string neutral(std::string t, int file, const Step& s) {
  long long kind = s.arg(1), pos = s.arg(2); std::vector<std::string> l = lines_of(t);
  if (file == 1) { if (kind & 1) return t.size() && t.back() == '\n' ? t.substr(0, t.size() - 1) : t; return (kind & 2 ? "# comment\n" : "\n\n") + t; }   // not within its lists
  size_t i = (size_t)(pos % (long long)l.size());
  if (file == 2) { return t; }
  switch (kind) {
    case 0: l.insert(l.begin() + (long)i, "# ?convolutional kernels=2 size=3x3"); break;
    case 1: l.insert(l.begin() + (long)i, ""); break;
    case 2: while (l.size() > 1 && l.back().empty()) l.pop_back(); break;
    case 3: l.insert(l.begin() + (long)i, "unknown=3"); break;
    default: if (l[i].compare(0, 1, "?") == 0 && l[i].find("(o)") == std::string::npos) l[i] += " "; break;
  }
  return join(l);
}
static void gen(Rng& r, int tier, uint64_t, Plan& p) {
  p.env["toy"] = (long long)r.below(1 << 20); p.env["script"] = r.chance(1, 3); p.env["stack"] = (long long)r.below(1 << 20);
  if (r.chance(1, 2)) p.env["chunk"] = r.range(1, 30);
  p.env["eof"] = (long long)r.below(3);      // quit, end of input, end of input without newline
  if (r.chance(1, 12)) p.env["gradcheck"] = 1;
  int n = (int)r.range(1, tier ? 8 : 5);
  for (int i = 0; i < n; i++) p.add("cmd", {(long long)r.below(12), (long long)r.below(1000)});
  int cls = (int)r.below(10);
  if (cls < 2) { for (int i = (int)r.range(1, 4); i > 0; i--) p.add("neutral", {(long long)r.below(2), (long long)r.below(5), (long long)r.below(1000)}); }
  else if (cls < 8) for (int i = r.chance(3, 5) ? 1 : (int)r.range(2, 4); i > 0; i--) {
    int file = r.chance(1, 2) ? 0 : r.chance(1, 2) ? 1 : 2; int kind = (int)r.below(13); if (r.chance(1, 3)) kind = r.chance(1, 2) ? 6 : 4; if (file == 0 && r.chance(1, 3)) kind = 13; if (kind == 11 && !r.chance(1, 4)) kind = 0;
    p.add("mut", {file, kind, (long long)r.below(100000), (long long)r.below(100000)});
  }
  if (r.chance(1, 4)) p.add("missing", {(long long)r.below(5)});
  if (r.chance(1, 2)) {
    DryInfo d = dry_run(p); static const int kinds[] = {F_EIO_READ, F_EIO_READ, F_OPEN_FAIL, F_SHORT_READ, F_EINTR_READ, F_SEEK_FAIL, F_MMAP_FAIL};
    for (int i = (int)r.range(1, 2); i > 0; i--) if (d.io[1]) p.add("fault", {1, kinds[r.below(7)], r.range(1, std::min<long long>((long long)d.io[1], r.chance(1, 2) ? 40 : 4000)), r.range(1, 60)});
  }
}
// what a session printed, without what differs between prompts and scripts, and without times
static std::string answers(const std::string& out) {
  std::string t; size_t p = 0; const std::string pr = "\n > "; while (true) { size_t q = out.find(pr, p); if (q == std::string::npos) { t += out.substr(p); break; } t += out.substr(p, q - p) + "\n"; p = q + pr.size(); }
  p = 0; const std::string he = "You can use the following commands"; while ((p = t.find(he, p)) != std::string::npos) { t.insert(p, "\n"); p += he.size() + 1; }   // continues the line before
  std::istringstream in(metrics(t)); std::string l, o; while (std::getline(in, l)) { if (l.find("Executing script") != std::string::npos || l.find("Enter \"help\"") != std::string::npos) continue; o += l + "\n"; }
  return o;
}
struct End { LifeResult r; std::string out; bool ok() const { return r.exited && r.code == 0; } bool told() const { return r.threw || r.sig == 6 || (r.exited && r.code != 0) || (!grad && r.out.find("ERR [") != std::string::npos) || r.out.find("Memory map failed") != std::string::npos; } bool grad = false; };
static End session(bool script, bool grad, const std::string& cmds) {
  End e; spit("script.txt", cmds); spit(".sim.in", cmds); mkdir("csv", 0755);
  std::vector<std::string> a = {"trainNetwork", "data.set", "net.net"}; e.grad = grad; if (grad) a.push_back("gradient_check"); else if (script) a.push_back("script.txt");
  e.r = run_life([&] { return call_main(trainNetwork_main, a); }, script || grad ? "" : scratch_dir() + "/.sim.in", true);
  e.out = answers(e.r.out); return e;
}
static void exec(const Plan& p) {
  faults_from_plan(p); ToyOptions o; o.max_side = 9; o.max_train = 2; o.max_test = 2; Toy toy = make_toy((uint64_t)p.get("toy"), o);
  const bool can_check = toy.hybrid || toy.pbatch <= (int)toy.test.size() / 2;   // the gradient check takes a batch of testing samples
  std::vector<std::string> cmd; bool mutated = false, loud_fault = false, missing = false; bool script = p.get("script") != 0, grad = p.get("gradcheck") != 0 && can_check; int saved = 0;
  for (auto& s : p.steps) if (s.op == "cmd") switch (s.arg(0)) {
    case 0: case 1: case 2: cmd.push_back(strf("train epochs=%lld", s.arg(1) % 3)); break;
    case 3: case 4: cmd.push_back("test"); break;
    case 5: cmd.push_back(strf("save file=m%lld", s.arg(1) % 2)); saved |= 1 << s.arg(1) % 2; break;
    case 6: if (saved >> (s.arg(1) % 2) & 1) cmd.push_back(strf("load file=m%lld", s.arg(1) % 2)); break;
    case 7: cmd.push_back("reset"); break;
    case 8: cmd.push_back("tstat enable=" + std::to_string(s.arg(1) % 2)); break;
    case 9: cmd.push_back(strf("set epoch epoch=%lld", s.arg(1) % 20)); break;
    case 10: cmd.push_back(s.arg(1) % 2 ? "help" : "graph file=g.dot"); break;
    default: cmd.push_back("unknown command " + std::to_string(s.arg(1))); break;
  }
  std::string text[3] = {toy.net_text, toy.set_text, ""}; long long eof = p.get("eof"); for (auto& c : cmd) text[2] += c + "\n"; if (eof == 0) text[2] += "quit\n";
  write_toy(toy); alloc_limit(8 << 20);
  const std::string original = text[2];
  for (auto& s : p.steps) {
    if (s.op == "mut") { int f = (int)(s.arg(0) % 3); if (grad && f == 2) continue; text[f] = mutate(text[f], f, s); mutated = true; }
    else if (s.op == "neutral") { int f = (int)(s.arg(0) % 2); text[f] = neutral(text[f], f, s); }
    else if (s.op == "missing") missing = true;
    else if (s.op == "fault" && s.arg(1) != F_SHORT_READ && s.arg(1) != F_EINTR_READ) loud_fault = true;
  }
  End ref; if (!mutated) {
  // undisturbed, interactive
  where("undisturbed session"); g_sh->life = 0; ref = session(false, grad, original);
  SIM_CHECK(!ref.r.unsafe, "memory-error", "%s", ref.r.ending().c_str()); SIM_CHECK(!ref.r.hung, "no-progress", "an undisturbed session did not end");
  SIM_CHECK(ref.ok() && !ref.told(), "undisturbed-session-failed", "ended with %s: %s", ref.r.ending().c_str(), ref.out.substr(ref.out.size() > 300 ? ref.out.size() - 300 : 0).c_str());
  if (!grad) { size_t at = 0; for (size_t k = 0; k < cmd.size(); k++) {   // every command is answered, in order
    const std::string& c = cmd[k]; const char* w = c[0] == 't' && c[1] == 'r' ? "Training complete" : c == "test" ? "Testing complete" : c.compare(0, 4, "save") == 0 ? "Written parameters to" : c.compare(0, 4, "load") == 0 ? "Loaded parameters from" : c == "reset" ? "Resetting parameters" : c.compare(0, 9, "set epoch") == 0 ? "Setting current epoch to" : c == "help" ? "You can use the following commands" : c.compare(0, 7, "unknown") == 0 ? "Unknown command" : nullptr;
    if (!w) continue; size_t q = ref.out.find(w, at); SIM_CHECK(q != std::string::npos, "unanswered", "command %zu (%s) is not answered by '%s'", k + 1, c.c_str(), w); at = q + 1; count("probe.answers"); }
  }
  }
  if (eof == 2 && !text[2].empty() && text[2].back() == '\n') text[2].pop_back();
  for (int f = 0; f < 3; f++) for (auto& l : lines_of(text[f])) evs(f == 0 ? "net" : f == 1 ? "set" : "cmd", l);
  clean_scratch(); write_toy(toy); spit("net.net", text[0]); spit("data.set", text[1]);
  const char* gone = nullptr; for (auto& s : p.steps) if (s.op == "missing") { static const char* f[] = {"net.net", "data.set", "train.Tensor", "test.Tensor", "script.txt"}; gone = f[s.arg(0) % 5]; if (s.arg(0) % 5 == 4 && (!script || grad)) { gone = nullptr; missing = false; } else if (s.arg(0) % 5 != 4) remove_file(gone); break; }
  if (gone && std::string(gone) == "script.txt") { // the session names a file that does not exist
    where("missing script"); g_sh->life = 2; LifeResult r = run_life([&] { return call_main(trainNetwork_main, {"trainNetwork", "data.set", "net.net", "nosuch.txt"}); }, "", true);
    SIM_CHECK(!r.unsafe, "memory-error", "%s", r.ending().c_str()); SIM_CHECK(!r.hung, "no-progress", "a session without its script did not end"); SIM_CHECK(!(r.exited && r.code == 0), "silent-failure", "the script is missing, but the session ended successfully"); return; }
  where("disturbed session"); g_sh->life = 1; stack_fill(1 + (uint64_t)p.get("stack")); alloc_fill(1 + (int)(p.get("stack") % 4), (uint64_t)p.get("stack")); if (p.get("chunk")) io_chunk((uint64_t)p.get("toy"), (int)p.get("chunk"));
  End a = session(script, grad, text[2]); unsigned fired = faults_fired(); (void)fired; io_chunk(0, 0);
  SIM_CHECK(!a.r.unsafe, "memory-error", "%s", a.r.ending().c_str()); SIM_CHECK(!a.r.hung, "no-progress", "the session did not end");
  ev("end", (uint64_t)(a.r.exited ? a.r.code : 1000 + a.r.sig)); sched_ev((uint64_t)p.get("toy")); sched_ev(hash_bytes(text[0].data(), text[0].size()) ^ hash_bytes(text[1].data(), text[1].size()) ^ hash_bytes(text[2].data(), text[2].size()));
  if (missing && !mutated) { SIM_CHECK(a.told(), "silent-failure", "%s is missing, but the session ended successfully", gone); count("probe.missing_files"); return; }
  if (!mutated && !loud_fault) {
    if (!a.ok() || a.out != ref.out) SIM_FAIL("changed-session", "the same session %s prints something else or fails (%s): %s", script ? "from a script" : "with split reads", a.r.ending().c_str(), first_diff(ref.out, a.out).c_str());
    count("probe.equal_sessions"); return;
  }
  // the text alone decides: the same text under other circumstances, without faults
  where("same text again"); clean_scratch(); write_toy(toy); spit("net.net", text[0]); spit("data.set", text[1]); if (gone) remove_file(gone);
  g_sh->life = 2; stack_fill(77777 + (uint64_t)p.get("stack") * 3); alloc_fill(1 + (int)((p.get("stack") + 1) % 4), 5 + (uint64_t)p.get("stack"));
  End b = session(script, grad, text[2]);
  SIM_CHECK(!b.r.unsafe, "memory-error", "%s", b.r.ending().c_str()); SIM_CHECK(!b.r.hung, "no-progress", "the session did not end");
  bool same = a.out == b.out && a.ok() == b.ok() && a.r.threw == b.r.threw;
  if (loud_fault) { SIM_CHECK(same || a.told(), "silent-fault", "a fault changed the session without any report (%s): %s", a.r.ending().c_str(), first_diff(b.out, a.out).c_str()); count(same ? "probe.faults_without_effect" : "probe.faults_reported"); }
  else { SIM_CHECK(same, "undetermined", "the same text and data lead to different sessions (%s / %s): %s", a.r.ending().c_str(), b.r.ending().c_str(), first_diff(b.out, a.out).c_str()); count(a.ok() ? "probe.mutants_accepted" : "probe.mutants_refused"); }
}
Property sim::g_property = {"I01", gen, exec,
  "non-trivial: a session with altered text, faults, missing files or another kind of input ran to its end and was compared; distinct = distinct texts and faults that fired",
  "hash over the texts of network, dataset and commands and the faults that fired",
  {"tools/trainNetwork.cpp, ConfigParsing, ConfigurableFactory, TensorStreamDataset configuration, all layers' connection checks, GradientTester"}, {"disk and standard input (scratch directory behind an interposed libc)", "heap and stack contents (seeded)", "clock (simulated)"},
  {"a read error on standard input counts as the end of input", "allocations of more than 8 MB fail, so that absurd sizes end in an exception"}, {"read errors", "short and interrupted reads", "open, seek and mmap failures", "missing files", "cut off and altered text"}, 8000, 200000, 110, 900};
