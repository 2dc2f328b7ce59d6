#include "session.h"
#include <sstream>
extern __attribute__((weak)) int trainNetwork_main(int argc, char** argv);
namespace sim {
int (*session_main)(int, char**) = nullptr;
int call_main(int (*f)(int, char**), std::vector<std::string> args) {
  std::vector<char*> a; for (auto& s : args) a.push_back(&s[0]); a.push_back(nullptr);
  return f((int)args.size(), a.data());
}
Session run_session(const std::vector<std::string>& commands, bool no_quit, const std::string& set, const std::string& net) {
  std::string in; for (auto& c : commands) in += c + "\n";
  if (!no_quit) in += "quit\n";
  spit(".sim.in", in);
  Session s; s.commands = (int)commands.size() + (no_quit ? 0 : 1);
  s.r = run_life([&] { return call_main(session_main ? session_main : trainNetwork_main, {"trainNetwork", set, net}); }, scratch_dir() + "/.sim.in", true);
  const std::string pr = "\n > "; size_t p = 0;
  while (true) { size_t q = s.r.out.find(pr, p); if (q == std::string::npos) { s.seg.push_back(s.r.out.substr(p)); break; } s.seg.push_back(s.r.out.substr(p, q - p)); p = q + pr.size(); }
  return s;
}
std::string metrics(const std::string& seg) {
  std::istringstream in(seg); std::string l, o;
  while (std::getline(in, l)) {
    if (l.find("hroughput") != std::string::npos || l.find("Frame Rate") != std::string::npos) continue;
    std::string t;
    for (size_t i = 0; i < l.size(); i++) {
      if (l[i] == 27) { while (i < l.size() && l[i] != 'm') i++; continue; }
      t += l[i];
    }
    size_t b = t.find(" [ "), e = t.find(" ] ");
    if (b != std::string::npos && e != std::string::npos && b < e) t = t.substr(0, b) + t.substr(e + 2);
    if (!t.empty()) o += t + "\n";
  }
  return o;
}
std::string first_diff(const std::string& a, const std::string& b) {
  std::istringstream x(a), y(b); std::string l, m;
  while (true) { bool p = (bool)std::getline(x, l), q = (bool)std::getline(y, m); if (!p && !q) return "(equal)"; if (!p || !q || l != m) return "[" + (p ? l : std::string("<end>")) + "] / [" + (q ? m : std::string("<end>")) + "]"; }
}
} // namespace sim
