// Interactive sessions with the real trainNetwork program inside a simulated process.
#pragma once
#include "sim.h"
#include "seams.h"
#include <string>
#include <vector>
namespace sim {
struct Session {
  LifeResult r;
  std::vector<std::string> seg;   // seg[0]: output before the first prompt; seg[i]: output of command i (1-based)
  int commands = 0;
  bool started(int i) const { return (int)seg.size() > i; }            // command i was read
  bool acked(int i) const { return (int)seg.size() > i + 1 || (i == commands && r.exited && r.code == 0); }
  bool err(int i) const { return started(i) && seg[i].find("ERR [") != std::string::npos; }
  bool any_err() const { for (auto& s : seg) if (s.find("ERR [") != std::string::npos) return true; return !r.exited || r.code != 0; }
};
// commands: one line each; "quit" is appended unless no_quit. net.net and data.set must exist.
Session run_session(const std::vector<std::string>& commands, bool no_quit = false, const std::string& set = "data.set", const std::string& net = "net.net");
extern int (*session_main)(int, char**);   // the program of the sessions, trainNetwork unless set
int call_main(int (*f)(int, char**), std::vector<std::string> args);
// metric lines of a test or training command, without throughput and with log positions removed
std::string metrics(const std::string& seg);
// first line in which two outputs differ, for reports
std::string first_diff(const std::string& a, const std::string& b);
} // namespace sim
int trainNetwork_main(int argc, char** argv);
