#pragma once
#include <functional>
#include <map>
#include <string>
#include <vector>
#include "tape.hpp"
#include "ds.hpp"

struct Violation { std::string msg; };
[[noreturn]] void fail(const std::string& msg);

struct Case {
  bool wantDump = false;                 // fill dump (samples, replay files)
  std::vector<uint64_t> sigs;             // identities of the non-trivial inputs met inside the case
  long evals = 0;                        // inputs evaluated inside the case
  std::map<std::string, long> labels;
  std::string dump;
  std::vector<std::string> known;        // known findings met (keys)
  void label(const std::string& l, long n = 1) { labels[l] += n; }
};
using CaseFn = std::function<void(Gen&, Case&)>;

struct Search {
  std::string name;
  CaseFn fn;
  long maxCases; double seconds;          // whichever is first
  int chunk = 100;                        // cases per child process
  int cpuLimit = 20, wallLimit = 120;     // seconds per case
  int workers = 8;
  int reproNeeded = 2, reproTries = 3;    // 0: a failure counts even when no replay shows it again (schedules)
  double shrinkSeconds = 45;
  bool crashIsViolation = true;
  bool guided = false;                   // tapes that reach new code are kept and mutated (builds with coverage counters; else plain random)
  long fixedTotal = -1;                   // enumerations: exact number of cases
};
struct Check {
  std::string id, level = "exploration", rule;
  std::vector<std::string> assumptions;
  std::vector<Search> searches;
};
struct RunOpts { std::string tier = "quick"; uint64_t seed = 1; std::string evidence, replayDir, knownFile, scratch; double scale = 1; };
int runCheck(const Check&, const RunOpts&);
int replayFile(const std::vector<Check>&, const std::string& path, const RunOpts&);
std::vector<Check> allChecks(const std::string& tier);
extern std::string gScratch;             // per-process scratch directory (workers get their own)
extern std::string gServerBin, gServerAsan, gServerTsan;
