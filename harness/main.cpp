#include "checks.hpp"
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <sys/stat.h>
int main(int argc, char** argv) {
  signal(SIGPIPE, SIG_IGN);
  auto env = [](const char* k, const char* d) { const char* v = getenv(k); return std::string(v && *v ? v : d); };
  gServerBin = env("TRV_SERVER", ""); gServerAsan = env("TRV_SERVER_ASAN", ""); gServerTsan = env("TRV_SERVER_TSAN", "");
  RunOpts o; o.tier = env("VERIF_TIER", "quick"); o.seed = strtoull(env("VERIF_SEED", "1").c_str(), nullptr, 10); o.scale = atof(env("TRV_SCALE", "1").c_str());
  o.scratch = env("TRV_SCRATCH", "/tmp/trv"); o.replayDir = env("TRV_REPLAYS", "/verif/replays"); o.knownFile = env("TRV_KNOWN", "/verif/known-findings.txt");
  mkdir(o.scratch.c_str(), 0755); gScratch = o.scratch;
  if (argc >= 3 && !strcmp(argv[1], "check")) {
    o.evidence = env("TRV_EVIDENCE", ""); std::string only = argc > 3 ? argv[3] : "";
    for (auto& c : allChecks(o.tier)) if (c.id == argv[2]) { Check k = c; if (!only.empty()) { k.searches.clear(); for (auto& s : c.searches) if (s.name.find(only) == 0) k.searches.push_back(s); } return runCheck(k, o); }
    fprintf(stderr, "unknown property %s\n", argv[2]); return 2;
  }
  if (argc >= 3 && !strcmp(argv[1], "replay")) return replayFile(allChecks(o.tier), argv[2], o);
  for (auto& c : allChecks(o.tier)) for (auto& s : c.searches) printf("%s %s\n", c.id.c_str(), s.name.c_str());
  return 0;
}
