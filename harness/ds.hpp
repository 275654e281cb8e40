// Abstract transit dataset, query, and backend interface.  No dependency on the code under test.
#pragma once
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
#include <nlohmann/json.hpp>
#include "tape.hpp"
using json = nlohmann::json;

constexpr int CLOCK_END = 32 * 3600;   // clock values live in [0, CLOCK_END)
constexpr int UNLIMITED = 2147483647;
constexpr int FAR_AWAY = 5000000;      // a walk no timetable of [0, 32 h) can absorb

struct Foot { int to, time, dist; };
struct DNode { std::string uuid, name, code; double lat, lon; std::vector<Foot> foot; };   // foot contains {self,0,0}
struct DAgency { std::string uuid, acronym, name; };
struct DService { std::string uuid, name; };
struct DLine { std::string uuid; int agency; std::string mode, shortname, longname; };
struct DPath { std::string uuid; int line; std::string direction; std::vector<int> stops; std::vector<int> segDist; std::vector<int> segTime; std::optional<std::string> raw = {}; };  // segDist empty: no distances; raw: the data text as is (damaged data)
struct DTrip { std::string uuid; int path, service; std::vector<int> arr, dep; std::vector<char> board, unboard; };
struct DScenario { std::string uuid, name; std::vector<int> services, onlyLines, onlyAgencies, onlyNodes, exceptLines, exceptAgencies, exceptNodes; std::vector<std::string> onlyModes, exceptModes; };
struct Acc { int node, time, dist; int reach = -1; int need() const { return reach < 0 ? time : reach; } };   // need(): the smallest maximum under which the stop is offered
struct DPlace { double lat, lon; std::vector<Acc> acc; };

struct DS {
  int unit = 60, base = 28800, window = 3600;
  int lat0 = 45500000, lon0 = -73600000;  // where the network lies, millionths of a degree
  unsigned style = 0;                     // how the cache files lay out the records (0: plainly)
  int spread = 0;                         // 0: all within a metre; 1: over the map, walking table; 2: over the map, straight-line walking (server option)
  std::vector<DNode> nodes; std::vector<DAgency> agencies; std::vector<DService> services; std::vector<DLine> lines;
  std::vector<DPath> paths; std::vector<DTrip> trips; std::vector<DScenario> scenarios; std::vector<DPlace> places;
  const DLine& lineOf(const DTrip& t) const { return lines[paths[t.path].line]; }
  int nodeByUuid(const std::string& u) const { for (size_t i = 0; i < nodes.size(); i++) if (nodes[i].uuid == u) return (int)i; return -1; }
  int tripByUuid(const std::string& u) const { for (size_t i = 0; i < trips.size(); i++) if (trips[i].uuid == u) return (int)i; return -1; }
  bool admits(const DScenario& s, const DTrip& t) const;
  json dump() const;
};

using Params = std::vector<std::pair<std::string, std::string>>;
struct Query {
  bool forward = true; int time = 0; int origin = 0, dest = 0, scenario = 0; bool alternatives = false;
  std::optional<int> minWait, maxTotal, maxAccess, maxEgress, maxTransfer, maxFirst;
  Params routeParams(const DS&) const;      // /v2/route and /v2/summary
  Params accessParams(const DS&) const;     // /v2/accessibility: place = origin (forward) / dest (reverse)
  json dump() const;
};
struct Limits { int minWait, maxTotal, maxAccess, maxEgress, maxTransfer, cap; };   // cap <= 0: none
Limits effective(const Query&);

struct Resp { int http = 0; std::string raw; json body; };
struct BackendError : std::runtime_error { using std::runtime_error::runtime_error; };

// "what": route | summary | accessibility
struct Backend {
  virtual ~Backend() {}
  virtual void load(const DS&, bool cacheAll) = 0;
  virtual Resp get(const std::string& what, const Params&) = 0;
};
std::unique_ptr<Backend> makeMem();     // null if the in-memory adapter was not built
void logPoints(bool on);                // log messages of the in-memory backend call trrouting_verif_point("log")
// In-process, but through the cache files and the repository's own loaders.
struct FileBackend : Backend {
  std::string dir;
  virtual void open(const DS& places, bool cacheAll) = 0;        // loads whatever lies in dir
  virtual void update(const std::string& names) = 0;             // comma separated, as /updateCache applies them
  virtual void setPlaces(const DS&) = 0;
};
std::unique_ptr<FileBackend> makeFile();
std::string coord(double v);
std::string uuidFor(char kind, unsigned idx, unsigned salt);

struct GenOpt {
  bool strictHops = false, uniformWait = false;
  int maxNodes = 7, maxTrips = 14, maxLines = 5, maxScenarios = 3, places = 3;
  bool dense = false;                     // more structure for journey rewriting
  bool full = false;                      // the walking table covers every stop (far ones with a huge time)
  
  bool spread = false;                    // stops and places may lie apart (end-to-end backend only)
  bool sparse = false;                    // few departures and few access stops
};
struct QOpt { bool capOff = false; int dir = -1 /*-1 any, 0 forward, 1 reverse*/; int alt = 0 /*0 no, 1 always, 2 maybe*/; bool wild = false; int scenario = -1; bool posWait = false /*a minimum waiting time of at least a second*/; };
DS genDataset(Gen&, const GenOpt&);
Query genQuery(Gen&, const DS&, const QOpt&);
DScenario genScenario(Gen&, const DS&, unsigned idx, unsigned salt, bool restrictive);
// capwrite.cpp
std::map<std::string, std::string> cacheFiles(const DS&);          // relative path -> bytes
void addSurvey(const DS&, std::map<std::string, std::string>&);
void writeFiles(const std::map<std::string, std::string>&, const std::string& dir);
void writeCache(const DS&, const std::string& dir);                // empties dir first
