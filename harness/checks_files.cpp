// C15, C16, C17: the cache files as input, refreshed, well-formed, damaged.
#include "checks.hpp"
#include <sys/resource.h>
#include <algorithm>
#include <cmath>
#include <filesystem>
#include <unistd.h>

namespace {
FileBackend& fileBackend(int k) { static std::map<int, std::unique_ptr<FileBackend>> m; auto& p = m[k]; if (!p) { p = makeFile(); if (p) p->dir = gScratch + "/files"; } return *p; }
Resp fetch(HttpBackend& b, const std::string& tgt) {
  Raw raw = rawGet(b.srv.port, tgt); Parsed x = parseHttp(raw);
  if (!x.ok) { usleep(50000); if (!b.srv.alive()) fail("the server died on GET " + tgt.substr(0, 600) + ": " + b.srv.describe()); fail("GET " + tgt.substr(0, 600) + ": " + x.why); }
  Resp r; r.http = x.status; r.raw = x.body; r.body = json::parse(x.body, nullptr, false); return r;
}
// another timetable on the same stops, lines, paths and services
void newSchedules(Gen& g, DS& d) {
  int S = (int)d.services.size(), u = d.unit; std::vector<DTrip> out; int style = g.below(5), all = g.range(-6, 6) * u;
  for (auto t : d.trips) {
    if (style != 1 && g.chance(25)) continue;
    int sh = style == 0 ? all : g.chance(60) ? g.range(-8, 8) * u : 0; for (auto& x : t.arr) x += sh; for (auto& x : t.dep) x += sh;
    if (g.chance(15)) t.service = (int)g.below(S);
    if (g.chance(15)) for (size_t k = 0; k < t.board.size(); k++) { t.board[k] = g.mostly(70); t.unboard[k] = g.mostly(70); }
    if (g.chance(15)) { int slow = g.range(1, 3) * u; for (size_t k = 1; k < t.arr.size(); k++) { t.arr[k] += slow * (int)k; t.dep[k] += slow * (int)k; } }
    if (g.chance(20)) t.uuid = uuidFor('T', (unsigned)(100 + out.size()), g.below(4));
    if (t.arr.front() < 0 || t.dep.back() >= CLOCK_END) continue; bool dup = false; for (auto& o : out) dup |= o.uuid == t.uuid; if (!dup) out.push_back(t);
    if (g.chance(20)) { DTrip n = t; n.uuid = uuidFor('T', (unsigned)(200 + out.size()), g.below(4)); int s = g.range(1, 6) * u; for (auto& x : n.arr) x += s; for (auto& x : n.dep) x += s; bool du = false; for (auto& o : out) du |= o.uuid == n.uuid; if (!du && n.dep.back() < CLOCK_END) out.push_back(n); }
  }
  if (out.empty() && !d.trips.empty() && !g.chance(15)) out.push_back(d.trips.front());
  d.trips = out;
}
void newScenarios(Gen& g, DS& d) {
  std::vector<DScenario> out;
  for (size_t i = 0; i < d.scenarios.size(); i++) { if (d.scenarios.size() > 1 && g.chance(10)) continue; if (g.chance(60)) { DScenario s = genScenario(g, d, (unsigned)i, 0, g.mostly(70)); s.uuid = d.scenarios[i].uuid; if (g.chance(6)) s.services.clear(); out.push_back(s); } else out.push_back(d.scenarios[i]); }
  if (g.chance(20)) out.push_back(genScenario(g, d, (unsigned)(20 + out.size()), 0, true));
  if (out.empty()) out.push_back(d.scenarios[0]);
  d.scenarios = out;
}
struct Ask { std::string what; Params p; };
// queries for a dataset; some name scenarios of another one
Ask ask(Gen& g, const DS& d, const DS& other) {
  Ask a; Query q = genQuery(g, d, {.alt = 2}); a.what = g.pick<std::string>({"route", "route", "accessibility", "summary"}); a.p = a.what == "accessibility" ? q.accessParams(d) : q.routeParams(d);
  if (g.chance(12)) for (auto& [k, v] : a.p) if (k == "scenario_id") v = other.scenarios[g.below((uint32_t)other.scenarios.size())].uuid;
  return a;
}
std::string show(const Ask& a) { return target("/v2/" + a.what, a.p); }

// the two servers of C15 behind one interface
struct Pair {
  virtual ~Pair() {}
  virtual void write(const std::map<std::string, std::string>& files) = 0;
  virtual void start(const DS& places, bool all) = 0;      // the server under test
  virtual void fresh(const DS& places, bool all) = 0;      // the reference on the files now on disk
  virtual void refresh(const std::string& names, const DS& places) = 0;
  virtual Resp get(bool ref, const Ask&) = 0;
  virtual void elsewhere(bool) {}                          // from now on the new files lie in a folder of their own, which the refresh names
  virtual void fewDescriptors(bool on) = 0;                // the server under test may hold few open files: what a refresh leaves open shows
};
void clean(const std::string& dir) { std::error_code ec; std::filesystem::remove_all(dir, ec); std::filesystem::create_directories(dir); }
struct FilePair : Pair {
  FileBackend &a = fileBackend(0), &b = fileBackend(1);
  rlimit was{}; bool limited = false;
  ~FilePair() { if (limited) setrlimit(RLIMIT_NOFILE, &was); }
  void fewDescriptors(bool) override {
    int top = 0; for (auto& e : std::filesystem::directory_iterator("/proc/self/fd")) top = std::max(top, atoi(e.path().filename().c_str()));
    getrlimit(RLIMIT_NOFILE, &was); rlimit l = was; l.rlim_cur = std::min<rlim_t>(was.rlim_max, top + 60); limited = setrlimit(RLIMIT_NOFILE, &l) == 0; }
  void write(const std::map<std::string, std::string>& f) override { clean(a.dir); writeFiles(f, a.dir); }
  void start(const DS& d, bool all) override { a.open(d, all); }
  void fresh(const DS& d, bool all) override { b.dir = a.dir; b.open(d, all); }
  void refresh(const std::string& n, const DS& d) override { a.update(n); a.setPlaces(d); }
  Resp get(bool ref, const Ask& q) override { return (ref ? b : a).get(q.what, q.p); }
};
struct HttpPair : Pair {
  HttpBackend &a, &b; Gen& g;
  HttpPair(const std::string& bin, Gen& gg, int threads) : a(httpBackend(0, bin)), b(httpBackend(1, bin)), g(gg) { a.opt.threads = threads; }
  ~HttpPair() { a.opt.threads = 1; a.opt.nofile = 0; }
  void fewDescriptors(bool on) override { a.opt.nofile = on ? 100 : 0; }
  std::string sub;
  void elsewhere(bool on) override { sub = on ? g.pick<std::string>({"alt", "alt/2"}) : ""; }
  void run(HttpBackend& h, bool all, bool ref) { h.srv.stop(); h.opt.cacheAll = all; if (!h.srv.start(ref && !sub.empty() ? a.dir + "/" + sub : a.dir, h.opt)) { if (h.srv.exited) fail("the server ended at start-up: " + h.srv.describe()); throw BackendError("server not reachable in time"); } }
  void write(const std::map<std::string, std::string>& f) override { if (sub.empty()) clean(a.dir); else clean(a.dir + "/" + sub); writeFiles(f, sub.empty() ? a.dir : a.dir + "/" + sub); }
  void start(const DS& d, bool all) override { a.router.setData(d); a.router.setFault(nullptr); run(a, all, false); }
  void fresh(const DS& d, bool all) override { b.router.setData(d); b.router.setFault(nullptr); run(b, all, true); }
  void refresh(const std::string& n, const DS& d) override {
    std::string key = g.mostly(80) ? "names" : g.pick<std::string>({"caches", "cache_names", "name", "cache", "cache_name"});
    Params q{{key, n}}; if (!sub.empty()) q.push_back({g.pick<std::string>({"path", "custom_path", "custom_cache_path"}), sub});
    Resp r = fetch(a, target("/updateCache", q)); if (r.http != 200 || status(r.body) != "success") failf("/updateCache?", key, "=", n, " answered ", r.http, " ", r.raw.substr(0, 300)); a.router.setData(d); }
  Resp get(bool ref, const Ask& q) override { return fetch(ref ? b : a, show(q)); }
};

void c15(Gen& g, Case& c, Pair& p, bool http) {
  GenOpt go; go.maxNodes = 6; go.full = http; DS d = genDataset(g, go), old = d; if (d.trips.empty()) return;
  bool all = g.chance(50); json log = json::array(); auto flush = [&] { if (c.wantDump) c.dump = json{{"cacheAll", all}, {"history", log}}.dump(); };
  auto note = [&](const json& j) { if (c.wantDump) { log.push_back(j); flush(); } };
  bool life = g.chance(5); if (life) { p.fewDescriptors(true); c.label("long life"); }
  auto files = cacheFiles(d); bool survey = g.chance(20); if (survey) addSurvey(d, files);
  if (http && g.chance(10)) files.erase(g.pick<std::string>({"agencies.capnpbin", "lines.capnpbin", "paths.capnpbin", "scenarios.capnpbin", "services.capnpbin"}));   // incomplete at first
  p.write(files); note({{"start", d.dump()}}); p.start(d, all); p.fresh(d, all);
  std::vector<Ask> before; uint64_t h = dsHash(d); std::set<std::string> warmed;
  auto compare = [&](const Ask& a, bool refreshed) {
    note({{"get", show(a)}}); Resp x = p.get(false, a), y = p.get(true, a); c.evals++; if (c.wantDump) { log.back()["answer"] = x.body; flush(); }
    if (x.http != y.http || x.body != y.body) failf(refreshed ? "after a refresh the answer differs from a fresh server's" : "two fresh servers differ", " | GET ", show(a), " | ", x.http, " instead of ", y.http, " | ", json::diff(y.body, x.body).dump().substr(0, 900));
    std::string sc; for (auto& [k, v] : a.p) if (k == "scenario_id") sc = v;
    if (refreshed) { c.label((warmed.count(sc) ? "asked before, " : "new, ") + (x.http == 200 ? status(x.body) : std::string("error"))); if (x.http == 200 && status(x.body) == "success") c.sigs.push_back(hashStr(show(a), h)); }
    else warmed.insert(sc); };
  int n = g.range(1, 4); for (int i = 0; i < n; i++) { Ask a = ask(g, d, d); before.push_back(a); compare(a, false); }
  int rounds = g.range(1, http ? 3 : 4);
  for (int r = 0; r < rounds; r++) {
    if (!d.trips.empty()) old = d; std::string names; int kind = g.below(6);
    if (kind <= 1) { newSchedules(g, d); names = "schedules"; }
    else if (kind == 2) { newSchedules(g, d); newScenarios(g, d); names = g.pick<std::string>({"schedules,scenarios", "scenarios,schedules"}); }
    else {
      if (kind == 3) { d = genDataset(g, go); if (d.trips.empty()) d = old; } else if (kind == 4) newSchedules(g, d); else { newSchedules(g, d); newScenarios(g, d); }
      names = g.pick<std::string>({"all", "all", "all,all", "agencies,services,nodes,lines,paths,scenarios,schedules", "data_sources,persons,od_trips,agencies,services,nodes,lines,paths,scenarios,schedules", "schedules,all"});
    }
    if (!http && d.trips.empty()) { d = old; }
    auto nf = cacheFiles(d); bool full = kind >= 3; survey = full ? g.chance(20) : survey; if (survey) addSurvey(d, nf);
    if (full) { if (http && g.chance(12)) nf.erase(g.pick<std::string>({"agencies.capnpbin", "lines.capnpbin", "paths.capnpbin", "scenarios.capnpbin", "services.capnpbin", "nodes.capnpbin"})); }
    else for (auto& [k, v] : files) if (k.rfind("lines/", 0) != 0 && !(k == "scenarios.capnpbin" && names != "schedules")) nf[k] = v;      // what is not reread stays
    if (!full) for (auto it = nf.begin(); it != nf.end();) if (!files.count(it->first) && it->first.rfind("lines/", 0) != 0) it = nf.erase(it); else ++it;
    if (g.chance(10) && !d.lines.empty()) nf.erase("lines/line_" + d.lines[g.below((uint32_t)d.lines.size())].uuid + ".capnpbin");                                         // a line loses its schedules
    p.elsewhere(full && g.chance(8)); files = nf; p.write(files); note({{"refresh", names}, {"data", d.dump()}}); p.refresh(names, d); if (life) for (int i = 0; i < 70; i++) p.refresh(names, d); p.fresh(d, all); h = mix64(h, dsHash(d)); c.label("refresh " + std::string(full ? "all" : names));
    if (!full || g.chance(30)) for (auto& a : before) if (g.mostly(75)) compare(a, true);
    n = g.range(1, 5); DS qd = d; if (qd.trips.empty()) qd.trips = old.trips; for (int i = 0; i < n; i++) { Ask a = ask(g, qd, old); compare(a, true); before.push_back(a); }
    if (before.size() > 8) before.erase(before.begin(), before.end() - 8);
    for (auto& a : before) for (auto& [k, v] : a.p) if (k == "scenario_id") warmed.insert(v);
  }
}

// ---- C16 ------------------------------------------------------------------------------------------
// variety the other checks do not need: texts, positions, partial distances, record orders
void enrich(Gen& g, DS& d, bool spread) {
  auto text = [&](std::string& x) { if (g.chance(25)) x = g.pick<std::string>({"", "Ga\xc3\xb1" "on \xe2\x80\x94 \xe9\xa7\x85", "\"quoted\" \\ back/slash", "tab\tand\nnewline", " leading and trailing ", "0", "null", "a,b;c&d=e?f#g%41", std::string(300, 'x')}) + (g.chance(50) ? "" : x); };
  for (auto& n : d.nodes) { text(n.name); text(n.code); } for (auto& a : d.agencies) { text(a.acronym); text(a.name); } for (auto& v : d.services) text(v.name); for (auto& l : d.lines) { text(l.shortname); text(l.longname); } for (auto& x : d.scenarios) text(x.name);
  auto micro = [](double v) { return std::llround(v * 1e6) / 1e6; };
  if (spread && g.chance(60)) { int i = 0; auto move = [&](double& la, double& lo) { la = micro(la + 0.002 * (i % 7) - 0.0001 * g.below(9)); lo = micro(lo - 0.003 * (i / 7) + 0.0001 * g.below(9)); i++; }; for (auto& n : d.nodes) move(n.lat, n.lon); for (auto& p : d.places) move(p.lat, p.lon); }
  for (auto& p : d.paths) {
    if (p.segDist.empty() || !g.chance(30)) continue;
    switch (g.below(3)) { case 0: p.segDist[g.below((uint32_t)p.segDist.size())] = -1; break; case 1: for (auto& x : p.segDist) if (g.chance(40)) x = -1; break; default: p.segDist[0] = -1; }
    if (g.chance(30)) for (auto& x : p.segDist) if (x > 0) x = g.pick({0, 1, 40000, 1000000});
  }
  auto shuffle = [&](auto& v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[g.below((uint32_t)i)]); };
  for (auto& n : d.nodes) if (g.chance(50)) shuffle(n.foot);
  for (auto& x : d.scenarios) if (&x != &d.scenarios[0] || d.scenarios.size() == 1) { if (g.chance(40)) { auto some = [&](size_t n) { std::vector<int> v; for (size_t i = 0; i < n; i++) if (g.chance(40)) v.push_back((int)i); return v; };
    if (g.chance(40)) x.exceptLines = some(d.lines.size()); if (g.chance(40)) x.exceptAgencies = some(d.agencies.size()); if (g.chance(40)) x.onlyLines = some(d.lines.size()); if (g.chance(40)) x.onlyAgencies = some(d.agencies.size()); if (g.chance(40)) x.onlyNodes = some(d.nodes.size()); if (g.chance(40)) x.exceptNodes = some(d.nodes.size()); } shuffle(x.services); shuffle(x.onlyLines); shuffle(x.onlyModes); }
  if (g.chance(50)) shuffle(d.trips);
}
std::string sameNode(const DS& d, const json& n) {
  int k = d.nodeByUuid(n.value("nodeUuid", "")); if (k < 0) return "unknown stop " + n.dump(); const DNode& x = d.nodes[k];
  if (n.value("nodeName", "?") != x.name || n.value("nodeCode", "?") != x.code) return "stop " + std::to_string(k) + " is named '" + n.value("nodeName", "?") + "' '" + n.value("nodeCode", "?") + "', the data says '" + x.name + "' '" + x.code + "'";
  auto& c = n.at("nodeCoordinates"); if (std::fabs(c.at(0).get<double>() - x.lon) > 2e-6 || std::fabs(c.at(1).get<double>() - x.lat) > 2e-6) return "stop " + std::to_string(k) + " lies at " + c.dump(); return "";
}
void c16(Gen& g, Case& c, Backend& b, bool http) {
  GenOpt go; go.full = go.spread = http; bool exact = g.mostly(75), zero = exact && g.chance(30); go.strictHops = exact && !zero; go.uniformWait = zero; if (g.chance(12)) { go.maxNodes = 30; go.maxTrips = 60; go.maxLines = 12; } if (g.chance(20)) go.dense = true;
  DS d = genDataset(g, go); enrich(g, d, !http); bool all = g.chance(40); Session s(c, d, b, all); uint64_t h = dsHash(d);
  bool mem = haveMem(); if (mem) memBackend().load(d, false);
  for (int n = g.range(2, http ? 16 : 10); n-- > 0;) {
    Query q = genQuery(g, d, {.capOff = exact, .alt = 2, .posWait = zero}); bool access = g.chance(30); json a = s.get(access ? "accessibility" : "route", q); Ctx x(d, q); std::string st = status(a); c.label((access ? "map " : "route ") + st);
    json ref; if (mem) { ref = memBackend().get(access ? "accessibility" : "route", access ? q.accessParams(d) : q.routeParams(d)).body; if (exact && (st != status(ref) || reason(a) != reason(ref))) failf("status ", st, " ", reason(a), " on the cache files, ", status(ref), " ", reason(ref), " on the dataset | ", access ? "accessibility " : "route ", brief(q)); }
    if (exact) { std::string e = access ? judgeMap(x, a) : judgeBest(x, a); if (!e.empty()) failf("the dataset says otherwise: ", e, " | ", access ? "accessibility " : "route ", brief(q)); }
    if (st != "success") { std::string e = expectReason(x, access, reason(a)); if (!e.empty()) failf(e, " | ", access ? "accessibility " : "route ", brief(q)); continue; }
    if (access) {
      std::map<std::string, std::pair<int, int>> got, want; for (auto& nd : a.at("result").at("nodes")) { std::string e = sameNode(d, nd); if (!e.empty()) failf("accessibility ", brief(q), ": ", e); if (!got.emplace(nd.at("nodeUuid"), std::make_pair(nd.at("nodeTime").get<int>(), nd.at("totalTravelTime").get<int>())).second) failf("accessibility lists a stop twice | ", brief(q)); }
      if (mem && exact) { for (auto& nd : ref.at("result").at("nodes")) want[nd.at("nodeUuid")] = {nd.at("nodeTime").get<int>(), nd.at("totalTravelTime").get<int>()}; if (got != want) failf("per-stop times differ from the dataset's | accessibility ", brief(q), " | ", json::diff(ref["result"], a["result"]).dump().substr(0, 900)); if (a["result"]["totalNodeCount"] != ref["result"]["totalNodeCount"]) failf("totalNodeCount ", a["result"]["totalNodeCount"].dump(), " instead of ", ref["result"]["totalNodeCount"].dump()); }
      if (got.size() >= 2) c.sigs.push_back(hashStr("a" + brief(q), h)); continue;
    }
    int k = 0;
    for (auto& r : a.at("result").at("routes")) {
      std::string e = validateEncoding(x, r); if (e.empty()) e = validateLimits(x, r); if (!e.empty()) failf("route ", k, ": ", e, " | query ", brief(q), " | route ", r.dump().substr(0, 1500));
      if (k == 0 && exact && mem) { auto& w = ref.at("result").at("routes").at(0); for (const char* f : {"departureTime", "arrivalTime", "totalTravelTime"}) if ((q.forward || f[0] == 'd') /* equally late departures may arrive at different times */ && r.at(f) != w.at(f)) failf(f, " is ", r.at(f).dump(), " on the cache files, ", w.at(f).dump(), " on the dataset | ", brief(q)); }
      for (auto& t : r["steps"]) if (t.value("action", "") == "unboarding") c.label(t.value("inVehicleDistance", 0) < 0 ? "distance unknown" : "distance");
      k++;
    }
    if (k == 0) failf("success without a route | ", brief(q)); c.sigs.push_back(hashStr(brief(q), h));
  }
}
}

void addFiles(std::vector<Check>& v, const std::string& tier) {
  bool deep = tier == "thorough"; bool mem = (bool)makeFile();
  { Check k; k.id = "C15"; k.rule = "a successful answer after a refresh, equal to a fresh server's; once per distinct (history of datasets, request)";
    k.assumptions = {"Refreshes of the schedules alone change only schedule files (and the scenario file when the scenarios are named); all other changes are followed by a refresh of everything."};
    if (mem) { Search s{"files", [](Gen& g, Case& c) { FilePair p; c15(g, c, p, false); }, 100000000, deep ? 200.0 : 10.0, 50}; s.shrinkSeconds = 60; k.searches.push_back(s); }
    if (!gServerBin.empty()) { Search s{"http", [](Gen& g, Case& c) { HttpPair p(gServerBin, g, g.pick({1, 1, 4})); c15(g, c, p, true); }, 100000000, deep ? 200.0 : 10.0, 12}; s.shrinkSeconds = 60; s.wallLimit = 150; k.searches.push_back(s); }
    if (!gServerAsan.empty()) { Search s{"asan", [](Gen& g, Case& c) { HttpPair p(gServerAsan, g, 1); c15(g, c, p, true); }, 100000000, deep ? 200.0 : 10.0, 6}; s.shrinkSeconds = 60; s.wallLimit = 200; k.searches.push_back(s); }
    v.push_back(k); }
  { Check k; k.id = "C16"; k.rule = "a success (route, or map with two stops) judged against the dataset; once per distinct (dataset, request)";
    k.assumptions = {"Times are compared exactly where event order is total (every hop takes time, or every boarding needs waiting) and without the first-waiting cap; the validators judge every answer."};
    if (mem) k.searches.push_back({"files", [](Gen& g, Case& c) { c16(g, c, fileBackend(0), false); }, 100000000, deep ? 300.0 : 20.0, 100, 5});
    if (!gServerBin.empty()) { Search s{"http", [](Gen& g, Case& c) { c16(g, c, httpBackend(), true); }, 100000000, deep ? 200.0 : 15.0, 12}; s.shrinkSeconds = 60; k.searches.push_back(s); }
    v.push_back(k); }
}
