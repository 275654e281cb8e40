#include "checks.hpp"
#include <algorithm>

bool haveMem() { static int v = -1; if (v < 0) { auto p = makeMem(); v = p ? 1 : 0; } return v == 1; }
Backend& memBackend(int k) { static std::map<int, std::unique_ptr<Backend>> m; auto& p = m[k]; if (!p) p = makeMem(); return *p; }
HttpBackend& httpBackend(int k, const std::string& bin) {
  static std::map<std::pair<int, std::string>, std::unique_ptr<HttpBackend>> m; std::string b = bin.empty() ? gServerBin : bin; auto& p = m[{k, b}];
  if (!p) { if (b.empty()) throw BackendError("no server binary"); p = std::make_unique<HttpBackend>(b); p->dir = gScratch + "/cache" + std::to_string(k); } return *p;
}
uint64_t dsHash(const DS& d) { return hashStr(d.dump().dump()); }
std::string brief(const Query& q) { return q.dump().dump(); }

json Session::get(const std::string& what, const Query& q) {
  if (c.wantDump) { log.push_back({{"endpoint", what}, {"query", q.dump()}}); flush(); }
  Resp r = b.get(what, what == "accessibility" ? q.accessParams(d) : q.routeParams(d));
  if (r.http != 200 || !r.body.is_object()) failf("valid ", what, " request ", brief(q), " answered with HTTP ", r.http, " ", r.body.is_discarded() ? r.raw.substr(0, 300) : r.body.dump().substr(0, 300));
  std::string s = status(r.body); if (s != "success" && s != "no_routing_found") failf("valid ", what, " request ", brief(q), " answered with status ", s);
  if (c.wantDump) { log.back()["answer"] = r.body; flush(); }
  c.evals++;
  return r.body;
}

static Query tighten(Gen& g, const DS& d, Query q, const json& body) {
  const json* routes = body.contains("result") && body["result"].contains("routes") ? &body["result"]["routes"] : nullptr;
  if (!routes || routes->empty()) {
    if (body.contains("result") && body["result"].contains("nodes") && !body["result"]["nodes"].empty()) { auto& n = body["result"]["nodes"]; q.maxTotal = std::max(1, n[g.below((uint32_t)n.size())].value("totalTravelTime", 1) + g.range(-1, 1)); }
    return q;
  }
  const json& r = (*routes)[0]; int dl = g.pick({0, -1, 1});
  auto num = [&](const json& j, const char* k) { return j.contains(k) && j[k].is_number_integer() ? j[k].get<int>() : 1; };
  switch (g.below(8)) {
    case 0: q.maxTotal = std::max(1, (q.forward ? num(r, "arrivalTime") - q.time : q.time - num(r, "departureTime")) + dl); break;
    case 1: q.maxAccess = std::max(1, num(r, "accessTravelTime") + dl); break;
    case 2: q.maxEgress = std::max(1, num(r, "egressTravelTime") + dl); break;
    case 3: { int m = 0; for (auto& s : r["steps"]) if (s.value("type", "") == "transfer") m = std::max(m, num(s, "travelTime")); q.maxTransfer = std::max(1, m + dl); break; }
    case 4: if (q.forward && q.maxFirst.value_or(1) > 0) { for (auto& s : r["steps"]) if (s.value("action", "") == "boarding") { q.maxFirst = std::max(1, num(s, "departureTime") - q.time - num(r, "accessTravelTime") + dl); break; } } else q.maxTotal = std::max(1, num(r, "totalTravelTime") + dl); break;
    case 5: { int t = q.forward ? num(r, "departureTime") + dl : num(r, "arrivalTime") + dl; q.time = std::max(0, std::min(t, CLOCK_END - 1)); break; }      // ask again at the edge of the slack
    case 6: { for (auto& s : r["steps"]) if (s.value("action", "") == "boarding") { q.minWait = std::max(0, num(s, "waitingTime") + dl); if (g.mostly(50)) break; } break; }
    default: q.forward = !q.forward; if (q.maxFirst && *q.maxFirst > 0) q.maxFirst = -1; q.time = std::max(0, std::min((q.forward ? num(r, "departureTime") : num(r, "arrivalTime")) + dl, CLOCK_END - 1)); break;
  }
  return q;
}
void forQueries(Gen& g, const DS& d, const QOpt& o, int maxQ, const std::function<json(const Query&)>& fn) {
  int n = 0;
  do {
    Query q = genQuery(g, d, o); json a = fn(q); n++;
    int follow = 0;
    while (n < maxQ && follow < 3 && a.is_object() && status(a) == "success" && g.chance(55)) {
      Query t = tighten(g, d, q, a); if (o.dir >= 0) t.forward = o.dir == 0; if (o.posWait && t.minWait && *t.minWait <= 0) t.minWait = 1; if (t.forward == q.forward || o.dir < 0) q = t; a = fn(q); n++; follow++;
    }
  } while (n < maxQ && g.chance(90));
}

DS shifted(const DS& d, int by) { DS r = d; for (auto& t : r.trips) { for (auto& x : t.arr) x += by; for (auto& x : t.dep) x += by; } r.base += by; return r; }

// k x k lines between two stops through a hub, so that many distinct line combinations exist
DS hubDataset(Gen& g, bool full) {
  GenOpt o; o.maxNodes = 2; o.maxLines = 1; o.maxTrips = 1; DS d = genDataset(g, o);
  d.nodes.resize(1); d.nodes.clear(); d.lines.clear(); d.paths.clear(); d.trips.clear(); d.places.clear(); d.scenarios.clear();
  for (int i = 0; i < 4; i++) { DNode n; n.uuid = uuidFor('N', i, 0); n.name = "Stop " + std::to_string(i); n.code = "S" + std::to_string(i); n.lat = 45.5 + 1e-6 * i; n.lon = -73.6; n.foot.push_back({i, 0, 0}); d.nodes.push_back(n); }
  int k = g.range(2, 9), per = g.range(1, 2), hubs = g.range(1, 2); int u = 60;
  for (int leg = 0; leg < 2; leg++) for (int i = 0; i < k; i++) for (int h = 0; h < hubs; h++) {
    int li = (int)d.lines.size(); d.lines.push_back({uuidFor('L', li, 0), (int)g.below((uint32_t)d.agencies.size()), "bus", "L" + std::to_string(li), "Line"});
    DPath p; p.uuid = uuidFor('P', li, 0); p.line = li; p.direction = "outbound"; p.stops = leg == 0 ? std::vector<int>{0, 1 + h} : std::vector<int>{1 + h, 3}; p.segDist = {1000}; p.segTime = {300}; d.paths.push_back(p);
    for (int t = 0; t < per; t++) { int dep = 28800 + leg * 20 * u + g.range(0, 10) * u + t * 15 * u, arr = dep + g.range(1, 6) * u; d.trips.push_back({uuidFor('T', (unsigned)d.trips.size(), 0), li, (int)g.below((uint32_t)d.services.size()), {dep, arr}, {dep, arr}, {1, 1}, {1, 1}}); }
  }
  d.base = 28800; d.window = 3600; d.unit = 60;
  d.places.push_back({45.500005, -73.600001, {{0, 60, 60}}}); d.places.push_back({45.500006, -73.600001, {{3, 60, 60}}});
  if (g.chance(40)) { d.places[1].acc.push_back({1, g.range(1, 20) * u, 100}); }
  if (full) for (auto& p : d.places) for (int k = 0; k < 4; k++) { bool has = false; for (auto& a : p.acc) has |= a.node == k; if (!has) p.acc.push_back({k, FAR_AWAY, FAR_AWAY}); }
  d.scenarios.push_back(genScenario(g, d, 0, 0, false)); d.scenarios.push_back(genScenario(g, d, 1, 0, true));
  return d;
}

std::string expectReason(const Ctx& c, bool access, const std::string& got) {
  if (access) {
    const auto& acc = c.q.forward ? c.access : c.egress; std::string s = "NO_SERVICE_AT_PLACE";
    if (acc.empty()) return got == "NO_ACCESS_AT_PLACE" ? "" : "no stop is offered at the place, but the reason is " + got;
    if (got == "NO_ACCESS_AT_PLACE") return "stops are offered at the place, but the reason is " + got;
    Tri t = c.q.forward ? serviceFromOrigin(c, c.access) : serviceToDestination(c, c.egress);
    if (t == Tri::No && got != s) return "no usable service at the place, but the reason is " + got;
    if (t == Tri::Yes && got == s) return "service is usable at the place, but the reason is " + got;
    if (got != s && got != "NO_ROUTING_FOUND") return "undocumented reason " + got;
    return "";
  }
  bool o = c.access.empty(), e = c.egress.empty(); std::string want;
  if (o && e) want = "NO_ACCESS_AT_ORIGIN_AND_DESTINATION"; else if (o) want = "NO_ACCESS_AT_ORIGIN"; else if (e) want = "NO_ACCESS_AT_DESTINATION";
  if (!want.empty()) return got == want ? "" : "the reason should be " + want + ", not " + got;
  if (got.rfind("NO_ACCESS", 0) == 0) return "stops are offered at both ends, but the reason is " + got;
  std::string s = c.q.forward ? "NO_SERVICE_FROM_ORIGIN" : "NO_SERVICE_TO_DESTINATION";
  Tri t = c.q.forward ? serviceFromOrigin(c, c.access) : serviceToDestination(c, c.egress);
  if (t == Tri::No && got != s) return "the reason should be " + s + ", not " + got;
  if (t == Tri::Yes && got != "NO_ROUTING_FOUND") return "the reason should be NO_ROUTING_FOUND, not " + got;
  if (got != s && got != "NO_ROUTING_FOUND") return "the reason should be " + s + " or NO_ROUTING_FOUND, not " + got;
  return "";
}

std::string judgeMap(const Ctx& x, const json& a) {
  const Query& q = x.q; const DS& d = x.d; bool forward = q.forward; std::map<int, int> want, maybe; auto say = [](auto&&... p) { std::stringstream s; (s << ... << p); return s.str(); };
  if (forward) { auto al = refEarliestAlight(x, x.access, q.time); for (size_t i = 0; i < al.size(); i++) if (al[i] < INF && (long long)al[i] - q.time <= x.L.maxTotal) want[(int)i] = al[i]; }
  else { auto rd = refLatestReady(x, x.egress, q.time); for (size_t i = 0; i < rd.size(); i++) if (rd[i] > -INF && (long long)q.time - rd[i] <= x.L.maxTotal) (rd[i] < 0 ? maybe : want)[(int)i] = rd[i]; }
  if (status(a) != "success") { if (!want.empty()) return say("no map (", reason(a), ") although ", want.size(), " stops qualify"); return ""; }
  const json& res = a["result"]; if (res.at("totalNodeCount") != (int)d.nodes.size()) return say("totalNodeCount ", res.at("totalNodeCount").dump(), " but the data has ", d.nodes.size(), " stops");
  std::map<int, int> got;
  for (auto& n : res.at("nodes")) {
    int i = d.nodeByUuid(n.at("nodeUuid")); if (i < 0) return say("unknown stop in ", n.dump()); if (got.count(i)) return say("stop ", i, " is listed twice"); int t = n.at("nodeTime"); got[i] = t;
    int tt = n.at("totalTravelTime"), ex = forward ? t - q.time : q.time - t; if (tt != ex) return say("totalTravelTime of stop ", i, " is ", tt, ", expected ", ex);
    if (n.at("nodeName") != d.nodes[i].name || n.at("nodeCode") != d.nodes[i].code) return say("stop ", i, " carries a wrong name or code: ", n.dump());
    auto w = want.find(i), m = maybe.find(i);
    if (w == want.end() && m == maybe.end()) return say("stop ", i, " is listed with time ", t, " but no admissible journey qualifies");
    int v = w != want.end() ? w->second : m->second; if (v != t) return say("stop ", i, " is listed with time ", t, ", the reference says ", v);
  }
  for (auto& [i, v] : want) if (!got.count(i)) return say("stop ", i, " (time ", v, ") is missing");
  return "";
}
std::string judgeBest(const Ctx& x, const json& a) {
  auto say = [](auto&&... p) { std::stringstream s; (s << ... << p); return s.str(); };
  RefRoute r = x.q.forward ? refForward(x) : refReverse(x, x.q.time, true); bool ok = status(a) == "success"; const char* verb = x.q.forward ? "arriving" : "departing";
  if (ok && !r.exists) return "a route although no admissible journey exists";
  if (!ok && r.exists) return say("no route (", reason(a), ") although a journey ", verb, " at ", r.time, " exists");
  if (!ok) return ""; const json& rt = a["result"]["routes"].at(0); int got = rt.at(x.q.forward ? "arrivalTime" : "departureTime");
  return got == r.time ? "" : say(verb, " at ", got, " instead of ", r.time);
}

std::vector<Check> allChecks(const std::string& tier) { std::vector<Check> v; addCore(v, tier); addService(v, tier); addFiles(v, tier); addDamage(v, tier); addRouter(v, tier); addThreads(v, tier); return v; }
