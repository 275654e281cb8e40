// C01 - C12 and C19: answers about one dataset, judged by reference models, validators and metamorphic relations.
#include "checks.hpp"
#include <algorithm>

namespace {
using Body = std::function<void(Gen&, Case&, Backend&, bool http)>;
struct Sizes { double mem, http; };
Sizes sizes(const std::string& tier) { return tier == "thorough" ? Sizes{240, 120} : Sizes{18, 12}; }

void both(Check& k, const std::string& tier, const Body& body, const std::string& suffix = "", double share = 1, bool http = true) {
  Sizes z = sizes(tier);
  if (haveMem()) k.searches.push_back({"mem" + suffix, [body](Gen& g, Case& c) { body(g, c, memBackend(), false); }, 100000000, z.mem * share, 120, 5});
  if (http && !gServerBin.empty()) { Search s{"http" + suffix, [body](Gen& g, Case& c) { body(g, c, httpBackend(), true); }, 100000000, haveMem() ? z.http * share : z.mem * share, 12}; s.shrinkSeconds = 60; k.searches.push_back(s); }
}
GenOpt sized(Gen& g, bool http) { GenOpt o; if (g.chance(30)) o.dense = true; if (g.chance(8)) { o.maxNodes = 12; o.maxTrips = 30; o.maxLines = 8; } o.full = o.spread = http; return o; }
int maxQ(bool http) { return http ? 24 : 12; }
template <class F> void eachRoute(const json& b, F f) { if (status(b) == "success") for (auto& r : b.at("result").at("routes")) f(r); }
std::string at(const Query& q, const json& r) { return " | query " + brief(q) + " | route " + r.dump().substr(0, 1500); }
int rides(const json& r) { int n = 0; for (auto& s : r["steps"]) n += s.value("action", "") == "boarding"; return n; }
}

static void validity(Gen& g, Case& c, Backend& b, bool http, const std::string& id) {
  GenOpt o = sized(g, http); DS d = genDataset(g, o); Session s(c, d, b, g.chance(30)); uint64_t h = dsHash(d);
  forQueries(g, d, {.alt = 2}, maxQ(http), [&](const Query& q) {
    json a = s.get("route", q); Ctx x(d, q); c.label(status(a)); int k = 0;
    eachRoute(a, [&](const json& r) {
      std::string e = id == "C01" ? validateItinerary(x, r) : id == "C02" ? validateLimits(x, r) : validateSums(x, r);
      if (!e.empty()) failf("route ", k, ": ", e, at(q, r));
      int n = rides(r); c.label("rides" + std::to_string(std::min(n, 4))); k++;
      bool nt = n >= 2; if (id == "C02") { nt = q.maxTotal || q.maxAccess || q.maxEgress || q.maxTransfer || q.maxFirst || q.scenario > 0; }
      if (nt) c.sigs.push_back(hashStr(brief(q), h));
    });
    if (k > 1) c.label("several routes");
    if (status(a) == "success" && k == 0) fail("success without a route");
    return a; });
}

// The optimality clauses are judged where event order is total: every hop takes time, or every boarding needs waiting.
static bool ordered(Gen& g, GenOpt& o) { bool zero = g.chance(30); o.strictHops = !zero; if (zero) o.uniformWait = true; return zero; }
static void c03(Gen& g, Case& c, Backend& b, bool http) {
  GenOpt o = sized(g, http); bool zero = ordered(g, o); DS d = genDataset(g, o); Session s(c, d, b); uint64_t h = dsHash(d);
  forQueries(g, d, {.capOff = true, .dir = 0, .alt = 0, .posWait = zero}, maxQ(http), [&](const Query& q) {
    json a = s.get("route", q); Ctx x(d, q); RefRoute r = refForward(x); bool ok = status(a) == "success";
    c.label(ok ? "success" : "none");
    if (ok && !r.exists) failf("answered with a route although no admissible journey exists", at(q, a));
    if (!ok && r.exists) failf("no route (", reason(a), ") although a journey arriving at ", r.time, " exists | query ", brief(q));
    if (ok) { const json& rt = a["result"]["routes"][0]; int got = rt.at("arrivalTime"); if (got != r.time) failf("arrives at ", got, " but the earliest possible arrival is ", r.time, at(q, rt)); if (rides(rt) >= 2 || q.maxTotal || q.maxTransfer) c.sigs.push_back(hashStr(brief(q), h)); c.label("rides" + std::to_string(std::min(rides(rt), 4))); }
    else if (!x.access.empty() && !x.egress.empty()) c.sigs.push_back(hashStr(brief(q), h));
    return a; });
}
static void c04(Gen& g, Case& c, Backend& b, bool http) {
  GenOpt o = sized(g, http); bool zero = ordered(g, o); DS d = genDataset(g, o); Session s(c, d, b); uint64_t h = dsHash(d);
  forQueries(g, d, {.dir = 1, .alt = 0, .posWait = zero}, maxQ(http), [&](const Query& q) {
    json a = s.get("route", q); Ctx x(d, q); RefRoute r = refReverse(x, q.time, true); bool ok = status(a) == "success";
    c.label(ok ? "success" : "none");
    if (ok && !r.exists) failf("answered with a route although no admissible journey exists", at(q, a));
    if (!ok && r.exists) failf("no route (", reason(a), ") although a journey departing at ", r.time, " exists | query ", brief(q));
    if (ok) { const json& rt = a["result"]["routes"][0]; int got = rt.at("departureTime"); if (got != r.time) failf("departs at ", got, " but the latest possible departure is ", r.time, at(q, rt)); if (rides(rt) >= 2 || q.maxTotal || q.maxTransfer) c.sigs.push_back(hashStr(brief(q), h)); c.label("rides" + std::to_string(std::min(rides(rt), 4))); }
    else if (!x.access.empty() && !x.egress.empty()) c.sigs.push_back(hashStr(brief(q), h));
    return a; });
}
static void c05(Gen& g, Case& c, Backend& b, bool http) {
  GenOpt o = sized(g, http); bool zero = ordered(g, o); DS d = genDataset(g, o); Session s(c, d, b); uint64_t h = dsHash(d);
  forQueries(g, d, {.capOff = true, .dir = 0, .alt = 0, .posWait = zero}, maxQ(http), [&](const Query& q) {
    json a = s.get("route", q); Ctx x(d, q); c.label(status(a)); if (status(a) != "success") return a;
    const json& rt = a["result"]["routes"][0]; int A = rt.at("arrivalTime"), D = rt.at("departureTime"); RefRoute r = refReverse(x, A, false);
    if (!r.exists) failf("the reported arrival cannot be met by any admissible journey", at(q, rt));
    if (D != r.time) failf("departs at ", D, " but arrival ", A, " can be met leaving at ", r.time, at(q, rt));
    if (D < q.time) failf("departs before the requested time", at(q, rt));
    if (D > q.time) c.sigs.push_back(hashStr(brief(q), h)); c.label(D > q.time ? "slack" : "no slack");
    return a; });
}
static void c07(Gen& g, Case& c, Backend& b, bool http) {
  GenOpt o = sized(g, http); if (g.mostly(70)) { o.maxTrips = 5; o.sparse = true; } DS d = genDataset(g, o); Session s(c, d, b); uint64_t h = dsHash(d);
  forQueries(g, d, {.alt = 2}, maxQ(http), [&](const Query& q) {
    bool acc = g.chance(35); json a = s.get(acc ? "accessibility" : "route", q); Ctx x(d, q);
    if (status(a) != "success") { std::string got = reason(a), e = expectReason(x, acc, got); c.label((acc ? "access:" : "") + got); if (!e.empty()) failf(e, " | ", acc ? "accessibility " : "route ", brief(q)); c.sigs.push_back(hashStr(brief(q) + (acc ? "a" : "r"), h)); }
    else {
      c.label("success");
      // a success is itself a claim that the facts behind the reasons are false
      if (!acc && (x.access.empty() || x.egress.empty())) failf("a route although the router offers no stop at one end | query ", brief(q));
      if (!acc && (q.forward ? serviceFromOrigin(x, x.access) : serviceToDestination(x, x.egress)) == Tri::No) failf("a route although no service is usable | query ", brief(q));
      if (acc && (q.forward ? x.access : x.egress).empty()) failf("an accessibility map although the router offers no stop at the place | query ", brief(q));
      if (acc && (q.forward ? serviceFromOrigin(x, x.access) : serviceToDestination(x, x.egress)) == Tri::No) failf("an accessibility map although no service is usable at the place | query ", brief(q));
    }
    return a; });
}
static void accessMap(Gen& g, Case& c, Backend& b, bool http, bool forward) {
  GenOpt o = sized(g, http); bool zero = ordered(g, o);  DS d = genDataset(g, o); Session s(c, d, b); uint64_t h = dsHash(d);
  forQueries(g, d, {.capOff = forward, .dir = forward ? 0 : 1, .alt = 0, .posWait = zero}, maxQ(http), [&](const Query& q) {
    json a = s.get("accessibility", q); Ctx x(d, q); c.label(status(a)); std::string e = judgeMap(x, a); if (!e.empty()) failf(e, " | query ", brief(q)); if (status(a) != "success") return a;
    const json& got = a["result"]["nodes"];
    if (got.size() >= 2) c.sigs.push_back(hashStr(brief(q), h)); c.label("stops" + std::to_string(std::min<size_t>(got.size(), 6)));
    return a; });
}
static void c10(Gen& g, Case& c, Backend& b, bool http) {
  GenOpt o = sized(g, http); o.maxTrips = 24; o.maxLines = 8; bool optimal = g.chance(40); bool zero = optimal && ordered(g, o);  DS d = g.mostly(75) ? genDataset(g, o) : hubDataset(g, http); Session s(c, d, b); uint64_t h = dsHash(d);
  forQueries(g, d, {.capOff = optimal, .alt = 0, .posWait = zero}, http ? 16 : 8, [&](const Query& q) {
    Query qa = q; qa.alternatives = true; json p = s.get("route", q), a = s.get("route", qa); Ctx x(d, q);
    if (status(p) != status(a) || reason(p) != reason(a)) failf("plain: ", status(p), "/", reason(p), " alternatives: ", status(a), "/", reason(a), " | query ", brief(q));
    if (status(a) != "success") return p;
    const json& R = a["result"]["routes"]; if (R.empty()) fail("success without a route");
    if (R[0] != p["result"]["routes"][0]) failf("routes[0] is not the plain answer: ", R[0].dump(), " versus ", p["result"]["routes"][0].dump(), " | query ", brief(q));
    if (R.size() > 50) failf(R.size(), " routes returned | query ", brief(q));
    int tc = a["result"].at("totalRoutesCalculated"); if (tc < (int)R.size()) failf("totalRoutesCalculated ", tc, " but ", R.size(), " routes | query ", brief(q));
    std::set<std::vector<std::string>> seen; int a0 = R[0].at("arrivalTime"), d0 = R[0].at("departureTime");
    for (size_t i = 0; i < R.size(); i++) {
      if (i) { std::string e = validateItinerary(x, R[i]); if (e.empty()) e = validateLimits(x, R[i]); if (e.empty()) e = validateSums(x, R[i]); if (!e.empty()) failf("alternative ", i, ": ", e, at(q, R[i])); }
      if (!seen.insert(boardedLines(R[i])).second) failf("alternative ", i, " boards the same lines as an earlier route", at(q, R[i]));
      if (!optimal) continue;   // the clause is claimed under the restrictions of C03/C04 only
      if (i && q.forward && R[i].at("arrivalTime").get<int>() < a0) failf("alternative ", i, " arrives earlier than the first route", at(q, R[i]));
      if (i && !q.forward && R[i].at("departureTime").get<int>() > d0) failf("alternative ", i, " departs later than the first route", at(q, R[i]));
    }
    c.label(R.size() == 1 ? "1 route" : R.size() < 5 ? "2-4 routes" : R.size() < 50 ? "5-49 routes" : "50 routes");
    if (R.size() >= 2) c.sigs.push_back(hashStr(brief(q), h));
    return a; });
}
// compares what C11 fixes: status, reason, times, accessibility map
static std::string sameOutcome(const json& a, const json& b) {
  if (status(a) != status(b)) return "status " + status(a) + " versus " + status(b) + (status(a) == "success" ? "" : " (" + reason(a) + ")") + (status(b) == "success" ? "" : " (" + reason(b) + ")");
  if (status(a) != "success") return reason(a) == reason(b) ? "" : "reason " + reason(a) + " versus " + reason(b);
  const json &x = a["result"], &y = b["result"];
  if (x.contains("routes")) { const json &r = x["routes"][0], &s = y["routes"][0]; for (auto k : {"departureTime", "arrivalTime"}) if (r.at(k) != s.at(k)) return std::string(k) + " " + r.at(k).dump() + " versus " + s.at(k).dump(); return ""; }
  std::map<std::string, json> m, n; for (auto& e : x["nodes"]) m[e.at("nodeUuid")] = {e.at("nodeTime"), e.at("totalTravelTime")}; for (auto& e : y["nodes"]) n[e.at("nodeUuid")] = {e.at("nodeTime"), e.at("totalTravelTime")};
  if (x.at("totalNodeCount") != y.at("totalNodeCount")) return "totalNodeCount differs"; if (m != n) return "accessibility maps differ: " + json(m).dump() + " versus " + json(n).dump(); return "";
}
static void c11(Gen& g, Case& c, bool http) {
  Backend &b1 = http ? (Backend&)httpBackend(0) : memBackend(0), &b2 = http ? (Backend&)httpBackend(1) : memBackend(1);
  GenOpt o = sized(g, http); o.maxScenarios = 1; DS d = genDataset(g, o);
  DScenario rs = genScenario(g, d, 1, 0, true); d.scenarios.push_back(rs);
  DS e = d; e.trips.clear(); for (auto& t : d.trips) if (d.admits(rs, t)) e.trips.push_back(t);
  size_t removed = d.trips.size() - e.trips.size();
  if (removed == 0 || e.trips.empty()) { c.label(removed ? "nothing admitted" : "nothing excluded"); }
  bool none = e.trips.empty(); Session s1(c, d, b1); if (!none) b2.load(e, false); uint64_t h = dsHash(d);
  forQueries(g, d, {.alt = 0, .scenario = 1}, maxQ(http), [&](const Query& q) {
    bool acc = g.chance(40); std::string what = acc ? "accessibility" : "route"; json a = s1.get(what, q);
    if (none) { if (status(a) == "success") failf("success although the scenario admits no trip | ", what, " ", brief(q)); return a; }
    Query q2 = q; q2.scenario = 0; Resp r = b2.get(what, acc ? q2.accessParams(e) : q2.routeParams(e)); c.evals++;
    if (r.http != 200 || !r.body.is_object()) fail("bad answer of the filtered copy");
    std::string x = sameOutcome(a, r.body); if (!x.empty()) failf(x, " (restricted scenario versus filtered data) | ", what, " ", brief(q));
    c.label(what + ":" + status(a)); if (removed) c.sigs.push_back(hashStr(brief(q) + what, h)); return a; });
}
static void shiftClock(json& j, int by) {
  static const std::set<std::string> clock = {"departureTime", "arrivalTime", "readyToBoardAt", "nodeTime", "timeOfTrip"};
  if (j.is_object()) { for (auto& [k, v] : j.items()) if (clock.count(k) && v.is_number_integer()) v = v.get<long long>() + by; else shiftClock(v, by); } else if (j.is_array()) for (auto& v : j) shiftClock(v, by);
}
static bool clocksIn(const json& j, long long& lo, long long& hi) {
  static const std::set<std::string> clock = {"departureTime", "arrivalTime", "readyToBoardAt", "nodeTime", "timeOfTrip"};
  if (j.is_object()) { for (auto& [k, v] : j.items()) if (clock.count(k) && v.is_number_integer()) { lo = std::min(lo, v.get<long long>()); hi = std::max(hi, v.get<long long>()); } else clocksIn(v, lo, hi); } else if (j.is_array()) for (auto& v : j) clocksIn(v, lo, hi);
  return lo >= 0 && hi < CLOCK_END;
}
static void c12(Gen& g, Case& c, bool http) {
  Backend &b1 = http ? (Backend&)httpBackend(0) : memBackend(0), &b2 = http ? (Backend&)httpBackend(1) : memBackend(1);
  GenOpt o = sized(g, http); DS d = genDataset(g, o);
  int lo = INF, hi = 0; for (auto& t : d.trips) { lo = std::min(lo, t.arr[0]); hi = std::max(hi, t.dep.back()); } int first = INF; for (auto& t : d.trips) first = std::min(first, t.dep[0]);
  auto farthest = [&](int p) { int m = 0; for (auto& x : d.places[p].acc) if (x.time < FAR_AWAY) m = std::max(m, x.time); return m; };
  // bring the earliest time to a small value or keep it, then choose an offset within the clock range
  int room = CLOCK_END - 1 - hi; int down = lo;
  int by, wait = -1; switch (g.below(9)) { case 0: by = g.range(0, room); break; case 1: by = -g.range(0, down); break; case 2: by = std::min(room, 3600 * g.range(1, 10)); break; case 3: by = -std::min(down, 3600 * g.range(1, 10)); break; case 4: by = std::min(room, g.pick({1, 60, 1800, 3599})); break; case 5: by = room; break; case 6: by = -std::min(down, g.pick({1, 60, 1800, 3599, 28800})); break;
    default: wait = g.pick({0, 1, 30, 60, 180}); by = std::max(-down, -(first - wait - (g.mostly(75) ? farthest((int)g.below((uint32_t)d.places.size())) : 0))); if (by > room) by = room; }      // somebody could leave at 0:00:00
  DS e = shifted(d, by); Session s1(c, d, b1); b2.load(e, false); uint64_t h = mix64(dsHash(d), by);
  forQueries(g, d, {.alt = 2}, maxQ(http), [&](const Query& q0) {
    Query q = q0; if (wait >= 0 && g.mostly(70)) q.minWait = wait; if (q.time + by < 0) q.time = -by; if (q.time + by >= CLOCK_END) q.time = CLOCK_END - 1 - by; if (q.time < 0 || q.time >= CLOCK_END) return json();
    bool acc = g.chance(30); std::string what = acc ? "accessibility" : "route"; Query q2 = q; q2.time += by;
    json a = s1.get(what, q); Resp r = b2.get(what, acc ? q2.accessParams(e) : q2.routeParams(e)); c.evals++;
    if (r.http != 200 || !r.body.is_object()) fail("bad answer of the shifted copy");
    json b = r.body; long long l1 = CLOCK_END, h1 = 0; bool in = clocksIn(a, l1, h1) & clocksIn(b, l1, h1);
    // 0:00 cuts journeys off: only judged where no journey of the data can reach below it in either frame
    Limits L = effective(q); long long before = q.forward ? 0 : std::min(first, first + by) - L.minWait - (acc ? 0 : farthest(q.origin));
    if (!in || before < 0) { c.label("outside the clock range"); return a; }
    json a2 = a; shiftClock(a2, by); if (a2.contains("query")) {} 
    if (a2 != b) { json p = json::diff(a2, b); failf("shifted by ", by, " the answer changes: ", p.dump().substr(0, 800), " | ", what, " ", brief(q)); }
    c.label(what + ":" + status(a)); if (status(a) == "success" && by) c.sigs.push_back(hashStr(brief(q) + what, h)); if (l1 == 0 && status(a) == "success") c.label("at 0:00");
    return a; });
}
static void c19(Gen& g, Case& c, Backend& b, bool http) {
  GenOpt o = sized(g, http); o.maxLines = 6; DS d = g.mostly(85) ? genDataset(g, o) : hubDataset(g, http); Session s(c, d, b); uint64_t h = dsHash(d);
  forQueries(g, d, {.alt = 2}, maxQ(http), [&](const Query& q) {
    json r = s.get("route", q), m = s.get("summary", q); if (status(m) != "success") failf("summary status ", status(m), " | query ", brief(q));
    const json& res = m.at("result"); int n = 0; std::map<std::string, int> count; std::map<std::string, json> ident;
    eachRoute(r, [&](const json& x) { n++; for (auto& st : x["steps"]) if (st.value("action", "") == "boarding") { std::string l = st.at("lineUuid"); count[l]++; ident[l] = {st.at("lineShortname"), st.at("lineLongname"), st.at("agencyUuid"), st.at("agencyAcronym"), st.at("agencyName")}; } });
    if (res.at("nbRoutes") != n) failf("nbRoutes ", res.at("nbRoutes").dump(), " but the route answer has ", n, " | query ", brief(q));
    std::set<std::string> seen;
    for (auto& l : res.at("lines")) {
      std::string u = l.at("lineUuid"); if (!seen.insert(u).second) failf("line ", u, " is listed twice | query ", brief(q)); if (!count.count(u)) failf("line ", u, " is listed but not boarded | query ", brief(q));
      if (l.at("alternativeCount") != count[u]) failf("line ", u, ": count ", l.at("alternativeCount").dump(), " but ", count[u], " boardings | query ", brief(q));
      json id = {l.at("lineShortname"), l.at("lineLongname"), l.at("agencyUuid"), l.at("agencyAcronym"), l.at("agencyName")}; if (id != ident[u]) failf("identifying fields of line ", u, " differ: ", id.dump(), " versus ", ident[u].dump());
      const DLine* dl = nullptr; for (auto& x : d.lines) if (x.uuid == u) dl = &x; if (!dl) fail("unknown line"); const DAgency& ag = d.agencies[dl->agency]; if (id != json({dl->shortname, dl->longname, ag.uuid, ag.acronym, ag.name})) failf("identifying fields of line ", u, " are not those of the data: ", id.dump());
    }
    if (seen.size() != count.size()) failf(count.size(), " lines are boarded but ", seen.size(), " listed | query ", brief(q));
    c.label(n == 0 ? "0 routes" : n == 1 ? "1 route" : "several routes"); if (n >= 2 || count.size() >= 2) c.sigs.push_back(hashStr(brief(q), h));
    return r; });
}
// C13: the same request after different histories
static void c13(Gen& g, Case& c, bool http) {
  Backend &b1 = http ? (Backend&)httpBackend(0) : memBackend(0), &b2 = http ? (Backend&)httpBackend(1) : memBackend(1);
  GenOpt o = sized(g, http); o.maxScenarios = 4; DS d = genDataset(g, o); if (d.scenarios.size() < 2) d.scenarios.push_back(genScenario(g, d, 1, 0, true));
  bool all = g.chance(50), life = http && g.chance(6); if (life) httpBackend(0).opt.nofile = 100;      // a long life with few descriptors: what a request leaves behind shows
  struct Restore { bool http; ~Restore() { if (http) httpBackend(0).opt.nofile = 0; } } restore{http};
  Session s(c, d, b1, all); uint64_t h = dsHash(d); int n = g.range(2, http ? 14 : 9), n0 = n, changes = 0, last = -1; std::set<int> used; int fresh = 0;
  std::map<std::string, json> seen; bool loaded = false;
  std::vector<std::pair<std::string, Params>> hist; if (life) { n += 150; c.label("long life"); }
  for (int i = 0; i < n; i++) {
    if (i >= n0 && i + 1 < n) { auto& [w, p] = hist[(size_t)i * 7 % hist.size()]; Resp r = b1.get(w, p); c.evals++; std::string key = w; for (auto& kv : p) key += "&" + kv.first + "=" + kv.second;
      if (seen[key] != r.body) failf("the same request was answered differently after ", i, " requests: ", seen[key].dump().substr(0, 600), " then ", r.body.dump().substr(0, 600)); continue; }
    Query q = genQuery(g, d, {.alt = 2}); q.scenario = (int)g.below((uint32_t)d.scenarios.size()); std::string what = g.pick<std::string>({"route", "route", "accessibility", "summary"});
    Params p = what == "accessibility" ? q.accessParams(d) : q.routeParams(d);
    switch (g.below(12)) {                                                       // disturbances between the judged requests
      case 11: p.erase(p.begin() + g.below((uint32_t)p.size())); break;          // something required or optional is missing
      case 10: p[g.below((uint32_t)p.size())].second = "x"; break;
      case 9: for (auto& kv : p) if (kv.first == "scenario_id") kv.second = uuidFor('Q', 3, 0); break;
      default: break;
    }
    if (c.wantDump) { json jp = json::array(); for (auto& kv : p) jp.push_back(kv.first + "=" + kv.second); s.log.push_back({{"endpoint", what}, {"params", jp}, {"cacheAll", all}}); s.flush(); }
    Resp r = b1.get(what, p); c.evals++; if (q.scenario != last) changes++; last = q.scenario; used.insert(q.scenario);
    std::string key = what; for (auto& kv : p) key += "&" + kv.first + "=" + kv.second;
    auto it = seen.find(key); if (it != seen.end() && it->second != r.body) failf("the same request was answered differently: ", it->second.dump().substr(0, 600), " then ", r.body.dump().substr(0, 600));
    seen[key] = r.body; hist.push_back({what, p});
    if (http && !(i == n - 1 || g.chance(20))) continue;
    if (!http || fresh < 4) { b2.load(d, g.chance(50)); fresh++; loaded = true; }
    (void)loaded; Resp f = b2.get(what, p); c.evals++;
    if (f.http != r.http || f.body != r.body) failf("after ", i, " earlier requests (cacheAll=", all, ") the answer to ", what, " is HTTP ", r.http, " ", r.body.dump().substr(0, 700), ", a fresh instance says HTTP ", f.http, " ", f.body.dump().substr(0, 700), " | ", key);
    if (i > 0 && changes > 1) c.sigs.push_back(hashStr(key, mix64(h, i)));
  }
  c.label("scenarios" + std::to_string(used.size())); c.label(all ? "cacheAll" : "cacheOne");
}

static const std::vector<std::string> BASE = {
  "The walking router is a table supplied by the harness (in-memory GeoFilter, or an HTTP stub speaking the OSRM table protocol); its travel times and distances are taken as given.",
  "Scheduled times are non-decreasing along a trip and lie within [0, 32 h); footpaths contain a 0 s self entry per stop, as the exporter writes them."};

static const std::string ORD = "Optimality is judged where the order of events is total: datasets in which every hop takes time, or requests whose every boarding needs at least a second of waiting.";
void addCore(std::vector<Check>& v, const std::string& tier) {
  auto add = [&](const std::string& id, const std::string& rule, std::vector<std::string> extra = {}) -> Check& { Check k; k.id = id; k.rule = rule; k.assumptions = BASE; for (auto& e : extra) k.assumptions.push_back(e); v.push_back(k); return v.back(); };
  for (std::string id : {"C01", "C02", "C06"}) { Check& k = add(id, id == "C02" ? "a returned route under a non-default limit or a restricting scenario, counted once per distinct (dataset, query)" : "a returned route with at least two rides, counted once per distinct (dataset, query)"); both(k, tier, [id](Gen& g, Case& c, Backend& b, bool h) { validity(g, c, b, h, id); }); }
  { Check& k = add("C03", "a success with at least two rides or under a total/transfer limit, or a failure with access at both ends; once per distinct (dataset, query)", {ORD}); both(k, tier, c03); }
  { Check& k = add("C04", "as C03, for arrival-time queries", {ORD}); both(k, tier, c04); }
  { Check& k = add("C05", "a success whose departure is later than requested; once per distinct (dataset, query)", {ORD}); both(k, tier, c05); }
  { Check& k = add("C07", "an answer without routing whose reason was judged; once per distinct (dataset, query, endpoint)", {"A departure that can be boarded but leads to no stop where alighting is allowed may count as service or not (weaker reading: both reasons accepted)."}); both(k, tier, c07); }
  { Check& k = add("C08", "a map with at least two stops; once per distinct (dataset, query)", {ORD}); both(k, tier, [](Gen& g, Case& c, Backend& b, bool h) { accessMap(g, c, b, h, true); }); }
  { Check& k = add("C09", "a map with at least two stops; once per distinct (dataset, query)", {ORD, "Stops whose only latest boarding moment lies before 0:00 may be listed (with the right time) or left out."}); both(k, tier, [](Gen& g, Case& c, Backend& b, bool h) { accessMap(g, c, b, h, false); }); }
  { Check& k = add("C10", "an answer with at least two routes; once per distinct (dataset, query)", {ORD}); both(k, tier, c10); }
  { Check& k = add("C11", "a query under a scenario that excludes at least one trip; once per distinct (dataset, query, endpoint)"); Sizes z = sizes(tier); if (haveMem()) k.searches.push_back({"mem", [](Gen& g, Case& c) { c11(g, c, false); }, 100000000, z.mem, 120}); if (!gServerBin.empty()) k.searches.push_back({"http", [](Gen& g, Case& c) { c11(g, c, true); }, 100000000, z.http, 12}); }
  { Check& k = add("C12", "a successful answer compared under a non-zero offset; once per distinct (dataset, offset, query, endpoint)", {"Not judged where a journey could reach below 0:00 in one of the two frames (earliest data time minus the longest access walk, footpath and waiting time is negative)."}); Sizes z = sizes(tier); if (haveMem()) k.searches.push_back({"mem", [](Gen& g, Case& c) { c12(g, c, false); }, 100000000, z.mem, 120}); if (!gServerBin.empty()) k.searches.push_back({"http", [](Gen& g, Case& c) { c12(g, c, true); }, 100000000, z.http, 12}); }
  { Check& k = add("C13", "a request compared with a fresh instance after at least one change of scenario; once per distinct (dataset, request, position)"); Sizes z = sizes(tier); if (haveMem()) k.searches.push_back({"mem", [](Gen& g, Case& c) { c13(g, c, false); }, 100000000, z.mem, 60}); if (!gServerBin.empty()) k.searches.push_back({"http", [](Gen& g, Case& c) { c13(g, c, true); }, 100000000, z.http, 12}); }
  { Check& k = add("C19", "a request with several routes or several lines; once per distinct (dataset, query)"); both(k, tier, c19); }
}
