// C18: requests as raw HTTP, classified by the defects they contain.
#include "checks.hpp"
#include <algorithm>
#include <cmath>
#include <unistd.h>

namespace {
using Set = std::set<std::string>;
Resp fetch(HttpBackend& b, const std::string& tgt, int timeoutMs = 30000) {
  Raw raw = rawGet(b.srv.port, tgt, timeoutMs); Parsed x = parseHttp(raw);
  if (!x.ok) { usleep(50000); if (!b.srv.alive()) fail("the server died on GET " + tgt.substr(0, 600) + ": " + b.srv.describe()); fail("GET " + tgt.substr(0, 600) + ": " + x.why); }
  Resp r; r.http = x.status; r.raw = x.body; r.body = json::parse(x.body, nullptr, false); return r;
}
// one request with the defects it certainly / possibly has, and the meaning of its clean part
struct Req { std::string what, path; std::vector<std::pair<std::string, std::string>> ps; Set sure, maybe; bool exact = true; Query q; std::string tail; std::vector<Query> readings; };
const Set CODES = {"EMPTY_SCENARIO", "MISSING_PARAM_SCENARIO", "MISSING_PARAM_ORIGIN", "MISSING_PARAM_DESTINATION", "MISSING_PARAM_TIME_OF_TRIP", "INVALID_ORIGIN", "INVALID_DESTINATION", "INVALID_NUMERICAL_DATA", "PARAM_ERROR_UNKNOWN"};
const Set ACODES = {"EMPTY_SCENARIO", "MISSING_PARAM_SCENARIO", "MISSING_PARAM_PLACE", "MISSING_PARAM_TIME_OF_TRIP", "INVALID_PLACE", "INVALID_NUMERICAL_DATA", "PARAM_ERROR_UNKNOWN"};
const Set DATA = {"DATA_ERROR", "MISSING_DATA_AGENCIES", "MISSING_DATA_SERVICES", "MISSING_DATA_NODES", "MISSING_DATA_LINES", "MISSING_DATA_PATHS", "MISSING_DATA_SCENARIOS", "MISSING_DATA_SCHEDULES"};
std::string join(const Set& s) { std::string o; for (auto& x : s) o += (o.empty() ? "" : ",") + x; return o; }

// v: value, or a defect of the wanted kind
void put(Req& r, const std::string& n, const std::string& v) { r.ps.push_back({n, v}); }
// a value that is certainly no integer
std::string noInt(Gen& g) { return g.pick<std::string>({"abc", "", "x12", "--5", "NaN", "12abc", "3600s", "null", "true", "twelve", "0:30", "8h", "36000;", "12,5", "\xc3\xa9", std::string(3000, 'z'), "1 2", "-", "%", "$5", "3600&", "\n"}); }
// written as an integer by some readings only
std::string oddInt(Gen& g, int v) { return g.pick<std::string>({"+" + std::to_string(v), std::to_string(v) + ".0", " " + std::to_string(v), std::to_string(v) + " ", "0" + std::to_string(v), std::to_string(v) + "e0", "0x10", "99999999999999999999", "-99999999999999999999", "4294967296", "2147483648", "-2147483649", std::to_string(v) + ".5", std::string(400, '9')}); }
std::string noPoint(Gen& g, const std::string& good) { return g.pick<std::string>({"", "abc", ",", "a,b", "45.5", "-73.6,", ",45.5", "1,2,3", good + ",1", "-73.6;45.5", "nan,nan", "inf,45.5", "-73.6,-inf", "-73.6,NaN", "-73.6abc,45.5", "-73.6,45.5x", "[-73.6,45.5]", "-73.6,north", "-,45", "-73.6,45.5,"}); }
std::string oddPoint(Gen& g, const std::string& good) { return g.pick<std::string>({" " + good, good + " ", "-73.6, 45.5", "0x10,0x10", "1e400,45", "-7.36e1,4.55e1", "1e300,45.5", "-1e308,1e308", "+73.6,45.5", ".5,.5", "5.,5.", "1e-400,1"}); }

// extremes of a limit: what it means
int extreme(Gen& g) { return g.pick({0, -1, -2147483647 - 1, 2147483647, 2147483646, 1, -180, 100000000, 2147483000, 1073741824}); }

Req genReq(Gen& g, const DS& d, const DScenario& none, bool ready) {
  Req r; r.q = genQuery(g, d, {.alt = 2}); Query& q = r.q; r.what = g.pick<std::string>({"route", "route", "accessibility", "summary"}); bool acc = r.what == "accessibility";
  r.path = "/v2/" + r.what + (g.chance(8) ? "/" : "");
  if (g.chance(20)) q.time = g.pick({0, 1, 86399, 86400, 86401, 115199, 115200, 115201, 118799, 118800, 118801, 200000, 1000000, 2147483647, 2147483646, 2147480000, 3599, 3600, 36 * 3600, 111600, 111599});
  for (auto m : {&Query::minWait, &Query::maxTotal, &Query::maxAccess, &Query::maxEgress, &Query::maxTransfer, &Query::maxFirst}) if (g.chance(7)) q.*m = extreme(g);
  int bad = ready ? g.pick({0, 0, 0, 1, 1, 1, 2, 3}) : g.pick({0, 0, 1});
  std::vector<std::string> names = acc ? std::vector<std::string>{"place", "scenario_id", "time_of_trip"} : std::vector<std::string>{"origin", "destination", "scenario_id", "time_of_trip"};
  std::vector<std::pair<std::string, std::optional<int> Query::*>> opts = {{"min_waiting_time", &Query::minWait}, {"max_travel_time", &Query::maxTotal}, {"max_access_travel_time", &Query::maxAccess}, {"max_egress_travel_time", &Query::maxEgress}, {"max_transfer_travel_time", &Query::maxTransfer}, {"max_first_waiting_time", &Query::maxFirst}};
  Set hit; for (int i = 0; i < bad; i++) { uint32_t k = g.below((uint32_t)(names.size() * 2 + opts.size() + 2)); if (k < names.size() * 2) hit.insert(names[k / 2]); else if (k < names.size() * 2 + opts.size()) hit.insert(opts[k - names.size() * 2].first); else hit.insert(k & 1 ? "time_type" : "alternatives"); }
  auto point = [&](const std::string& n, int place, const std::string& missing, const std::string& invalid) {
    std::string good = coord(d.places[place].lon) + "," + coord(d.places[place].lat);
    if (!hit.count(n)) { put(r, n, good); return; }
    switch (g.below(5)) {
      case 0: r.sure.insert(missing); break;                                            // absent
      case 1: case 2: { std::string v = noPoint(g, good); put(r, n, v); r.sure.insert(invalid); if (v.empty()) r.sure.insert(missing); break; }
      case 3: put(r, n, oddPoint(g, good)); r.maybe.insert(invalid); r.exact = false; break;
      default: if (g.mostly(60)) { put(r, n, good); put(r, n, noPoint(g, good)); r.maybe.insert(invalid); r.maybe.insert(missing); r.exact = false; } else { put(r, n, noPoint(g, good)); put(r, n, noPoint(g, good)); r.sure.insert(invalid); r.sure.insert(missing); }
    } };
  if (acc) point("place", q.forward ? q.origin : q.dest, "MISSING_PARAM_PLACE", "INVALID_PLACE"); else { point("origin", q.origin, "MISSING_PARAM_ORIGIN", "INVALID_ORIGIN"); point("destination", q.dest, "MISSING_PARAM_DESTINATION", "INVALID_DESTINATION"); }
  { std::string good = d.scenarios[q.scenario].uuid, n = "scenario_id";
    if (!hit.count(n)) put(r, n, good); else switch (g.below(8)) {
      case 0: r.sure.insert("MISSING_PARAM_SCENARIO"); break;
      case 1: put(r, n, uuidFor('Q', g.below(3), 1)); r.sure.insert("MISSING_PARAM_SCENARIO"); break;                 // unknown
      case 2: case 3: put(r, n, none.uuid); r.sure.insert("EMPTY_SCENARIO"); break;
      case 4: put(r, n, g.pick<std::string>({"", "abc", "123", good.substr(0, 20), good.substr(0, 35) + "g", std::string(500, 'a'), "null", good.substr(0, 35), "\xff\xfe"})); r.sure.insert("MISSING_PARAM_SCENARIO"); r.sure.insert("PARAM_ERROR_UNKNOWN"); break;
      case 5: { std::string u = good; for (auto& x : u) x = toupper(x); put(r, n, g.pick<std::string>({u, "{" + good + "}", " " + good, good + " ", good + "xyz"})); r.maybe.insert("MISSING_PARAM_SCENARIO"); r.maybe.insert("PARAM_ERROR_UNKNOWN"); r.exact = false; break; }
      case 6: put(r, n, good); put(r, n, uuidFor('Q', 0, 1)); r.maybe.insert("MISSING_PARAM_SCENARIO"); r.exact = false; break;
      default: put(r, n, good); put(r, n, none.uuid); r.maybe.insert("EMPTY_SCENARIO"); r.exact = false; break; } }
  { std::string n = "time_of_trip", good = std::to_string(q.time);
    if (!hit.count(n)) put(r, n, good); else switch (g.below(5)) {
      case 0: r.sure.insert("MISSING_PARAM_TIME_OF_TRIP"); break;
      case 1: put(r, n, noInt(g)); r.sure.insert("INVALID_NUMERICAL_DATA"); if (r.ps.back().second.empty()) r.sure.insert("MISSING_PARAM_TIME_OF_TRIP"); break;
      case 2: put(r, n, g.pick<std::string>({"-1", "-3600", "-2147483648"})); r.sure.insert("MISSING_PARAM_TIME_OF_TRIP"); r.sure.insert("INVALID_NUMERICAL_DATA"); break;
      case 3: put(r, n, oddInt(g, q.time)); r.maybe.insert("INVALID_NUMERICAL_DATA"); r.maybe.insert("MISSING_PARAM_TIME_OF_TRIP"); r.exact = false; break;
      default: { Query o = q; o.time = std::max(0, std::min(q.time, CLOCK_END) - g.range(0, 4000)); put(r, n, good); put(r, n, std::to_string(o.time)); r.readings.push_back(o); } } }
  if (hit.count("time_type")) { if (g.mostly(60)) { put(r, "time_type", g.pick<std::string>({"2", "", "abc", "-1", "01", "true"})); r.maybe.insert("INVALID_NUMERICAL_DATA"); r.maybe.insert("PARAM_ERROR_UNKNOWN"); r.exact = false; } else { put(r, "time_type", q.forward ? "0" : "1"); put(r, "time_type", q.forward ? "0" : "1"); } }
  else if (!q.forward || g.chance(50)) put(r, "time_type", q.forward ? "0" : "1");
  if (!acc) {
    if (hit.count("alternatives")) { put(r, "alternatives", g.pick<std::string>({"2", "", "yes", "TRUE", "-1"})); r.maybe.insert("INVALID_NUMERICAL_DATA"); r.maybe.insert("PARAM_ERROR_UNKNOWN"); r.exact = false; }
    else if (q.alternatives) put(r, "alternatives", g.pick<std::string>({"true", "1"})); else if (g.chance(30)) put(r, "alternatives", g.pick<std::string>({"false", "0"})); } else q.alternatives = false;
  for (auto& [n, m] : opts) {
    if (hit.count(n)) switch (g.below(3)) {
      case 0: put(r, n, noInt(g)); r.sure.insert("INVALID_NUMERICAL_DATA"); break;
      case 1: put(r, n, oddInt(g, (q.*m).value_or(600))); r.maybe.insert("INVALID_NUMERICAL_DATA"); r.exact = false; break;
      default: { Query o = q; if (!(q.*m)) q.*m = 600; for (auto& rd : r.readings) rd.*m = q.*m; o = q; o.*m = g.range(1, 3000); put(r, n, std::to_string(*(q.*m))); put(r, n, std::to_string(*(o.*m))); auto rs = r.readings; for (auto& rd : rs) { rd.*m = o.*m; r.readings.push_back(rd); } r.readings.push_back(o); } }
    else if (q.*m) put(r, n, std::to_string(*(q.*m))); }
  if (g.chance(10)) { put(r, g.pick<std::string>({"foo", "debug", "type", "originx", "time", "max_travel_times", "x%00y"}), g.pick<std::string>({"line", "", "1", "\xff", "a b"})); }
  for (size_t i = r.ps.size(); i > 1; i--) if (g.chance(30)) std::swap(r.ps[i - 1], r.ps[g.below((uint32_t)i)]);
  if (g.chance(8)) r.tail = g.pick<std::string>({"&", "&&", "&=", "&x", "&%zz=%", "&a=%0", "&b=%F", "&=1", "&c==", "&%", "&#frag"});
  return r;
}
std::string targetOf(Gen& g, const Req& r) {
  std::string t = r.path; bool first = true, esc = g.chance(10); char b[8];
  auto enc = [&](const std::string& s) { if (!esc) return urlEncode(s); std::string o; for (unsigned char ch : s) { snprintf(b, 8, g.chance(50) ? "%%%02x" : "%%%02X", ch); o += b; } return o; };
  for (auto& [k, v] : r.ps) { t += first ? "?" : "&"; first = false; t += urlEncode(k) + "=" + enc(v); }
  if (!first) t += r.tail; return t;
}
// the same request with every parameter spelled out and limits without effect replaced by the largest number
Params canonical(const DS& d, const Query& q, const std::string& what) {
  Query e = q; Limits L = effective(q); e.minWait = L.minWait; e.maxTotal = L.maxTotal; e.maxAccess = L.maxAccess; e.maxEgress = L.maxEgress; e.maxTransfer = L.maxTransfer; e.maxFirst = L.cap > 0 ? L.cap : UNLIMITED;
  return what == "accessibility" ? e.accessParams(d) : e.routeParams(d);
}
std::string echo(const json& b, const DS& d, const Query& q, const std::string& what) {
  if (!b.contains("query") || !b["query"].is_object()) return "the request is not echoed";
  const json& e = b["query"]; auto pt = [&](const char* k, int p) -> std::string { if (!e.contains(k) || !e[k].is_array() || e[k].size() != 2 || !e[k][0].is_number() || !e[k][1].is_number()) return std::string("no ") + k + " in the echo"; if (std::fabs(e[k][0].get<double>() - d.places[p].lon) > 6e-7 || std::fabs(e[k][1].get<double>() - d.places[p].lat) > 6e-7) return std::string("wrong ") + k + " in the echo"; return ""; };
  std::string x = what == "accessibility" ? pt("place", q.forward ? q.origin : q.dest) : pt("origin", q.origin) + pt("destination", q.dest); if (!x.empty()) return x;
  if (e.value("timeOfTrip", json()) != json(q.time)) return "the echoed timeOfTrip is " + e.value("timeOfTrip", json()).dump();
  if (e.value("timeType", json()) != json(q.forward ? 0 : 1)) return "the echoed timeType is " + e.value("timeType", json()).dump();
  return "";
}
const Set& reasons(const std::string& what) { static const Set a = {"NO_ROUTING_FOUND", "NO_ACCESS_AT_PLACE", "NO_SERVICE_AT_PLACE"}, r = {"NO_ROUTING_FOUND", "NO_ACCESS_AT_ORIGIN", "NO_ACCESS_AT_DESTINATION", "NO_ACCESS_AT_ORIGIN_AND_DESTINATION", "NO_SERVICE_FROM_ORIGIN", "NO_SERVICE_TO_DESTINATION"}; return what == "accessibility" ? a : r; }

// what any answer with HTTP 200 or 400 must look like
void shape(const Resp& r, const std::string& what, const std::string& tgt, bool ready) {
  auto bad = [&](const std::string& w) { failf(w, " | GET ", tgt.substr(0, 900), " | HTTP ", r.http, " ", r.raw.substr(0, 500)); };
  if (!r.body.is_object()) bad("the body is not a JSON object");
  std::string s = status(r.body);
  if (r.http == 400) { if (s != "query_error") bad("HTTP 400 without the status query_error"); if (!r.body.contains("errorCode") || !r.body["errorCode"].is_string() || !(what == "accessibility" ? ACODES : CODES).count(r.body["errorCode"])) bad("undocumented errorCode"); return; }
  if (r.http != 200) bad("neither HTTP 200 nor 400");
  if (s == "data_error") { if (ready) bad("data_error although the data is complete"); if (!r.body.contains("errorCode") || !r.body["errorCode"].is_string() || !DATA.count(r.body["errorCode"])) bad("undocumented data errorCode"); return; }
  if (!ready) bad("no data_error although a kind of data is missing");
  if (s != "success" && s != "no_routing_found") bad("undocumented status");
  if (what == "summary") { if (s != "success") bad("summary answers have the status success"); if (!r.body.contains("result") || !r.body["result"].contains("nbRoutes") || !r.body["result"].contains("lines")) bad("incomplete summary"); return; }
  if (s == "no_routing_found" && !reasons(what).count(reason(r.body))) bad("undocumented reason");
  if (s == "success" && (!r.body.contains("result") || !r.body["result"].is_object() || !r.body["result"].contains(what == "route" ? "routes" : "nodes"))) bad("success without a result");
}

void judge(HttpBackend& b, Gen& g, Case& c, const DS& d, const Req& r, const std::string& tgt, const Resp& a, bool euclid, uint64_t h) {
  shape(a, r.what, tgt, true); auto bad = [&](const std::string& w) { failf(w, " | GET ", tgt.substr(0, 900), " | HTTP ", a.http, " ", a.raw.substr(0, 900)); };
  if (a.http == 400) {
    Set ok = r.sure; ok.insert(r.maybe.begin(), r.maybe.end()); std::string code = a.body["errorCode"];
    if (ok.empty()) bad("rejected although the request has no defect"); if (!ok.count(code)) bad("errorCode names no defect of the request (defects: " + join(ok) + ")"); c.label("400 " + code); c.sigs.push_back(hashStr(tgt, h)); return;
  }
  if (!r.sure.empty()) bad("accepted although the request is defective (" + join(r.sure) + ")");
  c.label("200 " + status(a.body)); if (!a.body.contains("query")) bad("the request is not echoed"); c.sigs.push_back(hashStr(tgt, h));
  if (!r.exact) return;
  std::vector<Query> qs = r.readings; qs.insert(qs.begin(), r.q); std::string why;
  for (auto& q : qs) {
    Limits L = effective(q);
    why = echo(a.body, d, q, r.what); if (!why.empty()) continue;
    // the meaning of defaults, non-positive limits, encodings, order and duplicates: the fully spelled-out request gets the same answer
    Params cp = canonical(d, q, r.what); Resp k = fetch(b, target("/v2/" + r.what, cp)); c.evals++;
    if (k.http != 200) bad("the same request with every default spelled out is answered with HTTP " + std::to_string(k.http) + " " + k.raw.substr(0, 300) + " (" + target("/v2/" + r.what, cp) + ")");
    if (k.body != a.body) { why = "differs from the answer to the request with every default spelled out, " + target("/v2/" + r.what, cp) + ": " + json::diff(k.body, a.body).dump().substr(0, 600); continue; }
    why.clear();
    if (euclid) break;
    // times beyond the 32-bit range cannot be written in an answer (known finding)
    if (!q.forward && L.minWait > 1000 && (long long)L.minWait + q.time > 2147000000LL) { c.known.push_back("wrap"); break; }
    Ctx x(d, q); bool ok = status(a.body) == "success"; long long last = 0; for (auto& t : d.trips) last = std::max<long long>(last, t.dep.back());
    if (r.what == "route") {
      if (ok) for (auto& rt : a.body["result"]["routes"]) { std::string e = validateItinerary(x, rt); if (e.empty()) e = validateLimits(x, rt); if (!e.empty()) bad("route breaks its constraints: " + e); }
      if (ok && q.forward && q.time > last) bad("a route although every departure lies before the requested time");
      if (!ok && q.time < CLOCK_END && x.L.minWait < CLOCK_END) { std::string e = expectReason(x, false, reason(a.body)); if (!e.empty()) bad(e); }
    } else if (r.what == "accessibility" && ok) {
      if (q.forward && q.time > last) bad("a map although every departure lies before the requested time");
      for (auto& n : a.body["result"]["nodes"]) { long long t = n.at("nodeTime").get<long long>(), tt = n.at("totalTravelTime").get<long long>(); if (tt < 0 || tt > x.L.maxTotal || (q.forward ? t - q.time : (long long)q.time - t) != tt) bad("impossible times in the map"); }
    } else if (r.what == "summary" && q.forward && q.time > last && a.body["result"]["nbRoutes"] != 0) bad("routes although every departure lies before the requested time");
    break;
  }
  if (!why.empty()) bad(why);
}

const std::vector<std::string> NAMES = {"data_sources", "persons", "od_trips", "agencies", "services", "nodes", "lines", "paths", "scenarios", "schedules", "all"};
// returns true if the server must be replaced before it is asked for routes again (data may have been reread from elsewhere)
bool refresh(HttpBackend& b, Gen& g, Case& c, uint64_t h, const std::function<void(const std::string&)>& note) {
  std::vector<std::string> list; Set known; int n = g.pick({0, 1, 1, 1, 2, 2, 3, 4}); bool odd = false;
  for (int i = 0; i < n; i++) { std::string s = g.chance(60) ? g.pick(NAMES) : g.pick<std::string>({"foo", "", "ALL", "schedules ", "schedule", "nodes;lines", "\"", "\\", "\n", "\xff", "al", "all all", "households", "places", "<script>", std::string(2000, 'n')}); list.push_back(s); if (std::find(NAMES.begin(), NAMES.end(), s) != NAMES.end()) known.insert(s); else odd = true; }
  std::string v; for (size_t i = 0; i < list.size(); i++) v += (i ? "," : "") + list[i];
  Params p; bool given = !list.empty() || g.chance(50); if (given) p.push_back({g.mostly(80) ? "names" : g.pick<std::string>({"caches", "cache_names", "name", "cache", "cache_name"}), v});
  std::string custom; bool hasCustom = g.chance(12); if (hasCustom) { custom = g.pick<std::string>({"nowhere", "", "a\"b", "a\\b", "\xff", "sub/dir", "x\ny", "\t"}); p.push_back({g.pick<std::string>({"path", "custom_path", "custom_cache_path"}), custom}); }
  if (g.chance(10)) p.push_back({"foo", "all"});
  std::string tgt = target(std::string("/updateCache") + (g.chance(10) ? "/" : ""), p); note(tgt); Resp r = fetch(b, tgt); c.evals++;
  auto bad = [&](const std::string& w) { failf(w, " | GET ", tgt.substr(0, 900), " | HTTP ", r.http, " ", r.raw.substr(0, 500)); };
  if (r.http != 200 && r.http != 400) bad("unexpected HTTP status"); if (!r.body.is_object()) bad("the body is not a JSON object");
  std::string s = status(r.body);
  if (known.empty()) { if (s != "error") bad("no known cache name was given, but the answer is no error object"); }
  else {
    if (s != "success") bad("no success object"); if (!r.body.contains("cache_names")) bad("the refreshed caches are not named");
    Set got; const json& cn = r.body["cache_names"]; if (cn.is_array()) for (auto& x : cn) got.insert(x.is_string() ? x.get<std::string>() : x.dump()); else if (cn.is_string()) { std::stringstream ss(cn.get<std::string>()); std::string t; while (std::getline(ss, t, ',')) got.insert(t); } else bad("the refreshed caches are not named");
    if (got != known) bad("the refreshed caches are " + join(known) + " but the answer names " + join(got));
  }
  c.label(std::string("update ") + (known.empty() ? "none" : odd ? "mixed" : "known")); c.sigs.push_back(hashStr(tgt, h));
  return hasCustom && !known.empty();
}

void c18(Gen& g, Case& c, const std::string& bin, int maxReq) {
  HttpBackend& b = httpBackend(0, bin); GenOpt o; o.full = true; DS d = genDataset(g, o); if (d.trips.empty()) return;
  DScenario e = genScenario(g, d, 9, 0, false); e.services.clear(); e.name = "empty"; d.scenarios.push_back(e);
  DS visible = d; visible.scenarios.pop_back();     // genQuery must not pick the empty one
  uint64_t h = dsHash(d); bool ready = !g.chance(12), all = g.chance(30), euclid = g.chance(10); b.opt.euclid = euclid;
  json log = json::array(); auto flush = [&] { if (c.wantDump) { json j = {{"dataset", d.dump()}, {"ready", ready}, {"euclidean", euclid}, {"cacheAll", all}, {"requests", log}}; c.dump = j.dump(-1, ' ', false, json::error_handler_t::replace); } };
  flush();
  if (ready) b.load(d, all); else {
    auto files = cacheFiles(d); int k = g.range(1, 3); for (int i = 0; i < k; i++) files.erase(g.pick<std::string>({"agencies.capnpbin", "services.capnpbin", "nodes.capnpbin", "lines.capnpbin", "paths.capnpbin", "scenarios.capnpbin"}));
    writeCache(d, b.dir); for (auto n : {"agencies", "services", "nodes", "lines", "paths", "scenarios"}) if (!files.count(std::string(n) + ".capnpbin")) unlink((b.dir + "/" + n + ".capnpbin").c_str());
    b.router.setData(d); b.router.setFault(nullptr); b.opt.cacheAll = all; if (!b.srv.start(b.dir, b.opt)) { b.opt.euclid = false; if (b.srv.exited) fail("the server ended at start-up: " + b.srv.describe()); throw BackendError("server not reachable in time"); }
  }
  b.opt.euclid = false; int n = g.range(1, maxReq);
  for (int i = 0; i < n; i++) {
    if (g.chance(8)) { if (refresh(b, g, c, h, [&](const std::string& t) { if (c.wantDump) { log.push_back({{"target", t}}); flush(); } })) { if (!ready) break; b.opt.euclid = euclid; b.load(d, all); b.opt.euclid = false; } if (!ready) break; continue; }
    Req r = genReq(g, visible, e, ready);
    std::string tgt = targetOf(g, r); if (c.wantDump) { log.push_back({{"target", tgt}, {"defects", join(r.sure)}, {"possible", join(r.maybe)}}); flush(); }
    Resp a = fetch(b, tgt); c.evals++; if (c.wantDump) { log.back()["http"] = a.http; log.back()["answer"] = a.raw.substr(0, 2000); flush(); }
    if (!ready) { shape(a, r.what, tgt, false); if (a.http == 400 && r.sure.empty() && r.maybe.empty()) failf("rejected although the request has no defect | GET ", tgt); c.label("not ready: " + (a.http == 400 ? std::string("400") : a.body.value("errorCode", ""))); c.sigs.push_back(hashStr(tgt, h)); continue; }
    judge(b, g, c, d, r, tgt, a, euclid, h);
  }
  if (g.chance(30) && ready) {   // several requests over one connection: each answer ends where its Content-Length says
    std::vector<std::string> ts; std::string want; int k = g.range(2, 4); for (int i = 0; i < k; i++) { Query q = genQuery(g, visible, {.alt = 2}); std::string w = g.pick<std::string>({"route", "accessibility", "summary"}); Params p = w == "accessibility" ? q.accessParams(d) : q.routeParams(d); if (g.chance(30)) p.erase(p.begin() + g.below((uint32_t)p.size())); ts.push_back(target("/v2/" + w, p)); }
    std::vector<Resp> alone; for (auto& t : ts) alone.push_back(fetch(b, t)); c.evals += k;
    std::string err = keepAlive(b.srv.port, ts, [&](size_t i, const Parsed& p) { if (p.status != alone[i].http || json::parse(p.body, nullptr, false) != alone[i].body) failf("answer ", i, " on a kept connection differs from the answer on its own connection | GET ", ts[i]); });
    if (!err.empty()) { usleep(30000); if (!b.srv.alive()) fail("the server died: " + b.srv.describe()); fail(err + " | requests " + json(ts).dump().substr(0, 900)); } c.label("kept connection");
  }
  usleep(1000); if (!b.srv.alive()) fail("the server died: " + b.srv.describe());
}
}

// extremes of every number, in process: many more of them than a server can be asked
static void c18mem(Gen& g, Case& c) {
  Backend& b = memBackend(); GenOpt o; bool strict = g.mostly(60); o.strictHops = strict; DS d = genDataset(g, o); if (d.trips.empty()) return; Session s(c, d, b, g.chance(30)); uint64_t h = dsHash(d);
  for (int n = g.range(1, 12); n-- > 0;) {
    bool capOff = g.mostly(70); Query q = genQuery(g, d, {.capOff = capOff, .alt = 2}); bool ext = false;
    if (g.chance(25)) { q.time = g.pick({0, 1, 86399, 86400, 86401, 115199, 115200, 115201, 118799, 118800, 118801, 200000, 1000000, 2147483647, 2147483646, 2147480000, 3599, 3600, 36 * 3600, 111600, 111599, 1073741824, 999999999}); ext = true; }
    for (auto m : {&Query::minWait, &Query::maxTotal, &Query::maxAccess, &Query::maxEgress, &Query::maxTransfer, &Query::maxFirst}) if (g.chance(20) && !(m == &Query::maxFirst && capOff)) { q.*m = g.chance(30) ? 2147483647 - g.range(0, 200000) : extreme(g); ext = true; }
    std::string what = g.pick<std::string>({"route", "accessibility", "summary"}); json a = s.get(what, q); std::string st = status(a); c.label(what + (ext ? " extreme " : " plain ") + st); if (ext) c.sigs.push_back(hashStr(what + brief(q), h));
    std::string e = echo(a, d, q, what); if (!e.empty()) failf(e, " | ", what, " ", brief(q));
    Limits L = effective(q); if ((long long)q.time + L.minWait > 1000000000LL || what == "summary") continue;      // far outside any clock: answered, not judged
    Ctx x(d, q);
    if (what == "route" && st == "success") for (auto& rt : a["result"]["routes"]) { e = validateItinerary(x, rt); if (e.empty()) e = validateLimits(x, rt); if (!e.empty()) failf("route breaks its constraints: ", e, " | ", brief(q), " | ", rt.dump().substr(0, 1200)); }
    if (st != "success" && q.time < CLOCK_END && L.minWait < CLOCK_END) { e = expectReason(x, what == "accessibility", reason(a)); if (!e.empty()) failf(e, " | ", what, " ", brief(q)); }
    if (strict && capOff) { e = what == "route" ? judgeBest(x, a) : judgeMap(x, a); if (!e.empty()) failf(e, " | ", what, " ", brief(q)); }
  }
}

void addService(std::vector<Check>& v, const std::string& tier) {
  bool deep = tier == "thorough";
  { Check k; k.id = "C18"; k.rule = "a request whose answer was judged against its defects or its spelled-out form; once per distinct (dataset, request)";
    k.assumptions = {"Numbers in notations only some readers accept (sign, blanks, fraction, exponent, hexadecimal, leading zero) and numbers beyond 32 bits may be accepted or rejected.", "With a parameter given twice either value may count.", "A malformed scenario id may be named MISSING_PARAM_SCENARIO or PARAM_ERROR_UNKNOWN; a negative time of trip MISSING_PARAM_TIME_OF_TRIP or INVALID_NUMERICAL_DATA.", "data_error answers carry no echo (as documented)."};
    if (haveMem()) { Search s{"mem", c18mem, 100000000, deep ? 200.0 : 10.0, 100, 5}; k.searches.push_back(s); }
    if (haveMem()) { Search s{"guided", c18mem, 100000000, deep ? 400.0 : 8.0, 100, 5}; s.guided = true; k.searches.push_back(s); }
    if (!gServerBin.empty()) { Search s{"http", [](Gen& g, Case& c) { c18(g, c, gServerBin, 60); }, 100000000, deep ? 200.0 : 12.0, 12}; s.shrinkSeconds = 60; s.wallLimit = 150; k.searches.push_back(s); }
    if (!gServerAsan.empty()) { Search s{"asan", [](Gen& g, Case& c) { c18(g, c, gServerAsan, 60); }, 100000000, deep ? 240.0 : 14.0, 6}; s.shrinkSeconds = 60; s.wallLimit = 200; k.searches.push_back(s); }
    v.push_back(k); }
}
