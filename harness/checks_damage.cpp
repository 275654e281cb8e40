// C17: damaged cache files, in process under AddressSanitizer and against the sanitised server.
#include "checks.hpp"
#include <algorithm>
#include <filesystem>
#include <unistd.h>

namespace {
using Set = std::set<std::string>; using Files = std::map<std::string, std::string>;
const Set DATA = {"DATA_ERROR", "MISSING_DATA_AGENCIES", "MISSING_DATA_SERVICES", "MISSING_DATA_NODES", "MISSING_DATA_LINES", "MISSING_DATA_PATHS", "MISSING_DATA_SCENARIOS", "MISSING_DATA_SCHEDULES"};
FileBackend& fileBackend(int k) { static std::map<int, std::unique_ptr<FileBackend>> m; auto& p = m[k]; if (!p) { p = makeFile(); if (p) p->dir = gScratch + "/damage" + std::to_string(k); } return *p; }
std::string join(const Set& s) { std::string o; for (auto& x : s) o += (o.empty() ? "" : ",") + x; return o; }

std::string text(const json& j) { return j.dump(-1, ' ', false, json::error_handler_t::replace); }

// ---- the packed encoding of Cap'n Proto messages ----------------------------------------------------
std::string unpack(const std::string& s) {
  std::string o; size_t i = 0;
  while (i < s.size()) {
    uint8_t tag = (uint8_t)s[i++];
    for (int b = 0; b < 8; b++) if (tag >> b & 1) { if (i >= s.size()) return o; o += s[i++]; } else o += '\0';
    if (tag == 0) { if (i >= s.size()) return o; o.append(8 * (size_t)(uint8_t)s[i++], '\0'); }
    else if (tag == 0xff) { if (i >= s.size()) return o; size_t n = 8 * (size_t)(uint8_t)s[i++]; n = std::min(n, s.size() - i); o += s.substr(i, n); i += n; }
  }
  return o;
}
std::string repack(const std::string& u) {
  std::string o;
  for (size_t w = 0; w + 8 <= u.size(); w += 8) {
    uint8_t tag = 0; std::string lit; for (int b = 0; b < 8; b++) if (u[w + b]) { tag |= 1 << b; lit += u[w + b]; }
    o += (char)tag; o += lit; if (tag == 0 || tag == 0xff) o += '\0';
  }
  return o;
}
bool isUuid(const std::string& s, size_t i) { if (i + 36 > s.size()) return false; for (int k = 0; k < 36; k++) { char c = s[i + k]; if (k == 8 || k == 13 || k == 18 || k == 23 ? c != '-' : !isxdigit((unsigned char)c)) return false; } return true; }
std::vector<size_t> uuids(const std::string& u) { std::vector<size_t> r; for (size_t i = 0; i + 36 <= u.size(); i++) if (u[i + 8 < u.size() ? i + 8 : i] == '-' && isUuid(u, i)) { r.push_back(i); i += 35; } return r; }

std::string kindOf(const std::string& f) {
  if (f.rfind("lines/", 0) == 0) return "schedules"; if (f.rfind("nodes/", 0) == 0) return "footpaths"; if (f.rfind("dataSources", 0) == 0 || f.rfind("data", 0) == 0 || f.rfind("persons", 0) == 0 || f.rfind("odTrips", 0) == 0) return "survey";
  return f.substr(0, f.find('.'));
}
// the kinds of data that may be missing when this kind is damaged
Set closure(const std::string& k) {
  if (k == "agencies") return {"MISSING_DATA_AGENCIES", "MISSING_DATA_LINES", "MISSING_DATA_PATHS", "MISSING_DATA_SCHEDULES"};
  if (k == "services") return {"MISSING_DATA_SERVICES", "MISSING_DATA_SCHEDULES"};
  if (k == "nodes") return {"MISSING_DATA_NODES", "MISSING_DATA_PATHS", "MISSING_DATA_SCHEDULES"};
  if (k == "footpaths") return {"MISSING_DATA_NODES"};
  if (k == "lines") return {"MISSING_DATA_LINES", "MISSING_DATA_PATHS", "MISSING_DATA_SCHEDULES"};
  if (k == "paths") return {"MISSING_DATA_PATHS", "MISSING_DATA_SCHEDULES"};
  if (k == "scenarios") return {"MISSING_DATA_SCENARIOS"};
  if (k == "schedules") return {"MISSING_DATA_SCHEDULES"};
  return {};
}
struct Fault { std::string file, what; bool changes = false; bool gone = false; };   // changes: the data may read differently (not only be absent); gone: the file holds nothing readable

// damages one file of the set
Fault damage(Gen& g, Files& fs, const Files& other, const std::string& f) {
  Fault r; r.file = f; std::string& s = fs[f]; auto at = [&](size_t n) { return n ? g.below((uint32_t)n) : 0; };
  switch (g.below(14)) {
    case 0: case 1: fs.erase(f); r.what = "deleted"; r.gone = true; return r;
    case 2: s.clear(); r.what = "emptied"; r.gone = true; return r;
    case 3: case 4: { size_t n = at(s.size()); if (g.chance(30)) n = s.size() - std::min<size_t>(s.size(), 1 + at(8)); if (g.chance(20)) n = std::min<size_t>(n, at(12)); s.resize(n); r.what = "cut to " + std::to_string(n) + " bytes"; r.gone = n < 5; r.changes = true; return r; }
    case 5: { int n = g.range(1, 6); r.what = "bits flipped at"; for (int i = 0; i < n && !s.empty(); i++) { size_t p = g.chance(30) ? at(std::min<size_t>(s.size(), 24)) : at(s.size()); s[p] ^= (char)(1 << g.below(8)); r.what += " " + std::to_string(p); } r.changes = true; return r; }
    case 6: { if (s.empty()) break; size_t p = at(s.size()), n = std::min<size_t>(s.size() - p, 1 + at(g.chance(50) ? 4 : 64)); int v = g.pick({0, 0xff, -1}); for (size_t i = 0; i < n; i++) s[p + i] = (char)(v < 0 ? (int)g.below(256) : v); r.what = "bytes " + std::to_string(p) + "+" + std::to_string(n) + " overwritten"; r.changes = true; return r; }
    case 7: { std::vector<const std::string*> o; for (auto& [k, v] : other) if (k != f) o.push_back(&v); if (o.empty()) break; s = *g.pick(o); r.what = "replaced by another file"; r.changes = true; return r; }
    case 8: { auto it = other.find(f); if (it == other.end()) break; s = it->second; r.what = "taken from another dataset"; r.changes = true; return r; }
    default: break;
  }
  // inside the message
  std::string u = unpack(s); r.changes = true; auto ids = uuids(u);
  for (int n = g.pick({1, 1, 1, 2, 4}); n-- > 0;) switch (g.below(7)) {
    case 0: case 1: if (!ids.empty()) {     // an identifier: another one, an unknown one, none
      size_t p = g.pick(ids); std::string v; std::vector<std::string> pool; for (auto& [k, b] : fs) { std::string w = unpack(b); for (size_t i : uuids(w)) { pool.push_back(w.substr(i, 36)); if (pool.size() > 400) break; } }
      switch (g.below(4)) { case 0: v = uuidFor('Z', g.below(4), 9); break; case 1: case 2: v = pool.empty() ? u.substr(p, 36) : g.pick(pool); break; default: v = u.substr(p, 36); v[g.below(36)] = g.pick({'z', '-', '\0', '\xff', ' ', '{'}); }
      u.replace(p, 36, v); r.what += "[identifier at " + std::to_string(p) + " is now " + v + "]"; break; }
      [[fallthrough]];
    case 2: case 3: if (u.size() > 8) {     // a number
      int w = g.pick({1, 2, 4, 4, 4, 8}); size_t p = 8 + at(u.size() - 8) / w * w; if (p + w > u.size()) break; int64_t v = g.pick<int64_t>({0, 1, -1, 2147483647, -2147483647LL - 1, 32767, -32768, 65535, 7, 1000000, 115200, 2147483647 - 3600, 1LL << 40, INT64_MAX, INT64_MIN}); 
      if (g.chance(40)) { int64_t old = 0; memcpy(&old, &u[p], w); v = old + g.range(-3, 3); } memcpy(&u[p], &v, w); r.what += "[" + std::to_string(w) + " bytes at " + std::to_string(p) + " = " + std::to_string(v) + "]"; break; }
      break;
    case 4: { std::vector<size_t> ptr; for (size_t w = 8; w + 8 <= u.size(); w += 8) { uint64_t x; memcpy(&x, &u[w], 8); if (x && (x & 3) <= 1 && (int64_t)(int32_t)(x & 0xfffffffc) / 4 >= -(int64_t)(w / 8) && ((x & 0xffffffff) >> 2) < u.size() / 8) ptr.push_back(w); }   // looks like a pointer
      if (ptr.empty()) break; size_t w = g.pick(ptr); uint64_t x; memcpy(&x, &u[w], 8);
      switch (g.below(6)) { case 0: x = 0; break; case 1: x ^= 1ULL << g.below(64); break; case 2: x = (x & 0x7ffffffffULL) | ((uint64_t)(((x >> 35) + (uint64_t)g.range(-3, 3)) & 0x1fffffff) << 35); break; case 3: x = (x & 0x7ffffffffULL) | (0x1fffffffULL << 35); break; case 4: x = (x & ~0xfffffffcULL) | ((((x >> 2) + (uint64_t)g.range(-4, 4)) & 0x3fffffff) << 2); break; default: x = (x & ~(7ULL << 32)) | ((uint64_t)g.below(8) << 32); }
      memcpy(&u[w], &x, 8); r.what += "[pointer at " + std::to_string(w) + "]"; break; }
    case 5: { size_t n = u.size() / 8 * 8; if (n < 24) break; size_t a = 8 + at(n / 8 - 1) * 8, b = 8 + at(n / 8 - 1) * 8; for (int i = 0; i < 8; i++) std::swap(u[a + i], u[b + i]); r.what += "[words at " + std::to_string(a) + ", " + std::to_string(b) + " exchanged]"; break; }
    default: { size_t p = at(u.size()); if (!u.empty()) { u[p] = (char)g.below(256); r.what += "[byte at " + std::to_string(p) + "]"; } }
  }
  if (r.what.empty()) r.what = "unchanged"; s = repack(u); return r;
}

// Data that contradict themselves though every file is readable: identifiers given twice or dropped from the file that defines
// them, lists of different lengths, impossible times, odd texts.
Files inconsistent(Gen& g, const DS& d0, std::vector<Fault>& faults) {
  DS d = d0; std::set<std::string> drop; auto idx = [&](auto& v) { return g.below((uint32_t)v.size()); };
  auto note = [&](const std::string& file, const std::string& what) { for (auto& f : faults) if (f.file == file) { f.what += "; " + what; return; } faults.push_back({file, what, true, false}); };
  auto twice = [&](auto& v, const char* file) { if (v.size() < 2) return; auto a = idx(v), b = idx(v); v[a].uuid = v[b].uuid; note(file, "element " + std::to_string(a) + " has the identifier of " + std::to_string(b)); };
  for (int n = g.pick({1, 1, 2, 3, 6}); n-- > 0;) switch (g.below(9)) {
    case 0: case 1: switch (g.below(8)) { case 0: twice(d.agencies, "agencies.capnpbin"); break; case 1: twice(d.services, "services.capnpbin"); break; case 2: twice(d.nodes, "nodes.capnpbin"); break; case 3: twice(d.lines, "lines.capnpbin"); break; case 4: twice(d.paths, "paths.capnpbin"); break; case 5: twice(d.scenarios, "scenarios.capnpbin"); break; default: if (g.chance(30)) { auto a = idx(d.trips); DTrip t = d.trips[a]; d.trips.push_back(t); note("lines/", "trip " + std::to_string(a) + " is listed twice"); } else twice(d.trips, "lines/"); } break;
    case 2: { std::string k = g.pick<std::string>({"agencies", "services", "nodes", "lines", "paths", "scenarios"}); drop.insert(k); note(k + ".capnpbin", "some elements left out"); break; }
    case 3: case 4: { auto& t = d.trips[idx(d.trips)]; auto cut = [&](auto& v) { size_t m = v.size(); m = g.chance(50) ? g.below((uint32_t)m + 1) : m + g.range(1, 4); v.resize(m, v.empty() ? 0 : v.back()); };
      switch (g.below(6)) { case 0: cut(t.arr); break; case 1: cut(t.dep); break; case 2: cut(t.board); break; case 3: cut(t.unboard); break; case 4: { auto m = g.below((uint32_t)t.arr.size() + 4); t.arr.resize(m, t.arr.empty() ? 0 : t.arr.back()); t.dep.resize(m, t.dep.empty() ? 0 : t.dep.back()); t.board.resize(m, 1); t.unboard.resize(m, 1); break; } default: cut(t.arr); cut(t.dep); cut(t.board); cut(t.unboard); }
      note("lines/", "the lists of a trip have " + std::to_string(t.arr.size()) + ", " + std::to_string(t.dep.size()) + ", " + std::to_string(t.board.size()) + ", " + std::to_string(t.unboard.size()) + " entries"); break; }
    case 5: { auto& t = d.trips[idx(d.trips)]; auto& v = g.chance(50) ? t.arr : t.dep; if (v.empty()) break; int x = g.pick({-1, -3600, 0, CLOCK_END, CLOCK_END - 1, 200000, 2147483647, -2147483647 - 1, 111600, 115199, 118800}); size_t k = idx(v); if (g.chance(30)) for (auto w : {&t.arr, &t.dep}) for (auto& y : *w) y = (int)std::min<long long>(2147483647, std::max<long long>(-2147483647, (long long)y + x)); else v[k] = x; note("lines/", "a time of a trip is " + std::to_string(x)); break; }
    case 6: { auto& p = d.paths[idx(d.paths)]; switch (g.below(6)) {
      case 0: p.stops.clear(); break; case 1: p.stops.resize(1); break; case 2: p.stops.resize(g.below((uint32_t)p.stops.size() + 1)); break; case 3: p.stops.push_back((int)idx(d.nodes)); break;
      default: p.raw = g.pick<std::string>({"", "{}", "[]", "null", "{\"segments\":null}", "{\"segments\":{}}", "{\"segments\":[]}", "{\"segments\":[null]}", "{\"segments\":[{}]}", "{\"segments\":[{\"distanceMeters\":\"far\",\"travelTimeSeconds\":true}]}", "{\"segments\":[{\"distanceMeters\":1e300,\"travelTimeSeconds\":-1e300}]}", "{\"segments\":[{\"distanceMeters\":{},\"travelTimeSeconds\":[]},7]}", "{\"segments\":\"x\"}", "{\"segments\":", "\xff\xfe", "{\"segments\":[1,2,3]}", "{\"segments\":[{\"distanceMeters\":4294967296,\"travelTimeSeconds\":9999999999}]}", std::string(20000, '[')}); }
      note("paths.capnpbin", "a path has " + std::to_string(p.stops.size()) + " stops" + (p.raw ? ", data " + p.raw->substr(0, 80) : std::string())); break; }
    case 7: { auto& n = d.nodes[idx(d.nodes)]; switch (g.below(5)) { case 0: n.foot.clear(); break; case 1: if (!n.foot.empty()) n.foot.push_back(n.foot[idx(n.foot)]); break; case 2: for (auto& f : n.foot) f.time = g.pick({-1, -1000, 32767, -32768, 0}); break; case 3: for (int k = 0; k < 40; k++) n.foot.push_back({(int)idx(d.nodes), g.range(-100, 2000), g.range(-100, 2000)}); break; default: n.lat = g.pick({91.0, -91.0, 0.0, 2000.0}); n.lon = g.pick({181.0, 0.0, -2000.0}); }
      note("nodes/node_" + n.uuid + ".capnpbin", "odd footpaths or place"); break; }
    default: { auto& s = d.scenarios[idx(d.scenarios)]; for (auto l : {&s.services, &s.onlyLines, &s.exceptLines, &s.onlyAgencies, &s.exceptAgencies}) if (g.chance(30) && !l->empty()) { auto c = *l; l->insert(l->end(), c.begin(), c.end()); } if (g.chance(30)) s.onlyModes.push_back("no such mode"); if (g.chance(30)) s.exceptModes.push_back(""); if (g.chance(20)) s.services.clear(); note("scenarios.capnpbin", "a scenario with repeated or unknown entries"); }
  }
  Files fs = cacheFiles(d);
  for (auto& k : drop) {
    DS r = d; auto thin = [&](auto& v) { auto w = v; w.clear(); for (auto& x : v) if (g.chance(60)) w.push_back(x); v = w; };
    if (k == "paths") { r.trips.clear(); thin(r.paths); } else { r.trips.clear(); r.paths.clear(); for (auto& n : r.nodes) n.foot.clear();
      if (k == "nodes") { r.scenarios.clear(); thin(r.nodes); } else if (k == "scenarios") thin(r.scenarios); else { r.scenarios.clear(); if (k == "lines") thin(r.lines); else { r.lines.clear(); if (k == "agencies") thin(r.agencies); else thin(r.services); } } }
    fs[k + ".capnpbin"] = cacheFiles(r)[k + ".capnpbin"];
  }
  return fs;
}

struct Ask { std::string what; Params p; Query q; };
Ask ask(Gen& g, const DS& d) { Ask a; a.q = genQuery(g, d, {.alt = 2}); a.what = g.pick<std::string>({"route", "route", "accessibility", "summary"}); a.p = a.what == "accessibility" ? a.q.accessParams(d) : a.q.routeParams(d); return a; }
std::string show(const Ask& a) { return target("/v2/" + a.what, a.p); }
void put(const Files& f, const std::string& dir) { std::error_code ec; std::filesystem::remove_all(dir, ec); std::filesystem::create_directories(dir); writeFiles(f, dir); }

struct Target {
  virtual ~Target() {}
  virtual std::string dir() = 0;
  virtual void start(const DS& d, bool all) = 0;
  virtual void update(const std::string& names) = 0;   // as /updateCache does; in process only what the handler does not extend to other collections
  virtual Resp get(const Ask&) = 0;
};
struct InProcess : Target {
  FileBackend& b = fileBackend(0);
  std::string dir() override { return b.dir; }
  template <class F> void guarded(const char* what, F f) { try { f(); } catch (Violation&) { throw; } catch (std::exception& e) { failf(what, " ended with an exception: ", e.what()); } catch (...) { failf(what, " ended with an exception"); } }
  void start(const DS& d, bool all) override { guarded("loading", [&] { b.open(d, all); }); }
  void update(const std::string& n) override { guarded("refreshing", [&] { b.update(n == "schedules" ? n : "all"); }); }
  Resp get(const Ask& a) override { Resp r; guarded("a request", [&] { r = b.get(a.what, a.p); }); r.body = json::parse(text(r.body));   // as the server writes texts that are no UTF-8
     r.raw = r.body.dump(2, ' ', false, json::error_handler_t::replace); return r; }
};
struct Process : Target {
  HttpBackend& h; Process(const std::string& bin) : h(httpBackend(2, bin)) { if (h.dir.empty()) h.dir = gScratch + "/damaged"; }
  std::string dir() override { return h.dir; }
  void start(const DS& d, bool all) override { h.srv.stop(); h.opt.cacheAll = all; h.router.farUnknown = true; h.router.setData(d); h.router.setFault(nullptr); if (!h.srv.start(h.dir, h.opt)) { if (h.srv.exited) fail("the server ended at start-up: " + h.srv.describe()); throw BackendError("server not reachable in time"); } }
  Parsed ask(const std::string& t) { Parsed x = parseHttp(rawGet(h.srv.port, t, 60000)); if (!x.ok) { usleep(50000); if (!h.srv.alive()) fail("the server died on GET " + t.substr(0, 400) + ": " + h.srv.describe()); fail("GET " + t.substr(0, 400) + ": " + x.why); } return x; }
  void update(const std::string& n) override { Parsed x = ask(target("/updateCache", {{"names", n}})); json b = json::parse(x.body, nullptr, false); if (x.status != 200 || status(b) != "success") failf("/updateCache answered ", x.status, " ", x.body.substr(0, 300)); }
  Resp get(const Ask& a) override { Parsed x = ask(show(a)); Resp r; r.http = x.status; r.raw = x.body; r.body = json::parse(x.body, nullptr, false); return r; }
};

void c17(Gen& g, Case& c, Target& t, bool http, bool odd = false) {   // odd: only data that contradict themselves, more requests to each
  GenOpt go; go.maxNodes = 6; go.full = http; DS d = genDataset(g, go), e = genDataset(g, go); if (d.trips.empty() || d.paths.empty()) return;
  Files good = cacheFiles(d), other = cacheFiles(e); bool survey = g.chance(35); if (survey) { addSurvey(d, good); addSurvey(e, other); }
  if (survey && g.chance(30)) for (auto& [k, v] : Files(good)) if (k.rfind("dataSources/", 0) == 0 && g.chance(60)) { good[k + ".0"] = v; good[k + ".1"] = other.count(k) ? other[k] : v; good[k + ".count"] = "2"; good.erase(k); }   // numbered parts
  std::vector<Ask> asks; for (int n = odd ? g.range(6, 16) : g.range(2, http ? 5 : 4); n-- > 0;) asks.push_back(ask(g, d));
  bool all = g.chance(50); json log = json::array(); auto note = [&](const json& j) { if (getenv("TRV_TRACE")) fprintf(stderr, "%s\n", text(j).c_str()); if (c.wantDump) { log.push_back(j); json o = {{"data", d.dump()}, {"history", log}}; c.dump = o.dump(-1, ' ', false, json::error_handler_t::replace); } };
  FileBackend* ref = haveMem() ? &fileBackend(1) : nullptr; uint64_t h = dsHash(d);
  int rounds = odd ? 1 : g.pick({1, 1, 2, 3});
  for (int round = 0; round < rounds; round++) {
    Files fs = good; std::vector<Fault> faults; bool restored = round > 0 && g.chance(30);
    if (!restored) {
      std::vector<std::string> names; for (auto& [k, v] : fs) names.push_back(k);
      std::map<std::string, std::vector<std::string>> by; for (auto& n : names) by[kindOf(n)].push_back(n); std::vector<std::string> kinds; for (auto& [k, v] : by) kinds.push_back(k);
      int style = odd ? 10 : (int)g.below(13);
      if (style >= 10) { Files f = inconsistent(g, d, faults); for (auto& [k, v] : f) fs[k] = v; }
      else
      if (style == 0) { std::string k = g.pick(kinds); for (auto& n : by[k]) { fs.erase(n); faults.push_back({n, "deleted", false, true}); } }      // a whole kind
      else if (style == 1) { for (auto& n : names) if (g.chance(30)) { fs.erase(n); faults.push_back({n, "deleted", false, true}); } }
      else if (style == 2) { for (auto& n : names) if (other.count(n) && g.chance(40)) { fs[n] = other[n]; faults.push_back({n, "taken from another dataset", true, false}); } }
      else for (int n = g.pick({1, 1, 1, 2, 3, 5}); n-- > 0;) { std::string f = g.pick(by[g.pick(kinds)]); bool again = false; for (auto& x : faults) again |= x.file == f; if (!again) faults.push_back(damage(g, fs, other, f)); }
    }
    json fl = json::array(); Set gone, codes, whole; bool changes = false, isolated = true; std::map<std::string, int> left; for (auto& [k, v] : good) left[kindOf(k)]++;
    for (auto& f : faults) { fl.push_back(f.file + ": " + f.what); std::string k = kindOf(f.file); for (auto& x : closure(k)) codes.insert(x); if (f.file == "lines/") codes.insert("MISSING_DATA_SCHEDULES"); if (f.gone) { gone.insert(f.file); if (--left[k] == 0) whole.insert(k); } changes |= f.changes; isolated &= f.gone && (k == "schedules" || k == "survey"); c.label(k + (f.gone ? " gone" : " damaged")); }
    bool full = true; put(fs, t.dir()); note({{round ? "refresh" : "start", fl}});
    if (round == 0) t.start(d, all); else { std::string n = g.chance(60) || restored || !changes ? "all" : g.pick<std::string>({"schedules", "nodes", "lines", "paths", "scenarios", "agencies", "services", "schedules,nodes", "all,schedules"}); note({{"names", n}}); full = n.find("all") != std::string::npos; t.update(n); }
    // what an isolated absence leaves is served as if only that had been encoded
    bool reference = ref && isolated && full; Files rest = fs; if (reference) { for (auto it = rest.begin(); it != rest.end();) if (kindOf(it->first) == "survey" || gone.count(it->first)) it = rest.erase(it); else ++it; put(rest, ref->dir); ref->open(d, all); }
    std::string dataError;
    for (size_t i = 0; i < asks.size(); i++) {
      const Ask& a = asks[i]; note({{"get", show(a)}}); Resp r = t.get(a); c.evals++; if (c.wantDump) note({{"http", r.http}, {"answer", r.raw.substr(0, 1500)}});
      std::string st = status(r.body), code = r.body.is_object() ? r.body.value("errorCode", "") : "", why = " | GET " + show(a) + " | " + std::to_string(r.http) + " " + r.raw.substr(0, 400) + " | faults " + text(fl).substr(0, 800);
      c.label(st + (st == "data_error" ? " " + code : ""));
      if (!r.body.is_object()) fail("the answer is no JSON object" + why);
      if (st == "data_error") {
        if (r.http != 200 || !DATA.count(code)) fail("undocumented data error" + why);
        if (i && dataError != code) fail("the data error is not the same for all requests" + why); dataError = code;
        if (faults.empty() && full) fail("data error though nothing is missing" + why);
        if (!codes.count(code) && code != "DATA_ERROR" && full) fail("the data error names a kind that is not missing" + why);
        if (!changes && full && code == "DATA_ERROR") fail("the data error does not name the missing kind" + why);
        if (!changes && full && !whole.empty()) { bool ok = false; for (auto& k : whole) ok |= closure(k).count(code) && (code == "MISSING_DATA_" + [&] { std::string x = k; for (auto& ch : x) ch = (char)toupper(ch); return x; }()); if (!ok) { bool dep = false; for (auto& f : faults) if (closure(kindOf(f.file)).count(code) && !whole.count(kindOf(f.file))) dep = true; if (!dep) fail("the data error does not name the missing kind" + why); } }
      } else {
        if (i && !dataError.empty()) fail("some requests are answered in spite of the data error" + why);
        for (auto& k : whole) if (!closure(k).empty() && k != "footpaths" && full) fail("no data error though all " + k + " are missing" + why);
        if (st == "query_error") {
          if (r.http != 400) fail("query error without status 400" + why);
          bool scen = codes.count("MISSING_DATA_SCENARIOS"), serv = codes.count("MISSING_DATA_SERVICES");
          if (!(code == "MISSING_PARAM_SCENARIO" && (scen || !full)) && !(code == "EMPTY_SCENARIO" && (scen || serv || !full || d.scenarios[a.q.scenario].services.empty()))) fail("a correct request is called defective" + why);
        } else if (r.http != 200 || (st != "success" && st != "no_routing_found")) fail("undocumented answer" + why);
        else if (st == "success" && !changes && full && a.what == "route") { Ctx x(d, a.q); for (auto& rt : r.body.at("result").at("routes")) { std::string er = validateEncoding(x, rt); if (!er.empty()) fail(er + why); } }
        if (st == "success" || st == "no_routing_found") if (!faults.empty()) c.sigs.push_back(hashStr(show(a) + text(fl), h));
      }
      if (st == "data_error") c.sigs.push_back(hashStr(code + text(fl), h));
      if (reference) { Resp w = ref->get(a.what, a.p); bool same = w.body == r.body; if (http && w.http == 200) { json x = r.body, y = w.body; same = status(x) == status(y) && reason(x) == reason(y) && (status(y) != "success" || x == y); } if (w.http == 200 && !same) fail("what is left is not served as if it were all | expected " + text(w.body).substr(0, 600) + why); }
    }
    if (restored) c.label("restored");
  }
}
}

void addDamage(std::vector<Check>& v, const std::string& tier) {
  bool deep = tier == "thorough";
  Check k; k.id = "C17"; k.rule = "an answer served, or a data error named, after files were damaged; once per distinct (dataset, damage, request)";
  k.assumptions = {"Damage is applied between start-ups and refreshes, never while files are read."};
  if (haveMem()) { Search s{"files", [](Gen& g, Case& c) { InProcess t; c17(g, c, t, false); }, 100000000, deep ? 500.0 : 25.0, 60}; s.shrinkSeconds = 60; k.searches.push_back(s); }
  if (haveMem()) { Search s{"contradicting", [](Gen& g, Case& c) { InProcess t; c17(g, c, t, false, true); }, 100000000, deep ? 500.0 : 10.0, 60}; s.shrinkSeconds = 60; k.searches.push_back(s); }
  if (haveMem()) { Search s{"guided", [](Gen& g, Case& c) { InProcess t; c17(g, c, t, false); }, 100000000, deep ? 1200.0 : 12.0, 60}; s.shrinkSeconds = 60; s.guided = true; k.searches.push_back(s); }
  if (!gServerAsan.empty()) { Search s{"asan", [](Gen& g, Case& c) { Process t(gServerAsan); c17(g, c, t, true); }, 100000000, deep ? 300.0 : 15.0, 8}; s.shrinkSeconds = 60; s.wallLimit = 200; k.searches.push_back(s); }
  v.push_back(k);
}
