// C20: faults of the walking router.
#include "checks.hpp"
#include <algorithm>
#include <cmath>
#include <thread>
#include <unistd.h>

namespace {
using Set = std::set<std::string>;
const Set ROUTE_REASONS = {"NO_ACCESS_AT_ORIGIN_AND_DESTINATION", "NO_ACCESS_AT_ORIGIN", "NO_ACCESS_AT_DESTINATION", "NO_SERVICE_FROM_ORIGIN", "NO_SERVICE_TO_DESTINATION", "NO_ROUTING_FOUND"};
const Set ACCESS_REASONS = {"NO_ACCESS_AT_PLACE", "NO_SERVICE_AT_PLACE", "NO_ROUTING_FOUND"};
const Set CODES = {"EMPTY_SCENARIO", "MISSING_PARAM_SCENARIO", "MISSING_PARAM_ORIGIN", "MISSING_PARAM_DESTINATION", "MISSING_PARAM_PLACE", "MISSING_PARAM_TIME_OF_TRIP", "INVALID_ORIGIN", "INVALID_DESTINATION", "INVALID_PLACE", "INVALID_NUMERICAL_DATA", "PARAM_ERROR_UNKNOWN"};

// what a faulty reply lets the server know
enum Level { NOTHING, SOME, ANY };      // NOTHING: no table at all; SOME: a part of the true table; ANY: unspecified
struct Fault {
  std::string name; Level level = NOTHING; bool refuse = false;
  std::function<std::string(const std::string&)> make;      // from the honest reply
};
std::string body(const std::string& r) { size_t p = r.find("\r\n\r\n"); return p == std::string::npos ? "" : r.substr(p + 4); }

Fault genFault(Gen& g) {
  Fault f; auto mk = [&](const std::string& n, Level l, std::function<std::string(const std::string&)> m) { f.name = n; f.level = l; f.make = m; return f; };
  uint32_t seed = g.below(1u << 30); auto rnd = [seed](size_t n, size_t k) { return n ? (size_t)(mix64(seed, k) % n) : 0; };
  switch (g.below(18)) {
    case 0: { f.name = "refused"; f.refuse = true; f.make = [](const std::string&) { return std::string(); }; return f; }
    case 1: return mk("dropped", NOTHING, [](const std::string&) { return std::string(); });
    case 2: return mk("reset", NOTHING, [](const std::string&) { return Router::RESET; });
    case 3: case 4: { bool head = g.chance(30); int at = g.pick({0, 1, 2, 3, 4}); return mk("truncated", NOTHING, [=](const std::string& h) { size_t hd = h.find("\r\n\r\n") + 4; size_t n = h.size(); size_t k = head ? rnd(hd, 1) : at == 0 ? hd : at == 1 ? n - 1 : at == 2 ? hd - 2 : hd + rnd(n - hd, 2); return h.substr(0, std::min(k, n - 1)); }); }
    case 5: case 6: { std::string st = g.pick<std::string>({"500 Internal Server Error", "503 Service Unavailable", "502 Bad Gateway", "504 Gateway Timeout", "400 Bad Request", "404 Not Found", "403 Forbidden", "429 Too Many Requests", "414 URI Too Long", "301 Moved Permanently"}); int kind = g.below(4);
      return mk("status " + st + (kind < 2 ? " with a table" : ""), NOTHING, [=](const std::string& h) { return Router::http(kind < 2 ? body(h) : kind == 2 ? std::string() : "{\"code\":\"InvalidQuery\",\"message\":\"no\"}", st); }); }
    case 7: { bool len = g.chance(60); return mk("empty body", NOTHING, [=](const std::string&) { return len ? Router::http("") : std::string("HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n"); }); }
    case 8: case 9: { std::string b = g.pick<std::string>({"<html><body>Bad gateway</body></html>", "{", "null", "[]", "123", "\"durations\"", "true", "{}", "{\"durations\":", "{'durations':[[0,1]]}", "\xff\xfe\x00", "[[0,60],[0,60]]", std::string(50000, '['), "{\"durations\":[[0,10]],\"distances\":[[0,10]]", "\xef\xbb\xbf", "NaN", "{\"a\":1}{\"b\":2}", " ", "\n\n\n", "-", std::string(200000, ' ')});
      return mk("body " + b.substr(0, 30), NOTHING, [=](const std::string&) { return Router::http(b); }); }
    case 10: { int k = g.below(11); return mk("no durations " + std::to_string(k), NOTHING, [=](const std::string& h) { json j = json::parse(body(h), nullptr, false);
      switch (k) { case 0: j.erase("durations"); break; case 1: j["durations"] = nullptr; break; case 2: j["durations"] = json::array(); break; case 3: j["durations"] = {json::array()}; break; case 4: j["durations"] = json::array({nullptr}); break; case 5: j["durations"] = "x"; break; case 6: j["durations"] = 5; break; case 7: j["durations"] = json::object(); break; case 8: j = {{"code", "NoTable"}, {"message", "no"}}; break; case 9: j = {{"code", "Ok"}}; break; default: j.erase("durations"); j["code"] = "NotImplemented"; }
      return Router::http(j.dump()); }); }
    case 11: { int k = g.below(7); return mk("no distances " + std::to_string(k), ANY, [=](const std::string& h) { json j = json::parse(body(h), nullptr, false);
      switch (k) { case 0: j.erase("distances"); break; case 1: j["distances"] = nullptr; break; case 2: j["distances"] = json::array(); break; case 3: j["distances"] = {json::array()}; break; case 4: j["distances"] = json::array({nullptr}); break; case 5: j["distances"] = "x"; break; default: j["distances"] = json::object(); }
      return Router::http(j.dump()); }); }
    case 12: case 13: { int which = g.below(3), dense = g.pick({100, 100, 50, 25}); return mk("null entries", dense == 100 && which != 1 ? NOTHING : which == 1 ? ANY : SOME, [=](const std::string& h) { json j = json::parse(body(h), nullptr, false);
      for (auto n : {"durations", "distances"}) if (which == 2 || (which == 0) == (n[1] == 'u')) for (auto& row : j[n]) for (size_t i = 0; i < row.size(); i++) if (dense == 100 || (int)rnd(100, i * 7 + 1) < dense) row[i] = nullptr;
      return Router::http(j.dump()); }); }
    case 14: case 15: { int which = g.below(3), keep = g.pick({-1, -1, 0, 1, 2}); return mk("fewer entries", which != 1 && (keep == 0 || keep == 1) ? NOTHING : which == 1 ? ANY : SOME, [=](const std::string& h) { json j = json::parse(body(h), nullptr, false);
      for (auto n : {"durations", "distances"}) if (which == 2 || (which == 0) == (n[1] == 'u')) for (auto& row : j[n]) { size_t k = keep >= 0 ? (size_t)keep : rnd(row.size(), 3); while (row.size() > k) row.erase(row.size() - 1); }
      return Router::http(j.dump()); }); }
    case 16: { bool chunked = g.chance(60); int at = g.below(4); return mk("truncated " + std::string(chunked ? "chunks" : "stream"), NOTHING, [=](const std::string& h) { std::string b = body(h), r = "HTTP/1.1 200 OK\r\n"; size_t hd;
      if (chunked) { r += "Transfer-Encoding: chunked\r\n\r\n"; hd = r.size(); size_t first = 1 + rnd(b.size() - 1, 4); char x[32]; for (int i = 0; i < 2; i++) { std::string part = i ? b.substr(first) : b.substr(0, first); snprintf(x, sizeof x, "%zx\r\n", part.size()); r += x + part + "\r\n"; } }
      else { r += "Connection: close\r\n\r\n"; hd = r.size(); r += b; }
      return r.substr(0, at == 0 ? hd : at == 1 ? r.size() - 1 - (chunked ? 2 : 0) : hd + rnd(r.size() - hd - 3, 5)); }); }
    default: { int k = g.below(3); return mk("other types " + std::to_string(k), k == 2 ? SOME : NOTHING, [=](const std::string& h) { json j = json::parse(body(h), nullptr, false);
      for (auto& row : j["durations"]) for (size_t i = 0; i < row.size(); i++) if (k < 2 || rnd(2, i) == 0) row[i] = k == 0 ? json("far") : k == 1 ? json(json::array({1})) : json("far");
      return Router::http(j.dump()); }); }
  }
}

struct Ask { std::string what; Params p; Query q; Set places; };
std::string show(const Ask& a) { return target("/v2/" + a.what, a.p); }
Resp fetch(HttpBackend& b, const Ask& a) {
  Parsed x = parseHttp(rawGet(b.srv.port, show(a), 25000));
  if (!x.ok) { usleep(50000); if (!b.srv.alive()) fail("the server died on GET " + show(a) + ": " + b.srv.describe()); fail("GET " + show(a) + ": " + x.why); }
  Resp r; r.http = x.status; r.raw = x.body; r.body = json::parse(x.body, nullptr, false); return r;
}

void c20(Gen& g, Case& c, HttpBackend& b, int threads) {
  GenOpt go; go.full = true; go.places = 4; DS d = genDataset(g, go); if (d.trips.empty() || d.places.size() < 2) return;
  json log = json::array(); auto note = [&](const json& j) { if (c.wantDump) { log.push_back(j); c.dump = json{{"data", d.dump()}, {"threads", threads}, {"history", log}}.dump(-1, ' ', false, json::error_handler_t::replace); } };
  bool life = g.chance(6); struct Restore { HttpBackend& b; ~Restore() { b.opt.nofile = 0; } } restore{b}; if (life) { b.opt.nofile = 100; c.label("long life"); }
  b.opt.threads = threads; b.router.refuse(false); b.router.setFault(nullptr); b.router.farUnknown = false; b.router.keep = g.chance(60); b.load(d, g.chance(50)); uint64_t h = dsHash(d);
  std::vector<Ask> asks; std::vector<Resp> base;
  for (int n = g.range(4, 8); n-- > 0;) {
    Ask a; a.q = genQuery(g, d, {.alt = 2}); a.what = g.pick<std::string>({"route", "route", "route", "accessibility", "summary"}); bool acc = a.what == "accessibility"; a.p = acc ? a.q.accessParams(d) : a.q.routeParams(d);
    auto key = [&](int pl) { return coord(d.places[pl].lon) + "," + coord(d.places[pl].lat); };
    if (acc) a.places.insert(key(a.q.forward ? a.q.origin : a.q.dest)); else { a.places.insert(key(a.q.origin)); a.places.insert(key(a.q.dest)); }
    asks.push_back(a);
  }
  for (auto& a : asks) { base.push_back(fetch(b, a)); note({{"get", show(a)}, {"healthy", base.back().body}}); }
  auto same = [&](const Resp& r, const Resp& w) { return r.http == w.http && r.body == w.body; };
  int rounds = g.range(2, 5);
  for (int round = 0; round < rounds; round++) {
    Fault f = genFault(g); Set hit; bool allPlaces = f.refuse || g.chance(40); for (auto& p : d.places) if (allPlaces || g.chance(40)) hit.insert(coord(p.lon) + "," + coord(p.lat));
    std::atomic<long> used{0}; std::string pref = "/table/v1/";
    if (f.refuse) b.router.refuse(true);
    else b.router.setFault([&, make = f.make](const std::string& t, const std::string& honest) { size_t q = t.find('?'), sl = t.substr(0, q).rfind('/'); std::string first = t.substr(sl + 1, q == std::string::npos ? q : q - sl - 1); first = first.substr(0, first.find(';')); double lo = 0, la = 0; sscanf(first.c_str(), "%lf,%lf", &lo, &la);
        if (!hit.count(coord(lo) + "," + coord(la))) return honest; used++; return make(honest); });
    std::vector<size_t> idx; for (size_t i = 0; i < asks.size(); i++) for (int k = g.pick({0, 1, 1, 2}); k-- > 0;) idx.push_back(i); if (life) for (size_t k = 0; k < 60; k++) idx.push_back(k * 5 % asks.size()); for (size_t i = idx.size(); i > 1; i--) std::swap(idx[i - 1], idx[g.below((uint32_t)i)]);
    note({{"fault", f.name}, {"places", hit}, {"asked", idx}});
    std::vector<Resp> got(idx.size()); std::vector<std::string> err(idx.size());
    if (threads > 1 && g.chance(70)) { std::vector<std::thread> th; std::atomic<size_t> nx{0}; for (int t = 0; t < 4; t++) th.emplace_back([&] { for (size_t i; (i = nx++) < idx.size();) try { got[i] = fetch(b, asks[idx[i]]); } catch (Violation& v) { err[i] = v.msg; } catch (std::exception& e) { err[i] = e.what(); } }); for (auto& t : th) t.join(); for (auto& e : err) if (!e.empty()) fail(e + " | fault " + f.name); }
    else for (size_t i = 0; i < idx.size(); i++) try { got[i] = fetch(b, asks[idx[i]]); } catch (Violation& v) { fail(v.msg + " | fault " + f.name); }
    for (size_t i = 0; i < idx.size(); i++) {
      const Ask& a = asks[idx[i]]; const Resp &r = got[i], &w = base[idx[i]]; c.evals++; bool affected = false; for (auto& p : a.places) affected |= hit.count(p) > 0;
      std::string why = " | GET " + show(a) + " | fault: " + f.name + " | " + std::to_string(r.http) + " " + r.raw.substr(0, 500);
      if (!affected) { if (!same(r, w)) fail("a request that needs no faulty answer of the router is answered otherwise" + why + " | healthy " + w.raw.substr(0, 500)); continue; }
      std::string st = status(r.body); bool acc = a.what == "accessibility";
      if (!r.body.is_object()) fail("the answer is no JSON object" + why);
      if (r.http == 400) { if (st != "query_error" || !CODES.count(r.body.value("errorCode", ""))) fail("undocumented query error" + why); }
      else if (r.http != 200) fail("undocumented status" + why);
      else if (st == "no_routing_found") { if (!(acc ? ACCESS_REASONS : ROUTE_REASONS).count(reason(r.body))) fail("undocumented reason" + why); }
      else if (st == "success") {
        bool empty = a.what == "summary" && r.body.at("result").value("nbRoutes", -1) == 0;
        if (f.level == NOTHING && !empty && status(w.body) == "success") fail("success though the walking router said nothing" + why);
        if (f.level == SOME && a.what == "route") { Ctx x(d, a.q); for (auto& rt : r.body.at("result").at("routes")) { std::string e = validateItinerary(x, rt); if (!e.empty()) fail(e + why); } }
        if (f.level == NOTHING && !empty) fail("success though the walking router said nothing" + why);
      } else fail("undocumented answer" + why);
      c.label((f.refuse ? "refused" : f.name.substr(0, f.name.find_first_of(" 0123456789"))) + " -> " + (r.http == 400 ? "query_error" : st));
      if (status(w.body) == "success") c.sigs.push_back(hashStr(show(a) + f.name, h));
    }
    if (f.refuse) b.router.refuse(false); else b.router.setFault(nullptr);
    note("recovered");
    for (size_t i = 0; i < asks.size(); i++) if (round + 1 == rounds || g.chance(60)) { Resp r = fetch(b, asks[i]); c.evals++; if (!same(r, base[i])) failf("after the router recovered the answer differs | GET ", show(asks[i]), " | fault: ", f.name, " | ", r.http, " ", r.raw.substr(0, 500), " | healthy ", base[i].raw.substr(0, 500)); c.label("recovered"); }
  }
  if (!b.srv.alive()) fail("the server died: " + b.srv.describe());
}
}

void addRouter(std::vector<Check>& v, const std::string& tier) {
  bool deep = tier == "thorough";
  Check k; k.id = "C20"; k.rule = "a request with a healthy success, asked while a lookup it needs was faulty; once per distinct (dataset, request, fault)";
  k.assumptions = {"The router answers or closes; it never keeps a connection open silently (the client has no time limit)."};
  if (!gServerBin.empty()) { Search s{"http", [](Gen& g, Case& c) { c20(g, c, httpBackend(), g.pick({1, 1, 4})); httpBackend().opt.threads = 1; }, 100000000, deep ? 300.0 : 22.0, 12}; s.shrinkSeconds = 60; s.wallLimit = 150; s.reproTries = 5; s.reproNeeded = 1; k.searches.push_back(s); }
  if (!gServerAsan.empty()) { Search s{"asan", [](Gen& g, Case& c) { auto& b = httpBackend(3, gServerAsan); c20(g, c, b, g.pick({1, 4})); b.opt.threads = 1; }, 100000000, deep ? 200.0 : 15.0, 6}; s.shrinkSeconds = 60; s.wallLimit = 200; s.reproTries = 5; s.reproNeeded = 1; k.searches.push_back(s); }
  v.push_back(k);
}
