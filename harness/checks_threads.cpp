// C14: concurrent requests against the same loaded data.
#include "checks.hpp"
#include <algorithm>
#include <condition_variable>
#include <cstring>
#include <mutex>
#include <thread>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66:report_signal_unsafe=0:die_after_fork=0"; }
extern "C" const char* __tsan_default_suppressions() { return "race:harness/http.cpp\nthread:harness/http.cpp\nsignal:*\n"; }   // the harness's own stub of the walking router
#endif
#endif

// ---- forced schedules: a thread runs alone until its next point, then the tape says who goes on ----
namespace {
struct Sched {
  enum St { RUN, PARK, DONE };
  struct W { St st = RUN; bool go = false; const char* at = ""; };
  std::mutex m; std::condition_variable cv; std::vector<W> w;
  explicit Sched(size_t n) : w(n) {}
  void park(size_t i, const char* n) { std::unique_lock<std::mutex> l(m); w[i].st = PARK; w[i].at = n; cv.notify_all(); cv.wait(l, [&] { return w[i].go; }); w[i].go = false; }
  void done(size_t i) { std::lock_guard<std::mutex> l(m); w[i].st = DONE; cv.notify_all(); }
};
thread_local Sched* tSched = nullptr; thread_local size_t tIdx = 0;
}
extern "C" void trrouting_verif_point(const char* name) { if (tSched) tSched->park(tIdx, name); }

namespace {
struct Ask { std::string what; Params p; int scenario; };
std::string show(const Ask& a) { return target("/v2/" + a.what, a.p); }
bool same(const Resp& a, const Resp& b) { return a.http == b.http && a.body == b.body; }

// at least two scenarios, chosen so that the trips they allow differ where possible
DS dataset(Gen& g, bool full) {
  GenOpt go; go.full = full; DS d = g.chance(20) ? hubDataset(g, full) : genDataset(g, go);
  while (d.scenarios.size() < 3) d.scenarios.push_back(genScenario(g, d, (unsigned)(30 + d.scenarios.size()), 0, d.scenarios.size() < 2));
  return d;
}
std::vector<Ask> asks(Gen& g, const DS& d, int n) {
  std::vector<Ask> r; Query last;
  for (int i = 0; i < n; i++) {
    Query q = genQuery(g, d, {.alt = 2}); if (i && g.chance(50)) { int s = q.scenario; q = last; q.scenario = s; }     // the same question under another scenario
    if (i && g.chance(60)) { int k = (int)g.below((uint32_t)d.scenarios.size()); q.scenario = k; }
    last = q; Ask a; a.what = g.pick<std::string>({"route", "route", "route", "accessibility", "summary"}); a.p = a.what == "accessibility" ? q.accessParams(d) : q.routeParams(d); a.scenario = q.scenario; r.push_back(a);
  }
  return r;
}
struct Job { size_t ask; Resp r; std::string err; };

// returns the schedule as text; how: labels what happened at the cache
std::string runForced(Gen& g, const std::vector<Ask>& as, std::vector<std::vector<Job>>& js, Backend& b, std::set<std::string>& how) {
  size_t n = js.size(); Sched s(n); std::vector<std::thread> th; std::string trace; int sticky = g.pick({0, 30, 60, 85, 95}); bool nearCache = g.chance(60);
  for (size_t i = 0; i < n; i++) th.emplace_back([&, i] {
    tSched = &s; tIdx = i;
    for (auto& j : js[i]) { s.park(i, "ask"); try { j.r = b.get(as[j.ask].what, as[j.ask].p); } catch (Violation& v) { j.err = v.msg; } catch (std::exception& e) { j.err = e.what(); } }
    tSched = nullptr; s.done(i); });
  std::vector<int> cur(n, -1), between(n, 0), held(n, -1); std::vector<size_t> nth(n, 0); long steps = 0; size_t last = n; std::string stuck; std::unique_lock<std::mutex> l(s.m);
  for (;;) {
    auto parked = [&] { std::vector<size_t> r; for (size_t i = 0; i < n; i++) if (s.w[i].st == Sched::PARK && !s.w[i].go) r.push_back(i); return r; };
    auto alldone = [&] { for (auto& x : s.w) if (x.st != Sched::DONE) return false; return true; };
    auto settled = [&] { for (auto& x : s.w) if (x.st == Sched::RUN || x.go) return false; return true; };
    s.cv.wait_for(l, std::chrono::milliseconds(250), settled);           // a thread that still runs waits for a lock that a parked one holds
    if (alldone()) break;
    auto ps = parked(); if (ps.empty()) { if (!s.cv.wait_for(l, std::chrono::seconds(30), [&] { return alldone() || !parked().empty(); })) { stuck = "no thread makes progress"; break; } continue; }
    size_t k = ps[0];
    if (ps.size() > 1) {
      bool stay = last < n && std::find(ps.begin(), ps.end(), last) != ps.end(); const char* at = stay ? s.w[last].at : "";
      bool hot = !strcmp(at, "hit") || !strcmp(at, "miss") || !strcmp(at, "publish") || !strcmp(at, "published");
      if (stay && steps < 4000 && (hot && nearCache ? g.chance(25) : g.chance(sticky))) k = last; else if (steps < 4000) { k = ps[g.below((uint32_t)ps.size())]; } else k = ps[0];
    }
    std::string at = s.w[k].at; steps++;
    if (at == "ask") { held[k] = -1; between[k] = 0; cur[k] = as[js[k][nth[k]++].ask].scenario; }
    if (at == "miss") between[k] = 1;
    if (at == "published") between[k] = 0;
    if (at == "hit" || at == "published") held[k] = cur[k];
    if (at == "publish") for (size_t o = 0; o < n; o++) if (o != k && s.w[o].st != Sched::DONE) { if (held[o] >= 0) how.insert(held[o] != cur[k] ? "another scenario published while one is in use" : "the scenario in use published again"); if (between[o]) how.insert(cur[o] != cur[k] ? "two scenarios computed at once" : "one scenario computed twice"); }
    if (trace.size() < 6000 && !(at == "log" && last == k)) trace += std::to_string(k) + at + " ";
    last = k; s.w[k].go = true; s.w[k].st = Sched::RUN; s.cv.notify_all();
  }
  l.unlock();
  if (!stuck.empty()) { printf("%s\n", (stuck + " " + trace).c_str()); fflush(stdout); fail(stuck + " | schedule " + trace); }      // the threads are lost with the process
  for (auto& t : th) t.join();
  return trace;
}
void runFree(const std::vector<Ask>& as, std::vector<std::vector<Job>>& js, const std::function<Resp(const Ask&)>& get) {
  std::atomic<size_t> ready{0}; std::vector<std::thread> th;
  for (size_t i = 0; i < js.size(); i++) th.emplace_back([&, i] { ready++; while (ready < js.size()) std::this_thread::yield(); for (auto& j : js[i]) try { j.r = get(as[j.ask]); } catch (Violation& v) { j.err = v.msg; } catch (std::exception& e) { j.err = e.what(); } });
  for (auto& t : th) t.join();
}
void judge(const DS& d, const std::vector<Ask>& as, const std::vector<Resp>& base, const std::vector<std::vector<Job>>& js, Case& c, const std::string& more, bool deep) {
  std::set<int> sc; bool ok = false;
  for (auto& w : js) for (auto& j : w) {
    c.evals++; if (!j.err.empty()) fail(j.err + more);
    if (!same(j.r, base[j.ask])) failf("served among others the answer differs | GET ", show(as[j.ask]), " | ", j.r.http, " ", j.r.body.dump().substr(0, 700), " | alone ", base[j.ask].http, " ", base[j.ask].body.dump().substr(0, 700), more);
    sc.insert(as[j.ask].scenario); ok |= status(base[j.ask].body) == "success";
  }
  if (ok && sc.size() > 1 && deep) c.sigs.push_back(hashStr(more, dsHash(d)));
}

void c14mem(Gen& g, Case& c, bool forced) {
  DS d = dataset(g, false); if (d.trips.empty() || d.places.size() < 2) return;
  bool all = g.chance(40), logs = g.chance(30); Backend &b = memBackend(0), &ref = memBackend(1); logPoints(false);
  b.load(d, all); ref.load(d, !all); auto as = asks(g, d, g.range(2, 6)); json log = json::array(); std::vector<Resp> base;
  auto note = [&](const json& j) { log.push_back(j); if (c.wantDump) c.dump = json{{"data", d.dump()}, {"cacheAll", all}, {"history", log}}.dump(-1, ' ', false, json::error_handler_t::replace); };
  for (auto& a : as) { base.push_back(ref.get(a.what, a.p)); if (c.wantDump) note({{"get", show(a)}, {"alone", base.back().body}}); }
  int rounds = g.range(1, 3);
  for (int r = 0; r < rounds; r++) {
    std::vector<std::vector<Job>> js(forced ? g.pick({2, 2, 2, 3, 3, 4}) : 4); for (auto& w : js) for (int k = forced ? g.range(1, 3) : g.range(2, 6); k-- > 0;) w.push_back({g.below((uint32_t)as.size()), {}, ""});
    json jd = json::array(); for (auto& w : js) { json x = json::array(); for (auto& j : w) x.push_back(j.ask); jd.push_back(x); }
    std::string more; std::set<std::string> how;
    if (forced) { logPoints(logs); std::string t; try { t = runForced(g, as, js, b, how); } catch (...) { logPoints(false); note({{"threads", jd}}); throw; } logPoints(false); note({{"threads", jd}, {"schedule", t}}); more = " | threads " + jd.dump() + " | schedule " + t.substr(0, 1500); }
    else { note({{"threads", jd}}); if (c.wantDump) fprintf(stderr, "%s\n", c.dump.c_str()); runFree(as, js, [&](const Ask& a) { return b.get(a.what, a.p); }); more = " | threads " + jd.dump(); }
    for (auto& h : how) c.label(h);
    judge(d, as, base, js, c, more, !forced || !how.empty());
  }
  for (size_t i = 0; i < as.size(); i++) { Resp r = b.get(as[i].what, as[i].p); c.evals++; if (!same(r, base[i])) failf("later, alone, the answer differs | GET ", show(as[i]), " | ", r.body.dump().substr(0, 700), " | before ", base[i].body.dump().substr(0, 700)); }
}

Resp fetch(HttpBackend& b, const Ask& a) {
  Parsed x = parseHttp(rawGet(b.srv.port, show(a), 60000));
  if (!x.ok) fail("GET " + show(a) + ": " + x.why);
  Resp r; r.http = x.status; r.raw = x.body; r.body = json::parse(x.body, nullptr, false); return r;
}
void c14http(Gen& g, Case& c, HttpBackend& b, bool tsan) {
  DS d = dataset(g, true); if (d.trips.empty() || d.places.size() < 2) return;
  b.opt.threads = g.pick({2, 3, 4, 8}); b.router.onRequest = nullptr; bool all = g.chance(40); b.load(d, all); auto as = asks(g, d, g.range(3, 8)); std::vector<Resp> base; json log = json::array();
  auto note = [&](const json& j) { if (c.wantDump) { log.push_back(j); c.dump = json{{"data", d.dump()}, {"cacheAll", all}, {"threads", b.opt.threads}, {"history", log}}.dump(-1, ' ', false, json::error_handler_t::replace); } };
  // the router holds lookups back until as many are waiting, so that requests reach the same place together
  struct Gate { std::mutex m; std::condition_variable cv; int want = 0, n = 0; long epoch = 0; } gate;
  b.router.onRequest = [&](const std::string&) { std::unique_lock<std::mutex> l(gate.m); if (gate.want < 2) return true; long e = gate.epoch; if (++gate.n >= gate.want) { gate.n = 0; gate.epoch++; gate.cv.notify_all(); } else if (!gate.cv.wait_for(l, std::chrono::milliseconds(5), [&] { return gate.epoch != e; })) { gate.n = 0; gate.epoch++; gate.cv.notify_all(); } return true; };
  struct Off { HttpBackend& b; ~Off() { b.srv.stop(); usleep(1000); b.router.onRequest = nullptr; b.opt.threads = 1; } } off{b};
  auto die = [&](const std::string& m) { usleep(200000); if (!b.srv.alive()) fail("the server died: " + b.srv.describe() + " | " + m); fail(m); };
  for (auto& a : as) { try { base.push_back(fetch(b, a)); } catch (Violation& v) { die(v.msg); } note({{"get", show(a)}, {"alone", base.back().body}}); }
  int rounds = tsan ? g.range(1, 2) : g.range(2, 4);
  for (int r = 0; r < rounds; r++) {
    std::vector<std::vector<Job>> js(g.range(2, 10)); for (auto& w : js) for (int k = g.range(1, tsan ? 4 : 8); k-- > 0;) w.push_back({g.below((uint32_t)as.size()), {}, ""});
    json jd = json::array(); for (auto& w : js) { json x = json::array(); for (auto& j : w) x.push_back(j.ask); jd.push_back(x); }
    { std::lock_guard<std::mutex> l(gate.m); gate.want = g.pick({0, 2, 2, 3, 4}); } note({{"clients", jd}, {"gate", gate.want}});
    runFree(as, js, [&](const Ask& a) { return fetch(b, a); });
    try { judge(d, as, base, js, c, " | clients " + jd.dump() + " gate " + std::to_string(gate.want), true); } catch (Violation& v) { die(v.msg); }
  }
  { std::lock_guard<std::mutex> l(gate.m); gate.want = 0; }
  for (size_t i = 0; i < as.size(); i++) { Resp r; try { r = fetch(b, as[i]); } catch (Violation& v) { die(v.msg); } c.evals++; if (!same(r, base[i])) failf("later, alone, the answer differs | GET ", show(as[i]), " | ", r.raw.substr(0, 700), " | before ", base[i].raw.substr(0, 700)); }
  if (!b.srv.alive()) fail("the server died: " + b.srv.describe());
}
}

void addThreads(std::vector<Check>& v, const std::string& tier) {
  bool deep = tier == "thorough";
  Check k; k.id = "C14"; k.rule = "a round of concurrent requests over at least two scenarios with at least one success (forced: in which a set was published or computed while another thread held or computed one); once per distinct (dataset, requests, schedule)";
  k.assumptions = {"Forced schedules switch at the cache points, the walking lookups and (in part of the cases) every log message; between those, the free-running searches under ThreadSanitizer decide."};
  if (haveMem()) {
    k.searches.push_back({"forced", [](Gen& g, Case& c) { c14mem(g, c, true); }, 100000000, deep ? 240.0 : 15.0, 40});
    Search s{"free", [](Gen& g, Case& c) { c14mem(g, c, false); }, 100000000, deep ? 180.0 : 12.0, 20}; s.reproNeeded = 0; s.reproTries = 6; s.workers = 4; k.searches.push_back(s);
  }
  auto add = [&](const char* n, int slot, std::string bin, bool tsan, double sec, int workers) { Search s{n, [=](Gen& g, Case& c) { c14http(g, c, httpBackend(slot, bin), tsan); }, 100000000, sec, 8}; s.reproNeeded = 0; s.reproTries = 6; s.workers = workers; s.shrinkSeconds = 30; s.wallLimit = 200; k.searches.push_back(s); };
  if (!gServerTsan.empty()) add("http-tsan", 5, gServerTsan, true, deep ? 200.0 : 14.0, 4);
  if (!gServerBin.empty()) add("http", 0, gServerBin, false, deep ? 200.0 : 14.0, 4);
  v.push_back(k);
}
