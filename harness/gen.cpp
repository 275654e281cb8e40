// Generators of datasets, scenarios and queries.
#include "ds.hpp"
#include <algorithm>
#include <cmath>
#include <set>
#include <cstdio>
#include <tuple>

std::string uuidFor(char kind, unsigned idx, unsigned salt) {
  uint64_t a = mix64(mix64((uint64_t)kind, idx), salt), b = mix64(a, 77);
  switch (salt / 4) {   // identifiers that differ in a part only, or are numbered
    case 1: a = 0x6f1d2c3b4a594871ULL; break;
    case 2: { b = 0x9d3c5f7e1a2b4c6dULL; break; }
    case 3: a = 0; b = ((uint64_t)(unsigned char)kind << 20) + idx; break;
    default: break;
  }
  char buf[64];
  snprintf(buf, sizeof buf, "%08x-%04x-%04x-%04x-%012llx", (unsigned)(a >> 32), (unsigned)(a >> 16) & 0xffff, (unsigned)a & 0xffff, (unsigned)(b >> 48) & 0xffff, (unsigned long long)(b & 0xffffffffffffULL));
  return buf;
}
std::string coord(double v) { char b[64]; snprintf(b, sizeof b, "%.6f", v); return b; }

bool DS::admits(const DScenario& s, const DTrip& t) const {
  auto has = [](auto const& v, auto const& x) { return std::find(v.begin(), v.end(), x) != v.end(); };
  const DLine& l = lineOf(t); int li = paths[t.path].line;
  if (!has(s.services, t.service)) return false;
  if (!s.onlyLines.empty() && !has(s.onlyLines, li)) return false;
  if (!s.onlyAgencies.empty() && !has(s.onlyAgencies, l.agency)) return false;
  if (!s.onlyModes.empty() && !has(s.onlyModes, l.mode)) return false;
  if (has(s.exceptLines, li) || has(s.exceptAgencies, l.agency) || has(s.exceptModes, l.mode)) return false;
  return true;
}

DScenario genScenario(Gen& g, const DS& d, unsigned idx, unsigned salt, bool restrictive) {
  DScenario s; s.uuid = uuidFor('S', idx, salt); s.name = "scenario" + std::to_string(idx);
  for (size_t i = 0; i < d.services.size(); i++) if (!restrictive || g.mostly(70)) s.services.push_back((int)i);
  if (s.services.empty()) s.services.push_back((int)g.below((uint32_t)d.services.size()));
  if (g.chance(6)) { int v = s.services[g.below((uint32_t)s.services.size())]; s.services.insert(s.services.begin() + g.below((uint32_t)s.services.size() + 1), v); }   // listed twice
  if (!restrictive) return s;
  std::vector<std::string> modes; for (auto& l : d.lines) if (std::find(modes.begin(), modes.end(), l.mode) == modes.end()) modes.push_back(l.mode);
  if (g.chance(10)) modes.push_back("gondola");
  auto some = [&](size_t n, int p) { std::vector<int> v; for (size_t i = 0; i < n; i++) if (g.chance(p)) v.push_back((int)i); return v; };
  if (g.chance(30)) {   // every list is likely to be there, and few trips are out for more than one reason
    if (g.chance(50)) s.onlyLines = some(d.lines.size(), 85);
    if (g.chance(50)) s.exceptLines = some(d.lines.size(), 15);
    if (g.chance(50)) s.onlyAgencies = some(d.agencies.size(), 85);
    if (g.chance(50)) s.exceptAgencies = some(d.agencies.size(), 25);
    if (g.chance(50)) for (auto& m : modes) if (g.mostly(85)) s.onlyModes.push_back(m);
    if (g.chance(50)) for (auto& m : modes) if (g.chance(15)) s.exceptModes.push_back(m);
    return s;
  }
  if (g.chance(25)) s.onlyLines = some(d.lines.size(), 60);
  if (g.chance(20)) s.exceptLines = some(d.lines.size(), 30);
  if (g.chance(20)) s.onlyAgencies = some(d.agencies.size(), 60);
  if (g.chance(20)) s.exceptAgencies = some(d.agencies.size(), 35);
  if (g.chance(20)) for (auto& m : modes) if (g.chance(60)) s.onlyModes.push_back(m);
  if (g.chance(20)) for (auto& m : modes) if (g.chance(35)) s.exceptModes.push_back(m);
  if (g.chance(8)) s.onlyNodes = some(d.nodes.size(), 40);      // carried by the files; documented as without effect on trips
  if (g.chance(8)) s.exceptNodes = some(d.nodes.size(), 40);
  return s;
}

static void spreadOut(Gen& g, DS& d, int mode);
static void decorate(Gen& g, DS& d);
DS genDataset(Gen& g, const GenOpt& o) {
  DS d;
  d.unit = g.pick({60, 60, 60, 30, 300, 1, 600, 7, 61});
  unsigned salt = g.below(4) + (g.mostly(80) ? 0 : 4 * (unsigned)g.range(1, 3));
  int span = g.pick({20, 10, 40, 60, 80});                       // window of departures in units
  d.window = span * d.unit;
  switch (g.below(8)) {
    case 0: d.base = 28800; break;
    case 1: d.base = 3600 * g.range(1, 30) - d.unit * g.range(0, span); break;           // around an hour boundary
    case 2: d.base = d.unit * g.range(0, 5); break;                                      // next to 0:00
    case 3: d.base = 86400 - d.unit * g.range(0, span); break;                           // around midnight
    case 4: d.base = CLOCK_END - 1 - d.window - d.unit * g.range(0, 12); break;          // next to 32:00
    case 5: d.base = 3600 * g.range(0, 31); break;
    case 6: d.base = g.range(0, CLOCK_END - 1); break;
    default: d.base = 36000; break;
  }
  d.base = std::max(0, std::min(d.base, CLOCK_END - 1));
  // rare shapes: 1 a chain of short rides, 2 paths with hundreds of stops, 3 a crowd of stops and trips
  int shape = g.chance(12) ? g.pick({1, 1, 1, 1, 1, 1, 2, 3}) : 0;
  if (shape == 2) { d.unit = g.pick({60, 30, 1, 7}); d.base = std::min(d.base, g.range(0, 12) * 3600); }
  int u = d.unit;
  int N = g.range(2, std::max(2, g.chance(20) ? o.maxNodes + 4 : o.maxNodes));
  if (shape == 1) N = g.range(5, 14); else if (shape == 3) N = g.range(20, 60);
  for (int i = 0; i < N; i++) {
    DNode n; n.uuid = uuidFor('N', i, salt); n.name = "Stop " + std::to_string(i); n.code = "S" + std::to_string(i);
    n.lat = 45.5 + 1e-6 * (i % 4 + (i / 40) * 8); n.lon = -73.6 + 3e-6 - 1e-6 * (i % 40 / 4);   // all within a metre of the places (which lie between the two blocks): the router's table decides
    n.foot.push_back({i, 0, 0}); d.nodes.push_back(n);
  }
  int footP = g.pick({15, 0, 30, 50}); if (shape == 3) footP = g.pick({2, 5, 0});
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (i != j && footP && g.chance(footP)) {
    int t = g.chance(10) ? 0 : g.range(1, 6) * u - (g.chance(10) && u > 1 ? 1 : 0);
    if (g.chance(6)) t = 1200 + g.range(-1, 1);
    int dist = t + g.range(0, 50);
    d.nodes[i].foot.push_back({j, t, dist});
  }
  int A = g.range(1, 3), S = g.chance(8) ? g.range(4, 10) : g.range(1, 3), L = g.range(1, o.maxLines); if (shape == 3) L = g.range(8, 24); else if (shape == 1) L = g.range(1, N - 1);
  for (int i = 0; i < A; i++) d.agencies.push_back({uuidFor('A', i, salt), "AG" + std::to_string(i), "Agency " + std::to_string(i)});
  for (int i = 0; i < S; i++) d.services.push_back({uuidFor('V', i, salt), "Service " + std::to_string(i)});
  for (int i = 0; i < L; i++) {
    std::string m = "bus"; if (g.chance(35)) m = g.pick<std::string>({"rail", "metro", "tram", "water", "rail", "metro", "highSpeedRail", "monorail", "tramTrain", "gondola", "funicular", "taxi", "cableCar", "horse", "other"});
    if (!o.uniformWait && g.chance(12)) m = "transferable";
    d.lines.push_back({uuidFor('L', i, salt), (int)g.below(A), m, "L" + std::to_string(i), "Line " + std::to_string(i)});
  }
  int P = L + (int)g.below(3); if (shape == 1) P = N - 1 + (int)g.below(3); else if (shape == 3) P = L + (int)g.below(12);
  for (int i = 0; i < P; i++) {
    DPath p; p.uuid = uuidFor('P', i, salt); p.line = i < L ? i : (int)g.below(L); p.direction = (i & 1) ? "inbound" : "outbound";
    int kind = i == 0 ? 0 : (int)g.below(o.dense ? 7 : 9);
    if (kind >= 1 && kind <= 4) {
      auto& q = d.paths[g.below((uint32_t)d.paths.size())].stops;
      if (kind == 1) { p.stops.assign(q.rbegin(), q.rend()); }
      else if (kind == 2) p.stops = q;
      else { size_t a = g.below((uint32_t)q.size()), b = g.below((uint32_t)q.size()); if (a > b) std::swap(a, b); p.stops.assign(q.begin() + a, q.begin() + b + 1); if (kind == 4) std::reverse(p.stops.begin(), p.stops.end()); }
      // splice in other stops
      while (p.stops.size() < 2 || (p.stops.size() < 8 && g.chance(35))) { int s = (int)g.below(N); size_t at = g.chance(30) ? g.below((uint32_t)p.stops.size() + 1) : p.stops.size(); p.stops.insert(p.stops.begin() + at, s); }
    } else {
      int len = g.range(2, 6); for (int k = 0; k < len; k++) p.stops.push_back((int)g.below(N));
      if (g.mostly(60)) { std::vector<int> v; for (int s : p.stops) if (std::find(v.begin(), v.end(), s) == v.end()) v.push_back(s); p.stops = v; }   // no revisit
    }
    if (shape == 1 && i < N - 1) { p.stops = {i, i + 1}; if (g.chance(15) && i + 2 < N) p.stops.push_back(i + 2); }
    if (shape == 2 && i == 0) { p.stops.clear(); int len = g.range(60, 300); for (int k = 0; k < len; k++) p.stops.push_back((int)g.below(N)); }
    bool again = g.chance(4); std::vector<int> v; for (int s : p.stops) if (v.empty() || again || v.back() != s) v.push_back(s); if (again && !v.empty()) { size_t k = g.below((uint32_t)v.size()); v.insert(v.begin() + k, v[k]); }      // rarely a stop twice in a row
    while (v.size() < 2) { int s = (int)g.below(N); if (v.empty() || s != v.back()) v.push_back(s); else v.push_back((s + 1) % N); }
    p.stops = v;
    if (g.mostly(75)) for (size_t k = 0; k + 1 < p.stops.size(); k++) { p.segDist.push_back(g.range(1, 2000)); p.segTime.push_back(g.range(1, 600)); }
    d.paths.push_back(p);
  }
  int T = g.range(1, g.chance(20) ? o.maxTrips * 2 : o.maxTrips);
  if (shape == 1) T = P + (int)g.below((uint32_t)P * 2); else if (shape == 3) T = g.range(80, 300); else if (shape == 2) T = g.range(2, 6);
  int chainGap = g.range(1, 5) * u;
  bool noFlags = g.chance(40), dwellOn = g.chance(60);
  for (int i = 0; i < T; i++) {
    DTrip t; t.uuid = uuidFor('T', i, salt);
    if (!d.trips.empty() && g.chance(20)) {            // a competitor of an earlier trip: same stops, shifted, maybe slower
      const DTrip& q = d.trips[g.below((uint32_t)d.trips.size())]; t.path = q.path; t.service = g.chance(50) ? (int)g.below(S) : q.service; t.arr = q.arr; t.dep = q.dep;
      int sh = g.range(-3, 3) * u, slow = g.range(0, 3) * u; for (size_t k = 0; k < t.arr.size(); k++) { t.arr[k] += sh; t.dep[k] += sh; if (k) { t.arr[k] += slow * (int)k; t.dep[k] += slow * (int)k; } }
    } else {
      t.path = (int)g.below(P); t.service = (int)g.below(S);
      if (shape == 1 && i < P) t.path = i; else if (shape == 2 && g.chance(60)) t.path = 0;
      size_t n = d.paths[t.path].stops.size(); int now = d.base + u * (int)g.below(span + 1);
      if (shape == 1) now = d.base + t.path * chainGap * g.pick({2, 2, 2, 3, 1}) + u * (int)g.below(3);
      for (size_t k = 0; k < n; k++) {
        if (k) now += u * (o.strictHops ? g.range(1, 6) : (g.chance(12) ? 0 : g.range(1, 6)));
        if (k && g.chance(4) && u > 1) now += 1;
        if (k && shape != 2 && g.chance(2)) now += g.range(1, 3) * 3600;
        t.arr.push_back(now); if (dwellOn && k + 1 < n && g.chance(25)) now += u * g.range(1, 3); t.dep.push_back(now);
      }
    }
    size_t n = t.arr.size();
    int over = t.dep[n - 1] - (CLOCK_END - 1); if (over > 0) for (size_t k = 0; k < n; k++) { t.arr[k] -= over; t.dep[k] -= over; }
    if (t.arr[0] < 0) { int up = -t.arr[0]; for (size_t k = 0; k < n; k++) { t.arr[k] += up; t.dep[k] += up; } }
    if (t.dep[n - 1] >= CLOCK_END) continue;
    if (g.chance(6)) t.arr[0] = std::max(0, t.arr[0] - u * g.range(1, 5));      // at the first stop before it opens
    for (size_t k = 0; k < n; k++) { t.board.push_back(noFlags || g.mostly(88)); t.unboard.push_back(noFlags || g.mostly(88)); }
    d.trips.push_back(t);
  }
  if (d.trips.empty()) {
    DTrip t; t.uuid = uuidFor('T', 0, salt); t.path = 0; t.service = 0; int now = 28800; for (size_t k = 0; k < d.paths[0].stops.size(); k++) { t.arr.push_back(now); t.dep.push_back(now); now += 60; t.board.push_back(1); t.unboard.push_back(1); } d.trips.push_back(t);
  }
  int W = g.range(2, std::max(2, o.places));
  for (int i = 0; i < W; i++) {
    DPlace p; p.lat = 45.500005 + 1e-6 * (i % 3); p.lon = -73.600001 - 1e-6 * (i / 3);
    bool many = g.chance(30) && !o.sparse;
    if (!g.chance(o.sparse ? 15 : 4)) for (int k = 0; k < N; k++) if (many ? g.mostly(60) : g.chance(28)) { int t = g.chance(12) ? 0 : g.range(1, 8) * u; if (g.chance(8)) t += g.range(0, 3) * 60 + 1; if (g.chance(4)) t = 1200 + g.range(-1, 1); p.acc.push_back({k, t, t + (int)g.below(100)}); }
    if (shape == 1 && i < 2) { p.acc.clear(); p.acc.push_back({i ? N - 1 : 0, g.range(0, 5) * u, 10}); if (g.chance(30)) p.acc.push_back({i ? N - 2 : 1, g.range(0, 5) * u, 12}); }
    if (p.acc.empty() && !g.chance(15)) p.acc.push_back({(int)g.below(N), g.range(0, 5) * u, 10});
    if (o.full) for (int k = 0; k < N; k++) { bool has = false; for (auto& a : p.acc) has |= a.node == k; if (!has) p.acc.push_back({k, FAR_AWAY, FAR_AWAY}); }
    d.places.push_back(p);
  }
  int C = g.range(1, std::max(1, o.maxScenarios));
  for (int i = 0; i < C; i++) d.scenarios.push_back(genScenario(g, d, i, salt, i > 0));
  if (g.chance(4)) {                                               // many stops around the places that no line serves: walking tables of a hundred entries
    std::set<std::pair<int, int>> used; for (int i = 0; i < N; i++) used.insert({i % 4 + (i / 40) * 8, 3 - i % 40 / 4});
    std::vector<std::pair<int, int>> free; for (int c = 8; c >= -11; c--) for (int r = 0; r < 13; r++) if ((r < 5 || r > 7) && !used.count({r, c})) free.push_back({r, c});
    int idle = std::min(g.range(40, 115), (int)free.size());
    for (int i = 0; i < idle; i++) { int k = N + i; DNode n; n.uuid = uuidFor('N', k, salt); n.name = "Stop " + std::to_string(k); n.code = "S" + std::to_string(k); n.lat = 45.5 + 1e-6 * free[i].first; n.lon = -73.6 + 1e-6 * free[i].second; n.foot.push_back({k, 0, 0}); d.nodes.push_back(n); }
    for (auto& p : d.places) { bool some = g.chance(50); for (int i = 0; i < idle; i++) if (some && g.chance(50)) { int t = g.range(1, 8) * u; p.acc.push_back({N + i, t, t + 3}); } else if (o.full) p.acc.push_back({N + i, FAR_AWAY, FAR_AWAY}); }
    decorate(g, d); return d;
  }
  decorate(g, d);
  if (o.spread && g.chance(25)) spreadOut(g, d, g.pick({1, 2}));
  return d;
}

// What the routing answers must not depend on: texts (equal, empty, odd), where on earth the network lies, orders of lists, layout of the files.
static void decorate(Gen& g, DS& d) {
  if (g.chance(30)) {                                              // records told apart by nothing but their uuid
    if (g.chance(60)) for (auto& l : d.lines) l.shortname = l.longname = "1";
    if (g.chance(60)) for (auto& a : d.agencies) a.acronym = a.name = "STM";
    if (g.chance(60)) for (auto& n : d.nodes) n.code = n.name = "Station";
    if (g.chance(60)) for (auto& x : d.scenarios) x.name = "scenario";
    if (g.chance(60)) for (auto& v : d.services) v.name = "service";
  }
  if (g.chance(12)) { const char* odd[] = {"", "Ga\xc3\xb1" "on \xe2\x80\x94 \xe9\xa7\x85", "\"q\" \\ /", "tab\tnew\nline", "0", "null", "a,b;c&d=e?f#g%41"}; auto text = [&](std::string& x) { if (g.chance(40)) x = odd[g.below(7)]; };
    for (auto& n : d.nodes) { text(n.name); text(n.code); } for (auto& a : d.agencies) { text(a.acronym); text(a.name); } for (auto& l : d.lines) { text(l.shortname); text(l.longname); } for (auto& x : d.scenarios) text(x.name); }
  if (g.chance(30)) for (auto& n : d.nodes) for (size_t i = n.foot.size(); i > 1; i--) std::swap(n.foot[i - 1], n.foot[g.below((uint32_t)i)]);
  if (g.chance(25)) for (size_t i = d.trips.size(); i > 1; i--) std::swap(d.trips[i - 1], d.trips[g.below((uint32_t)i)]);
  if (g.chance(40)) {
    d.lat0 = g.pick({-33868000, 0, 60170000, 1300000, -54800000, 69650000}); d.lon0 = g.pick({151200000, 0, 24940000, 179900000, -179900000, -68300000});
    auto micro = [](double v) { return std::llround(v * 1e6); }; auto move = [&](double& la, double& lo) { la = (micro(la) - 45500000 + d.lat0) / 1e6; lo = (micro(lo) + 73600000 + d.lon0) / 1e6; };
    for (auto& n : d.nodes) move(n.lat, n.lon); for (auto& p : d.places) move(p.lat, p.lon);
  }
  if (g.mostly(60)) d.style = 1 + g.below(1000000);
}

// Straight-line distance in metres, as documented for the walking lookup (degree lengths at the request's latitude).
static double bird(const DPlace& p, double lat, double lon) {
  double r = p.lat * M_PI / 180, x = 111412.84 * cos(r) - 93.5 * cos(3 * r), y = 111132.92 - 559.82 * cos(2 * r) + 1.175 * cos(4 * r); x *= lon - p.lon; y *= lat - p.lat; return std::sqrt(x * x + y * y);
}
// Moves stops and places apart.  Positions are nudged until every place-stop distance is clear of the values where rounding would matter.
static void spreadOut(Gen& g, DS& d, int mode) {
  d.spread = mode; int R = g.pick({4000, 1500, 9000, 20000}); const double speed = 5.0 / 3.6; std::set<std::pair<long, long>> used;
  auto micro = [](double v) { return std::lround(v * 1e6); };
  for (auto& p : d.places) { long a = d.lat0 + g.range(-R, R), o = d.lon0 + g.range(-R, R); while (!used.insert({a, o}).second) a++; p.lat = a / 1e6; p.lon = o / 1e6; }
  used.clear();
  for (auto& n : d.nodes) {
    long a, o; if (g.chance(15)) { auto& p = d.places[g.below((uint32_t)d.places.size())]; a = micro(p.lat); o = micro(p.lon); } else { a = d.lat0 + g.range(-R, R); o = d.lon0 + g.range(-R, R); }
    auto fine = [&] { for (auto& p : d.places) { double m = bird(p, a / 1e6, o / 1e6), f = m - std::floor(m), t = m / speed, tf = t - std::floor(t), w = std::floor(m) / speed, wf = w - std::floor(w); if (m > 0.2 && (f < 0.05 || f > 0.95 || tf < 0.02 || tf > 0.98 || (mode == 2 && w >= 1 && (wf < 0.01 || wf > 0.99)))) return false; } return !used.count({a, o}); };
    for (int k = 0; k < 3000 && !fine(); k++) a++;
    used.insert({a, o}); n.lat = a / 1e6; n.lon = o / 1e6;
  }
  for (auto& p : d.places) {
    if (mode == 2) p.acc.clear();
    for (size_t i = 0; i < d.nodes.size(); i++) {
      double m = bird(p, d.nodes[i].lat, d.nodes[i].lon); int need = (int)std::ceil(m / speed);
      if (mode == 2) p.acc.push_back({(int)i, (int)(std::floor(m) / speed), (int)m, m <= 0.2 ? 0 : need});
      else for (auto& a : p.acc) if (a.node == (int)i) { a.time = std::max(a.time, need); a.dist = std::max(a.dist, (int)std::ceil(m)); }
    }
  }
}

Query genQuery(Gen& g, const DS& d, const QOpt& o) {
  Query q; int u = d.unit;
  q.forward = o.dir < 0 ? g.mostly(50) : o.dir == 0;
  q.origin = (int)g.below((uint32_t)d.places.size()); q.dest = (int)g.below((uint32_t)d.places.size()); if (q.dest == q.origin && g.mostly(90)) q.dest = (q.origin + 1) % (int)d.places.size();
  q.scenario = o.scenario >= 0 ? o.scenario : (g.mostly(60) ? 0 : (int)g.below((uint32_t)d.scenarios.size()));
  q.alternatives = o.alt == 1 || (o.alt == 2 && g.chance(35));
  bool easy = !o.wild && g.chance(30); if (easy && o.scenario < 0) q.scenario = 0;          // few restrictions: longer journeys
  int mw = 180;
  if (easy) { q.minWait = g.pick({0, 1, u, 60}); mw = *q.minWait; } else if (g.mostly(80)) { q.minWait = g.pick({0, 1, u, 2 * u, 3 * u, 180, 5 * u, -1}); if (g.chance(2)) q.minWait = g.pick({32767, 32768, 40000, 65536}); mw = std::max(0, *q.minWait); }
  if (o.posWait && q.minWait && *q.minWait <= 0) mw = *(q.minWait = g.pick({1, u}));
  // requested time: near an event of the data
  const DPlace& pl = d.places[q.forward ? q.origin : q.dest]; int acc = 0;
  size_t ti = g.below((uint32_t)d.trips.size()), k = g.below((uint32_t)d.trips[ti].arr.size());
  if (!pl.acc.empty()) {
    const Acc& a = pl.acc[g.below((uint32_t)pl.acc.size())]; acc = a.time;
    if (g.mostly(60)) {                                                                 // a ride that can be joined (left) right there
      std::vector<std::pair<size_t, size_t>> at; for (size_t i = 0; i < d.trips.size(); i++) { auto& st = d.paths[d.trips[i].path].stops; for (size_t j = 0; j < d.trips[i].arr.size() && j < st.size(); j++) if (st[j] == a.node && (q.forward ? j + 1 < d.trips[i].arr.size() : j > 0)) at.push_back({i, j}); }
      if (!at.empty()) std::tie(ti, k) = at[g.below((uint32_t)at.size())];
    }
  }
  const DTrip& t = d.trips[ti];
  int when;
  switch (easy && g.chance(60) ? 4u : g.below(6)) {
    case 0: when = d.base; if (!q.forward) when = d.base + d.window; break;
    case 1: case 2: when = q.forward ? t.dep[k] - acc - mw : t.arr[k] + acc; break;                       // exactly catchable
    case 3: when = (q.forward ? t.dep[k] - acc - mw : t.arr[k] + acc) + g.range(-2, 2) * (g.chance(50) ? 1 : u); break;
    case 4: when = q.forward ? d.base - u * g.range(0, 40) : d.base + d.window + u * g.range(0, 40); break;
    default: when = g.range(std::max(0, d.base - 7200), std::min(CLOCK_END - 1, d.base + d.window + 7200)); break;
  }
  if (g.chance(3)) when = g.range(0, CLOCK_END - 1);
  q.time = std::max(0, std::min(when, CLOCK_END - 1));
  auto lim = [&](int p) -> std::optional<int> { if (!g.chance(p)) return std::nullopt; switch (g.below(6)) { case 0: return 0; case 1: return -1; case 2: return g.range(1, 10) * u; case 3: return g.range(1, 6) * u - 1; case 4: return 1; default: return g.range(1, 40) * u; } };
  if (easy) { q.maxTransfer = 0; if (!o.capOff && g.mostly(80)) q.maxFirst = 0; if (o.capOff) q.maxFirst = 0; return q; }
  if (g.chance(35)) { switch (g.below(4)) { case 0: q.maxTotal = g.pick({0, -1}); break; case 1: q.maxTotal = g.range(1, 60) * u; break; case 2: q.maxTotal = std::max(1, std::abs((q.forward ? t.arr[k] : t.dep[k]) - q.time) + g.range(-1, 1)); break; default: q.maxTotal = g.range(1, 15) * u; } }
  q.maxAccess = lim(25); q.maxEgress = lim(25); q.maxTransfer = lim(30);
  if (o.capOff) q.maxFirst = g.pick({0, -1, -5});
  else if (g.mostly(60)) { q.maxFirst = g.pick({0, -1, 0}); if (g.mostly(60)) q.maxFirst = g.pick({mw, mw + u, mw - 1, 1, u, 2 * u, 4 * u, 10 * u}); }
  return q;
}

Limits effective(const Query& q) {
  Limits l; auto orInf = [](std::optional<int> v, int def) { if (!v) return def; return *v <= 0 ? UNLIMITED : *v; };
  l.minWait = q.minWait ? std::max(0, *q.minWait) : 180;
  l.maxTotal = orInf(q.maxTotal, UNLIMITED);
  l.maxAccess = orInf(q.maxAccess, 1200); l.maxEgress = orInf(q.maxEgress, 1200); l.maxTransfer = orInf(q.maxTransfer, 1200);
  l.cap = q.maxFirst ? (*q.maxFirst <= 0 ? -1 : *q.maxFirst) : 1800;
  return l;
}
static void optional(Params& p, const Query& q) {
  auto add = [&](const char* n, const std::optional<int>& v) { if (v) p.emplace_back(n, std::to_string(*v)); };
  add("min_waiting_time", q.minWait); add("max_travel_time", q.maxTotal); add("max_access_travel_time", q.maxAccess); add("max_egress_travel_time", q.maxEgress); add("max_transfer_travel_time", q.maxTransfer); add("max_first_waiting_time", q.maxFirst);
}
Params Query::routeParams(const DS& d) const {
  Params p; p.emplace_back("origin", coord(d.places[origin].lon) + "," + coord(d.places[origin].lat)); p.emplace_back("destination", coord(d.places[dest].lon) + "," + coord(d.places[dest].lat));
  p.emplace_back("scenario_id", d.scenarios[scenario].uuid); p.emplace_back("time_of_trip", std::to_string(time)); p.emplace_back("time_type", forward ? "0" : "1");
  if (alternatives) p.emplace_back("alternatives", "true");
  optional(p, *this); return p;
}
Params Query::accessParams(const DS& d) const {
  const DPlace& pl = d.places[forward ? origin : dest];
  Params p; p.emplace_back("place", coord(pl.lon) + "," + coord(pl.lat)); p.emplace_back("scenario_id", d.scenarios[scenario].uuid); p.emplace_back("time_of_trip", std::to_string(time)); p.emplace_back("time_type", forward ? "0" : "1");
  optional(p, *this); return p;
}
json Query::dump() const {
  json j = {{"forward", forward}, {"time", time}, {"origin", origin}, {"dest", dest}, {"scenario", scenario}, {"alternatives", alternatives}};
  auto add = [&](const char* n, const std::optional<int>& v) { if (v) j[n] = *v; };
  add("minWait", minWait); add("maxTotal", maxTotal); add("maxAccess", maxAccess); add("maxEgress", maxEgress); add("maxTransfer", maxTransfer); add("maxFirst", maxFirst); return j;
}
json DS::dump() const {
  json j; j["stops"] = json::array();
  for (size_t i = 0; i < nodes.size(); i++) { json f = json::array(); for (auto& x : nodes[i].foot) if (x.to != (int)i) f.push_back({x.to, x.time, x.dist}); j["stops"].push_back({{"i", i}, {"uuid", nodes[i].uuid}, {"foot", f}}); }
  if (spread) { j["spread"] = spread == 1 ? "walking table" : "straight line"; for (auto& n : nodes) j["stopCoordinates"].push_back({n.lat, n.lon}); for (auto& p : places) j["placeCoordinates"].push_back({p.lat, p.lon}); }
  for (auto& l : lines) j["lines"].push_back({{"agency", l.agency}, {"mode", l.mode}});
  for (auto& p : paths) j["paths"].push_back({{"line", p.line}, {"stops", p.stops}, {"segDist", p.segDist}});
  for (auto& t : trips) { std::string b, x; for (char c : t.board) b += c ? '1' : '0'; for (char c : t.unboard) x += c ? '1' : '0'; j["trips"].push_back({{"uuid", t.uuid}, {"path", t.path}, {"service", t.service}, {"arr", t.arr}, {"dep", t.dep}, {"board", b}, {"unboard", x}}); }
  for (auto& s : scenarios) j["scenarios"].push_back({{"services", s.services}, {"onlyLines", s.onlyLines}, {"exceptLines", s.exceptLines}, {"onlyAgencies", s.onlyAgencies}, {"exceptAgencies", s.exceptAgencies}, {"onlyModes", s.onlyModes}, {"exceptModes", s.exceptModes}});
  for (auto& p : places) { json a = json::array(); for (auto& x : p.acc) a.push_back({x.node, x.time, x.dist, x.need()}); j["places"].push_back(a); }
  return j;
}
