#include "oracle.hpp"
#include <algorithm>
#include <climits>
#include <cmath>
#include <sstream>

Ctx::Ctx(const DS& ds, const Query& qq) : d(ds), q(qq), L(effective(qq)) {
  const DScenario& s = d.scenarios[q.scenario];
  for (auto& t : d.trips) adm.push_back(d.admits(s, t));
  for (auto& a : d.places[q.origin].acc) if (a.need() <= L.maxAccess) access.push_back(a);
  for (auto& a : d.places[q.dest].acc) if (a.need() <= L.maxEgress) egress.push_back(a);
}

std::vector<int> refEarliestAlight(const Ctx& c, const std::vector<Acc>& access, int T) {
  const DS& d = c.d; size_t n = d.nodes.size();
  std::vector<int> at(n, INF), alight(n, INF);
  for (auto& a : access) at[a.node] = std::min(at[a.node], T + a.time);
  for (bool changed = true; changed;) {
    changed = false;
    for (size_t t = 0; t < d.trips.size(); t++) {
      if (!c.adm[t]) continue;
      const DTrip& tr = d.trips[t]; const auto& st = d.paths[tr.path].stops; bool on = false;
      for (size_t k = 0; k < st.size(); k++) {
        if (on && tr.unboard[k] && tr.arr[k] < alight[st[k]]) {
          alight[st[k]] = tr.arr[k]; changed = true;
          for (auto& f : d.nodes[st[k]].foot) if (f.time <= c.L.maxTransfer && tr.arr[k] + f.time < at[f.to]) at[f.to] = tr.arr[k] + f.time;
        }
        if (!on && k + 1 < st.size() && tr.board[k] && at[st[k]] < INF && (long long)at[st[k]] + c.wait((int)t) <= tr.dep[k]) on = true;
      }
    }
  }
  return alight;
}

std::vector<int> refLatestReady(const Ctx& c, const std::vector<Acc>& egress, int A) {
  const DS& d = c.d; size_t n = d.nodes.size();
  std::vector<int> by(n, -INF), ready(n, -INF);      // by: alighting at the stop up to this time is useful
  for (auto& e : egress) by[e.node] = std::max(by[e.node], A - e.time);
  for (bool changed = true; changed;) {
    changed = false;
    for (size_t t = 0; t < d.trips.size(); t++) {
      if (!c.adm[t]) continue;
      const DTrip& tr = d.trips[t]; const auto& st = d.paths[tr.path].stops; bool off = false;
      for (size_t k = st.size(); k-- > 0;) {
        if (off && k + 1 < st.size() && tr.board[k]) {
          long long r = (long long)tr.dep[k] - c.wait((int)t);
          if (r > ready[st[k]]) {
            ready[st[k]] = (int)r; changed = true;
            for (size_t m = 0; m < n; m++) for (auto& f : d.nodes[m].foot) if (f.to == st[k] && f.time <= c.L.maxTransfer) by[m] = std::max<long long>(by[m], r - f.time);
          }
        }
        if (!off && k > 0 && tr.unboard[k] && tr.arr[k] <= by[st[k]]) off = true;
      }
    }
  }
  return ready;
}

RefRoute refForward(const Ctx& c) {
  auto al = refEarliestAlight(c, c.access, c.q.time); RefRoute r; long long best = LLONG_MAX;
  for (auto& e : c.egress) if (al[e.node] < INF) best = std::min<long long>(best, (long long)al[e.node] + e.time);
  if (best != LLONG_MAX && best - c.q.time <= c.L.maxTotal) { r.exists = true; r.time = (int)best; }
  return r;
}
RefRoute refReverse(const Ctx& c, int A, bool applyLimits) {
  auto rd = refLatestReady(c, c.egress, A); RefRoute r; long long best = LLONG_MIN;
  for (auto& a : c.access) if (rd[a.node] > -INF) best = std::max<long long>(best, (long long)rd[a.node] - a.time);
  if (best != LLONG_MIN && (!applyLimits || (best >= 0 && A - best <= c.L.maxTotal))) { r.exists = true; r.time = (int)best; }
  return r;
}

// A departure can be caught: boarding allowed, the traveller stands there in time after the minimum wait, within the
// requested horizon and, if set, the first-waiting cap.  "Yes" departures must also lead somewhere (a later stop where
// alighting is allowed); with only departures that lead nowhere the statement can be read both ways.
Tri serviceFromOrigin(const Ctx& c, const std::vector<Acc>& access) {
  const DS& d = c.d; bool any = false, useful = false;
  for (size_t t = 0; t < d.trips.size(); t++) {
    if (!c.adm[t]) continue;
    const DTrip& tr = d.trips[t]; const auto& st = d.paths[tr.path].stops;
    for (size_t k = 0; k + 1 < st.size(); k++) {
      if (!tr.board[k]) continue;
      for (auto& a : access) if (a.node == st[k]) {
        long long here = (long long)c.q.time + a.time;
        if (here + c.wait((int)t) > tr.dep[k]) continue;
        if ((long long)tr.dep[k] - c.q.time > c.L.maxTotal) continue;
        if (c.L.cap > 0 && tr.dep[k] - here > c.L.cap) continue;
        any = true;
        for (size_t m = k + 1; m < st.size(); m++) if (tr.unboard[m]) useful = true;
      }
    }
  }
  return useful ? Tri::Yes : any ? Tri::Maybe : Tri::No;
}
Tri serviceToDestination(const Ctx& c, const std::vector<Acc>& egress) {
  const DS& d = c.d; bool any = false, useful = false;
  for (size_t t = 0; t < d.trips.size(); t++) {
    if (!c.adm[t]) continue;
    const DTrip& tr = d.trips[t]; const auto& st = d.paths[tr.path].stops;
    for (size_t k = 1; k < st.size(); k++) {
      if (!tr.unboard[k]) continue;
      for (auto& a : egress) if (a.node == st[k]) {
        if ((long long)tr.arr[k] + a.time > c.q.time) continue;
        if ((long long)c.q.time - tr.arr[k] > c.L.maxTotal) continue;
        any = true;
        for (size_t m = 0; m < k; m++) if (tr.board[m]) useful = true;
      }
    }
  }
  return useful ? Tri::Yes : any ? Tri::Maybe : Tri::No;
}

namespace {
struct Bad { std::string m; };
template <class... A> [[noreturn]] void bad(A&&... a) { std::stringstream s; (s << ... << a); throw Bad{s.str()}; }
int num(const json& j, const char* k) { auto it = j.find(k); if (it == j.end() || !it->is_number_integer()) bad("field ", k, " missing or not an integer in ", j.dump().substr(0, 300)); long long v = it->get<long long>(); if (v > INT_MAX || v < INT_MIN) bad("field ", k, " out of range"); return (int)v; }
std::string str(const json& j, const char* k) { auto it = j.find(k); if (it == j.end() || !it->is_string()) bad("field ", k, " missing or not a string in ", j.dump().substr(0, 300)); return it->get<std::string>(); }
struct Shape { json access, egress; std::vector<json> board, unboard, transfer; };
Shape shape(const json& route) {
  auto it = route.find("steps"); if (it == route.end() || !it->is_array()) bad("route without steps");
  const json& s = *it; if (s.size() < 4) bad("route with ", s.size(), " steps");
  Shape r; size_t n = s.size();
  auto walk = [&](const json& x, const char* t) { if (str(x, "action") != "walking" || str(x, "type") != t) bad("expected a ", t, " walk, got ", x.dump().substr(0, 200)); };
  walk(s[0], "access"); walk(s[n - 1], "egress"); r.access = s[0]; r.egress = s[n - 1];
  size_t i = 1;
  for (;;) {
    if (i + 1 >= n - 1 + 0 && i + 1 > n - 2) bad("rides and walks do not alternate");
    if (str(s[i], "action") != "boarding") bad("expected a boarding, got ", s[i].dump().substr(0, 200));
    if (str(s[i + 1], "action") != "unboarding") bad("expected an unboarding, got ", s[i + 1].dump().substr(0, 200));
    r.board.push_back(s[i]); r.unboard.push_back(s[i + 1]); i += 2;
    if (i == n - 1) break;
    walk(s[i], "transfer"); r.transfer.push_back(s[i]); i++;
  }
  return r;
}
template <class F> std::string guarded(F f) { try { f(); return ""; } catch (Bad& b) { return b.m; } catch (std::exception& e) { return std::string("malformed route: ") + e.what(); } }
}

std::vector<std::string> boardedLines(const json& route) {
  std::vector<std::string> v; for (auto& s : route.at("steps")) if (s.at("action") == "boarding") v.push_back(s.at("lineUuid").get<std::string>());
  std::sort(v.begin(), v.end()); return v;
}

std::string validateItinerary(const Ctx& c, const json& route, std::vector<Ride>* out) {
  return guarded([&] {
    const DS& d = c.d; Shape s = shape(route); size_t R = s.board.size();
    int depTime = num(route, "departureTime"), arrTime = num(route, "arrivalTime");
    if (num(s.access, "departureTime") != depTime) bad("the access walk starts at ", num(s.access, "departureTime"), " but the route departs at ", depTime);
    if (num(s.egress, "arrivalTime") != arrTime) bad("the egress walk ends at ", num(s.egress, "arrivalTime"), " but the route arrives at ", arrTime);
    auto walkClock = [&](const json& w, const char* what) { if (num(w, "arrivalTime") - num(w, "departureTime") != num(w, "travelTime")) bad(what, " walk: clock times and travelTime disagree: ", w.dump()); if (num(w, "travelTime") < 0) bad(what, " walk with negative duration"); };
    walkClock(s.access, "access"); walkClock(s.egress, "egress"); for (auto& w : s.transfer) walkClock(w, "transfer");
    int here = num(s.access, "arrivalTime"); int prevNode = -1;
    for (size_t r = 0; r < R; r++) {
      const json &b = s.board[r], &u = s.unboard[r];
      std::string tu = str(b, "tripUuid"); if (str(u, "tripUuid") != tu) bad("ride ", r, " boards and alights different trips");
      int t = d.tripByUuid(tu); if (t < 0) bad("ride ", r, " uses an unknown trip ", tu);
      int bn = d.nodeByUuid(str(b, "nodeUuid")), un = d.nodeByUuid(str(u, "nodeUuid")); if (bn < 0 || un < 0) bad("ride ", r, " uses an unknown stop");
      int dep = num(b, "departureTime"), arr = num(u, "arrivalTime");
      const DTrip& tr = d.trips[t]; const auto& st = d.paths[tr.path].stops;
      bool found = false; Ride ride{};
      for (size_t i = 0; i + 1 < st.size() && !found; i++) if (st[i] == bn && tr.dep[i] == dep && tr.board[i]) for (size_t j = i + 1; j < st.size(); j++) if (st[j] == un && tr.arr[j] == arr && tr.unboard[j]) { found = true; ride = {t, (int)i, (int)j, dep, arr}; break; }
      if (!found) bad("ride ", r, ": trip ", t, " cannot be boarded at stop ", bn, " at ", dep, " and left at stop ", un, " at ", arr);
      if (out) out->push_back(ride);
      // the walk leading here
      if (r == 0) {
        bool ok = false; for (auto& a : d.places[c.q.origin].acc) if (a.node == bn && a.time == num(s.access, "travelTime")) ok = true;
        if (!ok) bad("the access walk of ", num(s.access, "travelTime"), " s to stop ", bn, " is not offered by the walking router");
      } else {
        int w = num(s.transfer[r - 1], "travelTime"); bool ok = false;
        for (auto& f : d.nodes[prevNode].foot) if (f.to == bn && f.time == w) ok = true;
        if (!ok) bad("transfer walk ", r - 1, " of ", w, " s from stop ", prevNode, " to stop ", bn, " is not a footpath of the data");
        if (num(s.transfer[r - 1], "departureTime") != s.unboard[r - 1].at("arrivalTime").get<int>()) bad("transfer walk ", r - 1, " does not start when the ride ends");
        here = num(s.transfer[r - 1], "arrivalTime");
      }
      if ((long long)dep < (long long)here + c.wait(t)) bad("ride ", r, ": boarding at ", dep, " but the traveller is there at ", here, " and must wait ", c.wait(t));
      prevNode = un;
    }
    bool ok = false; for (auto& a : d.places[c.q.dest].acc) if (a.node == prevNode && a.time == num(s.egress, "travelTime")) ok = true;
    if (!ok) bad("the egress walk of ", num(s.egress, "travelTime"), " s from stop ", prevNode, " is not offered by the walking router");
    if (num(s.egress, "departureTime") != num(s.unboard[R - 1], "arrivalTime")) bad("the egress walk does not start when the last ride ends");
  });
}

std::string validateLimits(const Ctx& c, const json& route) {
  return guarded([&] {
    const DS& d = c.d; Shape s = shape(route);
    int dep = num(route, "departureTime"), arr = num(route, "arrivalTime"); int T = c.q.time;
    if (c.q.forward && dep < T) bad("leaves at ", dep, ", before the requested departure ", T);
    if (!c.q.forward && arr > T) bad("arrives at ", arr, ", after the requested arrival ", T);
    long long span = c.q.forward ? (long long)arr - T : (long long)T - dep;
    if (span > c.L.maxTotal) bad("span ", span, " from the requested time exceeds max_travel_time ", c.L.maxTotal);
    auto walk = [&](const json& w, int lim, const char* n) { if (num(w, "travelTime") > lim) bad(n, " walk of ", num(w, "travelTime"), " s exceeds its maximum ", lim); };
    walk(s.access, c.L.maxAccess, "access"); walk(s.egress, c.L.maxEgress, "egress"); for (auto& w : s.transfer) walk(w, c.L.maxTransfer, "transfer");
    // the same maxima against the walks as the data have them, whatever the answer says they take
    size_t R = s.board.size(); auto nodeOf = [&](const json& x) { return d.nodeByUuid(str(x, "nodeUuid")); };
    auto real = [&](int w, int lim, const char* n) { if (w >= 0 && w > lim) bad("the ", n, " walk takes ", w, " s, more than its maximum ", lim); };
    auto placeWalk = [&](int pl, int nd) { int w = -1; for (auto& a : d.places[pl].acc) if (a.node == nd && (w < 0 || a.time < w)) w = a.time; return w; };
    int wa = placeWalk(c.q.origin, nodeOf(s.board[0])), we = placeWalk(c.q.dest, nodeOf(s.unboard[R - 1]));
    real(wa, c.L.maxAccess, "access"); real(we, c.L.maxEgress, "egress");
    for (size_t r = 1; r < R; r++) { int w = -1, u = nodeOf(s.unboard[r - 1]), b = nodeOf(s.board[r]); if (u >= 0) for (auto& f : d.nodes[u].foot) if (f.to == b && (w < 0 || f.time < w)) w = f.time; real(w, c.L.maxTransfer, "transfer"); }
    long long b0 = num(s.board[0], "departureTime"), uN = num(s.unboard[R - 1], "arrivalTime");
    if (c.q.forward && wa >= 0 && b0 - wa < T) bad("the first ride leaves at ", b0, ", before the traveller leaving at ", T, " can have walked the ", wa, " s to it");
    if (!c.q.forward && we >= 0 && uN + we > T) bad("the last ride ends at ", uN, ", too late to arrive by ", T, " with ", we, " s to walk");
    if (c.q.forward && we >= 0 && uN + we - T > c.L.maxTotal) bad("the traveller is there ", uN + we - T, " s after the requested departure, more than max_travel_time ", c.L.maxTotal);
    if (!c.q.forward && wa >= 0 && T - (b0 - wa) > c.L.maxTotal) bad("the traveller leaves ", T - (b0 - wa), " s before the requested arrival, more than max_travel_time ", c.L.maxTotal);
    if (c.q.forward && c.L.cap > 0) { long long w = (long long)num(s.board[0], "departureTime") - (T + num(s.access, "travelTime")); if (w > c.L.cap) bad("waits ", w, " s at the first stop, more than max_first_waiting_time ", c.L.cap); }
    for (auto& b : s.board) { int t = d.tripByUuid(str(b, "tripUuid")); if (t < 0) bad("unknown trip"); if (!c.adm[t]) bad("rides trip ", t, " which the scenario does not admit"); }
  });
}

std::string validateSums(const Ctx& c, const json& route) {
  return guarded([&] {
    const DS& d = c.d; Shape s = shape(route); size_t R = s.board.size();
    auto N = [&](const char* k) { return (long long)num(route, k); };
    auto eq = [&](const char* what, long long got, long long want) { if (got != want) bad(what, " is ", got, ", the steps give ", want); };
    bool transf = false; std::vector<int> waits;
    for (auto& b : s.board) { int t = d.tripByUuid(str(b, "tripUuid")); if (t < 0) bad("unknown trip"); transf |= c.transferable(t); waits.push_back(c.wait(t)); }
    long long walkT = num(s.access, "travelTime") + (long long)num(s.egress, "travelTime"), walkD = num(s.access, "distance") + (long long)num(s.egress, "distance"), veh = 0, vehD = 0, wait = 0, transT = 0, transD = 0; bool dist = true;
    long long here = num(s.access, "arrivalTime");
    eq("access walk departure", num(s.access, "departureTime"), N("departureTime"));
    eq("access walk arrival", num(s.access, "arrivalTime"), (long long)num(s.access, "departureTime") + num(s.access, "travelTime"));
    eq("access readyToBoardAt", num(s.access, "readyToBoardAt"), here + waits[0]);
    for (size_t r = 0; r < R; r++) {
      long long dep = num(s.board[r], "departureTime"), arr = num(s.unboard[r], "arrivalTime");
      eq("boarding waitingTime", num(s.board[r], "waitingTime"), dep - here); wait += dep - here;
      eq("inVehicleTime", num(s.unboard[r], "inVehicleTime"), arr - dep); veh += arr - dep;
      long long x = num(s.unboard[r], "inVehicleDistance"); if (x < 0) dist = false; else vehD += x;
      if (r + 1 < R) {
        const json& w = s.transfer[r]; eq("transfer walk departure", num(w, "departureTime"), arr); eq("transfer walk arrival", num(w, "arrivalTime"), arr + num(w, "travelTime"));
        here = num(w, "arrivalTime"); eq("transfer readyToBoardAt", num(w, "readyToBoardAt"), here + waits[r + 1]);
        transT += num(w, "travelTime"); transD += num(w, "distance");
      } else { eq("egress walk departure", num(s.egress, "departureTime"), arr); eq("egress walk arrival", num(s.egress, "arrivalTime"), arr + num(s.egress, "travelTime")); eq("arrivalTime", N("arrivalTime"), num(s.egress, "arrivalTime")); }
    }
    walkT += transT; walkD += transD;
    eq("totalTravelTime", N("totalTravelTime"), N("arrivalTime") - N("departureTime"));
    eq("totalTravelTime (sum of parts)", N("totalTravelTime"), walkT + veh + wait);
    eq("accessTravelTime", N("accessTravelTime"), num(s.access, "travelTime")); eq("accessDistance", N("accessDistance"), num(s.access, "distance"));
    eq("egressTravelTime", N("egressTravelTime"), num(s.egress, "travelTime")); eq("egressDistance", N("egressDistance"), num(s.egress, "distance"));
    eq("totalInVehicleTime", N("totalInVehicleTime"), veh);
    eq("firstWaitingTime", N("firstWaitingTime"), num(s.board[0], "waitingTime"));
    eq("totalWaitingTime", N("totalWaitingTime"), N("firstWaitingTime") + N("transferWaitingTime"));
    eq("totalWaitingTime (sum of steps)", N("totalWaitingTime"), wait);
    if (!transf) {
      eq("transferWalkingTime", N("transferWalkingTime"), transT); eq("transferWalkingDistance", N("transferWalkingDistance"), transD);
      eq("totalNonTransitTravelTime", N("totalNonTransitTravelTime"), walkT); eq("totalNonTransitDistance", N("totalNonTransitDistance"), walkD);
      eq("numberOfBoardings", N("numberOfBoardings"), (long long)R); eq("numberOfTransfers", N("numberOfTransfers"), (long long)R - 1);
      if (dist) { eq("totalInVehicleDistance", N("totalInVehicleDistance"), vehD); eq("totalDistance", N("totalDistance"), vehD + walkD); }
    }
  });
}

std::string validateEncoding(const Ctx& c, const json& route) {
  return guarded([&] {
    const DS& d = c.d; Shape s = shape(route); std::vector<Ride> rides; std::string e = validateItinerary(c, route, &rides); if (!e.empty()) bad(e);
    auto same = [&](const json& j, const char* k, const std::string& want) { if (str(j, k) != want) bad(k, " is '", str(j, k), "', the data says '", want, "'"); };
    auto at = [&](const json& j, int node) { const DNode& n = d.nodes[node]; same(j, "nodeName", n.name); same(j, "nodeCode", n.code); auto& x = j.at("nodeCoordinates"); if (std::fabs(x.at(0).get<double>() - n.lon) > 2e-6 || std::fabs(x.at(1).get<double>() - n.lat) > 2e-6) bad("nodeCoordinates ", x.dump(), " of stop ", node, ", the data says ", n.lon, ",", n.lat); };
    auto ids = [&](const json& j, const DTrip& t) { const DLine& l = d.lineOf(t); same(j, "lineUuid", l.uuid); same(j, "lineShortname", l.shortname); same(j, "lineLongname", l.longname); same(j, "pathUuid", d.paths[t.path].uuid); same(j, "mode", l.mode); same(j, "agencyUuid", d.agencies[l.agency].uuid); same(j, "agencyAcronym", d.agencies[l.agency].acronym); same(j, "agencyName", d.agencies[l.agency].name); };
    for (size_t r = 0; r < rides.size(); r++) {
      const DTrip& t = d.trips[rides[r].trip]; const DPath& p = d.paths[t.path];
      ids(s.board[r], t); ids(s.unboard[r], t); at(s.board[r], p.stops[rides[r].from]); at(s.unboard[r], p.stops[rides[r].to]);
      // revisits with equal times make the ride ambiguous: accept any consistent pair
      long long got = num(s.unboard[r], "inVehicleDistance"); bool ok = false; std::string want;
      for (size_t i = 0; i + 1 < p.stops.size(); i++) for (size_t j = i + 1; j < p.stops.size(); j++)
        if (p.stops[i] == p.stops[rides[r].from] && p.stops[j] == p.stops[rides[r].to] && t.dep[i] == rides[r].dep && t.arr[j] == rides[r].arr && t.board[i] && t.unboard[j]) {
          auto known = [&](size_t k) { return k < p.segDist.size() && p.segDist[k] >= 0; };
          long long sum = 0; bool all = true, before = true; for (size_t k = i; k < j; k++) { if (known(k)) sum += p.segDist[k]; else all = false; } if (!all) sum = -1;
          for (size_t k = 0; k < i; k++) before &= known(k); if (all && !before && got == -1) sum = -1;      // distances after a gap may be left unknown
          want += " " + std::to_string(sum); if (sum == got) ok = true;
          if (num(s.board[r], "stopSequenceInTrip") == (int)i + 1 && num(s.unboard[r], "stopSequenceInTrip") == (int)j + 1 && sum != got) bad("inVehicleDistance is ", got, ", the encoded segments give ", sum);
        }
      if (!ok) bad("inVehicleDistance is ", got, ", the encoded segments give", want);
    }
    auto dist = [&](const json& w, const std::vector<Acc>& v, int node, const char* what) { for (auto& a : v) if (a.node == node && a.dist == num(w, "distance")) return; bad(what, " walk distance ", num(w, "distance"), " is not the one of the table"); };
    dist(s.access, d.places[c.q.origin].acc, d.paths[d.trips[rides[0].trip].path].stops[rides[0].from], "access");
    const Ride& l = rides.back(); dist(s.egress, d.places[c.q.dest].acc, d.paths[d.trips[l.trip].path].stops[l.to], "egress");
    for (size_t r = 0; r + 1 < rides.size(); r++) {
      int a = d.paths[d.trips[rides[r].trip].path].stops[rides[r].to], b = d.paths[d.trips[rides[r + 1].trip].path].stops[rides[r + 1].from]; bool ok = false;
      for (auto& f : d.nodes[a].foot) if (f.to == b && f.time == num(s.transfer[r], "travelTime") && f.dist == num(s.transfer[r], "distance")) ok = true;
      if (!ok) bad("transfer walk distance ", num(s.transfer[r], "distance"), " from stop ", a, " to ", b, " is not in the footpath data");
    }
  });
}
