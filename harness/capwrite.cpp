// Independent writer of Cap'n Proto cache files (own frozen copy of the schemas, other type ids, same wire format).
#include "ds.hpp"
#include <algorithm>
#include <cmath>
#include <filesystem>
#include <fstream>
#include <capnp/message.h>
#include <capnp/serialize-packed.h>
#include <kj/io.h>
#include "owncapnp/agencyCollection.capnp.h"
#include "owncapnp/serviceCollection.capnp.h"
#include "owncapnp/nodeCollection.capnp.h"
#include "owncapnp/node.capnp.h"
#include "owncapnp/lineCollection.capnp.h"
#include "owncapnp/line.capnp.h"
#include "owncapnp/pathCollection.capnp.h"
#include "owncapnp/scenarioCollection.capnp.h"
#include "owncapnp/dataSourceCollection.capnp.h"
#include "owncapnp/personCollection.capnp.h"
#include "owncapnp/odTripCollection.capnp.h"

static std::string pack(capnp::MessageBuilder& m) { kj::VectorOutputStream o; capnp::writePackedMessage(o, m); auto a = o.getArray(); return std::string((const char*)a.begin(), a.size()); }
template <class L, class V, class F> static void fillText(L list, const V& v, F f) { unsigned i = 0; for (auto& x : v) list.set(i++, f(x).c_str()); }
static int micro(double v) { return (int)std::llround(v * 1e6); }

// Everything below that depends on `v` is layout or a field without bearing on the answers.
std::map<std::string, std::string> cacheFiles(const DS& d) {
  std::map<std::string, std::string> out;
  auto v = [&](uint64_t kind, uint64_t idx, unsigned n) -> unsigned { return d.style ? (unsigned)(mix64(mix64(d.style, kind), idx) % n) : 0; };   // 0 in the plain layout
  auto extra = [&](auto r, unsigned kind, unsigned i) { if (v(kind, i, 2)) { r.setColor("#00ff00"); r.setDescription("described"); r.setIsEnabled(1); r.setIsFrozen((int8_t)v(kind + 50, i, 2)); } if (v(kind + 60, i, 3) == 1) r.setData("{\"gtfs\":{\"id\":1}}"); };
  { capnp::MallocMessageBuilder m; auto r = m.initRoot<own_agencyCollection::AgencyCollection>(); auto l = r.initAgencies(d.agencies.size());
    for (size_t i = 0; i < d.agencies.size(); i++) { l[i].setUuid(d.agencies[i].uuid.c_str()); l[i].setAcronym(d.agencies[i].acronym.c_str()); l[i].setName(d.agencies[i].name.c_str()); extra(l[i], 1, i); if (i & 1) { l[i].setInternalId("agency-internal"); l[i].setColor("#ff0000"); l[i].setSimulationUuid(uuidFor('Z', i, 0).c_str()); } }
    out["agencies.capnpbin"] = pack(m); }
  { capnp::MallocMessageBuilder m; auto r = m.initRoot<own_serviceCollection::ServiceCollection>(); auto l = r.initServices(d.services.size());
    for (size_t i = 0; i < d.services.size(); i++) { l[i].setUuid(d.services[i].uuid.c_str()); l[i].setName(d.services[i].name.c_str()); extra(l[i], 2, i); l[i].setMonday(v(3, i, 3) ? 0 : 1); if (v(4, i, 2)) { l[i].setSaturday(1); l[i].setSunday(1); } if (v(5, i, 3) == 1) { l[i].setStartDate("1999-01-01"); l[i].setEndDate("1999-01-02"); } else if (v(5, i, 3) == 0) { l[i].setStartDate("2020-01-01"); l[i].setEndDate("2020-12-31"); } if (i & 1) { auto od = l[i].initOnlyDates(1); od.set(0, "2020-05-01"); auto ed = l[i].initExceptDates(1); ed.set(0, "2020-06-01"); } }
    out["services.capnpbin"] = pack(m); }
  { capnp::MallocMessageBuilder m; auto r = m.initRoot<own_nodeCollection::NodeCollection>(); auto l = r.initNodes(d.nodes.size());
    for (size_t i = 0; i < d.nodes.size(); i++) { extra(l[i], 6, i); if (v(7, i, 2)) { l[i].setRoutingRadiusMeters(50); l[i].setDefaultDwellTimeSeconds(20); l[i].setStationUuid(uuidFor('Z', 0, 0).c_str()); } l[i].setUuid(d.nodes[i].uuid.c_str()); l[i].setId(i + 1); l[i].setCode(d.nodes[i].code.c_str()); l[i].setName(d.nodes[i].name.c_str()); l[i].setLatitude(micro(d.nodes[i].lat)); l[i].setLongitude(micro(d.nodes[i].lon)); if (i & 1) l[i].setInternalId("node-internal"); }
    out["nodes.capnpbin"] = pack(m); }
  for (size_t i = 0; i < d.nodes.size(); i++) {
    const DNode& n = d.nodes[i]; capnp::MallocMessageBuilder m; auto r = m.initRoot<own_node::Node>();
    extra(r, 8, (unsigned)i); if (v(9, i, 2)) { r.setRoutingRadiusMeters(50); r.setDefaultDwellTimeSeconds(20); }
    r.setUuid(n.uuid.c_str()); r.setId(i + 1); r.setCode(n.code.c_str()); r.setName(n.name.c_str()); r.setLatitude(micro(n.lat)); r.setLongitude(micro(n.lon));
    auto u = r.initTransferableNodesUuids(n.foot.size()); auto t = r.initTransferableNodesTravelTimes(n.foot.size()); auto s = r.initTransferableNodesDistances(n.foot.size());
    for (size_t k = 0; k < n.foot.size(); k++) { u.set(k, d.nodes[n.foot[k].to].uuid.c_str()); t.set(k, n.foot[k].time); s.set(k, n.foot[k].dist); }
    out["nodes/node_" + n.uuid + ".capnpbin"] = pack(m);
  }
  { capnp::MallocMessageBuilder m; auto r = m.initRoot<own_lineCollection::LineCollection>(); auto l = r.initLines(d.lines.size());
    for (size_t i = 0; i < d.lines.size(); i++) { extra(l[i], 10, i); l[i].setIsAutonomous((int8_t)v(11, i, 2)); l[i].setAllowSameLineTransfers((int8_t)v(12, i, 2)); if (v(13, i, 2)) l[i].setCategory("C"); l[i].setUuid(d.lines[i].uuid.c_str()); l[i].setMode(d.lines[i].mode.c_str()); l[i].setAgencyUuid(d.agencies[d.lines[i].agency].uuid.c_str()); l[i].setShortname(d.lines[i].shortname.c_str()); l[i].setLongname(d.lines[i].longname.c_str()); if (i & 1) l[i].setInternalId("line-internal"); }
    out["lines.capnpbin"] = pack(m); }
  for (size_t i = 0; i < d.lines.size(); i++) {
    capnp::MallocMessageBuilder m; auto r = m.initRoot<own_line::Line>(); const DLine& ln = d.lines[i];
    extra(r, 10, (unsigned)i); r.setIsAutonomous((int8_t)v(11, i, 2)); r.setAllowSameLineTransfers((int8_t)v(12, i, 2)); if (v(13, i, 2)) r.setCategory("C");
    r.setUuid(ln.uuid.c_str()); r.setMode(ln.mode.c_str()); r.setAgencyUuid(d.agencies[ln.agency].uuid.c_str()); r.setShortname(ln.shortname.c_str()); r.setLongname(ln.longname.c_str());
    // one schedule per service with trips on the line, trips spread over one to three periods
    std::vector<std::pair<int, std::vector<int>>> byService;
    for (size_t t = 0; t < d.trips.size(); t++) if (d.paths[d.trips[t].path].line == (int)i) { int s = d.trips[t].service; auto it = byService.begin(); while (it != byService.end() && it->first != s) ++it; if (it == byService.end()) { byService.push_back({s, {}}); it = byService.end() - 1; } it->second.push_back((int)t); }
    if (v(14, i, 3) == 1) for (size_t k = byService.size(); k-- > 0;) if (byService[k].second.size() > 1) { auto& w = byService[k].second; std::vector<int> tail(w.begin() + w.size() / 2, w.end()); w.resize(w.size() / 2); int sv = byService[k].first; byService.push_back({sv, tail}); }   // a service with two schedules
    if (v(15, i, 4) == 1) byService.push_back({(int)v(16, i, (unsigned)d.services.size()), {}});                                       // a schedule without trips
    if (v(17, i, 2)) std::reverse(byService.begin(), byService.end());
    if (v(18, i, 2)) for (auto& w : byService) std::reverse(w.second.begin(), w.second.end());
    auto sl = r.initSchedules(byService.size());
    for (size_t k = 0; k < byService.size(); k++) {
      auto sc = sl[k]; unsigned ik = (unsigned)(i * 16 + k); sc.setUuid(uuidFor('H', ik, 0).c_str()); sc.setServiceUuid(d.services[byService[k].first].uuid.c_str()); sc.setPeriodsGroupShortname(v(19, ik, 2) ? "all_day_extended" : "default"); sc.setAllowSecondsBasedSchedules((int8_t)v(20, ik, 2)); sc.setIsFrozen((int8_t)v(21, ik, 2));
      // periods: three kinds of division of the day
      struct Per { int from, to; std::vector<int> trips; }; std::vector<Per> ps; auto& all = byService[k].second; auto first = [&](int t) { return d.trips[t].dep.empty() ? 0 : d.trips[t].dep[0]; };
      switch (v(22, ik, 3)) {
        case 0: { unsigned P = 1 + (i + k) % 3; ps.assign(P, Per{0, 100000, {}}); for (size_t x = 0; x < all.size(); x++) ps[x % P].trips.push_back(all[x]); break; }
        case 1: for (int from = 0, step = v(23, ik, 2) ? 14400 : 43200; from < CLOCK_END; from += step) { Per p{from, from + step, {}}; for (int t : all) if (first(t) >= from && first(t) < from + step) p.trips.push_back(t); if (!p.trips.empty() || v(24, ik + from, 3) == 0) ps.push_back(p); } break;
        default: for (int t : all) ps.push_back({first(t), first(t) + 60, {t}}); break;
      }
      std::set<int> placed; for (auto& p : ps) for (int t : p.trips) placed.insert(t); for (int t : all) if (!placed.count(t)) { if (ps.empty()) ps.push_back({0, 100000, {}}); ps.back().trips.push_back(t); }   // times outside the clock (damaged data)
      if (v(25, ik, 3) == 1) std::reverse(ps.begin(), ps.end());
      auto pl = sc.initPeriods(ps.size());
      for (unsigned p = 0; p < ps.size(); p++) {
        std::vector<int>& mine = ps[p].trips; pl[p].setPeriodShortname(v(26, ik, 2) ? "am_peak" : "all_day"); pl[p].setStartAtSeconds(ps[p].from); pl[p].setEndAtSeconds(ps[p].to); auto tl = pl[p].initTrips(mine.size());
        if (v(27, ik + p, 3) == 1 && !d.paths.empty()) { pl[p].setCustomStartAtSeconds(ps[p].from + 90); pl[p].setIntervalSeconds(600); pl[p].setNumberOfUnits(4); pl[p].setOutboundPathUuid(d.paths[v(28, ik, (unsigned)d.paths.size())].uuid.c_str()); pl[p].setInboundPathUuid(d.paths[v(29, ik, (unsigned)d.paths.size())].uuid.c_str()); }
        for (size_t x = 0; x < mine.size(); x++) {
          const DTrip& t = d.trips[mine[x]]; auto b = tl[x]; size_t n = t.arr.size(); /* the lists differ in length in damaged data only */ b.setUuid(t.uuid.c_str()); b.setPathUuid(d.paths[t.path].uuid.c_str()); b.setDepartureTimeSeconds(t.dep.size() ? t.dep[0] : 0); b.setArrivalTimeSeconds(n ? t.arr[n - 1] : 0); b.setTotalCapacity(v(30, mine[x], 3) == 1 ? 0 : 50); b.setSeatedCapacity(v(31, mine[x], 3) == 1 ? 0 : 20); b.setIsFrozen((int8_t)v(32, mine[x], 2)); if (v(33, mine[x], 2)) b.setBlockUuid(uuidFor('K', v(34, mine[x], 3), 0).c_str());
          auto a = b.initNodeArrivalTimesSeconds(n); auto e = b.initNodeDepartureTimesSeconds(t.dep.size()); auto cb = b.initNodesCanBoard(t.board.size()); auto cu = b.initNodesCanUnboard(t.unboard.size());
          for (size_t q = 0; q < n; q++) a.set(q, t.arr[q]);
          for (size_t q = 0; q < t.dep.size(); q++) e.set(q, t.dep[q]);
          for (size_t q = 0; q < t.board.size(); q++) cb.set(q, t.board[q] ? 1 : 0);
          for (size_t q = 0; q < t.unboard.size(); q++) cu.set(q, t.unboard[q] ? 1 : 0);
        }
      }
    }
    out["lines/line_" + ln.uuid + ".capnpbin"] = pack(m);
  }
  { capnp::MallocMessageBuilder m; auto r = m.initRoot<own_pathCollection::PathCollection>(); auto l = r.initPaths(d.paths.size());
    for (size_t i = 0; i < d.paths.size(); i++) {
      const DPath& p = d.paths[i]; l[i].setUuid(p.uuid.c_str()); l[i].setId((int)i + 1); l[i].setDirection(p.direction.c_str()); l[i].setLineUuid(d.lines[p.line].uuid.c_str()); l[i].setName("path"); l[i].setIsEnabled((int8_t)v(35, i, 2)); l[i].setIsFrozen((int8_t)v(36, i, 2)); if (v(37, i, 3) == 1) l[i].setInternalId("path-internal");
      fillText(l[i].initNodesUuids(p.stops.size()), p.stops, [&](int s) { return d.nodes[s].uuid; });
      json data; data["segments"] = json::array(); for (size_t k = 0; k + 1 < p.stops.size(); k++) { json s = json::object(); if (k < p.segDist.size() && p.segDist[k] >= 0) s["distanceMeters"] = p.segDist[k]; else if (i & 1) s["distanceMeters"] = nullptr; if (k < p.segTime.size()) s["travelTimeSeconds"] = p.segTime[k]; data["segments"].push_back(s); }
      data["totalDistanceMeters"] = 1234; if (v(38, i, 2)) { data["nodeTypes"] = json::array({"engine"}); data["defaultLayoverRatio"] = 0.1; data["waypoints"] = json::array({json::array()}); data["totalTravelTimeWithDwellTimesSeconds"] = 5; } l[i].setData((p.raw ? *p.raw : data.dump()).c_str());
    }
    out["paths.capnpbin"] = pack(m); }
  { capnp::MallocMessageBuilder m; auto r = m.initRoot<own_scenarioCollection::ScenarioCollection>(); auto l = r.initScenarios(d.scenarios.size());
    for (size_t i = 0; i < d.scenarios.size(); i++) {
      const DScenario& s = d.scenarios[i]; l[i].setUuid(s.uuid.c_str()); l[i].setName(s.name.c_str()); auto self = [](const std::string& x) { return x; };
      fillText(l[i].initServicesUuids(s.services.size()), s.services, [&](int x) { return d.services[x].uuid; });
      fillText(l[i].initOnlyLinesUuids(s.onlyLines.size()), s.onlyLines, [&](int x) { return d.lines[x].uuid; }); fillText(l[i].initExceptLinesUuids(s.exceptLines.size()), s.exceptLines, [&](int x) { return d.lines[x].uuid; });
      fillText(l[i].initOnlyAgenciesUuids(s.onlyAgencies.size()), s.onlyAgencies, [&](int x) { return d.agencies[x].uuid; }); fillText(l[i].initExceptAgenciesUuids(s.exceptAgencies.size()), s.exceptAgencies, [&](int x) { return d.agencies[x].uuid; });
      fillText(l[i].initOnlyNodesUuids(s.onlyNodes.size()), s.onlyNodes, [&](int x) { return d.nodes[x].uuid; }); fillText(l[i].initExceptNodesUuids(s.exceptNodes.size()), s.exceptNodes, [&](int x) { return d.nodes[x].uuid; });
      fillText(l[i].initOnlyModesShortnames(s.onlyModes.size()), s.onlyModes, self); fillText(l[i].initExceptModesShortnames(s.exceptModes.size()), s.exceptModes, self);
      extra(l[i], 39, (unsigned)i); if (i & 1) l[i].setSimulationUuid(uuidFor('Y', i, 0).c_str());
    }
    out["scenarios.capnpbin"] = pack(m); }
  return out;
}

// optional survey data: one data source with persons and origin-destination trips (not used by the routing answers)
void addSurvey(const DS& d, std::map<std::string, std::string>& out) {
  std::string src = uuidFor('D', 0, 0);
  { capnp::MallocMessageBuilder m; auto r = m.initRoot<own_dataSourceCollection::DataSourceCollection>(); auto l = r.initDataSources(1); l[0].setUuid(src.c_str()); l[0].setShortname("survey"); l[0].setName("Survey"); l[0].setType(own_dataSource::DataSource::Type::OD_TRIPS); out["dataSources.capnpbin"] = pack(m); }
  { capnp::MallocMessageBuilder m; auto r = m.initRoot<own_personCollection::PersonCollection>(); auto l = r.initPersons(2);
    for (unsigned i = 0; i < 2; i++) { l[i].setUuid(uuidFor('E', i, 0).c_str()); l[i].setDataSourceUuid(src.c_str()); l[i].setId(i + 1); l[i].setExpansionFactor(1.5f); l[i].setAge(33); auto u = l[i].initUsualWorkPlaceNodesUuids(1); u.set(0, d.nodes[0].uuid.c_str()); auto t = l[i].initUsualWorkPlaceNodesTravelTimes(1); t.set(0, 60); auto x = l[i].initUsualWorkPlaceNodesDistances(1); x.set(0, 60); }
    out["dataSources/" + src + "/persons.capnpbin"] = pack(m); }
  { capnp::MallocMessageBuilder m; auto r = m.initRoot<own_odTripCollection::OdTripCollection>(); auto l = r.initOdTrips(2);
    for (unsigned i = 0; i < 2; i++) { l[i].setUuid(uuidFor('F', i, 0).c_str()); l[i].setPersonUuid(uuidFor('E', i, 0).c_str()); l[i].setDataSourceUuid(src.c_str()); l[i].setId(i + 1); l[i].setExpansionFactor(1.f); l[i].setDepartureTimeSeconds(30000); l[i].setOriginLatitude(45500000); l[i].setOriginLongitude(-73600000); l[i].setDestinationLatitude(45500000); l[i].setDestinationLongitude(-73600000); auto u = l[i].initOriginNodesUuids(1); u.set(0, d.nodes[0].uuid.c_str()); auto t = l[i].initOriginNodesTravelTimes(1); t.set(0, 60); auto x = l[i].initOriginNodesDistances(1); x.set(0, 60); auto v = l[i].initDestinationNodesUuids(1); v.set(0, d.nodes[0].uuid.c_str()); auto w = l[i].initDestinationNodesTravelTimes(1); w.set(0, 60); auto y = l[i].initDestinationNodesDistances(1); y.set(0, 60); }
    out["dataSources/" + src + "/odTrips.capnpbin"] = pack(m); }
}

void writeFiles(const std::map<std::string, std::string>& files, const std::string& dir) {
  namespace fs = std::filesystem; std::error_code ec;
  for (auto& [rel, bytes] : files) { fs::path p = fs::path(dir) / rel; fs::create_directories(p.parent_path(), ec); std::ofstream o(p, std::ios::binary | std::ios::trunc); o << bytes; if (!o) throw BackendError("cannot write " + p.string()); }
}
void writeCache(const DS& d, const std::string& dir) { std::error_code ec; std::filesystem::remove_all(dir, ec); std::filesystem::create_directories(dir); writeFiles(cacheFiles(d), dir); }
