// In-memory backend: the repository's calculation classes through the interface its own tests use
// (a DataFetcher and a GeoFilter made from the abstract dataset), answering with the JSON the server would send.
#include "ds.hpp"
#include <cmath>
#include <optional>
#include <boost/uuid/string_generator.hpp>
#include "spdlog/spdlog.h"
#include "data_fetcher.hpp"
#include "transit_data.hpp"
#include "geofilter.hpp"
#include "calculator.hpp"
#include "parameters.hpp"
#include "routing_result.hpp"
#include "result_to_v2.hpp"
#include "result_to_v2_summary.hpp"
#include "result_to_v2_accessibility.hpp"
#include "mode.hpp"
#include "data_source.hpp"
#include "person.hpp"
#include "od_trip.hpp"
#include "agency.hpp"
#include "service.hpp"
#include "node.hpp"
#include "point.hpp"
#include "line.hpp"
#include "path.hpp"
#include "scenario.hpp"
#include "trip.hpp"
#include "connection.hpp"
#include "mem_api.hpp"
#include "spdlog/sinks/sink.h"
extern "C" void trrouting_verif_point(const char*);
namespace T = TrRouting;
using Uuid = boost::uuids::uuid;
static Uuid U(const std::string& s) { return boost::uuids::string_generator()(s); }

struct MemFetcher : T::DataFetcher {
  const DS* d = nullptr;
  const std::map<std::string, T::Mode> getModes() override {
    std::map<std::string, T::Mode> m;
    m.emplace("bus", T::Mode("bus", "Bus", 3, 700)); m.emplace("rail", T::Mode("rail", "Rail", 2, 100)); m.emplace("metro", T::Mode("metro", "Subway/Metro", 1, 400)); m.emplace("tram", T::Mode("tram", "Tram/LRT", 0, 900)); m.emplace("water", T::Mode("water", "Ferry/Boat", 4, 1000)); m.emplace("gondola", T::Mode("gondola", "Gondola/Aerial tram", 6, 1300)); for (const char* x : {"highSpeedRail", "monorail", "tramTrain", "funicular", "taxi", "cableCar", "horse", "other"}) m.emplace(x, T::Mode(x, x, 3, 1700));
    m.emplace("transferable", T::Mode("transferable", "Transferable", -1, -1)); return m;
  }
  int getDataSources(std::map<Uuid, T::DataSource>& x, std::string) override { x.clear(); return 0; }
  int getPersons(std::map<Uuid, T::Person>& x, const std::map<Uuid, T::DataSource>&, std::string) override { x.clear(); return 0; }
  int getOdTrips(std::map<Uuid, T::OdTrip>& x, const std::map<Uuid, T::DataSource>&, const std::map<Uuid, T::Person>&, const std::map<Uuid, T::Node>&, std::string) override { x.clear(); return 0; }
  int getAgencies(std::map<Uuid, T::Agency>& ts, std::string) override { ts.clear(); for (auto& a : d->agencies) { T::Agency x; x.uuid = U(a.uuid); x.acronym = a.acronym; x.name = a.name; x.simulationUuid = boost::uuids::uuid(); ts[x.uuid] = x; } return 0; }
  int getServices(std::map<Uuid, T::Service>& ts, std::string) override { ts.clear(); for (auto& a : d->services) { T::Service x; x.uuid = U(a.uuid); x.name = a.name; x.simulationUuid = boost::uuids::uuid(); ts[x.uuid] = x; } return 0; }
  int getNodes(std::map<Uuid, T::Node>& ts, std::string) override {
    ts.clear(); unsigned long long id = 1;
    for (auto& n : d->nodes) { ts.emplace(U(n.uuid), T::Node(U(n.uuid), id, n.code, n.name, "", std::make_unique<T::Point>(n.lat, n.lon))); id++; }
    for (auto& n : d->nodes) for (auto& f : n.foot) {
      T::Node& a = ts.at(U(n.uuid)); T::Node& b = ts.at(U(d->nodes[f.to].uuid));
      a.transferableNodes.push_back(T::NodeTimeDistance(b, f.time, f.dist)); b.reverseTransferableNodes.push_back(T::NodeTimeDistance(a, f.time, f.dist));
    }
    return 0;
  }
  int getLines(std::map<Uuid, T::Line>& ts, const std::map<Uuid, T::Agency>& ag, const std::map<std::string, T::Mode>& mo, std::string) override { ts.clear(); for (auto& l : d->lines) ts.emplace(U(l.uuid), T::Line(U(l.uuid), ag.at(U(d->agencies[l.agency].uuid)), mo.at(l.mode), l.shortname, l.longname, "", 0)); return 0; }
  int getPaths(std::map<Uuid, T::Path>& ts, const std::map<Uuid, T::Line>& ls, const std::map<Uuid, T::Node>& ns, std::string) override {
    ts.clear();
    for (auto& p : d->paths) { std::vector<std::reference_wrapper<const T::Node>> nr; std::vector<int> dist; for (int x : p.segDist) { if (x < 0) break; dist.push_back(x); } for (int s : p.stops) nr.push_back(ns.at(U(d->nodes[s].uuid))); ts.emplace(U(p.uuid), T::Path(U(p.uuid), ls.at(U(d->lines[p.line].uuid)), p.direction, "", nr, std::vector<std::reference_wrapper<const T::Trip>>(), p.segTime, dist)); }
    return 0;
  }
  int getScenarios(std::map<Uuid, T::Scenario>& ts, const std::map<Uuid, T::Service>& sv, const std::map<Uuid, T::Line>& ls, const std::map<Uuid, T::Agency>& ag, const std::map<Uuid, T::Node>& ns, const std::map<std::string, T::Mode>& mo, std::string) override {
    ts.clear();
    for (auto& s : d->scenarios) {
      T::Scenario x; x.uuid = U(s.uuid); x.name = s.name; x.simulationUuid = boost::uuids::uuid();
      for (int i : s.services) x.servicesList.push_back(sv.at(U(d->services[i].uuid)));
      for (int i : s.onlyLines) x.onlyLines.push_back(ls.at(U(d->lines[i].uuid))); for (int i : s.exceptLines) x.exceptLines.push_back(ls.at(U(d->lines[i].uuid)));
      for (int i : s.onlyAgencies) x.onlyAgencies.push_back(ag.at(U(d->agencies[i].uuid))); for (int i : s.exceptAgencies) x.exceptAgencies.push_back(ag.at(U(d->agencies[i].uuid)));
      for (int i : s.onlyNodes) x.onlyNodes.push_back(ns.at(U(d->nodes[i].uuid))); for (int i : s.exceptNodes) x.exceptNodes.push_back(ns.at(U(d->nodes[i].uuid)));
      for (auto& m : s.onlyModes) x.onlyModes.push_back(mo.at(m)); for (auto& m : s.exceptModes) x.exceptModes.push_back(mo.at(m));
      ts.emplace(x.uuid, x);
    }
    return 0;
  }
  int getSchedules(std::map<Uuid, T::Trip>& trips, const std::map<Uuid, T::Line>& ls, std::map<Uuid, T::Path>& ps, const std::map<Uuid, T::Service>& sv, std::vector<T::Connection>& cs, std::string) override {
    trips.clear(); cs.clear();
    for (auto& t : d->trips) {
      const DLine& l = d->lineOf(t); const T::Line& line = ls.at(U(l.uuid)); T::Path& path = ps.at(U(d->paths[t.path].uuid));
      trips.emplace(U(t.uuid), T::Trip(U(t.uuid), line.agency, line, path, line.mode, sv.at(U(d->services[t.service].uuid)), line.allowSameLineTransfers));
      T::Trip& trip = trips.at(U(t.uuid)); path.tripsRef.push_back(trip); size_t n = t.arr.size(); trip.connectionDepartureTimes.resize(n);
      for (size_t k = 0; k + 1 < n; k++) { cs.push_back(T::Connection(path.nodesRef[k].get(), path.nodesRef[k + 1].get(), t.dep[k], t.arr[k + 1], trip, t.board[k], t.unboard[k + 1], (int)k + 1, false, line.mode.isTransferable() ? 0 : -1)); trip.connectionDepartureTimes[k] = t.dep[k]; }
    }
    return 0;
  }
};

struct TableFilter : T::GeoFilter {
  const DS* d = nullptr;
  std::vector<T::NodeTimeDistance> getAccessibleNodesFootpathsFromPoint(const T::Point& p, const std::map<Uuid, T::Node>& nodes, int maxT, float, bool) override {
    trrouting_verif_point("lookup"); std::vector<T::NodeTimeDistance> r;
    for (auto& pl : d->places) if (std::fabs(pl.lat - p.latitude) < 4e-7 && std::fabs(pl.lon - p.longitude) < 4e-7) { for (auto& a : pl.acc) if (a.need() <= maxT) { auto it = nodes.find(U(d->nodes[a.node].uuid)); if (it != nodes.end()) r.push_back(T::NodeTimeDistance(it->second, a.time, a.dist)); } break; }
    return r;
  }
};

static std::string codeOf(T::ParameterException::Type t) {
  using P = T::ParameterException::Type;
  switch (t) { case P::EMPTY_SCENARIO: return "EMPTY_SCENARIO"; case P::MISSING_SCENARIO: return "MISSING_PARAM_SCENARIO"; case P::MISSING_ORIGIN: return "MISSING_PARAM_ORIGIN"; case P::MISSING_DESTINATION: return "MISSING_PARAM_DESTINATION"; case P::MISSING_TIME_OF_TRIP: return "MISSING_PARAM_TIME_OF_TRIP"; case P::INVALID_ORIGIN: return "INVALID_ORIGIN"; case P::INVALID_DESTINATION: return "INVALID_DESTINATION"; case P::INVALID_NUMERICAL_DATA: return "INVALID_NUMERICAL_DATA"; default: return "PARAM_ERROR_UNKNOWN"; }
}

static std::string codeOf(T::DataStatus s) {
  using D = T::DataStatus;
  switch (s) { case D::NO_AGENCIES: return "MISSING_DATA_AGENCIES"; case D::NO_LINES: return "MISSING_DATA_LINES"; case D::NO_PATHS: return "MISSING_DATA_PATHS"; case D::NO_SERVICES: return "MISSING_DATA_SERVICES"; case D::NO_SCENARIOS: return "MISSING_DATA_SCENARIOS"; case D::NO_SCHEDULES: return "MISSING_DATA_SCHEDULES"; case D::NO_NODES: return "MISSING_DATA_NODES"; default: return "DATA_ERROR"; }
}

Resp memAnswer(T::TransitData& td, T::GeoFilter& geo, const std::string& what, const Params& ps) {
  Resp r; r.http = 200; T::Calculator calc(td, geo); Params p = ps;
  if (td.getDataStatus() != T::DataStatus::READY) { r.body = {{"status", "data_error"}, {"errorCode", codeOf(td.getDataStatus())}}; return r; }
  try {
    if (what == "accessibility") {
      auto q = T::AccessibilityParameters::createAccessibilityParameter(p, td.getScenarios());
      try { auto x = calc.calculateAllNodes(q); if (x) r.body = T::ResultToV2AccessibilityResponse::resultToJsonString(*x, q); } catch (T::NoRoutingFoundException& e) { r.body = T::ResultToV2AccessibilityResponse::noRoutingFoundResponse(q, e.getReason()); }
    } else {
      auto q = T::RouteParameters::createRouteODParameter(p, td.getScenarios()); bool sum = what == "summary";
      try {
        if (q.isWithAlternatives()) { auto x = calc.alternativesRouting(q); r.body = sum ? T::ResultToV2SummaryResponse::resultToJsonString(x, q) : T::ResultToV2Response::resultToJsonString(x, q); }
        else { auto x = calc.calculateSingle(q); if (x) r.body = sum ? T::ResultToV2SummaryResponse::resultToJsonString(*x, q) : T::ResultToV2Response::resultToJsonString(*x, q); }
      } catch (T::NoRoutingFoundException& e) { r.body = sum ? T::ResultToV2SummaryResponse::noRoutingFoundResponse(q, e.getReason()) : T::ResultToV2Response::noRoutingFoundResponse(q, e.getReason()); }
    }
  } catch (T::ParameterException& e) { r.http = 400; r.body = {{"status", "query_error"}, {"errorCode", codeOf(e.getType())}}; }
  catch (std::exception& e) { r.http = 400; r.body = {{"status", "query_error"}, {"errorCode", "PARAM_ERROR_UNKNOWN"}, {"what", e.what()}}; }
  return r;
}

struct Mem : Backend {
  DS d; MemFetcher f; TableFilter g; std::unique_ptr<T::TransitData> td;
  void load(const DS& ds, bool all) override { spdlog::set_level(spdlog::level::off); td.reset(); d = ds; f.d = &d; g.d = &d; td = std::make_unique<T::TransitData>(f, all); }
  Resp get(const std::string& what, const Params& p) override { return memAnswer(*td, g, what, p); }
};
std::unique_ptr<Backend> makeMem() { return std::make_unique<Mem>(); }

// every log message of the calculation becomes a point where a schedule can switch
struct PointSink : spdlog::sinks::sink {
  void log(const spdlog::details::log_msg&) override { trrouting_verif_point("log"); }
  void flush() override {} void set_pattern(const std::string&) override {} void set_formatter(std::unique_ptr<spdlog::formatter>) override {}
};
void logPoints(bool on) {
  if (!on) { spdlog::set_level(spdlog::level::off); return; }
  static bool once = [] { spdlog::set_default_logger(std::make_shared<spdlog::logger>("points", std::make_shared<PointSink>())); return true; }(); (void)once;
  spdlog::set_level(spdlog::level::debug);
}
