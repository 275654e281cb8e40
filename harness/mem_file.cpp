// In-process backend over the cache files: CacheFetcher and TransitData as main() uses them.
#include "ds.hpp"
#include <cmath>
#include "spdlog/spdlog.h"
#include "cache_fetcher.hpp"
#include "transit_data.hpp"
#include "geofilter.hpp"
#include "node.hpp"
#include "point.hpp"
#include "mem_api.hpp"
namespace T = TrRouting;
using Uuid = boost::uuids::uuid;

// finds stops by their coordinates, as a real walking router does
struct PlaceFilter : T::GeoFilter {
  DS d;
  std::vector<T::NodeTimeDistance> getAccessibleNodesFootpathsFromPoint(const T::Point& p, const std::map<Uuid, T::Node>& nodes, int maxT, float, bool) override {
    std::vector<T::NodeTimeDistance> r;
    for (auto& pl : d.places) if (std::fabs(pl.lat - p.latitude) < 4e-7 && std::fabs(pl.lon - p.longitude) < 4e-7) {
      for (auto&& [uuid, n] : nodes) { (void)uuid; for (auto& a : pl.acc) if (a.time <= maxT && std::fabs(d.nodes[a.node].lat - n.point->latitude) < 4e-7 && std::fabs(d.nodes[a.node].lon - n.point->longitude) < 4e-7) { r.push_back(T::NodeTimeDistance(n, a.time, a.dist)); break; } }
      break;
    }
    return r;
  }
};
struct File : FileBackend {
  PlaceFilter g; std::unique_ptr<T::CacheFetcher> f; std::unique_ptr<T::TransitData> td;
  void open(const DS& ds, bool all) override { spdlog::set_level(spdlog::level::off); td.reset(); g.d = ds; f = std::make_unique<T::CacheFetcher>(dir); td = std::make_unique<T::TransitData>(*f, all); }
  void load(const DS& ds, bool all) override { writeCache(ds, dir); open(ds, all); }
  void setPlaces(const DS& ds) override { g.d = ds; }
  void update(const std::string& names) override {
    std::string s = names + ",", n; 
    for (char c : s) { if (c != ',') { n += c; continue; }
      bool all = n == "all";
      if (all || n == "data_sources") td->updateDataSources("");
      if (all || n == "persons") td->updatePersons("");
      if (all || n == "od_trips") td->updateOdTrips("");
      if (all || n == "agencies") td->updateAgencies("");
      if (all || n == "services") td->updateServices("");
      if (all || n == "nodes") td->updateNodes("");
      if (all || n == "lines") td->updateLines("");
      if (all || n == "paths") td->updatePaths("");
      if (all || n == "scenarios") td->updateScenarios("");
      if (all || n == "schedules") td->updateSchedules("");
      n.clear(); }
  }
  Resp get(const std::string& what, const Params& p) override { return memAnswer(*td, g, what, p); }
};
std::unique_ptr<FileBackend> makeFile() { return std::make_unique<File>(); }
