// Reference models and validators.  Independent of the code under test: they see the abstract dataset and the JSON answer.
#pragma once
#include <string>
#include <vector>
#include "ds.hpp"

constexpr int INF = 1 << 30;

struct Ctx {
  const DS& d; Query q; Limits L;
  std::vector<char> adm;                 // trip admitted by the scenario
  std::vector<Acc> access, egress;       // what the walking router offers within the maxima
  Ctx(const DS&, const Query&);
  bool transferable(int trip) const { return d.lineOf(d.trips[trip]).mode == "transferable"; }
  int wait(int trip) const { return transferable(trip) ? 0 : L.minWait; }
};

// departure-time reference: earliest alighting time per stop (INF: none) over admissible journeys, horizon not applied
std::vector<int> refEarliestAlight(const Ctx&, const std::vector<Acc>& access, int T);
// arrival-time reference: per stop, latest (boarding departure - minimum wait) over admissible journeys reaching the place by A (-INF: none)
std::vector<int> refLatestReady(const Ctx&, const std::vector<Acc>& egress, int A);
struct RefRoute { bool exists = false; int time = 0; };
RefRoute refForward(const Ctx&);                 // earliest arrival
RefRoute refReverse(const Ctx&, int A, bool applyLimits);   // latest departure (first boarding - wait - access)

// facts behind the failure reasons; "maybe" where the reading of the statement allows both
enum class Tri { No, Yes, Maybe };
Tri serviceFromOrigin(const Ctx&, const std::vector<Acc>& access);
Tri serviceToDestination(const Ctx&, const std::vector<Acc>& egress);

// validators: return "" or the first problem
struct Ride { int trip, from, to; int dep, arr; };      // resolved ride (stop indices into the path)
std::string validateItinerary(const Ctx&, const json& route, std::vector<Ride>* rides = nullptr);   // C01
std::string validateLimits(const Ctx&, const json& route);                                          // C02
std::string validateSums(const Ctx&, const json& route);                                            // C06
std::string validateEncoding(const Ctx&, const json& route);                                        // C16: names, ids, distances, coordinates
std::vector<std::string> boardedLines(const json& route);                                           // sorted multiset of line uuids
