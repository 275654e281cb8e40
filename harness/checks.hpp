#pragma once
#include "engine.hpp"
#include "oracle.hpp"
#include "http.hpp"
#include <sstream>

template <class... A> [[noreturn]] void failf(A&&... a) { std::stringstream s; (s << ... << a); fail(s.str()); }

// One dataset loaded in a backend, a series of queries against it, kept for the dump.
struct Session {
  Case& c; const DS& d; Backend& b; json log = json::array();
  Session(Case& cc, const DS& dd, Backend& bb, bool cacheAll = false) : c(cc), d(dd), b(bb) { if (d.spread) c.label(d.spread == 1 ? "stops apart, walking table" : "stops apart, straight line"); flush(); b.load(d, cacheAll); }
  json get(const std::string& what, const Query& q);            // body; records query and answer; http must be 200 with a JSON object
  void flush() { if (c.wantDump) { json j = {{"dataset", d.dump()}, {"queries", log}}; c.dump = j.dump(); } }
};
Backend& memBackend(int k = 0);          // per-process instances
HttpBackend& httpBackend(int k = 0, const std::string& bin = "");
bool haveMem();

inline std::string status(const json& b) { return b.is_object() && b.contains("status") && b["status"].is_string() ? b["status"].get<std::string>() : "(none)"; }
inline std::string reason(const json& b) { return b.is_object() && b.contains("reason") && b["reason"].is_string() ? b["reason"].get<std::string>() : "(none)"; }
inline uint64_t sigOf(const DS& d, const Query& q) { return hashStr(q.dump().dump(), hashStr(d.dump().dump())); }
uint64_t dsHash(const DS&);
std::string brief(const Query&);
// queries for one dataset: fn(query) evaluates it and returns the answer used to derive a boundary query (or null)
void forQueries(Gen& g, const DS& d, const QOpt& o, int maxQ, const std::function<json(const Query&)>& fn);
DS hubDataset(Gen& g, bool full);
DS shifted(const DS& d, int by);
std::string expectReason(const Ctx& c, bool access, const std::string& got);   // "" if the reason is acceptable
std::string judgeMap(const Ctx& c, const json& answer);      // the accessibility map the dataset implies, "" or the difference
std::string judgeBest(const Ctx& c, const json& answer);     // existence and time of the best route the dataset implies

void addCore(std::vector<Check>&, const std::string& tier);
void addService(std::vector<Check>&, const std::string& tier);
void addFiles(std::vector<Check>&, const std::string& tier);
void addDamage(std::vector<Check>&, const std::string& tier);
void addRouter(std::vector<Check>&, const std::string& tier);
void addThreads(std::vector<Check>&, const std::string& tier);
