#include "engine.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

std::string gScratch = "/tmp", gServerBin, gServerAsan, gServerTsan;
using Clock = std::chrono::steady_clock;
static double since(Clock::time_point t) { return std::chrono::duration<double>(Clock::now() - t).count(); }
void fail(const std::string& msg) { throw Violation{msg}; }

struct Shared { std::atomic<long> nextChunk; std::atomic<int> stop; std::atomic<long> cur[64]; std::atomic<double> caseStart[64]; };

static void onTimeout(int sig) { static const char m[] = "harness: case exceeded its time limit\n"; if (write(2, m, sizeof m - 1)) {} _exit(sig == SIGPROF ? 77 : 78); }
static void armTimers(const Search& s) {
  signal(SIGPROF, onTimeout); signal(SIGALRM, onTimeout);
  itimerval it{}; it.it_value.tv_sec = s.cpuLimit; setitimer(ITIMER_PROF, &it, nullptr);
  alarm(s.wallLimit);
}
// An answer the check cannot read (a field missing or of another type) is a wrong answer, not a problem of the harness.
static void runCase(const Search& s, Gen& g, Case& c) {
  try { s.fn(g, c); } catch (nlohmann::json::out_of_range& e) { throw Violation{std::string("an answer lacks a field: ") + e.what()}; } catch (nlohmann::json::type_error& e) { throw Violation{std::string("an answer has a field of another type: ") + e.what()}; }
}
static std::string describeExit(int st) {
  if (WIFSIGNALED(st)) return std::string("process died with signal ") + strsignal(WTERMSIG(st));
  int c = WEXITSTATUS(st);
  if (c == 77) return "no answer: the CPU limit of the case ran out (hang)";
  if (c == 78) return "no answer: the wall limit of the case ran out (hang)";
  if (c == 99) return "sanitizer report";
  return "process exited with status " + std::to_string(c);
}
static std::string tail(const std::string& f, size_t n = 6000) {
  std::ifstream i(f, std::ios::binary); std::stringstream ss; ss << i.rdbuf(); std::string s = ss.str();
  size_t p = s.find("ERROR: AddressSanitizer"); if (p == std::string::npos) p = s.find("runtime error"); if (p == std::string::npos) p = s.find("WARNING: ThreadSanitizer");
  if (p != std::string::npos) return s.substr(p > 200 ? p - 200 : 0, n);
  return s.size() > n ? s.substr(s.size() - n) : s;
}

// ---- coverage guidance ---------------------------------------------------------------------------
// The repository's objects of the sanitizer build carry counters (-fsanitize-coverage=inline-8bit-counters).  A guided search keeps the tapes of
// cases that reached a new counter bucket in shared memory and mutates them.
struct Range { uint8_t *a, *b; }; static Range gCovAll[1024]; static int gCovN;      // filled before any constructor runs
struct Ranges { Range* begin() const { return gCovAll; } Range* end() const { return gCovAll + gCovN; } bool empty() const { return gCovN == 0; } }; static const Ranges gCov;
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t* a, uint8_t* b) { if (a >= b || gCovN >= 1024) return; for (int i = 0; i < gCovN; i++) if (gCovAll[i].a == a) return; gCovAll[gCovN++] = {a, b}; }
struct Corpus {
  static constexpr size_t SLOTS = 4096, DRAWS = 16384, MAP = 1 << 20;
  std::atomic<long> count; std::atomic<uint8_t> seen[MAP]; uint32_t len[SLOTS]; uint32_t tape[SLOTS][DRAWS]; uint32_t cur[64][DRAWS];
  static Corpus* make() { return (Corpus*)mmap(nullptr, sizeof(Corpus), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
  static void reset() { for (auto& [a, b] : gCov) memset(a, 0, b - a); }
  bool fresh() {                                                     // counters of the case against everything seen; false if nothing is new
    size_t k = 0; bool n = false;
    for (auto& [a, b] : gCov) for (uint8_t* p = a; p < b && k < MAP; p++, k++) if (*p) { uint8_t v = *p, bit = v < 4 ? 1 << (v - 1) : v < 8 ? 8 : v < 16 ? 16 : v < 32 ? 32 : v < 128 ? 64 : 128; if (!(seen[k] & bit)) { seen[k] |= bit; n = true; } }
    return n; }
  void add(const std::vector<uint32_t>& t) { if (t.empty() || t.size() > DRAWS) return; long i = count++ % (long)SLOTS; len[i] = 0; memcpy(tape[i], t.data(), t.size() * 4); len[i] = (uint32_t)t.size(); }
  std::vector<uint32_t> take(uint64_t x) { long n = std::min<long>(count, SLOTS); if (n <= 0) return {}; long i = x & 1 ? (long)((x >> 1) % n) : std::max(0L, n - 1 - (long)((x >> 1) % std::max(1L, n / 4))); return {tape[i], tape[i] + std::min<uint32_t>(len[i], DRAWS)}; }
  std::vector<uint32_t> mutant(uint64_t seed) {
    uint64_t x = seed; auto rnd = [&](uint64_t n) { x = mix64(x, 0x51); return n ? x % n : 0; }; std::vector<uint32_t> t = take(mix64(seed, 3)); if (t.empty()) return t;
    for (int k = 1 + (int)rnd(rnd(3) ? 4 : 16); k-- > 0 && !t.empty();) { size_t i = rnd(t.size());
      switch (rnd(9)) {
        case 0: case 1: t[i] = (uint32_t)rnd(1 << 20); break;
        case 2: t[i] = (uint32_t)rnd(4); break;
        case 3: t[i] += rnd(2) ? 1 : -1; break;
        case 4: t.erase(t.begin() + i, t.begin() + std::min(t.size(), i + 1 + rnd(8))); break;
        case 5: { size_t n = 1 + rnd(8); std::vector<uint32_t> v; while (n--) v.push_back((uint32_t)rnd(1 << 20)); t.insert(t.begin() + i, v.begin(), v.end()); break; }
        case 6: t.resize(i + 1); break;                                // what follows is drawn anew
        case 7: { auto u = take(mix64(x, 9)); if (!u.empty()) { size_t at = rnd(2) ? std::min(i, u.size()) : rnd(u.size()); t.resize(i); t.insert(t.end(), u.begin() + at, u.end()); } break; }
        default: { size_t n = 1 + rnd(16), j = rnd(t.size()); for (size_t q = 0; q < n && i + q < t.size() && j + q < t.size(); q++) t[i + q] = t[j + q]; } } }
    if (t.size() > DRAWS / 2) t.resize(DRAWS / 2); return t; }
};

// ---- one attempt in a forked child -------------------------------------------------------------
struct Attempt { bool violated = false, crashed = false; std::string msg, dump; std::vector<uint32_t> used; std::vector<std::string> known; };
static Attempt attempt(const Search& s, const std::vector<uint32_t>& tape, bool dump, const std::string& scratch) {
  int p[2]; if (pipe(p)) { perror("pipe"); exit(2); }
  mkdir(scratch.c_str(), 0755);
  std::string errf = scratch + "/attempt.err";
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); close(p[0]);
    int e = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(e, 2); dup2(e, 1);
    gScratch = scratch; armTimers(s);
    Gen g(tape); Case c; c.wantDump = dump; json r; int code = 0;
    try { runCase(s, g, c); } catch (Violation& v) { code = 10; r["msg"] = v.msg; } catch (BackendError& b) { code = 20; r["msg"] = b.what(); } catch (std::exception& b) { code = 20; r["msg"] = std::string("harness exception: ") + b.what(); }
    r["used"] = g.out; r["dump"] = c.dump; r["known"] = c.known;
    std::string o = r.dump(-1, ' ', false, json::error_handler_t::replace); size_t off = 0;
    while (off < o.size()) { ssize_t w = write(p[1], o.data() + off, o.size() - off); if (w <= 0) break; off += w; }
    close(p[1]); _exit(code);
  }
  close(p[1]); std::string o; char buf[65536]; ssize_t n;
  while ((n = read(p[0], buf, sizeof buf)) > 0) o.append(buf, n);
  close(p[0]); int st; waitpid(pid, &st, 0);
  Attempt a; json r = json::parse(o, nullptr, false);
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 10 || WEXITSTATUS(st) == 20) && r.is_object()) {
    a.violated = WEXITSTATUS(st) == 10; a.used = r["used"].get<std::vector<uint32_t>>(); a.dump = r["dump"]; a.known = r["known"].get<std::vector<std::string>>();
    if (r.contains("msg")) a.msg = r["msg"];
  } else { a.crashed = true; a.violated = s.crashIsViolation; a.used = tape; a.msg = describeExit(st) + "\n" + tail(errf, 4000); }
  return a;
}

static std::vector<uint32_t> shrink(const Search& s, std::vector<uint32_t> t, const std::string& scratch, bool crash) {
  auto t0 = Clock::now(); long tries = 0;
  auto bad = [&](const std::vector<uint32_t>& c, std::vector<uint32_t>* used) {
    tries++; Attempt a = attempt(s, c, false, scratch);
    if (a.violated && a.crashed == crash) { if (used) *used = (a.crashed || a.used.size() > c.size()) ? c : a.used; return true; }
    return false; };
  auto over = [&] { return since(t0) > s.shrinkSeconds; };
  bool progress = true;
  while (progress && !over()) {
    progress = false;
    for (size_t sz = std::max<size_t>(1, t.size() / 2); sz >= 1 && !over(); sz /= 2) {
      for (size_t i = 0; i + sz <= t.size() && !over();) {
        std::vector<uint32_t> c(t.begin(), t.begin() + i); c.insert(c.end(), t.begin() + i + sz, t.end());
        std::vector<uint32_t> u;
        if (bad(c, &u) && u.size() < t.size()) { t = u; progress = true; } else i += sz;
      }
      if (sz == 1) break;
    }
    for (size_t sz = std::min<size_t>(16, std::max<size_t>(1, t.size())); sz >= 1 && !over(); sz /= 4) {
      for (size_t i = 0; i < t.size() && !over(); i += sz) {
        bool nz = false; std::vector<uint32_t> c = t; for (size_t k = i; k < std::min(i + sz, t.size()); k++) { nz |= c[k] != 0; c[k] = 0; }
        std::vector<uint32_t> u; if (nz && bad(c, &u)) { t = u; progress = true; }
      }
      if (sz == 1) break;
    }
    for (size_t i = 0; i < t.size() && !over(); i++) {
      uint32_t lo = 0; while (i < t.size() && lo < t[i] && !over()) { uint32_t mid = lo + (t[i] - lo) / 2; auto c = t; c[i] = mid; std::vector<uint32_t> u; if (bad(c, &u)) { t = u; progress = true; } else lo = mid + 1; if (i >= t.size()) break; }
    }
  }
  fprintf(stderr, "shrink: %ld attempts, %.1f s, tape %zu\n", tries, since(t0), t.size());
  return t;
}

// ---- search ------------------------------------------------------------------------------------
struct Agg { long cases = 0, evals = 0, errors = 0; std::unordered_set<uint64_t> nt; std::map<std::string, long> labels; std::vector<std::string> samples, errmsgs; std::set<std::string> known; };
struct Found { bool any = false, crash = false; long idx = -1; std::string msg; std::vector<uint32_t> tape; };

static uint64_t caseSeed(uint64_t seed, const std::string& id, const std::string& name, long idx) { return mix64(mix64(seed, hashStr(id + "/" + name)), (uint64_t)idx); }

static Found runSearch(const Check& chk, const Search& s, const RunOpts& o, Agg& agg, double& wall, long from, double budget) {
  auto t0 = Clock::now();
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (sh) Shared(); sh->nextChunk = (from + s.chunk - 1) / s.chunk; sh->stop = 0;
  Corpus* corpus = s.guided && !gCov.empty() ? Corpus::make() : nullptr; if (corpus == MAP_FAILED) corpus = nullptr;
  long total = s.fixedTotal >= 0 ? s.fixedTotal : s.maxCases;
  std::vector<pid_t> pids; std::vector<std::string> files;
  for (int w = 0; w < s.workers; w++) {
    std::string wd = o.scratch + "/w" + std::to_string(w); mkdir(wd.c_str(), 0755);
    std::string outf = wd + "/out.jsonl"; unlink(outf.c_str()); files.push_back(outf);
    fflush(stdout); fflush(stderr);
    pid_t wp = fork();
    if (wp == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      gScratch = wd;
      while (!sh->stop) {
        long ch = sh->nextChunk++; long a = ch * s.chunk, b = std::min(total, a + s.chunk);
        if (a >= total || (s.fixedTotal < 0 && since(t0) > budget)) break;
        while (a < b && !sh->stop) {
          std::string errf = wd + "/err.txt";
          sh->cur[w] = a;
          pid_t cp = fork();
          if (cp == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            int e = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(e, 2); dup2(e, 1);
            Agg g; Found f; long i = a;
            for (; i < b; i++) {
              if (sh->stop || (s.fixedTotal < 0 && since(t0) > budget + 2)) break;
              sh->cur[w] = i; armTimers(s);
              uint64_t cs = caseSeed(o.seed, chk.id, s.name, i); Gen gen(cs); Case c;
              if (corpus) { if (mix64(cs, 5) % 100 < 70) gen = Gen(corpus->mutant(cs), mix64(cs, 6)); gen.mirror = corpus->cur[w]; gen.mirrorCap = Corpus::DRAWS; gen.mirror[0] = 0; Corpus::reset(); } c.wantDump = i < 2;
              try { runCase(s, gen, c); } catch (Violation& v) { f.any = true; f.idx = i; f.msg = v.msg; } catch (BackendError& x) { g.errors++; g.errmsgs.push_back(x.what()); } catch (std::exception& x) { g.errors++; g.errmsgs.push_back(std::string("harness exception: ") + x.what()); }
              if (corpus && !f.any && corpus->fresh()) { corpus->add(gen.out); c.label("reached new code"); }
              g.cases++; g.evals += c.evals; for (auto& l : c.labels) g.labels[l.first] += l.second;
              for (auto& k : c.known) g.known.insert(k);
              for (auto x : c.sigs) g.nt.insert(x);
              if (c.wantDump && !c.dump.empty()) g.samples.push_back(c.dump);
              if (f.any) { sh->stop = 1; break; }
            }
            alarm(0);
            json r; r["cases"] = g.cases; r["evals"] = g.evals; r["errors"] = g.errors; r["nt"] = g.nt; r["labels"] = g.labels; r["samples"] = g.samples; r["errmsgs"] = g.errmsgs; r["known"] = g.known;
            if (f.any) { r["viol"] = {{"idx", f.idx}, {"msg", f.msg}, {"crash", false}}; if (corpus) r["viol"]["tape"] = std::vector<uint32_t>(corpus->cur[w] + 1, corpus->cur[w] + 1 + corpus->cur[w][0]); }
            std::ofstream of(outf, std::ios::app); of << r.dump(-1, ' ', false, json::error_handler_t::replace) << "\n"; of.close();
            _exit(0);
          }
          int st; waitpid(cp, &st, 0);
          if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
          long at = sh->cur[w];
          json r; r["cases"] = at - a + 1; r["evals"] = at - a + 1; r["errors"] = s.crashIsViolation ? 0 : 1; r["nt"] = json::array(); r["labels"] = json::object(); r["samples"] = json::array(); r["known"] = json::array();
          r["errmsgs"] = json::array(); if (!s.crashIsViolation) r["errmsgs"].push_back("case " + std::to_string(at) + ": " + describeExit(st) + "\n" + tail(errf, 1500));
          if (s.crashIsViolation) { r["viol"] = {{"idx", at}, {"msg", describeExit(st) + "\n" + tail(errf, 4000)}, {"crash", true}}; if (corpus) r["viol"]["tape"] = std::vector<uint32_t>(corpus->cur[w] + 1, corpus->cur[w] + 1 + corpus->cur[w][0]); sh->stop = 1; }
          std::ofstream of(outf, std::ios::app); of << r.dump(-1, ' ', false, json::error_handler_t::replace) << "\n"; of.close();
          a = at + 1;
        }
      }
      _exit(0);
    }
    pids.push_back(wp);
  }
  for (pid_t p : pids) { int st; waitpid(p, &st, 0); }
  Found best;
  for (auto& f : files) {
    std::ifstream i(f); std::string line;
    while (std::getline(i, line)) {
      json r = json::parse(line, nullptr, false); if (!r.is_object()) continue;
      agg.cases += (long)r["cases"]; agg.evals += (long)r["evals"]; agg.errors += (long)r["errors"];
      for (auto& h : r["nt"]) agg.nt.insert(h.get<uint64_t>());
      for (auto& [k, v] : r["labels"].items()) agg.labels[s.name + ":" + k] += (long)v;
      for (auto& x : r["samples"]) if (agg.samples.size() < 4) agg.samples.push_back(x);
      for (auto& x : r["errmsgs"]) if (agg.errmsgs.size() < 5) agg.errmsgs.push_back(x);
      for (auto& x : r["known"]) agg.known.insert(x.get<std::string>());
      if (r.contains("viol") && (!best.any || (long)r["viol"]["idx"] < best.idx)) { best.any = true; best.idx = r["viol"]["idx"]; best.msg = r["viol"]["msg"]; best.crash = r["viol"]["crash"]; best.tape.clear(); if (r["viol"].contains("tape")) best.tape = r["viol"]["tape"].get<std::vector<uint32_t>>(); }
    }
  }
  munmap(sh, sizeof(Shared)); if (corpus) munmap(corpus, sizeof(Corpus)); wall = since(t0);
  return best;
}

static std::string readKnown(const std::string& file, std::vector<std::array<std::string, 3>>& out) {
  std::ifstream i(file); std::string l;
  while (std::getline(i, l)) { if (l.rfind("known: ", 0) != 0) continue; std::stringstream ss(l.substr(7)); std::string prop, key, rest; ss >> prop >> key; std::getline(ss, rest); out.push_back({prop.substr(prop.find('=') + 1), key.substr(key.find('=') + 1), rest}); }
  return "";
}

int runCheck(const Check& chk, const RunOpts& o) {
  auto t0 = Clock::now(); Agg agg; json per = json::array(); int violations = 0; std::string replay; long unrepro = 0;
  std::string vmsg;
  for (auto& s : chk.searches) {
   int unreproHere = 0; double used = 0; long from = 0;
   // a failure that no rerun shows again is put aside once; a second one, in another case of the same search, counts
   for (bool again = true; again && !violations;) {
    again = false; double wall = 0; long c0 = agg.cases, e0 = agg.evals; size_t n0 = agg.nt.size();
    Found f = runSearch(chk, s, o, agg, wall, from, std::max(s.seconds * o.scale - used, from ? 6.0 : 0.0)); used += wall;
    json ps = {{"search", s.name}, {"cases", agg.cases - c0}, {"evaluations", agg.evals - e0}, {"distinct_nontrivial", agg.nt.size() - n0}, {"wall_s", wall}};
    printf("[%s] %s: %ld cases, %ld evaluations, %zu distinct non-trivial, %.1f s%s\n", chk.id.c_str(), s.name.c_str(), agg.cases - c0, agg.evals - e0, agg.nt.size() - n0, wall, f.any ? " -- FAILURE" : ""); fflush(stdout);
    if (f.any) {
      // regenerate the tape of the failing case, confirm, shrink, confirm three times
      std::string sd = o.scratch + "/shrink";
      mkdir(sd.c_str(), 0755);
      size_t cap = 1 << 20; uint32_t* mem = (uint32_t*)mmap(nullptr, cap * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      auto seeded = [&](std::vector<uint32_t>& out, std::string& msg, bool& crashed) {   // rerun the case from its seed; the draws are mirrored so that a crash does not lose them
        std::string mf = sd + "/msg"; unlink(mf.c_str()); mem[0] = 0;
        fflush(stdout); fflush(stderr); pid_t pid = fork();
        if (pid == 0) {
          prctl(PR_SET_PDEATHSIG, SIGKILL); std::string errf = sd + "/seeded.err"; int e = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(e, 2); dup2(e, 1);
          gScratch = sd; armTimers(s); Gen g = f.tape.empty() ? Gen(caseSeed(o.seed, chk.id, s.name, f.idx)) : Gen(f.tape); g.mirror = mem; g.mirrorCap = cap; Case c; int code = 0; std::string m;
          try { runCase(s, g, c); } catch (Violation& v) { code = 10; m = v.msg; } catch (std::exception& x) { code = 20; m = x.what(); }
          std::ofstream(mf) << m; _exit(code);
        }
        int st; waitpid(pid, &st, 0);
        int code = WIFEXITED(st) ? WEXITSTATUS(st) : -1; crashed = code != 0 && code != 10 && code != 20;
        out.assign(mem + 1, mem + 1 + mem[0]);
        std::ifstream im(mf); std::stringstream ss; ss << im.rdbuf(); msg = ss.str();
        return code; };
      int repro = 0; bool crash = f.crash; std::string msg = f.msg; std::vector<uint32_t> best;
      bool seedOnly = false;
      for (int k = 0; k < s.reproTries && repro < 3; k++) { std::vector<uint32_t> t; std::string m; bool c = false; int code = seeded(t, m, c); if (best.empty() && !t.empty()) best = t; if (code == 10 || (c && s.crashIsViolation)) { repro++; if (!t.empty()) best = t; if (code == 10) msg = m; crash = c; } }
      if (crash && best.empty()) seedOnly = true;
      if (repro < s.reproNeeded && unreproHere++ == 0) {
        unrepro++; from = f.idx + 1; again = true; printf("[%s] a failure of %s (case %ld) did not reproduce (%d of %d): %s\n", chk.id.c_str(), s.name.c_str(), f.idx, repro, s.reproTries, msg.substr(0, 600).c_str());
        ps["unreproducible"] = msg.substr(0, 400); per.push_back(ps); continue;
      }
      std::string dump;
      if (best.empty()) seedOnly = true;
      if (!seedOnly && repro >= 2 && !getenv("TRV_NOSHRINK")) { best = shrink(s, best, sd, crash); Attempt a = attempt(s, best, true, sd); if (a.violated) { msg = a.msg; dump = a.dump; } }
      mkdir(o.replayDir.c_str(), 0755);
      replay = o.replayDir + "/" + chk.id + "-" + s.name + "-s" + std::to_string(o.seed) + "-" + std::to_string(f.idx) + ".replay";
      std::ofstream of(replay); of << "property " << chk.id << "\nsearch " << s.name << "\ntier " << o.tier << "\nseed " << o.seed << "\nindex " << f.idx << "\ntape";
      if (seedOnly) of << " seed"; else for (auto v : best) of << ' ' << v;
      of << "\n\n# " << msg << "\n\n" << dump << "\n"; of.close();
      vmsg = msg; violations++; ps["violation"] = msg.substr(0, 1000); per.push_back(ps);
      break;
    }
    per.push_back(ps);
   }
   if (violations) break;
  }
  std::vector<std::array<std::string, 3>> known; readKnown(o.knownFile, known);
  for (auto& k : known) if (k[0] == chk.id) printf("KNOWN-FINDING: property=%s %s%s\n", chk.id.c_str(), k[1].c_str(), k[2].c_str());
  json ev; ev["property"] = chk.id; ev["tier"] = o.tier; ev["seed"] = o.seed; ev["level"] = chk.level; ev["wall_s"] = since(t0); ev["violations"] = violations; ev["assumptions"] = chk.assumptions;
  json cov; cov["evaluations"] = agg.evals; cov["cases"] = agg.cases; cov["distinct_nontrivial"] = agg.nt.size(); cov["rule"] = chk.rule; cov["samples"] = agg.samples; cov["labels"] = agg.labels; cov["searches"] = per; cov["harness_errors"] = agg.errors; cov["harness_error_samples"] = agg.errmsgs; cov["unreproducible_failures"] = unrepro;
  ev["coverage"] = cov;
  if (!o.evidence.empty()) { std::ofstream of(o.evidence); of << ev.dump(1, ' ', false, json::error_handler_t::replace) << "\n"; }
  if (agg.errors) printf("[%s] %ld cases were inconclusive (harness errors), e.g. %s\n", chk.id.c_str(), agg.errors, agg.errmsgs.empty() ? "" : agg.errmsgs[0].substr(0, 400).c_str());
  if (violations) { printf("%s\n", vmsg.substr(0, 3000).c_str()); printf("VIOLATION property=%s replay=%s\n", chk.id.c_str(), replay.c_str()); return 1; }
  return 0;
}

int replayFile(const std::vector<Check>& checks, const std::string& path, const RunOpts& o) {
  std::ifstream i(path); std::string l, id, name; std::vector<uint32_t> tape; bool seedOnly = false; uint64_t seed = 1; long idx = 0;
  while (std::getline(i, l)) {
    std::stringstream ss(l); std::string k; ss >> k;
    if (k == "property") ss >> id; else if (k == "search") ss >> name; else if (k == "seed") ss >> seed; else if (k == "index") ss >> idx;
    else if (k == "tape") { std::string v; while (ss >> v) { if (v == "seed") seedOnly = true; else tape.push_back((uint32_t)std::stoul(v)); } break; }
  }
  for (auto& c : checks) if (c.id == id) for (auto& s : c.searches) if (s.name == name) {
    if (seedOnly) { gScratch = o.scratch; armTimers(s); Gen g(caseSeed(seed, id, name, idx)); Case cs; cs.wantDump = true; try { runCase(s, g, cs); } catch (Violation& v) { printf("%s\nVIOLATION property=%s replay=%s\n", v.msg.c_str(), id.c_str(), path.c_str()); return 1; } return 0; }
    Attempt a; for (int k = 0; k < (s.reproNeeded < 2 ? 20 : 1) && !a.violated; k++) a = attempt(s, tape, true, o.scratch + "/replay");
    printf("%s\n", a.dump.c_str());
    if (a.violated) { printf("%s\nVIOLATION property=%s replay=%s\n", a.msg.c_str(), id.c_str(), path.c_str()); return 1; }
    printf("replay: no violation%s\n", a.msg.empty() ? "" : (" (" + a.msg + ")").c_str()); return 0;
  }
  fprintf(stderr, "no such property/search\n"); return 2;
}
