#include "http.hpp"
#include "engine.hpp"
#include <arpa/inet.h>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sstream>
#include <sys/file.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <filesystem>
using Clk = std::chrono::steady_clock;
static long ms(Clk::time_point t) { return (long)std::chrono::duration_cast<std::chrono::milliseconds>(Clk::now() - t).count(); }
std::string readFile(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }

static int listenOn(int port) {
  int s = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), one = 1; setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
  sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_ANY); a.sin_port = htons(port);
  if (bind(s, (sockaddr*)&a, sizeof a) || listen(s, 128)) { close(s); return -1; }
  return s;
}
// ports are handed out under a lock file, so that concurrent workers never share one
int freePort(int& lockFd) {
  static unsigned ctr = 0; mkdir("/tmp/trv-ports", 0777);
  for (int tries = 0; tries < 2000; tries++) {
    int p = 11000 + (int)(mix64((uint64_t)getpid(), ctr++) % 20000);
    std::string f = "/tmp/trv-ports/" + std::to_string(p);
    int l = open(f.c_str(), O_CREAT | O_RDWR | O_CLOEXEC, 0666); if (l < 0) continue;
    if (flock(l, LOCK_EX | LOCK_NB)) { close(l); continue; }
    int s = listenOn(p); if (s < 0) { close(l); continue; }
    close(s); lockFd = l; return p;
  }
  throw BackendError("no free port");
}

Raw rawExchange(int port, const std::string& bytes, int timeoutMs) {
  Raw r; auto t0 = Clk::now();
  int s = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), one = 1; setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
  sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port);
  if (connect(s, (sockaddr*)&a, sizeof a)) { close(s); return r; }
  r.connected = true; size_t off = 0;
  while (off < bytes.size()) { ssize_t w = send(s, bytes.data() + off, bytes.size() - off, MSG_NOSIGNAL); if (w <= 0) break; off += w; }
  char buf[65536];
  for (;;) {
    long left = timeoutMs - ms(t0); if (left <= 0) { r.timeout = true; break; }
    pollfd p{s, POLLIN, 0}; int k = poll(&p, 1, (int)left); if (k == 0) { r.timeout = true; break; } if (k < 0) { if (errno == EINTR) continue; break; }
    ssize_t n = recv(s, buf, sizeof buf, 0); if (n == 0) { r.eof = true; break; } if (n < 0) { if (errno == EINTR) continue; break; }
    r.data.append(buf, n);
  }
  close(s); return r;
}
Raw rawGet(int port, const std::string& t, int timeoutMs) { return rawExchange(port, "GET " + t + " HTTP/1.1\r\nHost: 127.0.0.1\r\nConnection: close\r\n\r\n", timeoutMs); }

Parsed parseHttp(const Raw& raw) {
  Parsed p; auto no = [&](const std::string& w) { p.why = w; return p; };
  if (!raw.connected) return no("could not connect");
  if (raw.timeout) return no("no complete answer before the time limit; received " + std::to_string(raw.data.size()) + " bytes");
  if (raw.data.empty()) return no("connection closed without an answer");
  size_t h = raw.data.find("\r\n\r\n"); if (h == std::string::npos) return no("no header end in the answer");
  std::stringstream ss(raw.data.substr(0, h)); std::string l; std::getline(ss, l);
  if (l.rfind("HTTP/1.", 0) != 0 || l.size() < 12) return no("bad status line " + l);
  p.status = atoi(l.c_str() + 9);
  while (std::getline(ss, l)) { if (!l.empty() && l.back() == '\r') l.pop_back(); size_t c = l.find(':'); if (c == std::string::npos) return no("bad header line " + l); std::string k = l.substr(0, c), v = l.substr(c + 1); for (auto& x : k) x = tolower(x); while (!v.empty() && v[0] == ' ') v.erase(0, 1); if (p.headers.count(k) && k == "content-length") return no("two Content-Length headers"); p.headers[k] = v; }
  p.body = raw.data.substr(h + 4);
  auto it = p.headers.find("content-length"); if (it == p.headers.end()) return no("no Content-Length");
  if (it->second.empty() || it->second.find_first_not_of("0123456789") != std::string::npos || std::stoull(it->second) != p.body.size()) return no("Content-Length " + it->second + " but the body has " + std::to_string(p.body.size()) + " bytes");
  p.ok = true; return p;
}
std::string keepAlive(int port, const std::vector<std::string>& ts, const std::function<void(size_t, const Parsed&)>& fn, int timeoutMs) {
  int s = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), one = 1; setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
  struct Closer { int s; ~Closer() { close(s); } } closer{s};
  sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port);
  if (connect(s, (sockaddr*)&a, sizeof a)) return "could not connect";
  for (size_t i = 0; i < ts.size(); i++) {
    std::string rq = "GET " + ts[i] + " HTTP/1.1\r\nHost: 127.0.0.1\r\n\r\n"; size_t off = 0; while (off < rq.size()) { ssize_t w = send(s, rq.data() + off, rq.size() - off, MSG_NOSIGNAL); if (w <= 0) return "connection lost while sending request " + std::to_string(i); off += w; }
    Raw raw; raw.connected = true; auto t0 = Clk::now(); char buf[65536]; size_t need = std::string::npos;
    while (need == std::string::npos || raw.data.size() < need) {
      long left = timeoutMs - ms(t0); if (left <= 0) return "no complete answer to request " + std::to_string(i) + " of a kept connection";
      pollfd p{s, POLLIN, 0}; int k = poll(&p, 1, (int)left); if (k < 0 && errno == EINTR) continue; if (k <= 0) return "no complete answer to request " + std::to_string(i) + " of a kept connection";
      ssize_t n = recv(s, buf, sizeof buf, 0); if (n <= 0) return "connection closed during answer " + std::to_string(i); raw.data.append(buf, n);
      size_t h = raw.data.find("\r\n\r\n"); if (h != std::string::npos && need == std::string::npos) { std::string head = raw.data.substr(0, h); for (auto& x : head) x = tolower(x); size_t c = head.find("content-length:"); if (c == std::string::npos) return "no Content-Length"; need = h + 4 + strtoul(head.c_str() + c + 15, nullptr, 10); }
    }
    pollfd p{s, POLLIN, 0}; if (i + 1 < ts.size() || true) { if (poll(&p, 1, 2) > 0) { ssize_t n = recv(s, buf, sizeof buf, MSG_DONTWAIT); if (n > 0) raw.data.append(buf, n); } }
    Parsed x = parseHttp(raw); if (!x.ok) return "bad answer " + std::to_string(i) + " on a kept connection: " + x.why; fn(i, x);
  }
  return "";
}
std::string urlEncode(const std::string& s) { std::string o; char b[4]; for (unsigned char c : s) { if (isalnum(c) || c == '-' || c == '_' || c == '.' || c == '~' || c == ',' || c == ':') o += c; else { snprintf(b, 4, "%%%02X", c); o += b; } } return o; }
std::string target(const std::string& path, const Params& ps) { std::string t = path; bool first = true; for (auto& [k, v] : ps) { t += first ? "?" : "&"; first = false; t += urlEncode(k) + "=" + urlEncode(v); } return t; }

// ---- walking router -------------------------------------------------------------------------------
Router::Router() { for (;;) { port = freePort(lock); fd = listenOn(port); if (fd >= 0) break; close(lock); } th = std::thread([this] { loop(); }); }
Router::~Router() {
  stop = true; th.join(); refuse(true);
  { std::lock_guard<std::mutex> g(cmu); for (int c : open) shutdown(c, SHUT_RDWR); }
  while (active > 0) usleep(1000);
}
void Router::refuse(bool on) {     // the port stays ours by its lock file
  std::lock_guard<std::mutex> g(fmu);
  if (on && fd >= 0) { close(fd); fd = -1; }
  if (!on && fd < 0) { for (int i = 0; i < 200 && (fd = listenOn(port)) < 0; i++) usleep(5000); if (fd < 0) throw BackendError("the router cannot listen again"); }
}
void Router::setData(const DS& d) { std::lock_guard<std::mutex> g(mu); ds = d; has = true; }
void Router::setFault(std::function<std::string(const std::string&, const std::string&)> f) { std::lock_guard<std::mutex> g(mu); fault = f; }
std::string Router::http(const std::string& body, const std::string& status) { return "HTTP/1.1 " + status + "\r\nContent-Type: application/json\r\nContent-Length: " + std::to_string(body.size()) + "\r\nConnection: close\r\n\r\n" + body; }
void Router::loop() {
  while (!stop) {
    int l; { std::lock_guard<std::mutex> g(fmu); l = fd; }
    if (l < 0) { usleep(2000); continue; }
    pollfd p{l, POLLIN, 0}; if (poll(&p, 1, 20) <= 0) continue;
    int c = -1; { std::lock_guard<std::mutex> g(fmu); if (fd == l) c = accept4(l, nullptr, nullptr, SOCK_CLOEXEC | SOCK_NONBLOCK); } if (c < 0) continue;
    fcntl(c, F_SETFL, fcntl(c, F_GETFL) & ~O_NONBLOCK); { std::lock_guard<std::mutex> g(cmu); open.insert(c); } active++;
    std::thread([this, c] { serve(c); { std::lock_guard<std::mutex> g(cmu); open.erase(c); } close(c); active--; }).detach();
  }
}
void Router::serve(int c) {
  std::string in; char buf[16384]; auto t0 = Clk::now();
  for (;;) {
    t0 = Clk::now();
    while (in.find("\r\n\r\n") == std::string::npos) { pollfd p{c, POLLIN, 0}; if (stop || ms(t0) > 5000 || poll(&p, 1, 500) < 0) return; if (!(p.revents)) continue; ssize_t k = recv(c, buf, sizeof buf, 0); if (k <= 0) return; in.append(buf, k); }
    n++; size_t a = in.find(' '), b = in.find(' ', a + 1); std::string t = in.substr(a + 1, b - a - 1); in.erase(0, in.find("\r\n\r\n") + 4);
    if (onRequest && !onRequest(t)) return;
    std::string r; bool faulty = false; { std::lock_guard<std::mutex> g(mu); std::string h = Router::http(honest(t)); r = fault ? fault(t, h) : h; faulty = r != h; }
    if (keep && !faulty) { size_t p = r.find("Connection: close"); if (p != std::string::npos) r.replace(p, 17, "Connection: keep-alive"); }
    if (r == RESET) { linger lg{1, 0}; setsockopt(c, SOL_SOCKET, SO_LINGER, &lg, sizeof lg); return; }
    size_t off = 0; while (off < r.size()) { ssize_t w = send(c, r.data() + off, r.size() - off, MSG_NOSIGNAL); if (w <= 0) break; off += w; }
    if (!keep || faulty) break;
  }
  shutdown(c, SHUT_WR); t0 = Clk::now(); while (ms(t0) < 1000 && !stop) { pollfd p{c, POLLIN, 0}; if (poll(&p, 1, 200) <= 0) break; if (recv(c, buf, sizeof buf, 0) <= 0) break; }
}
const std::string Router::RESET = std::string("\x01RST", 4);
// table service: all sources x all destinations unless sources= / destinations= select one
std::string Router::honest(const std::string& t) {
  size_t q = t.find('?'); std::string path = t.substr(0, q), qs = q == std::string::npos ? "" : t.substr(q + 1);
  size_t sl = path.rfind('/'); std::stringstream cs(path.substr(sl + 1)); std::string pair; std::vector<std::pair<double, double>> pts;
  while (std::getline(cs, pair, ';')) { double lo = 0, la = 0; sscanf(pair.c_str(), "%lf,%lf", &lo, &la); pts.push_back({lo, la}); }
  bool src0 = qs.find("sources=0") != std::string::npos, dst0 = qs.find("destinations=0") != std::string::npos;
  auto placeOf = [&](std::pair<double, double> p) { for (size_t i = 0; i < ds.places.size(); i++) if (std::fabs(ds.places[i].lon - p.first) < 4e-7 && std::fabs(ds.places[i].lat - p.second) < 4e-7) return (int)i; return -1; };
  auto nodeOf = [&](std::pair<double, double> p) { for (size_t i = 0; i < ds.nodes.size(); i++) if (std::fabs(ds.nodes[i].lon - p.first) < 4e-7 && std::fabs(ds.nodes[i].lat - p.second) < 4e-7) return (int)i; return -1; };
  int pl = pts.empty() ? -1 : placeOf(pts[0]);
  auto cell = [&](size_t i, size_t j, bool dist) -> json {
    if (i == j) return 0;
    size_t o = i == 0 ? j : j == 0 ? i : 0; if (o == 0 || pl < 0) return 12345.5;
    int nd = nodeOf(pts[o]); if (nd < 0) { if (farUnknown) return 5000000.0; return nullptr; }
    for (auto& a : ds.places[pl].acc) if (a.node == nd) { double v = dist ? a.dist : a.time; double frac = ((nd + pl + dist) % 3) * 0.25; return v >= 1 ? v - frac : v; }
    if (farUnknown) return 5000000.0; return nullptr; };
  json du = json::array(), di = json::array(); size_t N = pts.size();
  for (size_t i = 0; i < (src0 ? 1 : N); i++) { json a = json::array(), b = json::array(); for (size_t j = 0; j < (dst0 ? 1 : N); j++) { a.push_back(cell(i, j, false)); b.push_back(cell(i, j, true)); } du.push_back(a); di.push_back(b); }
  json r = {{"code", "Ok"}, {"durations", du}, {"distances", di}}; return r.dump();
}

// ---- server ---------------------------------------------------------------------------------------
bool Server::start(const std::string& cacheDir, const ServerOpt& o) {
  stop();
  for (int attempt = 0; attempt < 4; attempt++) {
    exited = false; ready = false; port = freePort(lockFd); errFile = gScratch + "/server.log";
    std::vector<std::string> av = {o.bin, "--port=" + std::to_string(port), "--cachePath=" + cacheDir, "--osrmPort=" + std::to_string(o.osrmPort), "--osrmHost=127.0.0.1", "--threads=" + std::to_string(o.threads), std::string("--cacheAllConnectionSets=") + (o.cacheAll ? "1" : "0"), std::string("--useEuclideanDistance=") + (o.euclid ? "1" : "0")};
    std::vector<char*> cv; for (auto& x : av) cv.push_back(x.data()); cv.push_back(nullptr);
    pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGALRM, SIG_DFL); alarm(0); if (o.nofile > 0) { rlimit l{(rlim_t)o.nofile, (rlim_t)o.nofile}; setrlimit(RLIMIT_NOFILE, &l); }
      int e = open(errFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644); dup2(e, 1); dup2(e, 2);
      setenv("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:handle_abort=0", 1); setenv("UBSAN_OPTIONS", "print_stacktrace=1:halt_on_error=1:exitcode=99", 1); setenv("TSAN_OPTIONS", "halt_on_error=1:exitcode=66:report_signal_unsafe=0", 1);
      if (chdir(gScratch.c_str())) {}
      execv(o.bin.c_str(), cv.data()); _exit(126);
    }
    auto t0 = Clk::now(); bool bindFail = false;
    while (ms(t0) < o.startTimeoutMs) {
      int s = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port);
      bool ok = connect(s, (sockaddr*)&a, sizeof a) == 0; close(s);
      if (!alive()) { bindFail = log().find("bind: Address already in use") != std::string::npos; break; }
      if (ok) { ready = true; return true; }
      usleep(ms(t0) < 100 ? 1000 : 5000);
    }
    if (bindFail) { if (lockFd >= 0) close(lockFd); lockFd = -1; continue; }
    return false;
  }
  throw BackendError("cannot bind a port for the server");
}
bool Server::alive() { if (pid <= 0 || exited) return false; int st; pid_t r = waitpid(pid, &st, WNOHANG); if (r == pid) { exited = true; waitStatus = st; return false; } return true; }
void Server::stop() { if (pid > 0 && alive()) { kill(pid, SIGKILL); int st; waitpid(pid, &st, 0); } pid = -1; if (lockFd >= 0) close(lockFd); lockFd = -1; }
std::string Server::log() { return readFile(errFile); }
std::string Server::describe() {
  std::string s; if (exited) s = WIFSIGNALED(waitStatus) ? std::string("killed by signal ") + strsignal(WTERMSIG(waitStatus)) : "exit status " + std::to_string(WEXITSTATUS(waitStatus)); else s = "still running";
  std::string l = log(); size_t p = l.find("ERROR: AddressSanitizer"); if (p == std::string::npos) p = l.find("runtime error:"); if (p == std::string::npos) p = l.find("WARNING: ThreadSanitizer"); if (p != std::string::npos) l = l.substr(p > 200 ? p - 200 : 0, 5000); else if (l.size() > 1500) l = l.substr(l.size() - 1500);
  return s + "\n" + l;
}

HttpBackend::HttpBackend(const std::string& bin, int threads) { opt.bin = bin; opt.threads = threads; opt.osrmPort = router.port; dir = gScratch + "/cache"; }
void HttpBackend::load(const DS& d, bool cacheAll) {
  srv.stop(); writeCache(d, dir); router.setData(d); router.setFault(nullptr); opt.cacheAll = cacheAll; opt.euclid = d.spread == 2;
  if (!srv.start(dir, opt)) { if (srv.exited) fail("the server ended at start-up on valid data: " + srv.describe()); throw BackendError("server not reachable in time"); }
}
Resp HttpBackend::get(const std::string& what, const Params& p) {
  Raw raw = rawGet(srv.port, target("/v2/" + what, p)); Parsed x = parseHttp(raw);
  if (!x.ok) { usleep(30000); if (!srv.alive()) fail("the server died while answering " + target("/v2/" + what, p) + ": " + srv.describe()); fail("bad HTTP answer to " + target("/v2/" + what, p) + ": " + x.why); }
  Resp r; r.http = x.status; r.raw = x.body; r.body = json::parse(x.body, nullptr, false); return r;
}
