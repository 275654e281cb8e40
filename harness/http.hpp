// End-to-end backend: the real server binary, a scripted walking router, raw sockets.
#pragma once
#include <atomic>
#include <functional>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include "ds.hpp"
#include <sys/types.h>

struct Raw { bool connected = false, timeout = false, eof = false; std::string data; };            // everything the peer sent until it closed
struct Parsed { bool ok = false; std::string why; int status = 0; std::map<std::string, std::string> headers; std::string body; };
Raw rawExchange(int port, const std::string& bytes, int timeoutMs);
Raw rawGet(int port, const std::string& target, int timeoutMs = 30000);
// GETs one after the other over one connection; the callback sees each answer. Returns "" or what went wrong.
std::string keepAlive(int port, const std::vector<std::string>& targets, const std::function<void(size_t, const Parsed&)>& fn, int timeoutMs = 30000);
Parsed parseHttp(const Raw&);                       // exactly one response, Content-Length equal to the body
std::string target(const std::string& path, const Params&);   // percent-encodes what must be encoded
std::string urlEncode(const std::string&);

// Walking router.  reply(): bytes to send for a request target; empty = close without an answer.
struct Router {
  int port = 0;
  Router(); ~Router();
  void setData(const DS& d);                        // honest table for this dataset
  void setFault(std::function<std::string(const std::string& target, const std::string& honest)> f);   // rewrites the honest reply; null: none
  std::atomic<bool> farUnknown{false};                          // stops the table does not know are far away, instead of null
  long requests() const { return n; }
  void refuse(bool on);                             // stops listening, listens again
  std::atomic<bool> keep{false};                                // answers keep the connection open
  static const std::string RESET;                   // as a faulty reply: reset the connection
  static std::string http(const std::string& body, const std::string& status = "200 OK");
  std::function<bool(const std::string&)> onRequest;  // called (if set) before answering; returning false drops the connection
 private:
  int fd = -1, lock = -1; std::thread th; std::mutex fmu, cmu; std::set<int> open; std::atomic<int> active{0}; std::atomic<bool> stop{false}; std::atomic<long> n{0}; std::mutex mu; DS ds; bool has = false; std::function<std::string(const std::string&, const std::string&)> fault;
  void loop(); void serve(int c);
  std::string honest(const std::string& target);
};

struct ServerOpt { std::string bin; int threads = 1; bool cacheAll = false, euclid = false; int osrmPort = 1; int startTimeoutMs = 60000; int nofile = 0; };   // nofile > 0: the process may hold that many descriptors
struct Server {
  pid_t pid = -1; int port = 0; std::string errFile; int lockFd = -1; bool ready = false; int waitStatus = 0; bool exited = false;
  ~Server() { stop(); }
  bool start(const std::string& cacheDir, const ServerOpt&);    // false: the process ended (see describe()) before it answered
  bool alive();
  void stop();
  std::string describe();                                        // exit status and the tail of its output
  std::string log();
};
int freePort(int& lockFd);

struct HttpBackend : Backend {
  ServerOpt opt; Server srv; Router router; std::string dir;
  explicit HttpBackend(const std::string& bin, int threads = 1);
  void load(const DS&, bool cacheAll) override;
  Resp get(const std::string& what, const Params&) override;     // throws Violation if the server died or broke the protocol
};
std::string readFile(const std::string&);
