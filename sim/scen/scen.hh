// Shared parts of the scenarios: plans, simulated clients, server hosting.
#pragma once
#include "../core/sim.hh"
#include "../core/net.hh"
#include "../core/vfs.hh"
#include "rocksdb/db.h"
#include "qclient/QClient.hh"
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
namespace scen {
using sim::Time; using sim::US; using sim::MS; using sim::SEC; using sim::fmt; using sim::Rng;
typedef std::vector<std::string> Cmd;
struct Line { std::string kind; Cmd a; };
struct Plan {
  std::string scenario;
  uint64_t seed = 0;
  std::map<std::string, std::string> knobs;
  std::vector<Line> lines;
  void add(const std::string& k, Cmd a) { lines.push_back({k, std::move(a)}); }
  void knob(const std::string& k, double v) { if (!knobs.count(k)) knobs[k] = fmt("%g", v); }
  void knobS(const std::string& k, const std::string& v) { if (!knobs.count(k)) knobs[k] = v; }
  double get(const std::string& k, double d) const { auto it = knobs.find(k); return it == knobs.end() ? d : atof(it->second.c_str()); }
  std::string text() const;
};
struct Scenario { const char* name; void (*gen)(Plan&, Rng&); void (*run)(const Plan&); };
std::vector<Scenario>& scenarios();
struct Reg { Reg(const char* n, void (*g)(Plan&, Rng&), void (*r)(const Plan&)) { scenarios().push_back({n, g, r}); } };

std::string show(const Cmd& c, size_t max = 40);
// ---- replies in canonical text form: +status -error :int $string nil *[a,b] >[push]
struct Reply {
  char t = 0;  // '+','-',':','$','n','*','>'
  std::string s;
  long long i = 0;
  std::vector<Reply> k;
  bool operator==(const Reply& o) const { return t == o.t && s == o.s && i == o.i && k == o.k; }
  bool operator!=(const Reply& o) const { return !(*this == o); }
  std::string str(size_t max = 200) const;
  bool err() const { return t == '-'; }
};
inline Reply rOk() { Reply r; r.t = '+'; r.s = "OK"; return r; }
inline Reply rStatus(const std::string& s) { Reply r; r.t = '+'; r.s = s; return r; }
inline Reply rErr(const std::string& s) { Reply r; r.t = '-'; r.s = s; return r; }
inline Reply rInt(long long i) { Reply r; r.t = ':'; r.i = i; return r; }
inline Reply rStr(const std::string& s) { Reply r; r.t = '$'; r.s = s; return r; }
inline Reply rNil() { Reply r; r.t = 'n'; return r; }
inline Reply rArr(std::vector<Reply> k = {}) { Reply r; r.t = '*'; r.k = std::move(k); return r; }
inline Reply rStrs(const std::vector<std::string>& v) { Reply r = rArr(); for (auto& s : v) r.k.push_back(rStr(s)); return r; }
Reply convert(const redisReply* r);
std::string encodeRequest(const Cmd& c);

// ---- client connection over the simulated network (runs in harness threads on node 0)
struct Conn {
  sim::net::EpPtr ep;
  std::string rx;
  size_t off = 0;
  std::string host; int port = 0;
  bool broken = false;
  int fromNode = 0;
  bool open(const std::string& host, int port, Time timeout = 2 * SEC, const std::string& clientHost = "client");
  bool sendRaw(const std::string& data, Time timeout = 10 * SEC);
  // 1 reply, 0 timeout, -1 connection lost, -2 protocol error
  int read(Reply& out, Time deadline);
  bool call(const Cmd& c, Reply& out, Time timeout = 5 * SEC);   // false: no reply
  void close();
  ~Conn() { close(); }
  Conn() {}
  Conn(const Conn&) = delete;
};
// spawn harness threads and wait for all
struct Group {
  std::vector<sim::Fiber*> f;
  void go(std::function<void()> fn, const std::string& name) { f.push_back(sim::spawn(std::move(fn), name, 0)); }
  void join() { for (auto* x : f) sim::joinFiber(x); f.clear(); }
};
// run code in a new thread of a simulated node; waits for the end (or the node's death); false if the node died
bool onNode(int node, std::function<void()> fn, const std::string& name = "task", Time timeout = sim::NEVER);
// one simulated machine running the real server composition (configuration file, QuarkDBNode, AsioPoller)
struct Server {
  int id = 0, port = 7777;
  std::string mode = "raft";
  std::string extraConf;
  long tLow = 1000, tHigh = 1500, tHb = 250;
  int pollerThreads = 2;
  bool up = false, exited = false, startFailed = false, stopReq = false;
  int gen = 0;
  bool throwIsRefusal = false; std::string refusal;   // an exception while starting means the node refuses to start
  std::string dbPath() const { return fmt("/vfs/n%d/db", id); }
  std::string confPath() const { return fmt("/vfs/n%d/conf", id); }
  std::string host() const { return fmt("n%d", id); }
  void writeConf();
  // create the database directory (as the bootstrap tool does); raft when members non-empty
  bool bootstrap(const std::string& cluster, const std::vector<std::string>& members, long startIndex = 0, int fsync = 0);
  void start();                       // asynchronous
  bool waitUp(Time timeout);
  bool stop(Time timeout = 60 * SEC); // clean shutdown; checks that no thread is left over
  void kill(bool power);
  bool alive() const { return sim::node(id).alive && !exited; }
};
Rng subRng(const Plan& p, const char* tag);
Cmd splitWs(const std::string& s);
}  // namespace scen
