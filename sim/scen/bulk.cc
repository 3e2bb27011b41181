// A whole node in bulkload mode: loaded by several clients, finalized with requests still in flight, stopped or killed at
// any point, and put to use afterwards as documented (directly, as a new standalone node, as a new raft cluster).
#include "model.hh"
#include "ShardDirectory.hh"
#include "StateMachine.hh"
#include "raft/RaftCommon.hh"
#include "Utils.hh"
using namespace scen;
using namespace sim;
namespace {
typedef long long ll;
const int FIELDS = 6;
void genBulk(Plan& p, Rng& r) {
  p.knob("rclients", r.range(1, 5));
  p.knob("readers", r.below(2));
  int clients = (int)p.get("rclients", 3);
  // how the load ends: finalized when the clients are done or in the middle, never; crashed at an i/o point or at a time
  double x = r.unit();
  p.knob("fin", x < 0.3 ? 0 : x < 0.85 ? 1 : 2);
  p.knob("finat", r.range(1, r.chance(0.5) ? 60 : 1500));
  x = r.unit();
  p.knob("crash", x < 0.6 ? 0 : x < 0.8 ? 1 : 2);   // 1: process dies, 2: power loss
  p.knob("crashio", r.chance(0.6) ? (double)r.range(1, r.chance(0.5) ? 30 : 200) : 0);
  p.knob("crashfin", r.chance(0.7));   // counted from the start of the finalization
  p.knob("crashat", r.range(0, 1500));
  x = r.unit();
  p.knob("end", x < 0.5 ? 0 : x < 0.8 ? 1 : 2);   // after the finalization: clean stop, kill, power loss
  p.knob("again", r.chance(0.3));   // try to open it in bulkload mode again
  p.knob("fin2", r.chance(0.15));   // finalize twice
  x = r.unit();
  p.knob("use", x < 0.4 ? 0 : x < 0.65 ? 1 : x < 0.85 ? 2 : 3);   // in place, stolen: standalone, raft of one, raft of three
  for (int c = 0; c < clients; c++) {
    int k = (int)r.range(1, 25);
    for (int i = 0; i < k; i++) {
      double y = r.unit();
      p.add("do", {std::to_string(c), std::to_string(r.chance(0.5) ? 0 : r.range(0, 100)), y < 0.5 ? "one" : y < 0.8 ? "pipe" : "tx", std::to_string(r.range(1, r.chance(0.1) ? 60 : 6)), std::to_string(r.range(1, 1000000000))});
    }
  }
}
struct Key { char t = 0; std::string v; std::map<std::string, std::string> f; };   // 's' 'h' 'e'(set) 'l'(locality hash)
struct Bulk {
  const Plan& plan;
  std::vector<Server> sv{4};
  Server& s = sv[1];
  std::map<std::string, Key> m;           // acknowledged
  std::set<std::string> open;             // touched by a request without an answer
  bool crashed = false, finStarted = false, finDone = false, stop = false;
  ll refused = 0, acked = 0;
  Bulk(const Plan& p) : plan(p) { for (int i = 1; i <= 3; i++) sv[i].id = i; }
  struct W { Cmd c; std::string key; std::function<void(Key&)> f; };
  W write(Rng& g, int id) {
    int which = (int)g.below(12);
    std::string v = fmt("v%lld", (ll)g.range(1, 1000000000));
    if (g.chance(0.1)) v += std::string(g.below(3000), 'x') + std::string("\0\r\n", 3);
    auto field = [&] { return "f" + std::to_string(g.below(FIELDS)); };
    // the types a client uses are fixed by the name: nothing can be checked against what is there while loading
    if (which < 4) {
      std::string k = fmt("%d-s%d", id, which);
      return {{"SET", k, v}, k, [v](Key& x) { x.t = 's'; x.v = v; }};
    }
    if (which < 7) {
      std::string k = fmt("%d-h%d", id, which);
      if (g.chance(0.3)) {
        std::string a = field(), b = field();
        return {{"HMSET", k, a, v, b, v + "b"}, k, [=](Key& x) { x.t = 'h'; x.f[a] = v; x.f[b] = v + "b"; }};
      }
      std::string a = field();
      return {{"HSET", k, a, v}, k, [=](Key& x) { x.t = 'h'; x.f[a] = v; }};
    }
    if (which < 10) {
      std::string k = fmt("%d-e%d", id, which), a = field(), b = field();
      return {{"SADD", k, a, b}, k, [=](Key& x) { x.t = 'e'; x.f[a] = "1"; x.f[b] = "1"; }};
    }
    std::string k = fmt("%d-l%d", id, which), a = field();
    // a field always has the same hint
    std::string h = a < "f3" ? "hint1" : "hint2";
    return {{"LHSET", k, a, h, v}, k, [=](Key& x) { x.t = 'l'; x.f[a] = v; }};
  }
  bool ok(const Reply& q) { return q == rOk() || q.t == ':'; }
  bool died() const { return !node(1).alive || s.exited; }
  bool connect(Conn& c) {
    while (!died()) { if (c.open("n1", 7777, 5 * SEC)) return true; sleepFor(50 * MS); }
    return false;
  }
  void client(int id) {
    Conn c;
    if (!connect(c)) return;
    for (auto& l : plan.lines) {
      if (l.kind != "do" || l.a.size() < 5 || atoi(l.a[0].c_str()) != id) continue;
      sleepFor((Time)atoi(l.a[1].c_str()) * MS);
      Rng g; g.seed((uint64_t)atoll(l.a[4].c_str()));
      int k = l.a[2] == "one" ? 1 : atoi(l.a[3].c_str());
      bool tx = l.a[2] == "tx";
      std::vector<W> ws; std::string out;
      if (tx) out += encodeRequest({"MULTI"});
      for (int i = 0; i < k; i++) { ws.push_back(write(g, id)); out += encodeRequest(ws.back().c); }
      if (tx) out += encodeRequest({"EXEC"});
      bool before = !finStarted;
      auto lost = [&](size_t from) { for (size_t i = from; i < ws.size(); i++) open.insert(ws[i].key); };
      auto apply = [&](W& w) { w.f(m[w.key]); acked++; };
      auto refusal = [&](const Reply& q) {
        if (before && !finStarted) violation("refused", "a write is refused while loading: " + q.str());
        if (q.s.find("unavailable") == std::string::npos) violation("wrong-reply", "a write after the end of the load: " + q.str());
        refused++;
      };
      if (!c.sendRaw(out)) { if (!died() && !crashed) violation("closed", "connection lost without a fault"); lost(0); return; }
      Reply q;
      size_t need = tx ? ws.size() + 2 : ws.size();
      for (size_t i = 0; i < need; i++) {
        if (c.read(q, now() + 90 * SEC) != 1) {
          if (!died() && !crashed) violation("no-reply", fmt("client %d: reply %zu of %zu", id, i + 1, need));
          lost(tx ? 0 : i);
          return;
        }
        if (tx) continue;
        if (ok(q)) apply(ws[i]); else refusal(q);
      }
      if (tx) {
        if (q.t == '*' && q.k.size() == ws.size()) { for (size_t i = 0; i < ws.size(); i++) { if (!ok(q.k[i])) violation("wrong-reply", "in EXEC: " + q.k[i].str()); apply(ws[i]); } countProbe("transaction while loading"); }
        else if (q.err()) refusal(q);
        else violation("wrong-reply", "EXEC: " + q.str());
      }
    }
    c.close();
  }
  // reading is not possible while loading; every answer is empty, or refused after the end
  void reader(int id) {
    Rng g = subRng(plan, fmt("reader%d", id).c_str());
    Conn c;
    if (!connect(c)) return;
    while (!stop && !died()) {
      Cmd q; int k = (int)g.below(5);
      if (m.empty()) { sleepFor(20 * MS); continue; }
      auto it = m.begin(); std::advance(it, g.below((int)m.size()));
      char t = it->second.t;
      q = t == 's' ? Cmd{"GET", it->first} : t == 'h' ? Cmd{"HGET", it->first, "f1"} : t == 'e' ? Cmd{"SISMEMBER", it->first, "f1"} : Cmd{"LHGET", it->first, "f1"};
      if (k == 0) q = {"EXISTS", it->first};
      Reply r;
      bool before = finStarted;
      if (!c.call(q, r, 30 * SEC)) { if (!died() && !crashed) violation("no-reply", show(q)); return; }
      bool empty = r.t == 'n' || (r.t == ':' && r.i == 0);
      if (!empty && !(finStarted && r.err() && r.s.find("unavailable") != std::string::npos)) violation("wrong-reply", show(q) + " while loading: " + r.str());
      if (before && finDone && !r.err()) {}
      sleepFor((Time)g.range(1, 200) * MS);
    }
  }
  bool create(int id, const std::string& path, const std::string& cluster, const std::vector<std::string>& members, const std::string& seed, std::string& err) {
    startNode(id);
    bool fin = onNode(id, [&] {
      using namespace quarkdb;
      try {
        std::vector<RaftServer> nodes;
        for (auto& x : members) { RaftServer t; if (!parseServer(x, t)) { err = "server"; return; } nodes.push_back(t); }
        std::unique_ptr<StateMachine> sm(new StateMachine(seed));
        Status st; std::unique_ptr<ShardDirectory> d;
        if (members.empty()) d.reset(ShardDirectory::create(path, cluster, "default", std::move(sm), st));
        else d.reset(ShardDirectory::create(path, cluster, "default", nodes, 1111, FsyncPolicy::kSyncImportantUpdates, std::move(sm), st));
        if (!st.ok() || !d) err = st.getMsg();
      } catch (FatalException& e) { err = e.what(); }
    }, "create");
    if (!fin) err = "died: " + node(id).deathReason;
    stopNode(id);
    return err.empty();
  }
  // everything acknowledged is there, with the right number of elements, and nothing else
  void verify(Conn& c, const std::string& what) {
    Reply q;
    auto get = [&](const Cmd& cmd) { if (!c.call(cmd, q, 30 * SEC)) violation("no-reply", show(cmd) + " " + what); return q; };
    auto bad = [&](const std::string& k, const std::string& t) { violation("bulkload-contents", k + ": " + t + " " + what); };
    std::set<std::string> keys;
    std::string cur = "0";
    do {
      get({"SCAN", cur, "COUNT", "7"});
      if (q.t != '*' || q.k.size() != 2) violation("wrong-reply", "SCAN: " + q.str());
      cur = q.k[0].s;
      for (auto& x : q.k[1].k) keys.insert(x.s);
    } while (cur != "0");
    for (auto& k : keys) if (!m.count(k) && !open.count(k)) bad(k, "was never stored");
    for (auto& e : m) {
      const std::string& k = e.first; const Key& x = e.second;
      if (!keys.count(k)) bad(k, "an acknowledged write is not listed");
      bool fuzzy = open.count(k);
      if (x.t == 's') {
        get({"GET", k});
        if (q.t != '$' || (!fuzzy && q.s != x.v)) bad(k, "GET gives " + q.str(60) + ", stored was " + x.v.substr(0, 60));
        continue;
      }
      get({x.t == 'h' ? "HLEN" : x.t == 'e' ? "SCARD" : "LHLEN", k});
      if (q.t != ':' || (fuzzy ? q.i < (ll)x.f.size() : q.i != (ll)x.f.size())) bad(k, "has the length " + q.str() + fmt(", %zu fields were stored", x.f.size()));
      for (int i = 0; i < FIELDS; i++) {
        std::string f = "f" + std::to_string(i);
        auto it = x.f.find(f);
        get(x.t == 'h' ? Cmd{"HGET", k, f} : x.t == 'e' ? Cmd{"SISMEMBER", k, f} : Cmd{"LHGET", k, f});
        bool there = x.t == 'e' ? q.i == 1 : q.t == '$';
        if (it == x.f.end() ? there && !fuzzy : !there || (x.t != 'e' && !fuzzy && q.s != it->second)) bad(k, f + " gives " + q.str(60) + (it == x.f.end() ? ", which was never stored" : ", stored was " + it->second.substr(0, 60)));
      }
    }
    // the descriptors are good enough to go on with
    for (auto& e : m) {
      if (open.count(e.first)) continue;
      char t = e.second.t;
      get(t == 's' ? Cmd{"SET", e.first, "after"} : t == 'h' ? Cmd{"HSET", e.first, "f0", "after"} : t == 'e' ? Cmd{"SADD", e.first, "f0"} : Cmd{"LHSET", e.first, "f0", "other", "after"});
      bool had = e.second.f.count("f0");
      if (t == 's' ? q != rOk() : q != rInt(had ? 0 : 1)) bad(e.first, "the first write afterwards gives " + q.str());
      size_t want = e.second.f.size() + (had ? 0 : 1);
      if (t != 's' && get({t == 'h' ? "HLEN" : t == 'e' ? "SCARD" : "LHLEN", e.first}) != rInt((ll)want)) bad(e.first, "has the length " + q.str() + fmt(" after one more write, not %zu", want));
      get({"DEL", e.first});
      if (q != rInt(1)) bad(e.first, "DEL gives " + q.str());
      get({"EXISTS", e.first});
      if (q != rInt(0)) bad(e.first, "exists after DEL");
    }
    if (open.empty()) {
      get({"SCAN", "0", "COUNT", "1000"});
      if (q.t != '*' || q.k.size() != 2 || !q.k[1].k.empty()) bad("all", "keys are left after deleting all of them: " + q.str());
    }
    countProbe("loaded contents verified");
  }
  void run() {
    g_abortIsViolation = true;
    s.mode = "bulkload";
    // bootstrap creates an empty directory as the tool does
    {
      s.writeConf();
      startNode(1);
      std::string path = s.dbPath(), err;
      onNode(1, [&] {
        quarkdb::Status st; std::unique_ptr<quarkdb::ShardDirectory> d(quarkdb::ShardDirectory::create(path, "null", "default", std::unique_ptr<quarkdb::StateMachine>(), st));
        if (!st.ok() || !d) err = st.getMsg();
      }, "bootstrap");
      stopNode(1);
      if (!err.empty()) violation("bootstrap-failed", err);
    }
    s.start();
    if (!s.waitUp(30 * SEC)) violation("not-serving", "a new node does not start in bulkload mode: " + node(1).deathReason);
    Group g, h;
    int crash = (int)plan.get("crash", 0), cio = (int)plan.get("crashio", 0);
    bool cfin = plan.get("crashfin", 1) && plan.get("fin", 0) != 2;
    bool dead = false;
    auto doCrash = [&] {
      if (!crash) return;
      crashed = true;
      if (cio) { armCrash(1, cio, crash == 2); countFault("crash at io point"); }
      else h.go([&] { sleepFor((Time)plan.get("crashat", 0) * (cfin ? 100 * US : MS)); if (node(1).alive) { s.kill(crash == 2); countFault(crash == 2 ? "power loss" : "process kill"); } }, "crash");
    };
    for (int i = 0; i < (int)plan.get("readers", 0); i++) h.go([this, i] { reader(i); }, "reader");
    if (!cfin) doCrash();
    for (int i = 0; i < (int)plan.get("rclients", 1); i++) g.go([this, i] { client(i); }, "client");
    int fin = (int)plan.get("fin", 0);
    Conn c; Reply q;
    auto finalize = [&] {
      if (!connect(c)) return;
      if (cfin) doCrash();
      finStarted = true;
      if (!c.call({"QUARKDB_BULKLOAD_FINALIZE"}, q, 120 * SEC)) { if (!died() && !crashed) violation("no-reply", "QUARKDB_BULKLOAD_FINALIZE"); return; }
      if (q != rOk()) violation("wrong-reply", "QUARKDB_BULKLOAD_FINALIZE: " + q.str());
      finDone = true;
      countProbe("finalized");
    };
    if (fin == 1) { sleepFor((Time)plan.get("finat", 1) * MS); finalize(); }
    g.join();
    if (fin == 0) finalize();
    if (finDone) {
      if (!died() && c.call({"SET", "late", "x"}, q, 30 * SEC) && !(q.err() && q.s.find("unavailable") != std::string::npos)) violation("wrong-reply", "a write after the end of the load: " + q.str());
      if (!died() && plan.get("fin2", 0) && c.call({"QUARKDB_BULKLOAD_FINALIZE"}, q, 120 * SEC)) countProbe("finalized twice");
      if (!died() && c.call({"QUARKDB_INFO"}, q, 30 * SEC) && q.err()) violation("wrong-reply", "QUARKDB_INFO after the end of the load: " + q.str());
    }
    stop = true;
    if (crash && !cio) {} else disarmCrash(1);
    c.close();
    h.join();
    dead = died();
    if (refused) countProbe("writes refused after the end of the load", refused);
    countProbe("writes loaded", acked);
    int end = (int)plan.get("end", 0);
    bool power = (dead && crash == 2) || (!dead && end == 2);
    if (dead) { if (!crashed) violation("node-down", "the node stopped while loading: " + node(1).deathReason); s.kill(false); }
    else if (end == 0 || !finDone) { if (!s.stop(60 * SEC)) violation("shutdown-hang", "clean shutdown did not finish within 60 s"); }
    else { s.kill(end == 2); countFault(end == 2 ? "power loss" : "process kill"); }
    sleepFor(100 * MS);
    // opening it again in bulkload mode must be refused
    if (plan.get("again", 0) && (acked || finDone)) {
      s.throwIsRefusal = true; s.refusal.clear();
      s.start();
      bool up = s.waitUp(60 * SEC);
      if (up && !power) violation("bulkload-reopened", "a database which holds data was opened in bulkload mode again");
      if (!node(1).alive) violation("node-down", "starting in bulkload mode again: " + node(1).deathReason);
      if (!up && s.refusal.find("bulkload only available") == std::string::npos && !power) violation("wrong-reply", "refused with " + s.refusal);
      s.stop();
      countProbe("second load refused");
      if (up) return;
    }
    int use = (int)plan.get("use", 0);
    int nodes = 1;
    std::string what;
    auto refusedUse = [&](const std::string& why) {
      if (finDone) violation("bulkload-contents", "a database which was finalized is refused: " + why);
      countProbe("unfinished load refused");
    };
    if (use == 0) {
      s.mode = "standalone"; s.writeConf();
      s.throwIsRefusal = true; s.refusal.clear();
      s.start();
      if (!s.waitUp(60 * SEC)) { if (!node(1).alive) violation("node-down", "starting after the load: " + node(1).deathReason); refusedUse(s.refusal); s.stop(); return; }
      what = "(started in place)";
    } else {
      std::vector<std::string> mem;
      if (use >= 2) mem.push_back("n1:7777");
      if (use == 3) { mem.push_back("n2:7777"); mem.push_back("n3:7777"); nodes = 3; }
      std::string err;
      vfs::renameTo("/vfs/n1/db", "/vfs/n1/bulkload");
      if (!vfs::exists("/vfs/n1/bulkload/current/state-machine")) { if (finDone) violation("bulkload-contents", "there is no state machine after the load"); return; }
      if (!create(1, s.dbPath(), use == 1 ? "null" : "bulk-cluster", mem, "/vfs/n1/bulkload/current/state-machine", err)) { refusedUse(err); return; }
      for (int i = 1; i <= nodes; i++) {
        sv[i].mode = use == 1 ? "standalone" : "raft";
        sv[i].writeConf();
        if (i > 1) vfs::copyTree("/vfs/n1/db", sv[i].dbPath());
        sv[i].throwIsRefusal = false;
        sv[i].start();
      }
      for (int i = 1; i <= nodes; i++) if (!sv[i].waitUp(60 * SEC)) violation("bulkload-contents", "a node made of a loaded state machine does not start: " + node(i).deathReason);
      what = use == 1 ? "(a standalone node made of it)" : nodes == 1 ? "(a cluster of one made of it)" : "(a cluster of three made of it)";
    }
    // without the acknowledgement of the finalization a database may be refused, but not be incomplete
    Conn d;
    bool got = false;
    for (Time dl = now() + 60 * SEC; now() < dl && !got;) {
      for (int i = 1; i <= nodes && !got; i++) {
        d.close();
        // a write which changes nothing shows which node leads
        if (d.open(fmt("n%d", i), 7777, 2 * SEC) && d.call({"DEL", "nosuch"}, q, 10 * SEC) && q == rInt(0)) got = true;
      }
      if (!got) sleepFor(200 * MS);
    }
    if (!got) violation("not-serving", "the loaded database is not served " + what);
    verify(d, what);
    d.close();
    for (int i = 1; i <= nodes; i++) if (!sv[i].stop(60 * SEC)) violation("shutdown-hang", "clean shutdown did not finish");
  }
};
void runBulk(const Plan& p) { Bulk x(p); x.run(); }
static Reg reg("bulk", genBulk, runBulk);
}
