// A raft cluster of real servers with concurrent clients, under faults of network, processes, clocks and storage.
// Global invariants are checked by Watch while the run proceeds; the recorded history is checked afterwards by
// replaying the committed log through the reference model.
#include "model.hh"
#include "watch.hh"
#include <algorithm>
using namespace scen;
using namespace sim;
namespace {
// ------------------------------------------------------------------------------------------------ generation
std::string ser(const Cmd& c) { std::string o; for (auto& a : c) { o += std::to_string(a.size()); o += ':'; o += a; } return o; }
bool isLease(const Cmd& c) { return c[0].compare(0, 6, "LEASE_") == 0; }
void genCluster(Plan& p, Rng& r) {
  int n = r.chance(0.65) ? 3 : r.chance(0.5) ? 5 : r.chance(0.5) ? 4 : r.chance(0.7) ? 2 : 1;
  p.knob("nodes", n);
  n = (int)p.get("nodes", n);
  bool fast = r.chance(0.5);
  p.knob("tlow", fast ? 200 : 1000); p.knob("thigh", fast ? 300 : 1500); p.knob("thb", fast ? 50 : 250);
  fast = p.get("thigh", 1500) < 1000;
  // processors fast enough for these timeouts
  double slice = fast ? r.range(1, 15) * 1000 : r.range(2, 60) * 1000;
  p.knob("sched.mean", r.pick(std::vector<double>{300, 2000, 10000, 40000}));
  p.knob("sched.nsperunit", std::min(1.5, slice / p.get("sched.mean", 2000)));
  p.knob("fsync", r.chance(0.5) ? 0 : r.range(1, 2));
  p.knob("faults", r.chance(0.1) ? 0 : 1);
  p.knob("fnet", r.chance(0.7)); p.knob("fproc", r.chance(0.6)); p.knob("fclock", r.chance(0.3)); p.knob("fmember", r.chance(0.35)); p.knob("fstall", r.chance(0.4));
  p.knob("ftrim", r.chance(0.3)); p.knob("fcoup", r.chance(0.4));
  p.knob("fpower", p.get("fsync", 0) == 0 && !p.get("ftrim", 0) && r.chance(0.5));
  p.knob("wsync", r.chance(0.15) ? 1 : 6);
  p.knob("spread", 0);
  bool mem = p.get("faults", 1) && p.get("fmember", 0), trim = p.get("faults", 1) && p.get("ftrim", 0);
  int extra = mem && n < 5 ? (int)r.range(0, 2) : 0;
  p.knob("extra", extra);
  extra = (int)p.get("extra", extra);
  int dur = (int)(fast ? r.range(3000, 9000) : r.range(8000, 25000));
  if (p.get("longlag", 0)) dur = (int)r.range(85000, 120000);
  p.knob("dur", dur);
  dur = (int)p.get("dur", dur);
  int clients = (int)r.range(2, 5);
  p.knob("clients", clients);
  clients = (int)p.get("clients", clients);
  int per = trim ? (int)r.range(15, 45) : (int)r.range(5, 25);
  p.knob("per", per);
  per = (int)p.get("per", per);
  p.knob("leases", r.chance(0.5));
  p.knob("stale", r.chance(0.4) ? 0.1 : 0);
  p.knob("txp", r.chance(0.6) ? 0.15 : 0);
  p.knob("pipep", r.chance(0.6) ? 0.15 : 0);
  p.knob("audit", subRng(p, "audit").chance(0.4));
  GenOpts o;
  o.keys = (int)r.range(2, 8); o.fields = (int)r.range(2, 5); o.uniq = "v"; o.scans = false; o.nasty = r.chance(0.2);
  if (r.chance(0.5)) o.types = {(int)r.below(6), (int)r.below(6)};
  o.badArgs = r.chance(0.3);
  std::set<std::string> used;
  uint64_t ctr = 0, tok = 0;
  bool leases = p.get("leases", 0);
  double wr = r.pick(std::vector<double>{0.3, 0.6, 0.9});
  auto one = [&](bool w) -> Cmd {
    if (w && leases && r.chance(0.35)) {
      std::string k = "lease" + std::to_string(r.below(3)), h = "h" + std::to_string(r.below(3));
      int y = r.below(5);
      if (y <= 2) return {"LEASE_ACQUIRE", k, h, std::to_string(r.range(100, fast ? 3000 : 8000))};
      if (y == 3) return {"LEASE_RELEASE", k};
      return {"LEASE_GET", k};
    }
    GenOpts t = o; t.writes = w; t.reads = !w;
    return genCmd(r, t, ctr);
  };
  std::vector<std::vector<Line>> by(clients);
  for (int c = 0; c < clients; c++) {
    int k = 0;
    bool st = r.chance(p.get("stale", 0) * 2);
    while (k < per) {
      int avg = dur / per;
      std::string pause = std::to_string(r.chance(0.3) ? (int)r.range(0, 2000) : (int)r.range(0, 2 * avg * 1000));
      double x = r.unit();
      Cmd l = {std::to_string(c), pause};
      if (st && r.chance(0.4)) { l.push_back("stale"); Cmd q = one(false); l.insert(l.end(), q.begin(), q.end()); by[c].push_back({"do", l}); k++; continue; }
      bool tx = x < p.get("txp", 0), pipe = !tx && x < p.get("txp", 0) + p.get("pipep", 0);
      int m = tx ? r.range(1, 4) : pipe ? r.range(2, 8) : 1;
      bool ro = tx && r.chance(0.25);
      std::vector<Cmd> ops;
      std::string all;
      bool anyW = false;
      for (int i = 0; i < m; i++) {
        bool w = !ro && r.chance(wr);
        Cmd q = one(w);
        anyW |= w;
        ops.push_back(q);
      }
      auto uniq = [&](Cmd& q) { return used.insert(ser(q)).second; };
      if (pipe) {
        // each write of a pipelined burst must be recognisable in the log
        for (auto& q : ops) if (isWrite(q) && !uniq(q)) q = {"SET", "tok" + std::to_string(c), "t" + std::to_string(++tok)};
      } else if (tx) {
        if (anyW) { for (auto& q : ops) all += ser(q); if (!used.insert(all).second) ops.push_back({"SET", "tok" + std::to_string(c), "t" + std::to_string(++tok)}); }
      } else if (anyW && !uniq(ops[0])) { tx = true; ops.push_back({"SET", "tok" + std::to_string(c), "t" + std::to_string(++tok)}); }
      l.push_back(tx ? "tx" : pipe ? "pipe" : "single");
      for (size_t i = 0; i < ops.size(); i++) { if (i) l.push_back(";"); l.insert(l.end(), ops[i].begin(), ops[i].end()); }
      by[c].push_back({"do", l});
      k += m;
    }
  }
  std::vector<Line> fl;
  if (p.get("faults", 1)) {
    int nf = (int)r.range(1, fast ? 10 : 12);
    auto tgt = [&]() -> std::string { int y = r.below(10); return y < 5 ? "L" : y < 7 ? "F" : std::to_string(r.range(1, n)); };
    auto ms = [&](int lo, int hi) { return std::to_string(fast ? r.range(lo / 4, hi / 4) : r.range(lo, hi)); };
    std::vector<std::string> kinds;
    auto addK = [&](const char* knob, std::vector<std::string> v) { if (p.get(knob, 0)) for (auto& s : v) kinds.push_back(s); };
    addK("fnet", {"part", "part", "isolate", "isolate", "oneway", "slow", "reset", "noconn"});
    addK("fproc", {"kill", "kill", "crashio", "crashio", "stop"});
    addK("fpower", {"power", "powerall", "crashiop"});
    addK("fclock", {"rate", "jump"});
    addK("fstall", {"stall", "stall"});
    addK("fcoup", {"coup", "coup"});
    if (mem) { kinds.push_back("demote"); kinds.push_back("promote"); kinds.push_back("remove"); kinds.push_back("add"); if (extra) { kinds.push_back("add"); kinds.push_back("promote"); } }
    if (trim) { kinds.push_back("trim"); kinds.push_back("lag"); }
    if (p.get("fdisk", 0)) for (auto k : {"diskerr", "diskerr", "slowopen", "lag"}) kinds.push_back(k);
    if (r.chance(0.2)) kinds.push_back("checkpoint");
    if (trim) fl.push_back({"at", {std::to_string(r.range(0, dur / 3)), "trim", std::to_string(r.range(4, 15)), std::to_string(r.range(2, 8))}});
    if (p.get("longlag", 0)) fl.push_back({"at", {std::to_string(r.range(1000, dur / 8)), "lag", std::to_string(r.range(61500, 70000)), "F"}});   // so long that it no longer holds up trimming
    for (int i = 0; i < extra; i++) fl.push_back({"at", {std::to_string(r.range(0, dur / 2)), "add", std::to_string(n + 1 + i)}});
    for (int i = 0; i < nf && !kinds.empty(); i++) {
      std::string t = std::to_string(r.range(0, dur)), k = r.pick(kinds);
      Cmd a = {t, k};
      if (k == "diskerr" || k == "slowopen") a[0] = std::to_string(r.range(0, dur / 2));
      if (k == "part") { a.push_back(ms(300, 9000)); std::string side; for (int j = 1; j <= n + extra; j++) side += r.chance(0.5) ? '1' : '0'; a.push_back(side); }
      else if (k == "isolate") { a.push_back(ms(300, 10000)); a.push_back(tgt()); }
      else if (k == "oneway") { a.push_back(ms(300, 8000)); a.push_back(tgt()); a.push_back(r.chance(0.5) ? "in" : "out"); }
      else if (k == "slow") { a.push_back(ms(300, 8000)); a.push_back(tgt()); a.push_back(ms(50, 3000)); }
      else if (k == "noconn") { a.push_back(ms(300, 8000)); a.push_back(tgt()); }
      else if (k == "reset") a.push_back(tgt());
      else if (k == "kill" || k == "power" || k == "stop") { a.push_back(ms(100, 6000)); a.push_back(tgt()); }
      else if (k == "powerall") a.push_back(ms(100, 3000));
      else if (k == "crashio" || k == "crashiop") { a.push_back(ms(100, 4000)); a.push_back(tgt()); a.push_back(std::to_string(r.range(1, 12))); }
      else if (k == "stall") { a.push_back(ms(100, 6000)); a.push_back(tgt()); }
      else if (k == "rate") { a.push_back(tgt()); a.push_back(r.pick(std::vector<std::string>{"0.5", "0.8", "0.95", "1.05", "1.3", "2"})); }
      else if (k == "jump") { a.push_back(tgt()); a.push_back(std::to_string(r.range(-100000, 100000))); }
      else if (k == "coup") a.push_back(r.chance(0.7) ? "F" : std::to_string(r.range(1, n)));
      else if (k == "add" || k == "promote" || k == "demote" || k == "remove") a.push_back(std::to_string(r.range(1, n + extra)));
      else if (k == "trim") { a.push_back(std::to_string(r.range(4, 15))); a.push_back(std::to_string(r.range(2, 8))); }
      else if (k == "diskerr") { a.push_back(r.chance(0.6) ? "A" : tgt()); a.push_back(std::to_string(r.chance(0.5) ? r.range(1, 6) : r.range(1, 40))); a.push_back(r.pick(std::vector<std::string>{"any", "any", "write", "readdir", "readdir", "readdir", "read", "rename", "mkdir", "unlink", "dbopen", "link", "open", "close", "opendir"})); }
      else if (k == "slowopen") { a.push_back(ms(8000, 60000)); a.push_back(r.chance(0.6) ? "A" : tgt()); a.push_back(ms(200, 4000)); }
      else if (k == "lag") { a.push_back(ms(3000, 12000)); a.push_back("F"); }
      fl.push_back({"at", a});
    }
    std::stable_sort(fl.begin(), fl.end(), [](const Line& a, const Line& b) { return atoi(a.a[0].c_str()) < atoi(b.a[0].c_str()); });
  }
  for (auto& l : fl) p.lines.push_back(l);
  for (auto& v : by) for (auto& l : v) p.lines.push_back(l);
}
// ------------------------------------------------------------------------------------------------ execution
struct Op {
  int cid = -1, node = 0, conn = -1, seq = 0;
  bool stale = false, tx = false, write = false;
  std::vector<Cmd> cmds;
  Time inv = 0, resp = 0;
  bool answered = false;              // executed according to its reply
  std::vector<Reply> replies;
  int64_t index = -1;
  int slot = 0;                       // position inside a batch
  bool internal = false;
};
struct Cluster {
  const Plan& plan;
  int n, total;
  std::vector<Server> srv;
  Watch w;
  std::vector<Op> ops;
  std::map<int, Time> wantUp;         // node -> when to start it again
  std::map<int, bool> down;
  std::map<int, Time> isolated;       // since
  std::map<int, Time> lastStall;      // end of last stall
  struct Iso { int node; Time from, to; };
  std::vector<Iso> isoLog;
  std::map<int, std::vector<std::pair<Time, Time>>> stalls;
  std::vector<std::vector<char>> blockRef;   // reference counts of directed blocks
  Time tFault = 0, bound = 0, high = 0;
  bool finalPhase = false, done = false, lossy = false;
  double maxRate = 1, minRate = 1;
  int connCtr = 0;
  std::set<std::string> trimSeen;
  bool quiet = true;                  // no fault happened
  Cluster(const Plan& p) : plan(p), n((int)p.get("nodes", 3)), total(n + (int)p.get("extra", 0)), srv(total + 1) {}
  Server& S(int i) { return srv[i]; }
  int leaderNow() {
    for (auto it = w.leaders.rbegin(); it != w.leaders.rend(); ++it) { int x = atoi(it->second.server.c_str() + 1); if (it->second.elected && x >= 1 && x <= total && S(x).alive()) return x; }
    return 1;
  }
  int target(const std::string& s, Rng& r) {
    int l = leaderNow();
    if (s == "L") return l;
    if (s == "F") { std::vector<int> v; for (int i = 1; i <= n; i++) if (i != l && S(i).alive()) v.push_back(i); return v.empty() ? l : v[r.below(v.size())]; }
    int x = atoi(s.c_str());
    return x >= 1 && x <= total ? x : 1;
  }
  void blk(int a, int b, int d) {
    blockRef[a][b] += d;
    net::block(a, b, blockRef[a][b] > 0);
  }
  void isoUpdate() {
    for (int i = 1; i <= total; i++) {
      bool iso = total > 1;
      for (int j = 1; j <= total; j++) if (j != i && !(blockRef[i][j] && blockRef[j][i])) iso = false;
      auto it = isolated.find(i);
      if (iso && it == isolated.end()) isolated[i] = now();
      if (!iso && it != isolated.end()) { isoLog.push_back({i, it->second, now()}); isolated.erase(it); }
    }
  }
  void startServer(int i) {
    S(i).start();
    int g = S(i).gen;
    spawn([this, i, g] {
      if (!S(i).waitUp(60 * SEC)) {
        if (S(i).gen != g || !node(i).alive) return;
        violation("restart-failed", S(i).startFailed ? "the node refuses its configuration" : fmt("node %d does not come up within 60 s", i));
      }
    }, "upcheck", 0);
  }
  void supervise() {
    while (!done) {
      for (int i = 1; i <= total; i++) {
        if (node(i).alive || S(i).stopReq) continue;
        auto it = wantUp.find(i);
        if (it == wantUp.end()) { wantUp[i] = now() + (finalPhase ? 0 : 500 * MS); continue; }
        if (now() >= it->second) { wantUp.erase(it); countProbe("node restarted"); startServer(i); }
      }
      sleepFor(50 * MS);
    }
  }
  void goDown(int i, bool power, Time back) {
    if (!node(i).alive) return;
    wantUp[i] = now() + back;
    S(i).kill(power);
  }
  // ---- clients
  struct Client {
    int id = 0; Conn c; int node = 0, connId = -1, seq = 0; bool stale = false, patient = false; Rng r; int prefer = 0;
  };
  bool connect(Client& k, bool stale) {
    if (k.c.ep && !k.c.broken && k.stale == stale) return true;
    k.c.close();
    int t = k.prefer ? k.prefer : (int)k.r.range(1, total);
    k.prefer = 0;
    if (!k.c.open(fmt("n%d", t), 7777, 1 * SEC)) return false;
    k.node = t; k.connId = ++connCtr; k.seq = 0; k.stale = stale;
    Reply rp;
    if (!k.c.call({"PING"}, rp, 3 * SEC)) { k.c.close(); return false; }
    if (stale && (!k.c.call({"ACTIVATE_STALE_READS"}, rp, 3 * SEC) || rp != rOk())) { k.c.close(); return false; }
    return true;
  }
  bool notExecuted(const Reply& r) { return r.t == '-' && (r.s.compare(0, 6, "MOVED ") == 0 || r.s.find("unavailable") != std::string::npos); }
  void redirect(Client& k, const Reply& r) {
    if (r.s.compare(0, 6, "MOVED ") == 0) {
      int nd = 0, slot = -1, port = 0;
      if (sscanf(r.s.c_str(), "MOVED %d n%d:%d", &slot, &nd, &port) != 3 || nd < 1 || nd > total || port != 7777) violation("bad-redirect", "redirected to something which is no member: " + r.str());
      k.prefer = nd;
      countProbe("redirect followed");
    } else countProbe("unavailable reply");
    k.c.close();
  }
  // sends the commands, records the operations; false: connection is gone
  bool issue(Client& k, const std::vector<Cmd>& cmds, const std::string& mode) {
    bool tx = mode == "tx", pipe = mode == "pipe";
    std::vector<size_t> ids;
    auto mk = [&](const std::vector<Cmd>& cs) {
      Op o; o.cid = k.id; o.node = k.node; o.conn = k.connId; o.seq = k.seq++; o.stale = k.stale; o.tx = tx; o.cmds = cs; o.inv = now(); o.resp = NEVER;
      for (auto& c : cs) o.write |= isWrite(c);
      ops.push_back(o);
      ids.push_back(ops.size() - 1);
    };
    if (pipe) for (auto& c : cmds) mk({c}); else mk(cmds);
    std::string bytes;
    if (tx) bytes += encodeRequest({"MULTI"});
    for (auto& c : cmds) bytes += encodeRequest(c);
    if (tx) bytes += encodeRequest({"EXEC"});
    if (!k.c.sendRaw(bytes, 3 * SEC)) { k.c.close(); return false; }
    Time dl = k.patient ? std::max(now(), tFault) + bound : now() + (k.r.chance(0.3) ? k.r.range(10, 500) * MS : 4 * SEC);
    auto rd = [&](Reply& rp) {
      int x = k.c.read(rp, dl);
      if (x == -2) violation("garbage", "reply bytes are not valid protocol");
      if (x == 0 && k.patient && S(k.node).alive()) violation("request-forgotten", fmt("request %s sent to node %d was not answered although faults stopped %.1f s ago", show(cmds[0]).c_str(), k.node, (now() - tFault) / 1e9));
      if (x != 1) k.c.close();
      return x == 1;
    };
    Reply rp;
    if (tx) {
      if (!rd(rp)) return false;
      if (rp != rOk()) violation("tx-queue", "MULTI answered " + rp.str());
      for (size_t i = 0; i < cmds.size(); i++) { if (!rd(rp)) return false; if (rp != rStatus("QUEUED")) violation("tx-queue", show(cmds[i]) + " inside MULTI answered " + rp.str()); }
      if (!rd(rp)) return false;
      Op& o = ops[ids[0]];
      o.resp = now();
      if (notExecuted(rp)) { redirect(k, rp); return false; }
      if (rp.t != '*' || rp.k.size() != cmds.size()) {
        // the failure may be spelled once per command
        violation("tx-exec", fmt("EXEC of %zu commands answered %s", cmds.size(), rp.str().c_str()));
      }
      o.answered = true; o.replies = rp.k;
      return true;
    }
    bool good = true;
    Reply redir;
    for (size_t i = 0; i < ids.size(); i++) {
      if (!rd(rp)) return false;
      Op& o = ops[ids[i]];
      o.resp = now();
      trace(fmt("client %d at n%d: %s -> %s", k.id, k.node, show(o.cmds[0]).c_str(), rp.str().c_str()));
      if (notExecuted(rp)) { redir = rp; good = false; }
      else { o.answered = true; o.replies = {rp}; }
    }
    if (!good) redirect(k, redir);
    return good;
  }
  static std::vector<Cmd> split(const Cmd& a, size_t from) {
    std::vector<Cmd> v(1);
    for (size_t i = from; i < a.size(); i++) { if (a[i] == ";") v.emplace_back(); else v.back().push_back(a[i]); }
    std::vector<Cmd> o;
    for (auto& c : v) if (!c.empty()) o.push_back(c);
    return o;
  }
  void client(int id) {
    Client k;
    k.id = id; k.r = subRng(plan, fmt("client%d", id).c_str()); k.patient = k.r.chance(0.5);
    std::string cid = std::to_string(id);
    for (auto& l : plan.lines) {
      if (l.kind != "do" || l.a.size() < 4 || l.a[0] != cid) continue;
      sleepFor(atoll(l.a[1].c_str()) * US);
      std::vector<Cmd> cmds = split(l.a, 3);
      if (cmds.empty()) continue;
      const std::string& mode = l.a[2];
      bool stale = mode == "stale";
      Time giveUp = now() + (finalPhase ? 3 * SEC : 8 * SEC);
      bool fresh = false;
      while (now() < giveUp) {
        if (!k.c.ep || k.c.broken || k.stale != stale) {
          if (!connect(k, stale)) { sleepFor(k.r.range(20, 400) * MS); continue; }
          fresh = true;
        }
        // find the leader with a read first
        if (fresh && !stale && k.r.chance(0.9)) {
          if (!issue(k, {{"GET", "tok" + std::to_string(k.r.below(3))}}, "single")) { if (!k.prefer) sleepFor(k.r.range(20, 600) * MS); continue; }
          fresh = false;
        }
        issue(k, cmds, mode);
        break;
      }
    }
    k.c.close();
  }
  // ---- faults
  Reply admin(int nd, const Cmd& c, Time timeout = 3 * SEC) {
    Conn x; Reply r;
    if (!x.open(fmt("n%d", nd), 7777, 1 * SEC)) return rErr("no connection");
    if (!x.call({"PING"}, r, timeout)) return rErr("no reply");
    if (!x.call(c, r, timeout)) return rErr("no reply");
    trace(fmt("admin n%d: %s -> %s", nd, show(c).c_str(), r.str().c_str()));
    return r;
  }
  void write(const Cmd& c, const std::string& who) {
    // through the leader, recorded in the history
    Client k; k.id = 1000; k.r = subRng(plan, who.c_str()); k.prefer = leaderNow();
    Time dl = now() + 4 * SEC;
    while (now() < dl) {
      if (!connect(k, false)) { sleepFor(100 * MS); continue; }
      if (!issue(k, {{"GET", "tok0"}}, "single")) { if (!k.prefer) sleepFor(200 * MS); continue; }
      issue(k, {c}, "single");
      break;
    }
  }
  void fault(const Cmd& a, Rng& r) {
    const std::string& k = a[1];
    auto arg = [&](size_t i) { return i < a.size() ? a[i] : std::string("1"); };
    Time d = atoll(arg(2).c_str()) * MS;
    quiet = false;
    auto later = [&](Time t, std::function<void()> f) { spawn([this, t, f] { sleepFor(t); if (!finalPhase) f(); }, "later", 0); };
    if (k == "part") {
      std::string side = arg(3);
      side.resize(total, '0');
      for (int i = 1; i <= total; i++) for (int j = 1; j <= total; j++) if (side[i - 1] != side[j - 1]) blk(i, j, 1);
      later(d, [this, side] { for (int i = 1; i <= total; i++) for (int j = 1; j <= total; j++) if (side[i - 1] != side[j - 1]) blk(i, j, -1); isoUpdate(); });
      countFault("partition");
    } else if (k == "isolate" || k == "lag") {
      int t = target(arg(3), r);
      for (int j = 1; j <= total; j++) if (j != t) { blk(t, j, 1); blk(j, t, 1); }
      later(d, [this, t] { for (int j = 1; j <= total; j++) if (j != t) { blk(t, j, -1); blk(j, t, -1); } isoUpdate(); });
      countFault("node isolated");
    } else if (k == "oneway") {
      int t = target(arg(3), r); bool in = arg(4) == "in";
      for (int j = 1; j <= total; j++) if (j != t) { if (in) blk(j, t, 1); else blk(t, j, 1); }
      later(d, [this, t, in] { for (int j = 1; j <= total; j++) if (j != t) { if (in) blk(j, t, -1); else blk(t, j, -1); } isoUpdate(); });
      countFault("one-way link loss");
    } else if (k == "slow") {
      int t = target(arg(3), r); Time x = atoll(arg(4).c_str()) * MS;
      for (int j = 0; j <= total; j++) if (j != t) { net::slowLink(t, j, x); net::slowLink(j, t, x); }
      later(d, [this, t] { for (int j = 0; j <= total; j++) if (j != t) { net::slowLink(t, j, 0); net::slowLink(j, t, 0); } });
      countFault("slow links");
    } else if (k == "noconn") {
      int t = target(arg(3), r);
      for (int j = 1; j <= total; j++) if (j != t) { net::noConnect(j, t, true); net::noConnect(t, j, true); }
      later(d, [this, t] { for (int j = 1; j <= total; j++) if (j != t) { net::noConnect(j, t, false); net::noConnect(t, j, false); } });
      countFault("connections refused");
    } else if (k == "reset") {
      int t = target(arg(2), r);
      for (int j = 0; j <= total; j++) if (j != t) { net::resetAll(t, j); net::resetAll(j, t); }
      countFault("connections reset");
    } else if (k == "kill" || k == "power") {
      int t = target(arg(3), r);
      if (node(t).alive) { countFault(k == "kill" ? "process killed" : "power loss"); goDown(t, k == "power", d); }
    } else if (k == "powerall") {
      for (int i = 1; i <= total; i++) goDown(i, true, d);
      countFault("power loss of all nodes");
    } else if (k == "crashio" || k == "crashiop") {
      int t = target(arg(3), r);
      bool pw = k == "crashiop";
      if (node(t).alive) armCrash(t, std::max(1, atoi(arg(4).c_str())), pw, [this, t, d] { S(t).up = false; if (!finalPhase) wantUp[t] = now() + d; });
      countFault(pw ? "power loss at a storage operation" : "crash at a storage operation");
    } else if (k == "stop") {
      int t = target(arg(3), r);
      if (node(t).alive && S(t).up) {
        countFault("clean stop");
        spawn([this, t, d] {
          Time t0 = now();
          wantUp[t] = NEVER;
          if (!S(t).stop(bound)) { if (node(t).alive) violation("shutdown-hang", fmt("clean shutdown of node %d did not finish within %.0f s", t, (now() - t0) / 1e9)); }
          S(t).stopReq = false;
          wantUp[t] = finalPhase ? now() : now() + d;
        }, "stopper", 0);
      }
    } else if (k == "diskerr") {
      for (int t = 1, one = arg(2) == "A" ? 0 : target(arg(2), r); t <= total; t++) if (!one || t == one) { disk[t].left = std::max(1, atoi(arg(3).c_str())); disk[t].op = arg(4); }
    } else if (k == "slowopen") {
      for (int t = 1, one = arg(3) == "A" ? 0 : target(arg(3), r); t <= total; t++) if (!one || t == one) { disk[t].slowUntil = now() + d; disk[t].slow = (Time)(atoll(arg(4).c_str()) * MS); }
    } else if (k == "stall") {
      int t = target(arg(3), r);
      stallNode(t, now() + d);
      stalls[t].push_back({now(), now() + d});
      countFault("process stalled");
    } else if (k == "rate") {
      int t = target(arg(2), r); double x = atof(arg(3).c_str());
      if (x >= 0.25 && x <= 4) { setTimeRate(t, x); maxRate = std::max(maxRate, x); minRate = std::min(minRate, x); }
      countFault("clock rate changed");
    } else if (k == "jump") {
      int t = target(arg(2), r);
      node(t).realOffset += atoll(arg(3).c_str()) * MS;
      countFault("wall clock jump");
    } else if (k == "coup") {
      int t = target(arg(2), r);
      admin(t, {"RAFT_ATTEMPT_COUP"});
      countFault("coup attempted");
    } else if (k == "add" || k == "promote" || k == "demote" || k == "remove") {
      int t = target(arg(2), r);
      const char* c = k == "add" ? "RAFT_ADD_OBSERVER" : k == "promote" ? "RAFT_PROMOTE_OBSERVER" : k == "demote" ? "RAFT_DEMOTE_TO_OBSERVER" : "RAFT_REMOVE_MEMBER";
      Reply x = admin(leaderNow(), {c, fmt("n%d:7777", t)});
      countFault(x == rOk() ? ("membership " + k).c_str() : "membership change refused");
    } else if (k == "trim") {
      // one update per value: the history checker identifies an update by its text
      if (trimSeen.insert(arg(2) + ":" + arg(3)).second) {
        write({"CONFIG_SET", "raft.trimming", arg(2) + ":" + arg(3)}, "trim" + a[0]);
        countFault("trimming configured");
      }
    } else if (k == "checkpoint") {
      int t = leaderNow();
      std::string path = fmt("/vfs/n%d/cp%d", t, connCtr);
      admin(t, {"RAFT_CHECKPOINT", path});
      countFault("checkpoint taken");
    }
    isoUpdate();
  }
  // ---- disk faults while a copy is taken, transferred or installed
  struct Disk { int left = 0; std::string op; Time slowUntil = 0, slow = 0; };
  std::map<int, Disk> disk;
  Rng diskRng;
  int diskFault(int nd, const char* op, const std::string& path) {
    auto it = disk.find(nd);
    if (it == disk.end() || finalPhase) return 0;
    Disk& d = it->second;
    if (!strcmp(op, "dbopen") && now() < d.slowUntil && d.slow > 0) { countFault("slow database open"); sleepFor((Time)diskRng.below((uint64_t)d.slow)); }
    if (d.left <= 0) return 0;
    if (path.find("/temp-snapshots/") == std::string::npos && path.find("/resilvering-arena/") == std::string::npos && path.find("/supplanted/") == std::string::npos) return 0;
    if (d.op != "any" && d.op != op) return 0;
    if (--d.left > 0) return 0;
    g_abortAllowed[nd] = true;     // giving up is fine, so is a restart
    countProbe("disk error during a transfer");
    return diskRng.chance(0.3) ? ENOSPC : EIO;
  }
  // ---- final phase
  void heal() {
    isoUpdate();
    finalPhase = true;
    disk.clear();
    for (auto& v : blockRef) for (auto& x : v) x = 0;
    net::healAll();
    isoUpdate();
    for (int i = 1; i <= total; i++) {
      setTimeRate(i, 1.0);
      disarmCrash(i);
      auto it = wantUp.find(i);
      if (it != wantUp.end() && it->second != NEVER) it->second = now();
    }
    tFault = now();
    for (auto& kv : stalls) for (auto& x : kv.second) tFault = std::max(tFault, x.second);
  }
  std::string status() {
    std::string d;
    for (int i = 1; i <= total; i++) {
      auto& v = w.n[i];
      d += fmt("  node %d: %s term %lld log %lld..%lld commit %lld applied %lld members %s\n", i, S(i).alive() ? S(i).up ? "up" : "starting" : "down", (long long)v.term, (long long)v.start, (long long)v.size - 1, (long long)v.commit, (long long)v.applied, escape(v.meta["RAFT_MEMBERS"], 100).c_str());
    }
    return d;
  }
  void finish() {
    // progress
    Time dl = tFault + bound;
    int tries = 0;
    bool ok = false;
    Client k; k.id = 2000; k.r = subRng(plan, "probe");
    while (!ok) {
      if (now() > dl) violation("no-progress", fmt("no write was accepted within %.0f s after all faults stopped and all nodes were restarted:\n%s", bound / 1e9, status().c_str()));
      if (!connect(k, false)) { sleepFor(50 * MS); continue; }
      if (!issue(k, {{"GET", "tok0"}}, "single")) { if (!k.prefer) sleepFor(100 * MS); continue; }
      k.patient = false;
      ok = issue(k, {{"SET", "probe", fmt("p%d", ++tries)}}, "single");
      if (!ok && !k.prefer) sleepFor(100 * MS);
    }
    countProbe("recovered");
  }
  std::vector<int> members() {
    std::vector<int> v;
    std::string m;
    int64_t best = -1;
    for (int i = 1; i <= total; i++) if (w.n[i].commit > best) { best = w.n[i].commit; m = w.n[i].meta["RAFT_MEMBERS"]; }
    for (auto& part : splitStr(m, "|")) for (auto& s : splitStr(part, ",")) if (!s.empty() && s[0] == 'n') { int x = atoi(s.c_str() + 1); if (x >= 1 && x <= total) v.push_back(x); }
    return v;
  }
  void converge() {
    Time dl = std::max(now(), tFault) + bound;
    for (;;) {
      auto m = members();
      int64_t c = -1;
      for (int i : m) c = std::max(c, w.n[i].size);
      bool ok = true;
      for (int i : m) if (w.n[i].size != c || w.n[i].commit != c - 1 || w.n[i].applied != c - 1) ok = false;
      if (ok) return;
      if (now() > dl) violation("no-convergence", fmt("members do not reach the same log position within %.0f s after faults stopped:\n%s", bound / 1e9, status().c_str()));
      sleepFor(100 * MS);
    }
  }
  // ---- the journal as the administrative commands show it
  static Reply rawEntry(const LogEntry& e, bool raw, int64_t index = -1) {
    Reply q = rStrs(e.req);
    if (!raw && (e.req[0] == "TX_READWRITE" || e.req[0] == "TX_READONLY")) {
      std::vector<Cmd> reqs; bool ph;
      parseTx(e, reqs, ph);
      q = rArr({rStr(e.req[0])});
      for (auto& c : reqs) q.k.push_back(rStrs(c));
    }
    Reply o = rArr();
    if (index >= 0) o.k.push_back(rStr(fmt("INDEX: %lld", (long long)index)));
    o.k.push_back(rStr(fmt("TERM: %lld", (long long)e.term)));
    o.k.push_back(q);
    return o;
  }
  // some entry which a journal held at this position at some time
  bool everAt(int64_t i, const Reply& r, bool raw, bool idx = false) {
    for (auto it = w.seen.lower_bound({i, INT64_MIN}); it != w.seen.end() && it->first.first == i; ++it) {
      LogEntry e; parseEntry(it->second.first, e);
      if (rawEntry(e, raw, idx ? i : -1) == r) return true;
    }
    return false;
  }
  void auditor() {
    Rng r = subRng(plan, "auditor");
    while (!finalPhase) {
      sleepFor((Time)r.range(20, 1500) * MS);
      int t = (int)r.range(1, total);
      if (finalPhase || !S(t).alive() || !S(t).up) continue;
      Conn c; Reply q;
      if (!c.open(fmt("n%d", t), 7777, 300 * MS)) continue;
      if (r.chance(0.4)) {
        if (!c.call({"RAFT_INFO"}, q, 2 * SEC) || q.t != '*') continue;
        std::string term, leader;
        for (auto& x : q.k) { if (x.s.compare(0, 5, "TERM ") == 0) term = x.s.substr(5); if (x.s.compare(0, 7, "LEADER ") == 0) leader = x.s.substr(7); }
        auto it = w.leaders.find(atoll(term.c_str()));
        if (leader.empty() || it == w.leaders.end()) continue;
        if (it->second.server != leader) violation("wrong-leader", fmt("node %d reports %s as leader of term %s, it is %s", t, leader.c_str(), term.c_str(), it->second.server.c_str()));
        countProbe("reported leader checked");
        continue;
      }
      auto& v = w.n[t];
      bool raw = r.chance(0.5);
      int64_t i = std::max<int64_t>(0, r.chance(0.5) ? v.size - (int64_t)r.range(-1, 5) : (int64_t)r.below(v.size + 1)), com = v.commit, size = v.size, start = v.start;
      Cmd cmd = {"RAFT_FETCH", std::to_string(i)};
      if (raw) cmd.push_back("raw");
      if (!c.call(cmd, q, 2 * SEC) || q.err()) continue;
      auto cm = w.committed.find(i);
      if (q.t == 'n') {
        if (i <= com && i < size && i >= start && i >= w.n[t].start && !lossy) violation("fetch-missing", fmt("node %d has no entry at %lld, which it has committed; its log starts at %lld", t, (long long)i, (long long)w.n[t].start));
        continue;
      }
      if (q.str(100000).find("#!^NULL-HOSTNAME^!#") != std::string::npos) continue;   // the placeholder of a node which waits to be added
      if (!everAt(i, q, raw)) violation("fetch-wrong", fmt("node %d shows %s at %lld, no journal ever held that there", t, q.str().c_str(), (long long)i));
      if (i <= com && cm != w.committed.end() && !lossy) {
        LogEntry e; parseEntry(cm->second.raw, e);
        if (rawEntry(e, raw) != q) violation("fetch-wrong", fmt("node %d shows %s at the committed position %lld, committed is %s", t, q.str().c_str(), (long long)i, show(e.req).c_str()));
      }
      countProbe("journal entry fetched");
    }
  }
  void audit() {
    Rng r = subRng(plan, "audit-end");
    for (int t : members()) {
      Conn c; Reply q;
      if (!S(t).alive() || !c.open(fmt("n%d", t), 7777, 3 * SEC)) continue;
      auto& v = w.n[t];
      int64_t n0 = v.size;
      bool raw = r.chance(0.5);
      int64_t k = std::min<int64_t>(v.size - v.start, r.range(1, 12));
      Cmd cmd = {"RAFT_FETCH_LAST", std::to_string(k)};
      if (raw) cmd.push_back("raw");
      if (k > 0 && c.call(cmd, q, 10 * SEC) && v.size == n0 && v.start + k <= n0) {
        if (q.t != '*' || (int64_t)q.k.size() != k) violation("fetch-wrong", fmt("node %d: the last %lld of %lld..%lld entries: %s", t, (long long)k, (long long)v.start, (long long)n0 - 1, q.str().c_str()));
        for (int64_t j = 0; j < k; j++) {
          LogEntry e; parseEntry(v.log[n0 - k + j], e);
          if (rawEntry(e, raw) != q.k[j]) violation("fetch-wrong", fmt("node %d shows %s as entry %lld, its log has %s", t, q.k[j].str().c_str(), (long long)(n0 - k + j), show(e.req).c_str()));
        }
        countProbe("last entries compared");
      }
      std::string match = r.chance(0.5) ? "" : "probe", cursor = "0";
      if (r.chance(0.5) && v.start < n0) cursor = std::to_string(v.start + (int64_t)r.below(n0 - v.start));
      int64_t from = atoll(cursor.c_str()), start0 = v.start;
      std::vector<Reply> got;
      bool ok = false;
      for (int page = 0; page < 500; page++) {
        Cmd s = {"RAFT_JOURNAL_SCAN", cursor, "COUNT", std::to_string(r.range(1, 20))};
        if (!match.empty()) { s.push_back("MATCH"); s.push_back("*" + match + "*"); }
        if (!c.call(s, q, 10 * SEC) || q.t != '*' || q.k.size() != 2) break;
        for (auto& x : q.k[1].k) got.push_back(x);
        if (q.k[0].s == "0") { ok = true; break; }
        if (q.k[0].s.compare(0, 5, "next:")) violation("scan-wrong", fmt("node %d: cursor %s", t, q.k[0].str().c_str()));
        cursor = q.k[0].s;
      }
      if (ok && v.start == start0 && v.size == n0) {
        std::vector<Reply> want;
        for (int64_t i = std::max(from, start0); i < n0; i++) {
          if (!match.empty() && v.log[i].find(match) == std::string::npos) continue;
          LogEntry e; parseEntry(v.log[i], e);
          want.push_back(rawEntry(e, false, i));
        }
        if (want != got) {
          size_t j = 0;
          while (j < want.size() && j < got.size() && want[j] == got[j]) j++;
          violation("scan-wrong", fmt("node %d: scanning %lld..%lld from %lld gives %zu entries, expected %zu; first difference: %s instead of %s", t, (long long)start0, (long long)n0 - 1, (long long)from, got.size(), want.size(), j < got.size() ? got[j].str().c_str() : "(end)", j < want.size() ? want[j].str().c_str() : "(end)"));
        }
        countProbe("journal scanned");
      }
    }
  }
  // ---- history
  static Cmd normal(const Cmd& c) {
    if (c[0].compare(0, 18, "TIMESTAMPED_LEASE_") == 0) { Cmd o(c.begin(), c.end() - 1); o[0] = c[0].substr(12); return o; }
    return c;
  }
  void history() {
    std::map<std::string, std::vector<size_t>> byKey;
    for (size_t i = 0; i < ops.size(); i++) {
      Op& o = ops[i];
      if (!o.write) continue;
      std::string k = o.tx ? "T" : "S";
      for (auto& c : o.cmds) k += ser(c);
      byKey[k].push_back(i);
      if (byKey[k].size() > 1) harnessError("operation is not unique: " + show(o.cmds[0]));
    }
    int64_t top = w.maxCommitted();
    std::vector<Model> st(top + 1);
    Model m;
    std::map<size_t, std::vector<Reply>> want;
    auto find = [&](const std::string& k, int64_t idx, const Cmd& c) -> Op* {
      auto it = byKey.find(k);
      if (it == byKey.end()) violation("invented-write", fmt("log entry %lld contains %s, which no client sent", (long long)idx, show(c).c_str()));
      Op& o = ops[it->second[0]];
      if (o.index >= 0) violation("applied-twice", fmt("%s was sent once but is committed at %lld and at %lld", show(c).c_str(), (long long)o.index, (long long)idx));
      o.index = idx;
      return &o;
    };
    for (int64_t i = 0; i <= top; i++) {
      auto it = w.committed.find(i);
      if (it == w.committed.end()) violation("commit-hole", fmt("position %lld was never committed by any node, position %lld was", (long long)i, (long long)top));
      LogEntry e; parseEntry(it->second.raw, e);
      std::vector<Cmd> reqs; bool phantom;
      if (!parseTx(e, reqs, phantom)) violation("bad-entry", fmt("log entry %lld does not decode: %s", (long long)i, show(e.req).c_str()));
      if (e.req[0].compare(0, 8, "JOURNAL_") != 0) {
        m.beginBatch();
        std::vector<Reply> rs;
        for (auto& c : reqs) rs.push_back(m.exec(c));
        std::vector<std::pair<Op*, std::vector<Reply>>> chk;
        if (phantom) {
          int slot = 0;
          for (size_t j = 0; j < reqs.size(); j++) {
            Cmd c = normal(reqs[j]);
            if (!isWrite(c)) { // a read batched together with writes
              continue;
            }
            Op* o = find("S" + ser(c), i, c);
            o->slot = slot++;
            chk.push_back({o, {rs[j]}});
          }
        } else {
          std::string k = "T";
          Cmd first;
          for (auto& c : reqs) { Cmd x = normal(c); if (first.empty()) first = x; k += ser(x); }
          chk.push_back({find(k, i, first), rs});
        }
        for (auto& c : chk) {
          Op& o = *c.first;
          if (!o.answered) { countProbe("unacknowledged write in the log"); continue; }
          if (it->second.at > o.resp) violation("acked-before-commit", fmt("%s was acknowledged before entry %lld was committed", show(o.cmds[0]).c_str(), (long long)i));
          if (w.firstAppend[i] < o.inv) violation("applied-before-sent", show(o.cmds[0]));
          for (size_t j = 0; j < o.cmds.size(); j++)
            if (j >= o.replies.size() || !sameReply(o.replies[j], c.second[j]))
              violation("wrong-reply", fmt("%s (log entry %lld) was answered %s, the log says %s", show(o.cmds[j]).c_str(), (long long)i, j < o.replies.size() ? o.replies[j].str().c_str() : "?", c.second[j].str().c_str()));
        }
      }
      st[i] = m;
    }
    // acknowledged writes
    for (auto& o : ops) if (o.write && o.answered && o.index < 0) violation("acked-write-lost", fmt("%s was acknowledged by node %d with %s but is not in the committed log", show(o.cmds[0]).c_str(), o.node, o.replies[0].str().c_str()));
    // real time order and reads
    std::vector<Op*> done;
    for (auto& o : ops) if (o.answered || o.index >= 0) done.push_back(&o);
    std::stable_sort(done.begin(), done.end(), [](Op* a, Op* b) { return a->resp < b->resp; });
    std::map<std::pair<int, int>, int64_t> connPos;             // position of the last operation on a connection
    std::vector<std::pair<Time, int64_t>> floor = {{0, 0}};      // monotone: everything answered by then saw at least this position
    auto lbAt = [&](Time t) { auto it = std::lower_bound(floor.begin(), floor.end(), std::make_pair(t, (int64_t)-1)); return it == floor.begin() ? (int64_t)0 : std::prev(it)->second; };
    Time lease = (Time)(plan.get("thigh", 1500) * MS / minRate * 2) + 2 * SEC;
    std::map<int, int64_t> lastOnConn;
    for (Op* po : done) {
      Op& o = *po;
      if (o.stale) {
        if (o.write) continue;
        int64_t hi = -1;
        for (auto& kv : w.appliedAt) if (kv.second <= o.resp) hi = std::max(hi, kv.first);
        int64_t lo = std::max<int64_t>(0, lastOnConn.count(o.conn) ? lastOnConn[o.conn] : 0), found = -1;
        for (int64_t q = lo; q <= std::min(hi, top) && found < 0; q++) { Model c = st[q]; if (sameReply(c.single(o.cmds[0]), o.replies[0])) found = q; }
        if (found < 0) violation("stale-read-wrong", fmt("a stale read gives something which never was the contents (or goes back): %s -> %s", show(o.cmds[0]).c_str(), o.replies[0].str().c_str()));
        lastOnConn[o.conn] = found;
        countProbe("stale read");
        continue;
      }
      int64_t lb = lbAt(o.inv);
      int64_t clb = lastOnConn.count(o.conn) ? lastOnConn[o.conn] : 0;
      int64_t pos = -1;
      if (o.write) {
        pos = o.index;
        if (pos <= lb && lb > 0) {
          // allow equality only for the same batch
          if (pos < lb || o.answered) {
            bool same = false;
            if (pos == lb) for (auto& x : ops) if (x.write && &x != &o && x.index == pos && x.resp < o.inv) same = true;
            if (pos < lb || same) violation("order", fmt("%s sent after position %lld was visible is committed at %lld", show(o.cmds[0]).c_str(), (long long)lb, (long long)pos));
          }
        }
        if (o.answered && pos < clb) violation("order", fmt("commands of one connection are committed out of order: %s at %lld, an earlier one at %lld", show(o.cmds[0]).c_str(), (long long)pos, (long long)clb));
      } else {
        int64_t hi = -1;
        for (auto it = w.appliedAt.begin(); it != w.appliedAt.end(); ++it) if (it->second <= o.resp) hi = std::max(hi, it->first);
        hi = std::min(hi, top);
        auto eval = [&](int64_t q) {
          Model c = st[q];
          c.beginBatch();
          for (size_t j = 0; j < o.cmds.size(); j++) if (!sameReply(c.exec(o.cmds[j]), o.replies[j])) return false;
          return true;
        };
        int64_t from = std::max(lb, clb);
        for (int64_t q = from; q <= hi && pos < 0; q++) if (eval(q)) pos = q;
        if (pos < 0) {
          int64_t old = -1;
          for (int64_t q = from - 1; q >= 0 && old < 0; q--) if (eval(q)) old = q;
          std::string what = fmt("read %s by client %d from node %d at %.3f s: %s", show(o.cmds[0]).c_str(), o.cid, o.node, o.resp / 1e9, o.replies[0].str().c_str());
          if (old < 0) violation("wrong-read", fmt("%s never was the contents between positions %lld and %lld", what.c_str(), (long long)from, (long long)hi));
          // served by a leader which had been superseded a moment ago?
          std::string me = fmt("n%d:7777", o.node);
          int64_t mine = 0;
          for (auto& l : w.leaders) if (l.second.server == me && l.second.elected && l.second.at <= o.resp) mine = std::max(mine, l.first);
          Time superseded = NEVER;
          for (auto& l : w.leaders) if (l.first > mine && l.second.elected) superseded = std::min(superseded, l.second.at);
          bool recent = superseded <= o.resp;
          if (recent) {
            Time slack = lease;
            for (auto& x : stalls[o.node]) if (x.first <= o.resp && x.second >= superseded) slack += x.second - x.first;
            recent = o.resp - superseded <= slack;
          }
          violation(recent ? "stale-read-deposed" : "stale-read", fmt("%s; that is the contents at position %lld, but position %lld was visible before the read started%s", what.c_str(), (long long)old, (long long)from,
                                                                       recent ? fmt(" (the node had been superseded as leader %.3f s earlier)", (o.resp - superseded) / 1e9).c_str() : ""));
        }
        countProbe("linearizable read");
      }
      if (o.answered) {
        lastOnConn[o.conn] = std::max(clb, pos);
        if (pos > floor.back().second) floor.push_back({o.resp, pos});
      }
      // who answered?
      if (o.answered) served(o, lease);
    }
    leaseCheck();
    note("entries", std::to_string(top));
  }
  bool stalledIn(int nd, Time a, Time b) { for (auto& x : stalls[nd]) if (x.first <= b && x.second >= a) return true; return false; }
  void served(Op& o, Time lease) {
    if (total == 1) return;
    std::string me = fmt("n%d:7777", o.node);
    int64_t mine = -1;
    for (auto& l : w.leaders) if (l.second.server == me && l.second.elected && l.second.at <= o.resp) mine = std::max(mine, l.first);
    if (mine < 0) violation("served-by-non-leader", fmt("node %d answered %s with %s although it never was a leader", o.node, show(o.cmds[0]).c_str(), o.replies[0].str().c_str()));
    for (auto& l : w.leaders) if (l.first > mine && l.second.elected && l.second.at + lease < o.inv && !stalledIn(o.node, l.second.at, o.resp))
      violation("served-by-non-leader", fmt("node %d answered %s with %s at %.3f s although %s has been leader of a later term since %.3f s", o.node, show(o.cmds[0]).c_str(), o.replies[0].str().c_str(), o.inv / 1e9, l.second.server.c_str(), l.second.at / 1e9));
    Time lo = (Time)(plan.get("tlow", 1000) * MS / minRate) + 1500 * MS;
    for (auto& x : isoLog) if (x.node == o.node && o.inv > x.from + lo && o.resp < x.to && !stalledIn(o.node, x.from, o.resp) && full(o.node, o.resp) > 1)
      violation("served-without-quorum", fmt("node %d answered %s with %s at %.3f s although it is cut off from all other nodes since %.3f s", o.node, show(o.cmds[0]).c_str(), o.replies[0].str().c_str(), o.inv / 1e9, x.from / 1e9));
  }
  size_t full(int, Time) { return minFull; }
  size_t minFull = 99;
  void leaseCheck() {
    struct Grant { std::string holder; Time start; uint64_t dur; };
    std::map<std::string, Grant> g;
    std::vector<Op*> byIdx;
    for (auto& o : ops) if (o.index >= 0) for (auto& c : o.cmds) if (isLease(c) || c[0] == "DEL" || c[0] == "FLUSHALL") { byIdx.push_back(&o); break; }
    std::stable_sort(byIdx.begin(), byIdx.end(), [](Op* a, Op* b) { return a->index != b->index ? a->index < b->index : a->slot < b->slot; });
    for (Op* o : byIdx) for (size_t j = 0; j < o->cmds.size(); j++) {
      auto& c = o->cmds[j];
      if (c[0] == "FLUSHALL") { g.clear(); continue; }
      if (c[0] == "DEL") { for (auto& k : c) g.erase(k); continue; }
      if (c[0] == "LEASE_RELEASE" && c.size() > 1) { g.erase(c[1]); continue; }
      if (c[0] != "LEASE_ACQUIRE" || c.size() != 4) continue;
      // in the log, but the answer was lost: it may have been granted, or have shortened the grant
      if (!o->answered || o->replies.size() <= j) { g.erase(c[1]); continue; }
      if (o->replies[j].err()) continue;
      auto it = g.find(c[1]);
      Time at = w.firstAppend[o->index];
      if (it != g.end() && it->second.holder != c[2]) {
        Time min = (Time)((double)it->second.dur * MS / maxRate) - 5 * MS;
        countProbe("lease changed hands");
        if (at - it->second.start < min)
          violation("lease-stolen", fmt("lease %s granted to %s for %llu ms is granted to %s %.3f s later", c[1].c_str(), it->second.holder.c_str(), (unsigned long long)it->second.dur, c[2].c_str(), (at - it->second.start) / 1e9));
      }
      g[c[1]] = {c[2], o->inv, strtoull(c[3].c_str(), nullptr, 10)};
    }
  }
  void contents() {
    // what the cluster serves equals the model
    for (int again = 0; again < 20; again++)
      if (contentsOnce()) return;
  }
  bool contentsOnce() {
    Model m;
    int64_t upTo = w.maxCommitted();
    for (int64_t i = 0; i <= upTo; i++) {
      LogEntry e; parseEntry(w.committed[i].raw, e);
      std::vector<Cmd> reqs; bool ph;
      parseTx(e, reqs, ph);
      if (e.req[0].compare(0, 8, "JOURNAL_") == 0) continue;
      m.beginBatch();
      for (auto& c : reqs) m.exec(c);
    }
    Conn c; Reply r;
    Time dl = now() + bound;
    int t = leaderNow();
    for (;;) {
      if (now() > dl) violation("no-progress", "contents cannot be read after recovery:\n" + status());
      if (c.open(fmt("n%d", t), 7777, 1 * SEC) && c.call({"PING"}, r) && c.call({"GET", "nosuch"}, r, 3 * SEC) && r.t == 'n') break;
      c.close();
      t = t % total + 1;
      sleepFor(50 * MS);
    }
    for (auto& q : m.dump(false)) {
      if (!c.call(q.first, r, 10 * SEC)) return true;   // leadership may move; compared again through the raw contents
      if (notExecuted(r)) return true;
      if (w.maxCommitted() != upTo) return false;       // a request which was still under way
      if (!sameReply(q.second, r)) violation("contents-differ", fmt("after recovery %s gives %s, applying the committed log gives %s", show(q.first).c_str(), r.str().c_str(), q.second.str().c_str()));
    }
    countProbe("contents compared");
    return true;
  }
  void run() {
    high = (Time)(plan.get("thigh", 1500) * MS);
    bound = 80 * high + 40 * SEC;
    g_abortIsViolation = true;
    blockRef.assign(total + 1, std::vector<char>(total + 1, 0));
    w.install();
    std::vector<std::string> mem;
    for (int i = 1; i <= n; i++) mem.push_back(fmt("n%d:7777", i));
    for (int i = 1; i <= total; i++) {
      S(i).id = i;
      S(i).tLow = (long)plan.get("tlow", 1000); S(i).tHigh = (long)plan.get("thigh", 1500); S(i).tHb = (long)plan.get("thb", 250);
      if (!S(i).bootstrap("cluster-id", i <= n ? mem : std::vector<std::string>{"LIMBO"}, 0, (int)plan.get("fsync", 0))) violation("bootstrap-failed", "creating the database failed without any fault");
    }
    minFull = n;
    if (plan.get("fmember", 0)) minFull = 0;
    if (plan.get("fdisk", 0)) {
      diskRng = subRng(plan, "disk");
      vfs::g_fault = [this](int nd, const char* op, const std::string& path) { return diskFault(nd, op, path); };
    }
    tFault = (Time)(plan.get("dur", 10000) * MS) + 30 * SEC;
    for (int i = 1; i <= total; i++) startServer(i);
    for (int i = 1; i <= total; i++) if (!S(i).waitUp(30 * SEC)) violation("boot", "a node does not start");
    for (int i = 1; i <= total; i++) vfs::writebackTree(fmt("/vfs/n%d", i));   // power loss right after the first start: DESIGN.md, known findings
    Fiber* sup = spawn([this] { supervise(); }, "supervisor", 0);
    Time t0 = now();
    tFault = t0 + (Time)(plan.get("dur", 10000) * MS);
    Group g;
    std::set<int> cids;
    for (auto& l : plan.lines) if (l.kind == "do" && !l.a.empty()) cids.insert(atoi(l.a[0].c_str()));
    for (int c : cids) g.go([this, c] { client(c); }, fmt("client%d", c));
    Fiber* nem = spawn([this, t0] {
      Rng r = subRng(plan, "nemesis");
      for (auto& l : plan.lines) {
        if (l.kind != "at" || l.a.size() < 2) continue;
        Time t = t0 + atoll(l.a[0].c_str()) * MS;
        if (t > now()) sleepUntil(t);
        trace("fault " + show(l.a));
        fault(l.a, r);
        stateSample(strHash(fmt("%lld %d", (long long)w.topTerm(), leaderNow())));
      }
      if (tFault > now()) sleepUntil(tFault);
      Time end = now();
      for (auto& kv : stalls) for (auto& x : kv.second) end = std::max(end, x.second);
      if (end > now()) sleepUntil(end);
      heal();
    }, "nemesis", 0);
    Fiber* aud = plan.get("audit", 0) ? spawn([this] { auditor(); }, "auditor", 0) : nullptr;
    joinFiber(nem);
    finish();
    if (aud) joinFiber(aud);
    g.join();
    converge();
    contents();
    converge();
    if (plan.get("audit", 0)) { audit(); converge(); }
    history();
    done = true;
    joinFiber(sup);
    Group st;
    for (int i = 1; i <= total; i++) st.go([this, i] { if (node(i).alive && !S(i).stop(bound) && node(i).alive) violation("shutdown-hang", fmt("clean shutdown of node %d did not finish", i)); }, "stop");
    st.join();
  }
};
void runCluster(const Plan& p) { auto* c = new Cluster(p); c->run(); }
static Reg reg("cluster", genCluster, runCluster);
}
