// Offline recovery: raw edits of a stopped node's databases through the recovery server and one-off commands, with
// crashes, power losses and disk errors in between; forced reconfiguration of a stopped node or of a checkpoint taken
// from a running cluster, and the start of the new cluster.
#include "scen.hh"
#include "recovery/RecoveryRunner.hh"
#include "raft/RaftJournal.hh"
#include "RedisRequest.hh"
#include "Utils.hh"
#include <algorithm>
#include <cerrno>
#include <cstdlib>
using namespace scen;
using namespace sim;
namespace {
typedef std::map<std::string, std::string> KV;
std::string S(long long v) { return std::to_string(v); }
std::string be64(uint64_t v) { std::string s(8, 0); for (int i = 7; i >= 0; i--) { s[(size_t)i] = (char)(v & 255); v >>= 8; } return s; }
const char* MEM = "RAFT_MEMBERS"; const char* CID = "RAFT_CLUSTER_ID"; const char* EPO = "RAFT_MEMBERSHIP_EPOCH"; const char* PMEM = "RAFT_PREVIOUS_MEMBERS"; const char* PEPO = "RAFT_PREVIOUS_MEMBERSHIP_EPOCH";
const std::vector<std::string>& magic() {
  static const std::vector<std::string> v = {"RAFT_CURRENT_TERM", "RAFT_LOG_SIZE", "RAFT_LOG_START", CID, "RAFT_VOTED_FOR", "RAFT_COMMIT_INDEX", MEM, EPO, PMEM, PEPO, "RAFT_FSYNC_POLICY", "__format", "__last-applied", "__in-bulkload", "__clock"};
  return v;
}
const std::vector<std::string> GOODM = {"n1:7777|", "n1:7777,n2:7777,n3:7777|", "n1:7777|n4:7777", "n5:7777|", "a.b.c:1|d:65535"};
const std::vector<std::string> BADM = {"", "|", "n1:7777", "n1|", "n1:x|", "n1:7777|n2", "n1:7777||", "n1:7777,|", "n1:99999999999|", ",|", "n1:7777|,"};
std::string fault1(Rng& r) {
  double x = r.unit();
  if (x < 0.4) return "none 0";
  if (x < 0.65) return fmt("kill %d", (int)r.range(1, 12));
  if (x < 0.85) return fmt("power %d", (int)r.range(1, 12));
  return fmt("err %d %s", (int)r.range(1, 3), r.chance(0.5) ? "write" : r.chance(0.5) ? "sync" : "dbread");
}
void genRec(Plan& p, Rng& r) {
  p.knob("restore", r.chance(0.4));
  p.knob("sched.mean", r.pick(std::vector<double>{100, 300, 1000, 3000}));
  if (p.get("restore", 0)) {
    p.knob("nodes", r.pick(std::vector<double>{1, 1, 3, 3, 2}));
    p.knob("live", r.chance(0.5));
    p.knob("net.resolvefail", 0);
    int n = (int)p.get("nodes", 1);
    p.knob("before", r.range(1, 60));
    p.knob("members", r.chance(0.4));
    p.knob("checkpoint", r.chance(0.7));
    p.knob("from", r.range(1, n));
    p.knob("target", r.range(1, 5));
    p.knob("mine", r.below(3));       // new members: the node alone, with an observer, the same address under a new name
    p.knob("grow", r.chance(0.6));
    p.knob("delay", r.range(0, 300));
    int k = (int)r.range(1, 4);
    for (int i = 0; i < k; i++) p.add("try", splitWs(i + 1 == k ? "none 0" : fault1(r)));
    return;
  }
  p.knob("sm", r.chance(0.4));
  p.knob("records", r.range(0, 60));
  p.knob("clean", r.chance(0.7));
  p.knob("ops", r.range(5, 60));
  int ops = (int)p.get("ops", 30);
  bool sm = p.get("sm", 0);
  std::vector<std::string> keys = {"k1", "k2", "E", std::string("E") + be64(1), std::string("E") + be64(5), "a b", std::string("x\0y", 3), "!k0", "z\r\n", "~"};
  auto key = [&]() -> std::string { return r.chance(0.35) ? r.pick(magic()) : r.pick(keys); };
  auto val = [&]() -> std::string { switch (r.below(5)) { case 0: return ""; case 1: return be64(r.below(1000)); case 2: return std::string(r.range(1, 3000), 'v'); case 3: return "v\r\n\"q"; default: return "v" + S((long long)r.below(1000)); } };
  for (int i = 0; i < ops; i++) {
    double x = r.unit();
    if (x < 0.25) p.add("op", {"RECOVERY_SET", key(), val()});
    else if (x < 0.4) p.add("op", {"RECOVERY_GET", key()});
    else if (x < 0.52) p.add("op", {r.chance(0.5) ? "RECOVERY_DEL" : "recovery-del", key()});
    else if (x < 0.57) p.add("op", {"RECOVERY_INFO"});
    else if (x < 0.64) p.add("scan", {S((long long)r.range(1, 9))});
    else if (x < 0.68) p.add("op", {"RECOVERY_GET_ALL_VERSIONS", key()});
    else if (x < 0.75) p.add("op", {"RECOVERY_FORCE_RECONFIGURE_JOURNAL", r.chance(0.6) ? r.pick(GOODM) : r.pick(BADM), r.chance(0.15) ? "old-cluster" : "cluster-" + S((long long)r.below(3))});
    else if (x < 0.8) p.add("op", r.pick(std::vector<Cmd>{{"SET", "a", "b"}, {"GET", "k1"}, {"PING"}, {"HSET", "a", "b", "c"}, {"RAFT_INFO"}, {"nonsense"}, {"FLUSHALL"}, {"CONVERT_INT_TO_STRING", "77"}, {"CONVERT_STRING_TO_INT", be64(77)}, {"CONVERT_STRING_TO_INT", "7"}, {"CONVERT_INT_TO_STRING", "x"}}));
    else if (x < 0.84) p.add("op", r.pick(std::vector<Cmd>{{"RECOVERY_SET", "k1"}, {"RECOVERY_GET"}, {"RECOVERY_DEL", "k1", "k2"}, {"RECOVERY_SCAN"}, {"RECOVERY_SCAN", "5"}, {"RECOVERY_SCAN", "0", "COUNT"}, {"RECOVERY_SCAN", "0", "COUNT", "0"}, {"RECOVERY_SCAN", "0", "MATCH", "a"}, {"RECOVERY_INFO", "x"}, {"RECOVERY_FORCE_RECONFIGURE_JOURNAL", "n1:7777|"}, {"RECOVERY_GET_ALL_VERSIONS"}}));
    else if (x < 0.88) p.add("multi", {S((long long)r.range(1, 4))});
    else if (x < 0.92) p.add("restart", {r.chance(0.3) ? "kill" : r.chance(0.4) ? "power" : "clean"});
    else if (x < 0.95) p.add("oneoff", {});
    else if (x < 0.96) p.add("missing", {S((long long)r.below(2))});
    else p.add("fault", splitWs(fault1(r)));
  }
  (void)sm;
}
struct Rec {
  const Plan& plan;
  explicit Rec(const Plan& p) : plan(p) {}
  // ------------------------------------------------------------------ raw edits
  std::string db; KV M;
  bool up = false, stopReq = false, oneoff = false, fired = false, crash = false; long left = 0;
  Conn c;
  KV raw(const std::string& path) { KV k; std::string e; if (!rocksdb::simDump(path, &k, &e)) violation("database-damaged", "the database does not open any more: " + e); return k; }
  std::string diff(const KV& a, const KV& b) {
    for (auto& k : b) { auto it = a.find(k.first); if (it == a.end()) return "key " + escape(k.first).substr(0, 60) + " is missing"; if (it->second != k.second) return "key " + escape(k.first).substr(0, 60) + " is " + escape(it->second).substr(0, 60) + " instead of " + escape(k.second).substr(0, 60); }
    for (auto& k : a) if (!b.count(k.first)) return "key " + escape(k.first).substr(0, 60) + " should not be there";
    return "";
  }
  void startRec() {
    if (up) return;
    startNode(1);
    stopReq = false;
    std::string path = db;
    Rec* me = this;
    spawn([me, path] {
      std::unique_ptr<quarkdb::RecoveryRunner> rr(new quarkdb::RecoveryRunner(path, 7777));
      me->up = true; wakeAll(&me->up);
      while (!me->stopReq) blockOn(&me->stopReq, now() + 10 * SEC);
      rr.reset();
      me->up = false; wakeAll(&me->up);
    }, "recovery", 1);
    Time dl = now() + 30 * SEC;
    while (!up) { if (!node(1).alive || now() > dl) violation("recovery-not-starting", "the recovery server does not start: " + node(1).deathReason); blockOn(&up, now() + 50 * MS); }
  }
  void stopRec() {
    c.close();
    if (!up) return;
    stopReq = true; wakeAll(&stopReq);
    Time dl = now() + 60 * SEC;
    while (up && node(1).alive) { if (now() > dl) violation("recovery-not-stopping", "the recovery server does not stop"); blockOn(&up, now() + 50 * MS); }
    if (!node(1).alive) violation("node-died", "the recovery server dies while stopping: " + node(1).deathReason);
    sleepFor(MS);
    stopNode(1);
  }
  void clearFault() { vfs::g_fault = nullptr; disarmCrash(1); fired = crash = false; }
  void arm(const Cmd& a) {
    clearFault();
    long n = a.size() > 1 ? atol(a[1].c_str()) : 0;
    if (a[0] == "kill" || a[0] == "power") { crash = true; countFault(a[0] == "power" ? "power loss at io point" : "process kill at io point"); armCrash(1, (uint64_t)n, a[0] == "power"); }
    else if (a[0] == "err" && a.size() > 2) {
      left = n; std::string op = a[2];
      vfs::g_fault = [this, op](int nd, const char* o, const std::string&) -> int { if (nd != 1 || fired || op != o) return 0; if (--left > 0) return 0; fired = true; countFault("disk error"); return EIO; };
    }
  }
  // after the server is gone: what is stored must be what was acknowledged, or with the last request as well
  void settle(const KV* alt, const char* when) {
    up = false; c.close();
    clearFault();
    KV r = raw(db);
    std::string d = diff(r, M);
    if (d.empty()) return;
    if (alt) { std::string d2 = diff(r, *alt); if (d2.empty()) { M = r; countProbe("unacknowledged edit kept"); return; } d += "; and as if the last request was executed: " + d2; }
    violation("edit-lost", std::string(when) + ": " + d);
  }
  bool members(const std::string& s) {
    static const std::set<std::string> good(GOODM.begin(), GOODM.end());
    return good.count(s) > 0;
  }
  // expected effect and reply; "" kind: any error
  struct Want { char t = '-'; Reply r; bool exact = false; bool anyValue = false; };
  Want model(const Cmd& q, KV& n) {
    Want w;
    std::string cmd = q[0];
    for (auto& ch : cmd) { ch = (char)toupper(ch); if (ch == '-') ch = '_'; }
    auto exact = [&](const Reply& r) { w.t = r.t; w.r = r; w.exact = true; };
    if (cmd == "RECOVERY_GET" && q.size() == 2) { auto it = n.find(q[1]); if (it != n.end()) exact(rStr(it->second)); }
    else if (cmd == "RECOVERY_SET" && q.size() == 3) { n[q[1]] = q[2]; exact(rOk()); }
    else if (cmd == "RECOVERY_DEL" && q.size() == 2) { if (n.erase(q[1])) exact(rOk()); }
    else if (cmd == "RECOVERY_INFO" && q.size() == 1) {
      std::vector<std::string> v;
      for (auto& k : magic()) { auto it = n.find(k); if (it != n.end()) { v.push_back(k); v.push_back(it->second); } else v.push_back(k + ": NotFound: "); }
      exact(rStrs(v));
    }
    else if (cmd == "RECOVERY_FORCE_RECONFIGURE_JOURNAL" && q.size() == 3) {
      auto it = n.find(CID);
      if (!members(q[1]) || it == n.end() || it->second == q[2]) return w;
      n[CID] = q[2]; n[MEM] = q[1]; n[EPO] = be64(0); n.erase(PMEM); n.erase(PEPO);
      exact(rOk());
    }
    else if (cmd == "RECOVERY_GET_ALL_VERSIONS" && q.size() == 2) { w.t = '*'; w.anyValue = true; }
    else if (cmd == "CONVERT_INT_TO_STRING" && q.size() == 2 && q[1] == "77") { w.t = '*'; w.anyValue = true; }
    else if (cmd == "CONVERT_STRING_TO_INT" && q.size() == 2 && q[1].size() == 8) exact(rArr({rStatus("Interpreted as int64_t: 77"), rStatus("Interpreted as uint64_t: 77")}));
    return w;
  }
  void check(const Cmd& q, const Want& w, const Reply& r, const KV& n) {
    if (w.exact ? r != w.r : r.t != w.t) violation("wrong-reply", "recovery: " + show(q) + " answered " + r.str() + (w.exact ? ", expected " + w.r.str() : w.t == '-' ? ", expected an error" : ""));
    if (w.anyValue && q[0] == "RECOVERY_GET_ALL_VERSIONS") {
      if (r.k.size() % 4) violation("wrong-reply", "versions: " + r.str());
      auto it = n.find(q[1]);
      bool del = r.k.empty() || r.k[3].s != "TYPE: 1";
      if (!r.k.empty() && r.k[0].s != "KEY: " + q[1]) violation("wrong-reply", "versions of another key: " + r.str());
      if (del != (it == n.end()) || (!del && r.k[1].s != "VALUE: " + it->second)) violation("wrong-reply", "the newest version of " + escape(q[1]) + " is not the current value: " + r.str());
      long long last = -1;
      for (size_t i = 0; i < r.k.size(); i += 4) { long long s = atoll(r.k[i + 2].s.c_str() + 10); if (last >= 0 && s >= last) violation("wrong-reply", "versions are not in descending order: " + r.str()); last = s; }
    }
  }
  bool conn() { return (c.ep && !c.broken) || c.open("n1", 7777, 5 * SEC); }
  // false: the server died
  bool call(Cmd q) {
    if (!oneoff) for (auto& x : q) if (x.empty()) x = "-"; // the request parser refuses empty arguments
    KV n = M;
    Want w = model(q, n);
    Reply r;
    bool got;
    if (oneoff) {
      c.close();
      if (up) stopRec();
      startNode(1);
      std::string enc; bool threw = false;
      got = onNode(1, [&] { quarkdb::RedisRequest rq; for (auto& x : q) rq.push_back(x); try { enc = quarkdb::RecoveryRunner::issueOneOffCommand(db, rq).val; } catch (quarkdb::FatalException&) { threw = true; } }, "oneoff");
      if (got && threw) { killNode(1, false); got = false; }
      if (got) { sleepFor(MS); stopNode(1); size_t o = 0; std::unique_ptr<redisReply> rp; if (qclient::parseReply(enc, o, rp) != 1 || o != enc.size()) violation("wrong-reply", "no valid reply to a one-off " + show(q)); rp->seal(); r = convert(rp.get()); countProbe("one-off command"); }
    } else {
      if (!conn()) { if (node(1).alive) violation("no-reply", "cannot connect to the recovery server"); got = false; }
      else got = c.call(q, r, 20 * SEC);
      if (!got && node(1).alive) violation("no-reply", "the recovery server does not answer " + show(q));
    }
    if (!got) {
      if (!crash && !fired) violation("node-died", "the recovery server dies on " + show(q) + ": " + node(1).deathReason);
      bool pw = crash;
      settle(&n, "after a crash");
      countProbe(pw ? "crash during an edit" : "failed edit ends the server");
      return false;
    }
    if (fired && r.err() && w.t != '-') { // the failure was reported; the database may need to be opened again
      if (!oneoff) { killNode(1, false); }
      settle(&n, "after a reported failure"); countProbe("failure reported"); return false;
    }
    if (fired && q[0] == "RECOVERY_INFO") { countProbe("failure shown"); return true; } // a value which could not be read is shown as such
    check(q, w, r, n);
    M = n;
    countProbe(w.t == '-' ? "refused" : "edit or query answered");
    return true;
  }
  void scanAll(int count) {
    std::string cur = "0"; std::vector<std::pair<std::string, std::string>> got; std::string lastK; bool any = false;
    for (int g = 0;; g++) {
      if (g > 2000) violation("scan-endless", "a scan of the raw keys does not end");
      Reply r;
      if (!conn() || !c.call({"RECOVERY_SCAN", cur, "COUNT", S(count)}, r, 20 * SEC)) { if (node(1).alive || (!crash && !fired)) violation("no-reply", "no reply to RECOVERY_SCAN"); settle(nullptr, "after a crash"); return; }
      if (r.err() && fired) { killNode(1, false); settle(nullptr, "after a reported failure"); return; }
      if (r.t != '*' || r.k.size() != 2 || r.k[1].k.size() % 3 || r.k[1].k.size() / 3 > (size_t)count) violation("wrong-reply", "RECOVERY_SCAN answered " + r.str());
      for (size_t i = 0; i < r.k[1].k.size(); i += 3) {
        std::string ty = r.k[1].k[i].s, k = r.k[1].k[i + 1].s.substr(5), v = r.k[1].k[i + 2].s.substr(7);
        if (any && k <= lastK) violation("wrong-reply", "raw keys are not in order, or repeated: " + escape(k));
        lastK = k; any = true;
        if (ty.find("elet") == std::string::npos) got.push_back({k, v});
      }
      cur = r.k[0].s;
      if (cur == "0") break;
    }
    KV m(got.begin(), got.end());
    std::string d = diff(m, M);
    if (!d.empty()) violation("wrong-reply", "a scan of all raw keys: " + d);
    countProbe("complete raw scan");
  }
  void edits() {
    Server s; s.id = 1;
    if (!s.bootstrap("old-cluster", {"n1:7777"})) violation("bootstrap-failed", "creating the database failed without any fault");
    s.start();
    if (!s.waitUp(60 * SEC)) violation("not-starting", "node does not start");
    int n = (int)plan.get("records", 10);
    Time dl = now() + 120 * SEC;
    for (int i = 0; i < n && now() < dl;) { Conn k; Reply r; if (k.open("n1", 7777)) { while (i < n && k.call({"SET", "rec" + S(i % 20), S(i)}, r) && !r.err()) i++; } if (i < n) sleepFor(300 * MS); }
    { // recovery commands are for the recovery server only
      Conn k; Reply r;
      for (auto& q : std::vector<Cmd>{{"RECOVERY_SET", "refused-key", "x"}, {"RECOVERY_DEL", "__format"}, {"RECOVERY_GET", CID}, {"RECOVERY_SCAN", "0"}, {"RECOVERY_INFO"}, {"RECOVERY_FORCE_RECONFIGURE_JOURNAL", "n9:7777|", "other"}, {"RECOVERY_GET_ALL_VERSIONS", CID}})
        if ((k.ep && !k.broken) || k.open("n1", 7777)) if (k.call(q, r) && !r.err()) violation("not-refused", "a node which is not in recovery mode answered " + show(q) + " with " + r.str());
    }
    if (plan.get("clean", 1)) s.stop(); else s.kill(false);
    db = s.dbPath() + "/current/" + (plan.get("sm", 0) ? "state-machine" : "raft-journal");
    M = raw(db);
    if (M.count("refused-key") || (!plan.get("sm", 0) && (M[CID] != "old-cluster" || M[MEM] != "n1:7777|")) || (plan.get("sm", 0) && !M.count("__format"))) violation("not-refused", "a refused recovery command changed the database");
    startRec();
    for (auto& l : plan.lines) {
      const Cmd& a = l.a;
      if (!node(1).alive || (!up && !oneoff)) { if (!node(1).alive) up = false; clearFault(); startRec(); }
      if (l.kind == "op") { if (!a.empty()) call(a); }
      else if (l.kind == "scan") { if (!oneoff) scanAll(std::max(1, atoi(a[0].c_str()))); }
      else if (l.kind == "fault") {
        if (fired && !oneoff) { killNode(1, false); settle(nullptr, "after a failure"); startRec(); } // a database which met an error refuses writes until reopened
        arm(a);
      }
      else if (l.kind == "oneoff") { if (fired && up) { killNode(1, false); settle(nullptr, "after a failure"); } oneoff = !oneoff; if (!oneoff) { clearFault(); startRec(); } }
      else if (l.kind == "missing") { // a path which holds no database: refused, and nothing appears there
        c.close(); if (up) { if (crash || fired) continue; stopRec(); }
        clearFault(); startNode(1);
        bool threw = false; std::string path = a[0] == "1" ? s.dbPath() + "/nowhere" : db + "-x";
        bool fin = onNode(1, [&] { quarkdb::RedisRequest rq; rq.push_back("RECOVERY_SET"); rq.push_back("k"); rq.push_back("v"); try { quarkdb::RecoveryRunner::issueOneOffCommand(path, rq); } catch (quarkdb::FatalException&) { threw = true; } }, "oneoff");
        std::string e; KV k;
        if (!fin || !threw || rocksdb::simDump(path, &k, &e)) violation("wrong-database", "an edit of a database which does not exist was accepted, or created one");
        killNode(1, false);
        countProbe("missing database refused");
      }
      else if (l.kind == "multi") {
        if (oneoff) continue;
        // a transaction of ordinary commands: refused, with as many replies as it has
        Conn k; Reply r; int m = atoi(a[0].c_str()); std::string d = encodeRequest({"MULTI"});
        if (!k.open("n1", 7777, 5 * SEC)) continue;
        for (int i = 0; i < m; i++) d += encodeRequest({"SET", "t" + S(i), "x"});
        d += encodeRequest({"EXEC"}) + encodeRequest({"RECOVERY_GET", "nosuchkey"});
        k.sendRaw(d);
        std::vector<Reply> v; Time e = now() + 20 * SEC;
        while ((int)v.size() < m + 3 && k.read(r, v.size() < (size_t)m + 2 ? e : now() + 3 * SEC) == 1) v.push_back(r);
        if (!node(1).alive) { if (!crash && !fired) violation("node-died", "the recovery server dies on a transaction: " + node(1).deathReason); settle(nullptr, "after a crash"); continue; }
        if (v.size() < 2 || v[v.size() - 1].t != '-') violation("wrong-reply", fmt("%zu replies to a transaction of %d", v.size(), m));
        for (size_t i = (size_t)m + 1; i < v.size(); i++) if (!v[i].err()) violation("wrong-reply", "a transaction in recovery mode answered " + v[i].str());
        countProbe("transaction refused");
      }
      else if (l.kind == "restart") {
        if (oneoff) continue;
        if (a[0] == "clean") { if (crash || fired) continue; stopRec(); settle(nullptr, "after a restart"); }
        else { killNode(1, a[0] == "power"); settle(nullptr, a[0] == "power" ? "after a power loss" : "after the server was killed"); }
        startRec();
      }
    }
    clearFault();
    if (up) stopRec();
    settle(nullptr, "at the end");
  }
  // ------------------------------------------------------------------ a new cluster out of an old one
  std::vector<Server> sv; int n = 1;
  std::vector<int> val;   // value i was written to key i % 17 by write i
  size_t acked = 0; bool stopW = false;
  bool leaderCall(const Cmd& q, Reply& r, int lo, int hi, Time limit) {
    Time dl = now() + limit; int k = lo;
    while (now() < dl) {
      Conn c; bool moved = false;
      if (node(k).alive && c.open(fmt("n%d", k), 7777, 3 * SEC) && c.call(q, r, 10 * SEC)) {
        if (!r.err()) return true;
        if (r.s.compare(0, 6, "MOVED ") == 0) { size_t p = r.s.rfind(" n"); int m = p == std::string::npos ? 0 : atoi(r.s.c_str() + p + 2); if (m >= lo && m <= hi) { k = m; moved = true; } else if (m) violation("wrong-cluster", fmt("node n%d redirects to n%d of another cluster", k, m)); }
      }
      if (!moved) k = k >= hi ? lo : k + 1;
      sleepFor((moved ? 50 : 300) * MS);
    }
    return false;
  }
  void writer() {
    while (!stopW) {
      size_t i = acked; Reply r;
      if (leaderCall({"SET", "key" + S((long long)(i % 17)), S((long long)i)}, r, 1, n, 5 * SEC)) acked++;
      else sleepFor(100 * MS);
      sleepFor(20 * MS);
    }
  }
  std::string info(int k, const std::string& key) {
    Conn c; Reply r;
    if (!c.open(fmt("n%d", k), 7777, 3 * SEC) || !c.call({"RAFT_INFO"}, r, 10 * SEC)) return "?";
    for (auto& l : r.k) if (l.s.compare(0, key.size() + 1, key + " ") == 0) return l.s.substr(key.size() + 1);
    return "";
  }
  // which prefix of the history the contents correspond to; nodes lo..hi
  size_t prefix(int lo, int hi, size_t min, size_t max, const char* when) {
    std::vector<std::string> got(17);
    for (int i = 0; i < 17; i++) {
      Reply r;
      if (!leaderCall({"GET", "key" + S(i)}, r, lo, hi, 120 * SEC)) violation("not-serving", std::string(when) + ": the new cluster does not serve");
      got[(size_t)i] = r.t == '$' ? r.s : "";
    }
    long long top = -1;
    for (auto& g : got) if (!g.empty()) top = std::max(top, atoll(g.c_str()));
    for (int i = 0; i < 17; i++) {
      long long want = -1;
      for (long long v = top; v >= 0 && v > top - 17; v--) if (v % 17 == i) want = v;
      if (got[(size_t)i] != (want < 0 ? "" : S(want))) violation("contents", fmt("%s: key%d is '%s', the newest write found is number %lld", when, i, got[(size_t)i].c_str(), top));
    }
    if (top + 1 < (long long)min || top + 1 > (long long)max) violation("contents", fmt("%s: contains %lld writes, expected %zu to %zu", when, top + 1, min, max));
    return (size_t)(top + 1);
  }
  void restore() {
    n = (int)plan.get("nodes", 1);
    bool live = plan.get("live", 0), cp = plan.get("checkpoint", 0);
    int from = (int)plan.get("from", 1), x = (int)plan.get("target", 5);
    if (from > n) from = n;
    if (live && x <= n) x = 5;
    sv.resize(8);
    std::vector<std::string> mem;
    for (int i = 1; i <= n; i++) mem.push_back(fmt("n%d:7777", i));
    for (int i = 1; i <= 7; i++) sv[(size_t)i].id = i;
    for (int i = 1; i <= n; i++) if (!sv[(size_t)i].bootstrap("old-cluster", mem)) violation("bootstrap-failed", "creating the database failed without any fault");
    for (int i = 1; i <= n; i++) { sv[(size_t)i].start(); if (!sv[(size_t)i].waitUp(60 * SEC)) violation("not-starting", "node does not start"); }
    Fiber* w = spawn([this] { writer(); }, "writer", 0);
    Time dl = now() + 120 * SEC;
    while (acked < (size_t)plan.get("before", 10) && now() < dl) sleepFor(20 * MS);
    Reply r;
    if (plan.get("members", 0)) { leaderCall({"RAFT_ADD_OBSERVER", "n7:7777"}, r, 1, n, 20 * SEC); sleepFor((Time)plan.get("delay", 0) * MS); if (plan.get("delay", 0) > 150) leaderCall({"RAFT_REMOVE_MEMBER", "n7:7777"}, r, 1, n, 20 * SEC); }
    size_t min = 0;
    std::string src;
    if (cp) {
      // what was acknowledged before must be in it when it is taken from the leader (or from the only node)
      bool lead = info(from, "STATUS") == "LEADER" && n == 1;
      size_t a0 = acked;
      Conn c; src = fmt("/vfs/n%d/backup", from);
      if (!c.open(fmt("n%d", from), 7777, 5 * SEC) || !c.call({"QUARKDB_CHECKPOINT", src}, r, 60 * SEC) || r != rOk()) violation("checkpoint-failed", "checkpoint of a healthy node: " + r.str());
      if (lead) min = a0;
      if (!live) { stopW = true; joinFiber(w); for (int i = 1; i <= n; i++) sv[(size_t)i].kill(false); }
    } else {
      if (live) sleepFor(50 * MS);
      stopW = true; joinFiber(w);
      size_t a0 = acked;
      for (int i = 1; i <= n; i++) if (n == 1) { if (!sv[(size_t)i].stop()) violation("not-stopping", "a clean shutdown fails"); } else sv[(size_t)i].kill(false);
      live = false;
      src = sv[(size_t)from].dbPath();
      if (n == 1) min = a0;
    }
    // a copy of the database on the machine of the new cluster
    if (!vfs::exists(fmt("/vfs/n%d", x))) vfs::mkdirs(fmt("/vfs/n%d", x), x + 1);
    std::string dst = sv[(size_t)x].dbPath();
    if (src != dst) { std::string tmp = fmt("/vfs/n%d/incoming", x); vfs::removeTree(tmp); if (!vfs::copyTree(src, tmp)) violation("checkpoint-failed", "nothing at " + src); vfs::removeTree(dst); vfs::renameTo(tmp, dst); }
    vfs::writebackTree(dst);
    std::string jp = dst + "/current/raft-journal", me = fmt("n%d:7777", x), obs = x == 6 ? "n7:7777" : "n6:7777";
    int kind = (int)plan.get("mine", 0);
    std::string mm = me + "|" + (kind == 1 ? obs : "");
    KV old = raw(jp), want = old;
    want[CID] = "new-cluster"; want[MEM] = mm; want[EPO] = be64(0); want.erase(PMEM); want.erase(PEPO);
    bool done = false;
    std::vector<Line> tries = plan.lines; tries.push_back({"try", {"none", "0"}});
    for (auto& l : tries) {
      if (l.kind != "try" || done) continue;
      startNode(x);
      clearFault();
      const Cmd& a = l.a; long nn = a.size() > 1 ? atol(a[1].c_str()) : 0;
      bool armed = false; fired = false;
      if (a[0] == "kill" || a[0] == "power") { armed = true; countFault(a[0] == "power" ? "power loss at io point" : "process kill at io point"); armCrash(x, (uint64_t)nn, a[0] == "power"); }
      else if (a[0] == "err" && a.size() > 2) { left = nn; std::string op = a[2]; vfs::g_fault = [this, op, x](int nd, const char* o, const std::string&) -> int { if (nd != x || fired || op != o) return 0; if (--left > 0) return 0; fired = true; countFault("disk error"); return EIO; }; }
      std::string enc; bool threw = false;
      bool fin = onNode(x, [&] { quarkdb::RedisRequest rq{"recovery-force-reconfigure-journal", mm, "new-cluster"}; try { enc = quarkdb::RecoveryRunner::issueOneOffCommand(jp, rq).val; } catch (quarkdb::FatalException&) { threw = true; } }, "reconfigure");
      bool ok = fin && !threw && enc == "+OK\r\n";
      if (fin && threw) killNode(x, false);
      disarmCrash(x); vfs::g_fault = nullptr;
      if (node(x).alive) { sleepFor(MS); if (armed && ok && a[0] == "power") killNode(x, true); else stopNode(x); }
      if (!ok && !armed && !fired) violation("reconfigure-refused", "forced reconfiguration of an intact journal: " + (fin ? escape(enc) : node(x).deathReason));
      KV now_ = raw(jp);
      std::string d1 = diff(now_, old), d2 = diff(now_, want);
      if (ok && !d2.empty()) violation("reconfigure", "acknowledged, but " + d2);
      if (!d1.empty() && !d2.empty()) violation("reconfigure-torn", "after an interrupted forced reconfiguration the journal is neither as before (" + d1 + ") nor reconfigured (" + d2 + ")");
      done = d2.empty();
      countProbe(ok ? "reconfigured" : done ? "interrupted after taking effect" : "interrupted without effect");
    }
    clearFault();
    if (!done) harnessError("never reconfigured");
    // repeating it is refused: the cluster id would not change
    sv[(size_t)x].mode = "raft"; sv[(size_t)x].writeConf();
    sv[(size_t)x].start();
    if (!sv[(size_t)x].waitUp(60 * SEC)) violation("not-starting", "the reconfigured node does not start: " + node(x).deathReason);
    size_t max = acked + (live ? 100000 : 1);
    size_t got = prefix(x, x, min, max, "after restoring");
    if (live) max = got;
    if (info(x, "CLUSTER-ID") != "new-cluster" || info(x, "NODES") != me) violation("wrong-cluster", "started as " + info(x, "CLUSTER-ID") + " with " + info(x, "NODES"));
    if (info(x, "OBSERVERS") != (kind == 1 ? obs : "")) violation("wrong-cluster", "started with observers " + info(x, "OBSERVERS"));
    countProbe("new cluster serves");
    int hi = x;
    if (plan.get("grow", 0)) {
      int y = obs == "n7:7777" ? 7 : 6;
      if (!sv[(size_t)y].bootstrap("new-cluster", {"LIMBO"})) violation("bootstrap-failed", "creating the database failed without any fault");
      sv[(size_t)y].start();
      if (!sv[(size_t)y].waitUp(60 * SEC)) violation("not-starting", "the new member does not start");
      if (kind != 1 && !leaderCall({"RAFT_ADD_OBSERVER", obs}, r, x, x, 60 * SEC)) violation("not-serving", "cannot add an observer to the new cluster: " + r.str());
      Time e = now() + 180 * SEC;
      while (!leaderCall({"RAFT_PROMOTE_OBSERVER", obs}, r, x, x, 5 * SEC)) if (now() > e) violation("not-serving", "cannot promote the observer: " + r.str());
      hi = y;
      e = now() + 60 * SEC;
      while (info(y, "LOG-SIZE") != info(x, "LOG-SIZE") || info(y, "LAST-APPLIED") != info(x, "LAST-APPLIED")) { if (now() > e) violation("not-serving", "the new member does not catch up: " + info(y, "LOG-SIZE") + " of " + info(x, "LOG-SIZE")); sleepFor(500 * MS); }
      Conn c; if (!c.open(fmt("n%d", y), 7777) || !c.call({"ACTIVATE_STALE_READS"}, r)) violation("not-serving", "new member");
      for (int i = 0; i < 17; i++) { Reply r1, r2; if (!leaderCall({"GET", "key" + S(i)}, r1, x, y, 60 * SEC) || !c.call({"GET", "key" + S(i)}, r2) || r1 != r2) violation("contents", fmt("key%d: %s on the leader of the new cluster, %s on its new member", i, r1.str().c_str(), r2.str().c_str())); }
      countProbe("new cluster grown");
    }
    if (!leaderCall({"SET", "after", "restore"}, r, x, hi > x ? hi : x, 60 * SEC)) violation("not-serving", "the new cluster does not accept writes: " + r.str());
    prefix(x, hi, got, got, "after more writes");
    if (live) {
      stopW = true; joinFiber(w);
      prefix(1, n, acked, acked + 1, "the old cluster");
      if (leaderCall({"GET", "after"}, r, 1, n, 60 * SEC) && r.t != 'n') violation("wrong-cluster", "the old cluster has received writes of the new one");
      if (info(1, "CLUSTER-ID") != "old-cluster") violation("wrong-cluster", "the old cluster is now " + info(1, "CLUSTER-ID"));
      countProbe("old cluster unaffected");
    }
    for (int i = 1; i <= 7; i++) if (sv[(size_t)i].up && !node(i).alive) violation("node-died", fmt("node %d died: %s", i, node(i).deathReason.c_str()));
  }
  void run() {
    // a recovery server may give up when the storage fails; a node of the cluster may not
    for (int i = 0; i < 10; i++) g_abortAllowed[i] = true;
    if (plan.get("restore", 0)) restore(); else edits();
  }
};
void runRec(const Plan& p) { Rec x(p); x.run(); }
Reg reg("recovery", genRec, runRec);
}
