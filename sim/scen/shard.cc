// Database directories: creation, snapshots, checkpoints, replacement by a copied snapshot, reopening; with a failing,
// short or crashing file operation at any point, and concurrent writers.
#include "scen.hh"
#include "ShardDirectory.hh"
#include "StateMachine.hh"
#include "raft/RaftJournal.hh"
#include "utils/FileUtils.hh"
#include <algorithm>
#include <cstring>
using namespace scen;
using namespace sim;
using quarkdb::ShardDirectory; using quarkdb::ShardSnapshot; using quarkdb::StateMachine; using quarkdb::RaftJournal;
using quarkdb::RaftEntry; using quarkdb::RaftServer; using quarkdb::FsyncPolicy;
namespace {
typedef int64_t I;
typedef std::map<std::string, std::string> KV;
RaftServer srv(const std::string& s) { RaftServer r; quarkdb::parseServer(s, r); return r; }
struct Op { I term; std::string k, v; bool operator==(const Op& o) const { return term == o.term && k == o.k && v == o.v; } };
// what a directory should contain
struct Mod {
  bool raft = true;
  I start = 0;                 // index of the first log entry; contents before it: base
  KV base;
  std::vector<Op> ops;         // log entries start+1, start+2, ...
  I acked = 0;                 // as many of them are certainly there
  I term = 0;
  std::string vote, cluster, members;
  std::vector<std::string> events;
  I baseApplied = 0;           // last applied index of the base contents
  I size() const { return start + 1 + (I)ops.size(); }
  KV at(I applied) const { KV m = base; for (I i = 0; i < (I)ops.size() && start + 1 + i <= applied; i++) { if (ops[i].v.empty()) m.erase(ops[i].k); else m[ops[i].k] = ops[i].v; } return m; }
};
struct Obs {
  std::string err;
  bool raft = false;
  I applied = 0, start = 0, size = 0, commit = 0, term = 0;
  std::string vote, cluster, members;
  KV kv;
  std::map<I, Op> log;
  std::string first;           // request of the first entry
  std::vector<std::string> events;
};
struct FaultArm {
  bool err = false, crash = false;
  long left = 0;
  std::string op; int eno = EIO;
  bool fired = false, shortFired = false;
  uint64_t fireAt = 0;
};
FaultArm F;
bool g_recent;  // the operation before met a failure
void clearFault() { g_recent = g_recent || F.fired || F.shortFired; F = FaultArm(); vfs::g_fault = nullptr; vfs::g_short = nullptr; disarmCrash(1); }
Cmd genFault(Rng& r, bool crashOk, bool powerOk) {
  double x = r.unit();
  if (x < 0.30) return {"none", "0", "", "0"};
  if (x < 0.52 && crashOk) return {powerOk && r.chance(0.4) ? "power" : "kill", std::to_string(r.chance(0.5) ? r.range(1, 12) : r.range(1, 90)), "", "0"};
  if (x < 0.62) return {"short", std::to_string(r.range(1, 12)), r.chance(0.7) ? "write" : "read", "0"};
  static const std::vector<std::string> ops = {"open", "write", "close", "read", "rename", "mkdir", "opendir", "readdir", "unlink", "stat", "link", "sync", "dbopen", "dbread"};
  static const std::vector<int> en = {EIO, ENOSPC, EACCES, EMFILE, EDQUOT};
  bool spec = r.chance(0.6);
  return {"err", std::to_string(spec ? r.range(1, 6) : r.range(1, 60)), spec ? ops[r.below(ops.size())] : "", std::to_string(en[r.below(en.size())])};
}
void genShard(Plan& p, Rng& r) {
  p.knob("crash", r.chance(0.75));
  p.knob("power", r.chance(0.4));
  p.knob("disk", r.chance(0.85));
  p.knob("space", r.chance(0.4));
  p.knob("start", r.chance(0.6) ? 0 : r.range(1, 300));
  p.knob("wsync", r.chance(0.3) ? 1 : 6);
  int n = (int)r.range(4, 24);
  p.knob("ops", n); n = (int)p.get("ops", n);
  auto R = [&](I a, I b) { return std::to_string(r.range(a, b)); };
  auto withFault = [&](Cmd c) { Cmd f = {"none", "0", "", "0"}; if (p.get("disk", 0) || p.get("crash", 0)) { f = genFault(r, p.get("crash", 0), p.get("power", 0)); if (!p.get("disk", 0) && (f[0] == "err" || f[0] == "short")) f = {"none", "0", "", "0"}; } for (auto& x : f) c.push_back(x); return c; };
  for (int i = 0; i < n; i++) {
    double x = r.unit();
    std::string side = r.chance(0.6) ? "s" : "t";
    if (x < 0.28) p.add("write", {side, R(1, 9), R(1, 1000000)});
    else if (x < 0.36) p.add("term", {side, R(0, 2), r.chance(0.5) ? "" : "n" + R(1, 3) + ":7777"});
    else if (x < 0.50) p.add("snap", withFault({side, r.chance(0.5) ? R(1, 12) : "0", R(1, 1000000)}));
    else if (x < 0.72) p.add("transfer", withFault({r.chance(0.7) ? "plain" : r.chance(0.5) ? "term" : "race", r.chance(0.4) ? R(1, 8) : "0", R(1, 1000000)}));
    else if (x < 0.84) { const char* w[] = {"new", "new", "new", "new", "exists", "otherdev", "noparent"}; p.add("checkpoint", withFault({side, w[r.below(7)], r.chance(0.4) ? R(1, 10) : "0", R(1, 1000000)})); }
    else if (x < 0.90) p.add("reopen", withFault({side}));
    else if (x < 0.93) p.add("bulk", withFault({R(0, 30), r.chance(0.8) ? "finalize" : "abandon", R(1, 1000000)}));
    else if (x < 0.98) { const char* w[] = {"raft", "raft", "standalone", "standalone", "exists"}; p.add("create", withFault({w[r.below(5)], r.chance(0.5) ? "seed" : "empty", r.chance(0.5) ? "0" : R(1, 400), R(1, 1000000)})); }
    else p.add("crash", {p.get("power", 0) && r.chance(0.5) ? "power" : "kill"});
  }
}
struct Side { std::string path; ShardDirectory* d = nullptr; Mod m; };
struct Shard {
  const Plan& plan;
  Rng rng;
  Side s, t;
  std::string area;
  int ctr = 0;
  bool everFault = false;
  Shard(const Plan& p) : plan(p), rng(subRng(p, "shard")) {}
  bool on(std::function<void()> f, const char* nm, int nd = 1) { return onNode(nd, std::move(f), nm); }
  Side& side(const std::string& x) { return x == "s" ? s : t; }
  void arm(const Cmd& a, size_t o) {
    clearFault();
    g_recent = false;
    const std::string& k = a[o];
    if (k == "none") return;
    everFault = true;
    long n = atol(a[o + 1].c_str());
    if (k == "kill" || k == "power") { F.crash = true; countFault(k == "power" ? "power loss at io point" : "process kill at io point"); armCrash(1, (uint64_t)n, k == "power"); return; }
    F.err = true; F.left = n; F.op = a[o + 2]; F.eno = atoi(a[o + 3].c_str());
    if (k == "short") {
      vfs::g_short = [](int nd, const char* op, const std::string&, size_t n) -> size_t {
        if (nd != 1 || F.op != op) return n;
        if (F.op == "read") { if (n > 1 && F.left-- > 0) { return n / 2 + 1; } return n; }   // allowed by the interface: nothing is wrong
        if (F.fired || --F.left > 0) return n;
        F.fired = true; return n / 2;
      };
      // a short write is followed by an error, as on a full disk
      vfs::g_fault = [](int nd, const char* op, const std::string&) -> int { return nd == 1 && F.fired && F.op == "write" && !strcmp(op, "write") && !F.shortFired ? (F.shortFired = true, ENOSPC) : 0; };
      return;
    }
    vfs::g_fault = [](int nd, const char* op, const std::string&) -> int {
      if (nd != 1 || F.fired || (!F.op.empty() && F.op != op)) return 0;
      if (--F.left > 0) return 0;
      F.fired = true; return F.eno;
    };
  }
  // ---- looking at a directory through the real code, on another machine (no faults there)
  typedef std::map<std::string, std::map<std::string, std::string>> Coll;   // first letter of the key: h(ash), s(et), l(ocality hash), d(eque)
  static void applyColl(StateMachine* sm, const std::string& k, const std::string& f, const std::string& v, Coll& c) {
    rocksdb::Status st; bool b; int64_t n;
    if (k[0] == 'h') st = sm->hset(k, f, v, b); else if (k[0] == 'l') st = sm->lhset(k, f, "hint" + f, v, b);
    else { quarkdb::RedisRequest r{"SADD", k, f}; st = sm->sadd(k, r.begin() + 2, r.end(), n); }
    if (!st.ok()) throw quarkdb::FatalException("write refused: " + st.ToString());
    c[k][f] = k[0] == 's' ? "" : v;
  }
  static std::string collDiffers(StateMachine* sm, const Coll& c) {
    for (auto& k : c) {
      size_t n = 0; std::vector<std::string> v;
      if (k.first[0] == 'h') { if (!sm->hlen(k.first, n).ok() || n != k.second.size()) return fmt("hash %s has %zu fields, expected %zu", k.first.c_str(), n, k.second.size()); for (auto& f : k.second) { std::string x; if (!sm->hget(k.first, f.first, x).ok() || x != f.second) return "field " + f.first + " of hash " + k.first + " is wrong"; } }
      else if (k.first[0] == 'l') { if (!sm->lhlen(k.first, n).ok() || n != k.second.size()) return fmt("locality hash %s has %zu fields, expected %zu", k.first.c_str(), n, k.second.size()); for (auto& f : k.second) { std::string x; if (!sm->lhget(k.first, f.first, "hint" + f.first, x).ok() || x != f.second) return "field " + f.first + " of locality hash " + k.first + " is wrong"; if (!sm->lhget(k.first, f.first, "", x).ok() || x != f.second) return "index of field " + f.first + " of locality hash " + k.first + " is wrong"; } }
      else { if (!sm->scard(k.first, n).ok() || n != k.second.size()) return fmt("set %s has %zu members, expected %zu", k.first.c_str(), n, k.second.size()); if (!sm->smembers(k.first, v).ok() || v.size() != n) return "members of set " + k.first; for (auto& x : v) if (!k.second.count(x)) return "set " + k.first + " has a wrong member"; }
    }
    return "";
  }
  Obs observe(const std::string& from, bool hasId = true, const Coll* coll = nullptr) {
    Obs o;
    std::string cp = fmt("/vfs/n2/copy%d", ++ctr);
    vfs::mkdirs("/vfs/n2", 2);
    if (hasId) { if (!vfs::copyTree(from, cp)) { o.err = "directory is missing"; return o; } }
    else {
      vfs::mkdirs(cp);
      if (!vfs::copyTree(from, cp + "/current")) { o.err = "directory is missing"; return o; }
      vfs::create(cp + "/SHARD-ID", "default"); vfs::create(cp + "/RESILVERING-HISTORY", "");
    }
    auto sf = vfs::g_fault; auto ss = vfs::g_short;
    bool alive = on([&] {
      try {
        ShardDirectory d(cp);
        StateMachine* sm = d.getStateMachine();
        o.applied = sm->getLastApplied();
        std::string cur = "0"; std::vector<std::string> ks;
        for (int g = 0; g < 1000; g++) {
          std::vector<std::string> v; std::string nx;
          if (!sm->scan(cur, "*", 100, nx, v).ok()) { o.err = "scan fails"; return; }
          for (auto& k : v) ks.push_back(k);
          if (nx.empty()) break;
          cur = nx;
        }
        if (coll) { o.err = collDiffers(sm, *coll); if (!o.err.empty()) return; }
        for (auto& k : ks) { std::string v; if (coll && k[0] != 'k' && coll->count(k)) continue; if (!sm->get(k, v).ok()) { o.err = "key " + k + " cannot be read"; return; } o.kv[k] = v; }
        for (size_t i = 0; i < d.getResilveringHistory().size(); i++) o.events.push_back(d.getResilveringHistory().at(i).getID());
        std::string e;
        if (d.hasRaftJournal(e)) {
          o.raft = true;
          RaftJournal* j = d.getRaftJournal();
          o.start = j->getLogStart(); o.size = j->getLogSize(); o.commit = j->getCommitIndex(); o.term = j->getCurrentTerm();
          o.vote = j->getVotedFor().empty() ? "" : j->getVotedFor().toString(); o.cluster = j->getClusterID(); { auto mm = j->getMembership(); for (auto& x : mm.nodes) o.members += (o.members.empty() ? "" : ",") + x.toString(); o.members += "|"; for (auto& x : mm.observers) o.members += x.toString() + ","; }
          for (I i = o.start; i < o.size; i++) {
            RaftEntry en;
            if (!j->fetch(i, en).ok()) { o.err = fmt("log entry %lld of %lld..%lld is missing", (long long)i, (long long)o.start, (long long)o.size - 1); return; }
            if (i == o.start) o.first = std::string(en.request[0]);
            else o.log[i] = Op{en.term, en.request.size() > 1 ? std::string(en.request[1]) : "", en.request.size() > 2 ? std::string(en.request[2]) : ""};
          }
        }
      } catch (quarkdb::FatalException& e) { o.err = std::string("opening throws: ") + e.what(); if (o.err.size() > 400) o.err.resize(400); }
    }, "observer", 2);
    if (!alive) { o.err = "opening it kills the process: " + node(2).deathReason; }
    (void)sf; (void)ss;
    vfs::removeTree(cp);
    return o;
  }
  // does the observation agree with the model? loose: the last operations of a writer may or may not be there
  std::string differs(const Obs& o, const Mod& m, bool snapshotOk = false, I minApplied = -1, bool history = true) {
    if (!o.err.empty()) return o.err;
    if (o.raft != m.raft) return m.raft ? "it has no raft journal" : "it has a raft journal";
    if (m.raft) {
      if (o.start != m.start) return fmt("log starts at %lld, expected %lld", (long long)o.start, (long long)m.start);
      if (o.size > m.size()) return fmt("log size is %lld, expected %lld", (long long)o.size, (long long)m.size());
      if (o.size < m.start + 1 + m.acked) return fmt("log size is %lld, %lld entries were written", (long long)o.size, (long long)(m.start + 1 + m.acked));
      for (auto& e : o.log) if (!(e.second == m.ops[e.first - m.start - 1])) return fmt("log entry %lld is (%lld %s), expected (%lld %s)", (long long)e.first, (long long)e.second.term, escape(e.second.k).c_str(), (long long)m.ops[e.first - m.start - 1].term, m.ops[e.first - m.start - 1].k.c_str());
      if (o.first != "JOURNAL_UPDATE_MEMBERS") return "the first log entry is " + o.first;
      if (o.term != m.term) return fmt("term is %lld, expected %lld", (long long)o.term, (long long)m.term);
      if (o.vote != m.vote) return "vote is '" + o.vote + "', expected '" + m.vote + "'";
      if (o.cluster != m.cluster) return "cluster id is " + o.cluster + ", expected " + m.cluster;
      if (o.members != m.members) return "members are " + o.members + ", expected " + m.members;
      if (o.applied > o.size - 1) return fmt("contents are at index %lld, the log ends at %lld", (long long)o.applied, (long long)o.size - 1);
    }
    if (minApplied >= 0 && o.applied < minApplied) return fmt("contents are at index %lld, they were at %lld", (long long)o.applied, (long long)minApplied);
    if (o.applied < (m.raft ? m.start : 0)) return fmt("contents are at index %lld, the log starts at %lld", (long long)o.applied, (long long)m.start);
    if (!m.raft && o.applied != 0) return fmt("contents of a new standalone directory are at index %lld", (long long)o.applied);
    KV want = m.at(m.raft ? o.applied : 0);
    if (o.kv != want) {
      for (auto& k : want) { auto it = o.kv.find(k.first); if (it == o.kv.end()) return fmt("key %s is missing (contents at %lld)", k.first.c_str(), (long long)o.applied); if (it->second != k.second) return fmt("key %s has another value (contents at %lld)", k.first.c_str(), (long long)o.applied); }
      for (auto& k : o.kv) if (!want.count(k.first)) return fmt("key %s should not be there (contents at %lld)", k.first.c_str(), (long long)o.applied);
    }
    if (history && o.events != m.events) return fmt("resilvering history has %zu events (last %s), expected %zu", o.events.size(), o.events.empty() ? "-" : o.events.back().c_str(), m.events.size());
    return "";
  }
  // ---- running code on the node
  // "": success, otherwise the reported error; died: the process is gone
  std::string run(const char* nm, bool& died, std::function<std::string()> f) {
    std::string res; bool threw = false;
    bool ok = on([&] { try { res = f(); } catch (quarkdb::FatalException& e) { threw = true; res = e.what(); } }, nm);
    died = false;
    if (!ok) { died = true; res = "process died: " + node(1).deathReason; countProbe("crash during an operation"); }
    else if (threw) { died = true; killNode(1, false); countProbe("the process gave up with an exception"); }
    return res;
  }
  bool faulted() { return F.fired || F.shortFired || F.crash; }
  void checkDeath(const char* what, const std::string& res) { if (!faulted()) violation("shard-op", std::string(what) + ": the process dies although nothing failed: " + res.substr(0, 300)); }
  // reopen both directories after a crash; alternatives: what an interrupted operation may have led to
  bool openSide(Side& sd, std::string& err) {
    bool died;
    err = run("open", died, [&]() -> std::string {
      sd.d = new ShardDirectory(sd.path);
      sd.d->getStateMachine(); sd.d->getRaftJournal();
      return "";
    });
    return !died;
  }
  void settle(Side& sd, std::vector<Mod> alts, const char* when, I minApplied) {
    Obs o = observe(sd.path);
    std::string d = differs(o, sd.m, false, minApplied), d2;
    if (d.empty()) {}
    else {
      bool found = false;
      for (auto& a : alts) { d2 = differs(o, a); if (d2.empty()) { sd.m = a; found = true; break; } }
      if (!found) violation("directory-contents", fmt("%s, %s directory: %s", when, &sd == &s ? "source" : "target", d.c_str()) + (alts.empty() ? "" : "; and against the new contents: " + d2));
    }
    sd.m.ops.resize((size_t)(o.size - sd.m.start - 1)); sd.m.acked = (I)sd.m.ops.size();
    stateSample(strHash(fmt("%lld %lld %lld %zu %zu", (long long)o.applied - o.start, (long long)o.size - o.start, (long long)o.term, o.kv.size(), o.events.size())));
  }
  void replay(Side& sd) {
    bool died;
    std::string e = run("replay", died, [&]() -> std::string {
      StateMachine* sm = sd.d->getStateMachine(); RaftJournal* j = sd.d->getRaftJournal();
      j->setCommitIndex(j->getLogSize() - 1);
      for (I i = sm->getLastApplied() + 1; i < j->getLogSize(); i++) apply(sm, sd.m.ops[i - sd.m.start - 1], i);
      return "";
    });
    if (died || !e.empty()) violation("shard-op", "applying committed entries: " + e);
  }
  void afterDeath(const char* when, std::vector<Mod> altT, bool power, std::vector<Mod> altS = {}) {
    clearFault();
    if (node(1).alive) harnessError("alive after a crash");
    s.d = t.d = nullptr;
    sleepFor(rng.range(1, 300) * MS);
    std::string e1, e2;
    bool a = openSide(s, e1), b = a && openSide(t, e2);
    if (!a || !b) violation("reopen-failed", std::string(when) + ": the " + (a ? "target" : "source") + " directory does not open: " + (a ? e2 : e1).substr(0, 300));
    settle(s, altS, when, -1); settle(t, altT, when, -1);
    replay(s); replay(t);
    countProbe(power ? "recovered from a power loss" : "recovered from a crash");
  }
  static void apply(StateMachine* sm, const Op& o, I idx) {
    rocksdb::Status st;
    if (o.v.empty()) { quarkdb::RedisRequest r{"DEL", o.k}; int64_t n; st = sm->del(r.begin() + 1, r.end(), n, idx); }
    else st = sm->set(o.k, o.v, idx);
    if (!st.ok() && !st.IsNotFound()) throw quarkdb::FatalException("write refused: " + st.ToString());
  }
  Op randomOp(Rng& r, I term) {
    Op o; o.term = term; o.k = "k" + std::to_string(r.below(12));
    if (r.chance(0.12)) o.v = ""; else { o.v = "v" + std::to_string(++ctr); if (r.chance(0.2)) o.v += std::string(r.range(100, 6000), 'x'); if (r.chance(0.1)) o.v += std::string("\0\n\xff", 3); }
    return o;
  }
  // runs on the node; the model is extended before each write
  void writer(Side& sd, int n, Rng& r, bool slow) {
    StateMachine* sm = sd.d->getStateMachine(); RaftJournal* j = sd.d->getRaftJournal();
    for (int i = 0; i < n; i++) {
      Op o = randomOp(r, sd.m.term); I idx = sd.m.size();
      sd.m.ops.push_back(o);
      quarkdb::RedisRequest rq; if (o.v.empty()) rq = {"DEL", o.k}; else rq = {"SET", o.k, o.v};
      if (!j->append(idx, RaftEntry(o.term, std::move(rq)))) throw quarkdb::FatalException("append refused");
      if (!j->setCommitIndex(idx)) throw quarkdb::FatalException("commit refused");
      apply(sm, o, idx);
      sd.m.acked = (I)sd.m.ops.size();
      if (slow && r.chance(0.4)) sleepFor(r.range(1, 40) * MS);
    }
  }
  // close and reopen, e.g. after an engine failure
  // false when it turned out that a background thread met the failure as well and ended the process
  bool cleanReopen(Side& sd, const char* when) {
    clearFault();
    bool died; std::string e = run("close", died, [&]() -> std::string { delete sd.d; sd.d = nullptr; return ""; });
    if (died && g_recent && node(1).deathReason.find("IO error") != std::string::npos) { countProbe("background thread met the failure"); afterDeath(when, {}, false); return false; }
    if (died) violation("shard-op", std::string(when) + ": closing the directory kills the process: " + e);
    if (!openSide(sd, e)) violation("reopen-failed", std::string(when) + ": the directory does not open: " + e.substr(0, 300));
    return true;
  }
  // opening while something fails: right contents or refused, and everything still there the next time
  void doFaultyOpen(Side& sd, const Cmd& a) {
    bool died; std::string e = run("close", died, [&]() -> std::string { delete sd.d; sd.d = nullptr; return ""; });
    if (died) violation("shard-op", "closing: " + e);
    bool pw = a[1] == "power"; size_t events = 0; I applied = -1, size = -1;
    arm(a, 1);
    e = run("open", died, [&]() -> std::string {
      sd.d = new ShardDirectory(sd.path); events = sd.d->getResilveringHistory().size();
      applied = sd.d->getStateMachine()->getLastApplied(); size = sd.d->getRaftJournal()->getLogSize();
      return "";
    });
    if (died) { checkDeath("open", e); countProbe("opening refused"); afterDeath("after a crash while opening", {}, pw); return; }
    if (events != sd.m.events.size()) violation("directory-contents", fmt("opened with %zu resilvering events, there are %zu", events, sd.m.events.size()));
    if (applied != sd.m.size() - 1 || size != sd.m.size()) violation("directory-contents", fmt("opened with contents at %lld and log size %lld, expected log size %lld", (long long)applied, (long long)size, (long long)sd.m.size()));
    if (!node(1).alive) { afterDeath("after a crash while opening", {}, pw); return; }
    cleanReopen(sd, "after opening with failures");
  }
  void listCheck(Side& sd, const char* when, const std::string& id) {
    for (auto& n : vfs::list(sd.path + "/temp-snapshots")) if (n == id) violation("leftover", std::string(when) + ": temp-snapshots still has " + n);
  }
  void doSnap(const Cmd& a) {
    Side& sd = side(a[0]);
    int cw = atoi(a[1].c_str()); Rng g; g.seed((uint64_t)atoll(a[2].c_str()));
    std::string id = fmt("snap-%d", ++ctr);
    std::unique_ptr<ShardSnapshot> snap;
    Mod before = sd.m; I applied0 = before.size() - 1;
    Fiber* w = nullptr; bool wdone = false, wfail = false; std::string werr;
    if (cw) { w = spawn([&] { try { writer(sd, cw, g, true); } catch (quarkdb::FatalException& e) { wfail = true; werr = e.what(); } wdone = true; }, "writer", 1); if (rng.chance(0.6)) sleepFor(rng.range(0, 60) * MS); }
    arm(a, 3);
    I lo = sd.m.start + sd.m.acked;
    bool died; std::string path;
    std::string e = run("snapshot", died, [&]() -> std::string { std::string err; snap = sd.d->takeSnapshot(id, err); if (!snap) return err.empty() ? "no explanation" : err; path = snap->getPath(); return err; });
    bool fail = !e.empty() || died;
    if (fail && !faulted()) violation("shard-op", "a snapshot fails although nothing went wrong: " + e.substr(0, 300));
    I hi = sd.m.size() - 1;
    if (!fail) {
      // the copy is looked at while the writer goes on
      Mod m = sd.m; m.acked = lo - m.start;
      Obs o = observe(path, false);
      std::string d = differs(o, m, true, lo - 0, false);
      if (d.empty() && o.applied > o.commit) d = fmt("contents are at %lld, beyond the commit index %lld of its journal", (long long)o.applied, (long long)o.commit);
      if (d.empty() && o.size - 1 > hi) d = "the journal has entries written after the end of the snapshot";
      if (!d.empty()) violation("snapshot-contents", "snapshot: " + d);
      countProbe("snapshot verified");
      if (cw && o.applied > applied0 && o.applied < before.size() - 1 + cw) countProbe("snapshot in the middle of concurrent writes");
    }
    while (w && !wdone && node(1).alive && !w->dead) sleepFor(10 * MS);
    if (died || !node(1).alive) { bool pw = a[3] == "power"; checkDeath("snapshot", e); if (node(1).alive) killNode(1, false); (void)snap.release(); afterDeath("after a crash during a snapshot", {}, pw); return; }
    if (wfail && !faulted()) violation("shard-op", "a write next to a snapshot fails: " + werr);
    bool freed = false;
    bool ok2 = on([&] { snap.reset(); freed = true; }, "release");
    if (!ok2) { (void)snap.release(); checkDeath("snapshot", "release"); afterDeath("after a crash while releasing a snapshot", {}, a[3] == "power"); return; }
    bool unlinkFail = F.fired && F.op != "write";
    clearFault();
    if (!unlinkFail) listCheck(sd, fail ? "after a failed snapshot" : "after a snapshot was released", id);
    if (wfail) { // the process would have ended
      killNode(1, false); afterDeath("after a failed write", {}, false); return;
    }
    if (fail) countProbe("snapshot failed cleanly");
    if ((fail || cw) && cleanReopen(sd, "after a snapshot")) { settle(sd, {}, "after a snapshot", sd.m.size() - 1); }
  }
  void doCheckpoint(const Cmd& a) {
    Side& sd = side(a[0]);
    int cw = atoi(a[2].c_str()); Rng g; g.seed((uint64_t)atoll(a[3].c_str()));
    std::string path = area + fmt("/cp %d", ++ctr);
    if (a[1] == "exists") { vfs::mkdirs(path); vfs::create(path + "/precious", "data"); }
    if (a[1] == "noparent") path = area + "/no/where";
    if (a[1] == "otherdev") { vfs::mkdirs("/vfs/other", 77); path = fmt("/vfs/other/cp%d", ctr); }
    Fiber* w = nullptr; bool wdone = false, wfail = false; std::string werr;
    if (cw) { w = spawn([&] { try { writer(sd, cw, g, true); } catch (quarkdb::FatalException& e) { wfail = true; werr = e.what(); } wdone = true; }, "writer", 1); if (rng.chance(0.6)) sleepFor(rng.range(0, 60) * MS); }
    arm(a, 4);
    I lo = sd.m.start + sd.m.acked;
    bool died; std::string e = run("checkpoint", died, [&]() -> std::string { return sd.d->checkpoint(path); });
    I hi = sd.m.size() - 1;
    bool fail = !e.empty() || died;
    if (a[1] != "new") {
      if (!fail) violation("shard-op", "a checkpoint into " + a[1] + " is reported as successful");
      if (a[1] == "exists" && vfs::slurp(path + "/precious") != "data") violation("shard-op", "a refused checkpoint changes an existing directory");
    } else if (fail && !faulted()) violation("shard-op", "a checkpoint fails although nothing went wrong: " + e.substr(0, 300));
    if (!fail) {
      Mod m = sd.m; m.acked = lo - m.start;
      Obs o = observe(path);
      std::string d = differs(o, m, true, lo);
      if (d.empty() && o.applied > o.commit) d = fmt("contents are at %lld, beyond the commit index %lld of its journal", (long long)o.applied, (long long)o.commit);
      if (d.empty() && o.size - 1 > hi) d = "the journal has entries written after the end of the checkpoint";
      if (!d.empty()) violation("checkpoint-contents", "checkpoint: " + d);
      countProbe("checkpoint verified");
    } else if (!died) countProbe("checkpoint failed cleanly");
    while (w && !wdone && node(1).alive && !w->dead) sleepFor(10 * MS);
    bool pw = a[4] == "power";
    if (died || !node(1).alive) { checkDeath("checkpoint", e); afterDeath("after a crash during a checkpoint", {}, pw);
      if (!fail && vfs::exists(path)) {   // the reported success has to last
        Mod m = sd.m; Obs o = observe(path); if (!o.err.empty()) violation("checkpoint-contents", "a completed checkpoint does not survive a crash: " + o.err);
      }
      vfs::removeTree(path); return; }
    if (wfail && !faulted()) violation("shard-op", "a write next to a checkpoint fails: " + werr);
    clearFault();
    vfs::removeTree(path); vfs::removeTree("/vfs/other");
    if (wfail) { killNode(1, false); afterDeath("after a failed write", {}, false); return; }
    if ((fail || cw) && cleanReopen(sd, "after a checkpoint")) { settle(sd, {}, "after a checkpoint", sd.m.size() - 1); }
  }
  // copies a snapshot of the source into the target, the way a leader does
  void doTransfer(const Cmd& a) {
    int cw = atoi(a[1].c_str()); Rng g; g.seed((uint64_t)atoll(a[2].c_str()));
    std::string id = fmt("id-%d", ++ctr), path;
    std::unique_ptr<ShardSnapshot> snap;
    bool died; std::string e;
    e = run("snapshot", died, [&]() -> std::string { std::string err; snap = s.d->takeSnapshot(id, err); if (snap) path = snap->getPath(); return snap ? "" : "fails: " + err; });
    if (!e.empty()) violation("shard-op", "snapshot " + e);
    Obs so = observe(path, false);
    Mod nm = s.m; nm.acked = so.size - s.m.start - 1; nm.ops.resize((size_t)nm.acked); nm.events = t.m.events; nm.events.push_back(id);
    { std::string d = differs(so, nm, true, -1, false); if (!d.empty()) violation("snapshot-contents", "snapshot: " + d); }
    if (cw) { e = run("writes", died, [&]() -> std::string { writer(s, cw, g, false); return ""; }); if (died) violation("shard-op", "write: " + e); }
    std::vector<std::pair<std::string, std::string>> files;
    std::function<void(const std::string&, const std::string&)> walk = [&](const std::string& dir, const std::string& pre) {
      for (auto& n : vfs::list(dir)) { std::string f = dir + "/" + n, rel = pre.empty() ? n : pre + "/" + n; if (vfs::isDir(f)) walk(f, rel); else files.push_back({rel, vfs::slurp(f)}); }
    };
    walk(path, "");
    std::string pad;
    if (g.chance(0.3)) { // a large file, as real databases have; received as a whole or not at all
      pad.resize((size_t)g.range(4097, 30000)); for (auto& ch : pad) ch = (char)g.below(256);
      files.push_back({"state-machine/pad.bin", pad});
    }
    for (size_t k = files.size(); k > 1; k--) std::swap(files[k - 1], files[g.below(k)]);
    auto bump = [&](I d, const std::string& vote) {
      std::string x = run("term", died, [&]() -> std::string { return t.d->getRaftJournal()->setCurrentTerm(t.m.term + d, vote.empty() ? RaftServer() : srv(vote)) ? "" : "refused"; });
      if (died) violation("shard-op", "term: " + x);
      if (x.empty()) { t.m.term += d; t.m.vote = vote; }
    };
    arm(a, 3);
    bool pw = a[3] == "power";
    const char* stage = "start";
    e = run("resilvering start", died, [&]() -> std::string { std::string err; return t.d->resilveringStart(id, err) ? "" : err.empty() ? "refused" : err; });
    if (e.empty() && !died) {
      stage = "copy";
      for (auto& f : files) {
        e = run("resilvering copy", died, [&]() -> std::string { std::string err; return t.d->resilveringCopy(id, f.first, f.second, err) ? "" : "copy: " + err; });
        if (!e.empty() || died) break;
        if (f.second.empty()) countProbe("empty file copied");
        if (a[0] == "race" && g.chance(0.2)) { // somebody else's transfer is going on as well
          std::string err; bool dd; run("other copy", dd, [&]() -> std::string { std::string er; t.d->resilveringStart("other-" + id, er); t.d->resilveringCopy("other-" + id, f.first, "garbage", er); return ""; }); if (dd) { died = true; e = "died"; break; }
        }
      }
    }
    if (!died && node(1).alive && a[0] == "term" && g.chance(0.6)) { if (!F.err && !F.crash) bump(g.range(1, 2), g.chance(0.5) ? "" : "n2:7777"); }
    bool must = nm.term > t.m.term || (nm.term == t.m.term && (t.m.vote.empty() || !nm.vote.empty())), mustNot = nm.term < t.m.term;
    bool fin = false;
    if (e.empty() && !died) {
      stage = "finish"; fin = true;
      e = run("resilvering finish", died, [&]() -> std::string { std::string err; return t.d->resilveringFinish(id, err) ? "" : err.empty() ? "refused" : err; });
    }
    bool fl = faulted();
    if (died || !node(1).alive) {
      checkDeath("resilvering", std::string(stage) + ": " + e);
      (void)snap.release();
      std::vector<Mod> alt;
      if (fin && !mustNot) { alt.push_back(nm); nm.events.pop_back(); alt.push_back(nm); }   // the event may be missing when the process died in between
      afterDeath(fmt("after a crash during resilvering (%s)", stage).c_str(), alt, pw);
      vfs::removeTree(path);
      return;
    }
    clearFault();
    on([&] { snap.reset(); }, "release");
    listCheck(s, "after a transfer", id);
    if (!e.empty()) {
      if (!fl && !(fin && !must)) violation("shard-op", std::string("resilvering fails although nothing went wrong (") + stage + "): " + e.substr(0, 300));
      countProbe(fl ? "resilvering failed cleanly" : "stale resilvering refused");
      // still in use
      bool dd; std::string x = run("use after failure", dd, [&]() -> std::string { t.d->getStateMachine()->getLastApplied(); t.d->getRaftJournal()->getLogSize(); return ""; });
      if (dd && fl && node(1).deathReason.find("IO error") != std::string::npos) { afterDeath("after a failed resilvering", {}, pw); return; }
      if (dd) violation("shard-op", "the directory cannot be used after a failed resilvering: " + x);
      if (!cleanReopen(t, "after a failed resilvering")) return;
      settle(t, {}, "after a failed resilvering", t.m.size() - 1);
      return;
    }
    if (mustNot) violation("stale-install", fmt("a snapshot of term %lld replaces the contents of a directory in term %lld", (long long)nm.term, (long long)t.m.term));
    t.m = nm;
    countProbe("resilvering completed");
    if (!pad.empty()) { if (vfs::slurp(t.path + "/current/state-machine/pad.bin") != pad) violation("received-file", "a file received during resilvering is incomplete or damaged, and the transfer was accepted"); countProbe("large file received"); vfs::removeTree(t.path + "/current/state-machine/pad.bin"); }
    settle(t, {}, "after resilvering", so.applied);
    replay(t);
  }
  void doCreate(const Cmd& a) {
    Rng g; g.seed((uint64_t)atoll(a[3].c_str()));
    std::string path = area + fmt("/new %d", ++ctr), seedPath = area + fmt("/seed %d", ctr);
    bool raft = a[0] == "raft", seed = a[1] == "seed", ex = a[0] == "exists";
    I start = raft ? atoll(a[2].c_str()) : 0;
    if (ex) { vfs::mkdirs(path); vfs::create(path + "/precious", "data"); raft = g.chance(0.5); }
    Mod m; m.raft = raft; m.start = start; m.cluster = "cl-new"; m.members = "n1:7777,n2:7777|";
    std::unique_ptr<StateMachine> sm;
    bool died; std::string e;
    if (seed) {
      int n = (int)g.range(0, 8);
      e = run("seed", died, [&]() -> std::string { sm.reset(new StateMachine(seedPath)); for (int i = 0; i < n; i++) { Op o = randomOp(g, 0); if (o.v.empty()) o.v = "x"; apply(sm.get(), o, i + 1); m.base[o.k] = o.v; } return ""; });
      if (died || !e.empty()) violation("shard-op", "seed: " + e);
    }
    m.events = {raft ? (seed ? fmt("GENESIS-FROM-EXISTING-SM-AT-INDEX:%lld", (long long)start) : "GENESIS") : "GENESIS"};
    std::vector<RaftServer> nodes = {srv("n1:7777"), srv("n2:7777")};
    arm(a, 4);
    bool pw = a[4] == "power";
    e = run("create", died, [&]() -> std::string {
      quarkdb::Status st; std::unique_ptr<ShardDirectory> d;
      if (raft) d.reset(ShardDirectory::create(path, "cl-new", "default", nodes, start, FsyncPolicy::kAlways, std::move(sm), st));
      else d.reset(ShardDirectory::create(path, "null", "default", std::move(sm), st));
      if (!d && st.ok()) return "no directory and no explanation";
      if (!st.ok()) return "refused: " + st.getMsg();
      return "";
    });
    bool fl = faulted();
    if (ex) {
      if (e.empty()) violation("shard-op", "creating a database over an existing path is reported as successful");
      if (vfs::slurp(path + "/precious") != "data") violation("shard-op", "creating a database over an existing path changes it");
    }
    if (e.empty()) {
      Obs o = observe(path); std::string d = differs(o, m, false, start);
      if (!d.empty()) violation("create-contents", "new directory: " + d);
      countProbe("creation verified");
    }
    if (died || !node(1).alive) {
      checkDeath("create", e);
      (void)sm.release();
      afterDeath("after a crash while creating another directory", {}, pw);
    } else {
      clearFault();
      if (!e.empty() && !ex && !fl) violation("shard-op", "creating a database fails although nothing went wrong: " + e.substr(0, 300));
      on([&] { sm.reset(); }, "close seed");
    }
    if (!e.empty() && seed && !ex) {
      // the existing contents must still be somewhere: where they were, or where they belong
      std::string at; KV kv;
      for (auto& c : {seedPath, path + "/current/state-machine"}) {
        if (!vfs::exists(c + "/CURRENT")) continue;
        std::string w = area + fmt("/w%d", ++ctr); vfs::mkdirs(w); vfs::copyTree(c, w + "/state-machine");
        Obs o = observe(w, false); vfs::removeTree(w);
        if (o.err.empty() && o.kv == m.base) at = c;
      }
      // contents which were never synced may be lost by a power loss
      if (at.empty() && !pw) violation("seed-lost", "the contents given to a failed creation are gone");
      countProbe("failed creation keeps the seed");
    }
    vfs::removeTree(path); vfs::removeTree(seedPath);
  }
  // loading a new database in bulk: usable exactly when it has been finalized
  void doBulk(const Cmd& a) {
    Rng g; g.seed((uint64_t)atoll(a[2].c_str()));
    std::string path = area + fmt("/bulk%d", ++ctr);
    int n = atoi(a[0].c_str());
    Mod m; m.raft = false; m.events = {"GENESIS"};
    std::unique_ptr<ShardDirectory> d; bool died; std::string e;
    e = run("create", died, [&]() -> std::string { quarkdb::Status st; d.reset(ShardDirectory::create(path, "null", "default", std::unique_ptr<StateMachine>(), st)); return d ? "" : "refused: " + st.getMsg(); });
    if (died || !e.empty()) violation("shard-op", "create: " + e);
    bool late = g.chance(0.4); Coll coll;
    if (!late) arm(a, 3);
    bool pw = a[3] == "power", finished = false;
    std::string stage = "open";
    e = run("bulkload", died, [&]() -> std::string {
      StateMachine* sm = d->getStateMachineForBulkload();
      stage = "load";
      for (int i = 0; i < n; i++) { Op o = randomOp(g, 0); if (o.v.empty()) o.v = "x"; m.base[o.k] = o.v; if (g.chance(0.5)) { const char* w[] = {"h1", "h2", "h10", "s1", "s2", "l1", "l2"}; std::string ck = w[g.below(7)], cf = "f" + std::to_string(ctr); applyColl(sm, ck, cf, "v" + cf, coll); } apply(sm, o, 0); }
      if (late) arm(a, 3);
      if (a[1] == "abandon") return "";
      stage = "finalize";
      sm->finalizeBulkload(); finished = true;
      return "";
    });
    bool fl = faulted();
    if (finished && !died && g.chance(0.5) && node(1).alive) { F.crash = true; killNode(1, pw || g.chance(0.5)); died = true; countProbe("crash right after the end of a bulk load"); }
    if (died || !node(1).alive) {
      if (!finished) checkDeath("bulkload", stage + ": " + e);
      (void)d.release();
      afterDeath("after a crash during a bulk load of another directory", {}, pw);
    } else {
      clearFault();
      if (!e.empty() && !fl) violation("shard-op", "bulk load fails although nothing went wrong: " + e);
      if (!on([&] { try { d.reset(); } catch (quarkdb::FatalException&) {} }, "close")) { (void)d.release(); afterDeath("after a crash while closing a bulk load", {}, pw); }
    }
    if (stage != "open") {
      Obs o = observe(path, true, &coll);
      std::string df = differs(o, m);
      if (!finished && !o.err.empty() && o.err.find("open") != 0) { if (df.empty()) df = o.err; o.err = ""; }
      if (finished && !df.empty()) violation("bulkload-contents", "a bulk load which was finalized: " + df);
      if (!finished && a[1] == "abandon" && o.err.empty() && !m.base.empty()) violation("bulkload-contents", "a bulk load which was never finalized can be opened");
      if (!finished && o.err.empty() && !df.empty()) violation("bulkload-contents", "an interrupted bulk load can be opened: " + df);
      countProbe(finished ? "bulk load verified" : "bulk load not finished: refused or complete");
    }
    vfs::removeTree(path);
  }
  void init(Side& sd, const char* nm, I start) {
    sd.path = area + "/" + nm;
    sd.m.start = start; sd.m.cluster = "cl-1"; sd.m.members = "n1:7777,n2:7777,n3:7777|";
    bool died;
    std::string e = run("create", died, [&]() -> std::string {
      quarkdb::Status st; std::unique_ptr<StateMachine> seed;
      sd.d = ShardDirectory::create(sd.path, "cl-1", "default", {srv("n1:7777"), srv("n2:7777"), srv("n3:7777")}, start, FsyncPolicy::kAlways, std::move(seed), st);
      if (!sd.d) return "create: " + st.getMsg();
      sd.d->getStateMachine();
      return "";
    });
    if (died || !e.empty()) violation("shard-op", "creating a directory: " + e);
    sd.m.events = {"GENESIS"};
  }
  void runAll() {
    startNode(1); startNode(2);
    vfs::mkdirs("/vfs/n1", 2);
    area = plan.get("space", 0) ? "/vfs/n1/my $(data) dir" : "/vfs/n1/area";
    vfs::mkdirs(area);
    sim::g_abortIsViolation = true; sim::g_abortAllowed[1] = true; sim::g_abortAllowed[2] = true;
    init(s, "src", (I)plan.get("start", 0)); init(t, "trg", 0);
    settle(s, {}, "after creation", -1); settle(t, {}, "after creation", -1);
    for (auto& l : plan.lines) {
      const Cmd& a = l.a; bool died; std::string e;
      if (l.kind == "write") {
        Side& sd = side(a[0]); Rng g; g.seed((uint64_t)atoll(a[2].c_str())); int n = atoi(a[1].c_str());
        e = run("write", died, [&]() -> std::string { writer(sd, n, g, false); return ""; });
        if (died) violation("shard-op", "write: " + e);
      } else if (l.kind == "term") {
        Side& sd = side(a[0]); I nt = sd.m.term + atoll(a[1].c_str());
        e = run("term", died, [&]() -> std::string { return sd.d->getRaftJournal()->setCurrentTerm(nt, a[2].empty() ? RaftServer() : srv(a[2])) ? "" : "refused"; });
        if (died) violation("shard-op", "term: " + e);
        if (e.empty()) { sd.m.term = nt; sd.m.vote = a[2]; }
      } else if (l.kind == "snap") doSnap(a);
      else if (l.kind == "transfer") doTransfer(a);
      else if (l.kind == "checkpoint") doCheckpoint(a);
      else if (l.kind == "create") doCreate(a);
      else if (l.kind == "bulk") doBulk(a);
      else if (l.kind == "reopen") { Side& sd = side(a[0]); if (a[1] != "none") doFaultyOpen(sd, a); else cleanReopen(sd, "clean reopen"); settle(sd, {}, "after a clean reopen", sd.m.size() - 1); countProbe("clean reopen"); }
      else if (l.kind == "crash") { bool pw = a[0] == "power"; countFault(pw ? "power loss" : "process kill"); killNode(1, pw); afterDeath("after a crash between operations", {}, pw); }
    }
    cleanReopen(s, "at the end"); cleanReopen(t, "at the end");
    settle(s, {}, "at the end", s.m.size() - 1); settle(t, {}, "at the end", t.m.size() - 1);
    on([&] { delete s.d; delete t.d; }, "close");
    sleepFor(100 * MS);
    std::string names; if (liveThreads(1, &names)) violation("thread-leak", "threads left after closing everything: " + names);
  }
};
void runShard(const Plan& p) { Shard x(p); x.runAll(); }
Reg reg("shard", genShard, runShard);
}
