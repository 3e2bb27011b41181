// The raft journal alone, driven by its public interface against a reference model: every operation, crashes and
// power losses at any storage operation, reopening, checkpoints; and bursts of concurrent users.
#include "scen.hh"
#include "raft/RaftJournal.hh"
#include "utils/FileUtils.hh"
#include <algorithm>
using namespace scen;
using namespace sim;
using quarkdb::RaftJournal; using quarkdb::RaftEntry; using quarkdb::RaftServer; using quarkdb::FsyncPolicy;
namespace {
typedef int64_t I;
RaftServer srv(const std::string& s) { RaftServer r; quarkdb::parseServer(s, r); return r; }
std::string join(const std::vector<std::string>& v) { std::string o; for (auto& x : v) { if (!o.empty()) o += ","; o += x; } return o; }
struct Mem {
  std::vector<std::string> nodes, obs;
  std::string str() const { return join(nodes) + "|" + join(obs); }
  static Mem parse(const std::string& s) {
    Mem m; size_t p = s.find('|');
    auto sp = [](const std::string& t) { std::vector<std::string> o; size_t a = 0; while (a < t.size()) { size_t b = t.find(',', a); if (b == std::string::npos) b = t.size(); o.push_back(t.substr(a, b - a)); a = b + 1; } return o; };
    m.nodes = sp(s.substr(0, p)); m.obs = sp(s.substr(p + 1));
    return m;
  }
};
struct Ent { I term; Cmd req; bool operator==(const Ent& o) const { return term == o.term && req == o.req; } bool operator!=(const Ent& o) const { return !(*this == o); } };
struct St {
  I term = 0, start = 0, size = 0, commit = 0, epoch = 0, prevEpoch = 0;
  std::string vote, cluster;
  Mem mem, prev;
  int policy = 0;
  std::map<I, Ent> log;
  std::string diff(const St& o, bool full = true) const {
    if (term != o.term) return fmt("term %lld / %lld", (long long)term, (long long)o.term);
    if (vote != o.vote) return "vote '" + vote + "' / '" + o.vote + "'";
    if (start != o.start) return fmt("log start %lld / %lld", (long long)start, (long long)o.start);
    if (size != o.size) return fmt("log size %lld / %lld", (long long)size, (long long)o.size);
    if (commit != o.commit) return fmt("commit index %lld / %lld", (long long)commit, (long long)o.commit);
    if (epoch != o.epoch) return fmt("membership epoch %lld / %lld", (long long)epoch, (long long)o.epoch);
    if (mem.str() != o.mem.str()) return "members " + mem.str() + " / " + o.mem.str();
    if (policy != o.policy) return fmt("fsync policy %d / %d", policy, o.policy);
    if (cluster != o.cluster) return "cluster id " + cluster + " / " + o.cluster;
    if (full && log != o.log) {
      for (auto& e : log) { auto it = o.log.find(e.first); if (it == o.log.end()) return fmt("entry %lld only in the first", (long long)e.first); if (it->second != e.second) return fmt("entry %lld: %lld %s / %lld %s", (long long)e.first, (long long)e.second.term, show(e.second.req).c_str(), (long long)it->second.term, show(it->second.req).c_str()); }
      return "the second has more entries";
    }
    return "";
  }
  uint64_t hash() const { uint64_t h = term * 31 + start * 7 + size * 1009 + commit * 77; h ^= strHash(mem.str() + vote); for (auto& e : log) h = h * 1099511628211ull + e.second.term * 17 + strHash(e.second.req.size() > 1 ? e.second.req[1] : e.second.req[0]); return h; }
};
Cmd toCmd(const quarkdb::RedisRequest& r) { Cmd c; for (size_t i = 0; i < r.size(); i++) c.push_back(std::string(r[i])); return c; }
quarkdb::RedisRequest toReq(const Cmd& c) { quarkdb::RedisRequest r; for (auto& a : c) r.push_back(a); return r; }
void genJournal(Plan& p, Rng& r) {
  p.knob("policy", r.below(3));
  p.knob("start", r.chance(0.6) ? 0 : r.range(1, 300));
  p.knob("nodes", r.range(1, 4));
  p.knob("crash", r.chance(0.7));
  p.knob("power", r.chance(0.5));
  p.knob("burst", r.chance(0.5) ? 0.06 : 0);
  p.knob("big", r.chance(0.15));
  p.knob("wsync", r.chance(0.3) ? 1 : 6);
  int n = (int)r.range(15, 120);
  p.knob("ops", n); n = (int)p.get("ops", n);
  double trim = r.pick(std::vector<double>{0, 0.03, 0.1});
  uint64_t ctr = 0;
  auto R = [&](I a, I b) { return std::to_string(r.range(a, b)); };
  for (int i = 0; i < n; i++) {
    double x = r.unit();
    if (x < 0.30) {  // append COUNT TERMMODE INDEXMODE IMPORTANT what
      std::string tag = "v" + std::to_string(++ctr);
      if (r.chance(0.15)) { tag += std::string(1, (char)r.below(256)) + "\r\n$"; }
      if (p.get("big", 0) && r.chance(0.1)) tag += std::string(r.range(1000, 70000), 'x');
      const char* w[] = {"cur", "cur", "cur", "cur", "last", "low", "high"};
      p.add("append", {r.chance(0.7) ? "1" : R(2, 8), w[r.below(7)], r.chance(0.93) ? "0" : R(-2, 2), r.chance(0.3) ? "1" : "0", tag});
    }
    else if (x < 0.36) p.add("marker", {});
    else if (x < 0.42) p.add("members", {r.chance(0.2) ? "other" : "same", R(0, 1000)});   // membership entry as received from a leader
    else if (x < 0.50) { const char* w[] = {"add", "promote", "demote", "remove"}; p.add("change", {w[r.below(4)], "n" + R(1, 6) + ":7777"}); }
    else if (x < 0.58) p.add("remove", {r.chance(0.8) ? "tail" : "any", R(0, 1000)});
    else if (x < 0.70) p.add("commit", {r.chance(0.9) ? "ok" : "any", R(0, 1000)});
    else if (x < 0.70 + trim) p.add("trim", {r.chance(0.85) ? "ok" : "any", R(0, 1000)});
    else if (x < 0.86) p.add("term", {R(-1, 3), r.chance(0.5) ? "" : "n" + R(1, 5) + ":7777"});
    else if (x < 0.90) p.add("query", {R(0, 1000), R(0, 1000), R(0, 1000)});
    else if (x < 0.92) p.add("policy", {R(0, 2)});
    else if (x < 0.94) p.add("reopen", {});
    else if (x < 0.96) p.add("checkpoint", {});
    else p.add("sleep", {R(3000, 6000)});
    if (r.chance(p.get("burst", 0))) p.add("burst", {R(1, 1000000), R(0, 2)});
    if (p.get("crash", 0) && r.chance(0.05)) {
      bool power = p.get("power", 0) && r.chance(0.6);
      p.add("crash", {power ? "power" : "kill", r.chance(0.25) ? "0" : R(1, 4)});
    }
  }
}
struct Jr {
  const Plan& plan;
  RaftJournal* j = nullptr;
  std::vector<St> hist;   // possible durable states, oldest first; the last one is the current contents
  Rng rng;
  std::string path = "/vfs/n1/j";
  bool armed = false, power = false;
  std::vector<std::string> universe;
  Jr(const Plan& p) : plan(p), rng(subRng(p, "journal")) {}
  St& cur() { return hist.back(); }
  bool on(std::function<void()> f, const char* nm) { return onNode(1, std::move(f), nm); }
  // what the interface shows
  void observe(St& s, RaftJournal* jr, std::string& bad) {
    s.term = jr->getCurrentTerm(); s.start = jr->getLogStart(); s.size = jr->getLogSize(); s.commit = jr->getCommitIndex();
    RaftServer v = jr->getVotedFor(); s.vote = v.empty() ? "" : v.toString();
    s.cluster = jr->getClusterID(); s.policy = (int)jr->getFsyncPolicy();
    auto m = jr->getMembership();
    for (auto& x : m.nodes) s.mem.nodes.push_back(x.toString());
    for (auto& x : m.observers) s.mem.obs.push_back(x.toString());
    s.epoch = m.epoch;
    if (jr->getEpoch() != m.epoch) bad = "getEpoch differs from getMembership";
    for (I i = std::max<I>(0, s.start - 3); i < s.size + 3; i++) {
      RaftEntry e;
      rocksdb::Status st = jr->fetch(i, e);
      bool in = i >= s.start && i < s.size;
      if (in && !st.ok()) { bad = fmt("entry %lld is missing (log %lld..%lld): %s", (long long)i, (long long)s.start, (long long)s.size - 1, st.ToString().c_str()); return; }
      if (!in && st.ok()) { bad = fmt("entry %lld exists outside of the log %lld..%lld", (long long)i, (long long)s.start, (long long)s.size - 1); return; }
      if (in) {
        s.log[i] = {e.term, toCmd(e.request)};
        quarkdb::RaftTerm t; quarkdb::RaftSerializedEntry ser;
        if (!jr->fetch(i, t).ok() || t != e.term) { bad = "fetching the term of an entry"; return; }
        if (!jr->fetch(i, ser).ok() || RaftEntry::fetchTerm(ser) != e.term) { bad = "fetching the serialized entry"; return; }
      }
    }
    auto it = jr->getIterator(s.start, true);
    for (I i = s.start; i < s.size; i++) {
      if (!it.valid() || it.getCurrentIndex() != i) { bad = fmt("iterator ends at %lld, log is %lld..%lld", (long long)i, (long long)s.start, (long long)s.size - 1); return; }
      quarkdb::RaftSerializedEntry ser; it.current(ser);
      RaftEntry e; RaftEntry::deserialize(e, ser);
      if (e.term != s.log[i].term || toCmd(e.request) != s.log[i].req) { bad = fmt("iterator shows other contents at %lld", (long long)i); return; }
      it.next();
    }
    if (it.valid()) bad = "iterator continues past the end of the log";
  }
  void structural(const St& s) {
    if (s.start < 0 || s.size <= s.start) violation("structure", fmt("log %lld..%lld", (long long)s.start, (long long)s.size - 1));
    if (s.commit < s.start || s.commit >= s.size) violation("structure", fmt("commit index %lld outside of log %lld..%lld", (long long)s.commit, (long long)s.start, (long long)s.size - 1));
    I t = -1, lastM = -1;
    for (auto& e : s.log) {
      if (e.second.term < t) violation("structure", fmt("term decreases at %lld", (long long)e.first));
      t = e.second.term;
      if (t > s.term) violation("structure", fmt("entry %lld has term %lld, current term is %lld", (long long)e.first, (long long)t, (long long)s.term));
      if (e.second.req[0] == "JOURNAL_UPDATE_MEMBERS" && e.second.req[2] == s.cluster) lastM = e.first;
    }
    if (lastM >= 0) {
      if (s.epoch != lastM) violation("structure", fmt("membership epoch is %lld, the last membership entry is at %lld", (long long)s.epoch, (long long)lastM));
      if (s.log.at(lastM).req[1] != s.mem.str()) violation("structure", "members are " + s.mem.str() + ", the log says " + s.log.at(lastM).req[1]);
    } else if (s.epoch >= s.start) violation("structure", fmt("membership epoch %lld has no entry in the log from %lld", (long long)s.epoch, (long long)s.start));
  }
  void compare(const char* when) {
    St o; std::string bad;
    if (!on([&] { observe(o, j, bad); }, "observe")) { afterCrash(); return; }
    if (!bad.empty()) violation("journal-observe", std::string(when) + ": " + bad);
    std::string d = o.diff(cur());
    if (!d.empty()) violation("journal-differs", std::string(when) + ": journal / expected: " + d);
    structural(o);
    stateSample(o.hash());
  }
  bool open() {   // false: the node died
    std::string err;
    if (!on([&] { try { j = new RaftJournal(path); } catch (quarkdb::FatalException& e) { err = e.what(); } }, "open")) { countProbe("crash while opening"); return false; }
    if (!err.empty()) violation("reopen-failed", "the journal does not open: " + err.substr(0, 300));
    return true;
  }
  // the node died (extra: states which an interrupted operation may have led to)
  void afterCrash(std::vector<St> extra = {}) {
    bool pw = power;
    armed = false; disarmCrash(1);
    if (node(1).alive) harnessError("node is alive after a crash");
    std::vector<St> cand;
    if (pw) cand = hist; else cand = {cur()};
    for (auto& e : extra) cand.push_back(e);
    j = nullptr;
    sleepFor(rng.range(1, 300) * MS);
    open();
    St o; std::string bad;
    if (!on([&] { observe(o, j, bad); }, "observe")) harnessError("crash in observe");
    if (!bad.empty()) violation("journal-observe", std::string("after a ") + (pw ? "power loss: " : "kill: ") + bad);
    structural(o);
    int found = -1;
    for (int i = (int)cand.size() - 1; i >= 0 && found < 0; i--) if (o.diff(cand[i]).empty()) found = i;
    if (found < 0) violation(pw ? "durable-lost" : "kill-lost", fmt("after a %s the journal is in none of the %zu states allowed; against the newest one: %s", pw ? "power loss" : "kill", cand.size(), o.diff(cand.back()).c_str()) + (cand.size() > 1 ? "; against the oldest one: " + o.diff(cand[0]) : ""));
    countProbe(pw ? "power loss recovered" : "kill recovered");
    if (pw && found + 1 < (int)hist.size()) countProbe("power loss dropped unsynced operations");
    St k = cand[found];
    if (pw) hist = {k};
    else if (found > 0 || o.diff(cur()).size()) hist.push_back(k);
    checkCommitFloor();
  }
  void checkCommitFloor() {}
  // runs one operation; next: the state it leads to (nullptr: no change); sync: durable on return
  // f returns whether the operation reported success
  void op(const std::string& what, const St* next, bool sync, bool expect, std::function<bool()> f) {
    bool res = false; std::string ex;
    bool ok = on([&] { try { res = f(); } catch (quarkdb::FatalException& e) { ex = e.what(); if (ex.empty()) ex = "?"; } }, "op");
    if (!ok) { countProbe("crash during an operation"); afterCrash(next ? std::vector<St>{*next} : std::vector<St>{}); return; }
    bool threw = !ex.empty();
    if (expect && threw) violation("journal-op", what + " threw " + ex.substr(0, 200));
    if (!threw && res != expect) violation("journal-op", what + (expect ? " was refused" : " was accepted"));
    if (next && expect) hist.push_back(*next);
    if (sync && expect) hist = {cur()};
    if (hist.size() > 400) hist.erase(hist.begin(), hist.begin() + 100);
    compare(what.c_str());
  }
  bool important(bool imp) { return cur().policy == 0 || (cur().policy == 1 && imp); }
  void addEntry(St& n, I term, Cmd req) {
    if (req[0] == "JOURNAL_UPDATE_MEMBERS" && req[2] == n.cluster) { n.prev = n.mem; n.prevEpoch = n.epoch; n.mem = Mem::parse(req[1]); n.epoch = n.size; }
    n.log[n.size] = {term, req}; n.size++;
  }
  void append(I index, I term, Cmd req, bool imp) {
    St n = cur();
    I lastTerm = n.log.rbegin()->second.term;
    bool ok = index == n.size && term <= n.term && term >= lastTerm;
    bool mem = req[0] == "JOURNAL_UPDATE_MEMBERS" && req[2] == n.cluster;
    if (ok) addEntry(n, term, req);
    op(fmt("append at %lld of term %lld %s", (long long)index, (long long)term, show(req, 20).c_str()), ok ? &n : nullptr, ok && important(imp || mem || req[0] == "JOURNAL_UPDATE_MEMBERS"), ok, [&] { return j->append(index, RaftEntry(term, toReq(req)), imp); });
  }
  void burst(uint64_t seed, int mode);
  void run() {
    for (int i = 1; i <= 6; i++) universe.push_back(fmt("n%d:7777", i));
    startNode(1);
    vfs::mkdirs("/vfs/n1", 2);
    sim::g_abortIsViolation = true;
    St s;
    I start = (I)plan.get("start", 0);
    s.policy = (int)plan.get("policy", 0); s.cluster = "cl-1"; s.start = s.commit = s.epoch = start; s.size = start;
    std::vector<RaftServer> nodes;
    for (int i = 1; i <= (int)plan.get("nodes", 3); i++) { nodes.push_back(srv(universe[i - 1])); s.mem.nodes.push_back(universe[i - 1]); }
    s.log[start] = {0, {"JOURNAL_UPDATE_MEMBERS", s.mem.str(), s.cluster}}; s.size++;
    // the same enumeration as in the code
    int pol = s.policy;
    if (!on([&] { j = new RaftJournal(path, s.cluster, nodes, start, (FsyncPolicy)pol); }, "create")) harnessError("creation died");
    { auto f = vfs::lookup(path); if (!f) harnessError("no journal directory"); }
    vfs::writebackTree("/vfs/n1");
    hist = {s};
    compare("after creation");
    for (auto& l : plan.lines) {
      const Cmd& a = l.a;
      St n = cur();
      auto num = [&](size_t i) { return (I)atoll(a[i].c_str()); };
      I lastTerm = n.log.rbegin()->second.term;
      if (l.kind == "append") {
        for (int k = 0; k < num(0); k++) {
          St& c = cur(); lastTerm = c.log.rbegin()->second.term;
          I t = a[1] == "cur" ? c.term : a[1] == "last" ? lastTerm : a[1] == "low" ? lastTerm - 1 : c.term + 1;
          append(c.size + num(2), t, {"SET", "key", a[4] + "." + std::to_string(k)}, a[3] == "1");
        }
      } else if (l.kind == "marker") {
        bool ok = n.term >= lastTerm;
        I idx = n.size, t = n.term;
        addEntry(n, n.term, {"JOURNAL_LEADERSHIP_MARKER", std::to_string(n.term), "n1:7777"});
        op("leadership marker", ok ? &n : nullptr, important(true), ok, [&] { return j->appendLeadershipMarker(idx, t, srv("n1:7777")); });
      } else if (l.kind == "members") {
        // as sent by a leader: it appends one only when the previous membership has been committed
        if (n.commit < n.epoch) continue;
        Mem m; for (auto& u : universe) { int y = (num(1) >> (&u - &universe[0])) & 3; if (y == 0 || y == 3) m.nodes.push_back(u); else if (y == 1) m.obs.push_back(u); }
        if (m.nodes.empty()) { m.nodes.push_back("n1:7777"); m.obs.erase(std::remove(m.obs.begin(), m.obs.end(), "n1:7777"), m.obs.end()); }
        append(n.size, n.term, {"JOURNAL_UPDATE_MEMBERS", m.str(), a[0] == "same" ? n.cluster : "cl-2"}, false);
      } else if (l.kind == "change") {
        Mem m = n.mem; bool ok = true;
        auto has = [](std::vector<std::string>& v, const std::string& x) { return std::find(v.begin(), v.end(), x) != v.end(); };
        auto del = [](std::vector<std::string>& v, const std::string& x) { auto it = std::find(v.begin(), v.end(), x); if (it == v.end()) return false; v.erase(it); return true; };
        if (a[0] == "add") { ok = !has(m.nodes, a[1]) && !has(m.obs, a[1]); if (ok) m.obs.push_back(a[1]); }
        else if (a[0] == "promote") { ok = del(m.obs, a[1]); if (ok) m.nodes.push_back(a[1]); }
        else if (a[0] == "demote") { ok = del(m.nodes, a[1]); if (ok) m.obs.push_back(a[1]); }
        else ok = del(m.obs, a[1]) || del(m.nodes, a[1]);
        if (ok && m.nodes.empty()) continue;   // never asked for by the dispatcher
        if (n.commit < n.epoch) ok = false;
        if (n.term < lastTerm) ok = false;
        I t = n.term;
        if (ok) addEntry(n, t, {"JOURNAL_UPDATE_MEMBERS", m.str(), n.cluster});
        op("membership change " + a[0] + " " + a[1], ok ? &n : nullptr, ok && important(true), ok, [&] {
          std::string e; RaftServer s = srv(a[1]);
          bool r = a[0] == "add" ? j->addObserver(t, s, e) : a[0] == "promote" ? j->promoteObserver(t, s, e) : a[0] == "demote" ? j->demoteToObserver(t, s, e) : j->removeMember(t, s, e);
          if (!r && e.empty() && t >= lastTerm) violation("journal-op", "membership change refused without an explanation");
          return r;
        });
      } else if (l.kind == "remove") {
        I from = a[0] == "tail" ? n.commit + 1 + num(1) % (n.size - n.commit) : num(1) % (n.size + 3);
        if (from < n.start) from = n.start;
        bool ok = from < n.size && from > n.commit;
        if (ok) {
          while (n.size > from) n.log.erase(--n.size);
          if (from <= n.epoch) { n.mem = n.prev; n.epoch = n.prevEpoch; }
        }
        op(fmt("removing entries from %lld", (long long)from), ok ? &n : nullptr, ok && important(false), ok, [&] { return j->removeEntries(from); });
      } else if (l.kind == "commit") {
        I to = a[0] == "ok" ? n.commit + num(1) % (n.size - n.commit) : num(1) % (n.size + 4);
        bool ok = to >= n.commit && to < n.size, ch = ok && to != n.commit;
        if (ok) n.commit = to;
        op(fmt("commit index to %lld", (long long)to), ch ? &n : nullptr, false, ok, [&] { return j->setCommitIndex(to); });
      } else if (l.kind == "trim") {
        I to = a[0] == "ok" ? n.start + num(1) % (n.commit - n.start + 1) : num(1) % (n.size + 4);
        bool bad = to > n.start && to > n.commit, ch = !bad && to > n.start;
        if (ch) { while (n.start < to) n.log.erase(n.start++); }
        op(fmt("trimming until %lld", (long long)to), ch ? &n : nullptr, ch && important(false), !bad, [&] { j->trimUntil(to); return true; });
      } else if (l.kind == "term") {
        I t = n.term + num(0);
        bool ok = t >= n.term && !(t == n.term && !n.vote.empty());
        if (ok) { n.term = t; n.vote = a[1]; }
        op(fmt("term %lld vote %s", (long long)t, a[1].c_str()), ok ? &n : nullptr, ok && important(true), ok, [&] { return j->setCurrentTerm(t, a[1].empty() ? RaftServer() : srv(a[1])); });
      } else if (l.kind == "policy") {
        int pl = (int)num(0); bool ch = pl != n.policy; n.policy = pl;
        op(fmt("fsync policy %d", pl), ch ? &n : nullptr, false, true, [&] { j->setFsyncPolicy((FsyncPolicy)pl); return true; });
      } else if (l.kind == "query") {
        std::string bad;
        bool alive = on([&] {
          I span = n.size - n.start;
          { I i = n.start - 1 + num(0) % (span + 3); I t = n.log.count(i) ? n.log[i].term - (num(1) % 3 == 0) : num(1) % 3; bool want = n.log.count(i) && n.log[i].term == t; if (j->matchEntries(i, t) != want) bad = fmt("matchEntries(%lld, %lld)", (long long)i, (long long)t); }
          { // compare with a mutated copy of the log
            I from = n.start + num(1) % span; std::vector<RaftEntry> v; I want = from; bool same = true; I len = 1 + num(2) % (span + 2), bads = num(0) % 3 == 0 ? from + num(2) % len : -1;
            for (I i = from; i < from + len; i++) {
              Ent e = n.log.count(i) ? n.log[i] : Ent{n.term, {"SET", "a", "b"}};
              if (i == bads) { if (num(1) % 2) e.term++; else e.req.back() += "x"; }
              v.push_back(RaftEntry(e.term, toReq(e.req)));
              if (i >= n.size || i == bads) same = false;
              if (same) want = i + 1;
            }
            I got = j->compareEntries(from, v);
            if (got != want) bad = fmt("compareEntries from %lld gives %lld, expected %lld", (long long)from, (long long)got, (long long)want);
          }
          { // paging through the contents
            I c = n.start; size_t cnt = 1 + num(2) % 5; std::vector<I> seen;
            for (int guard = 0; guard < 10000; guard++) {
              std::vector<quarkdb::RaftEntryWithIndex> out; I nx = 0;
              if (!j->scanContents(c, cnt, "", out, nx).ok()) { bad = "scanContents fails"; break; }
              for (auto& e : out) { seen.push_back(e.index); if (!n.log.count(e.index) || n.log[e.index].term != e.entry.term || n.log[e.index].req != toCmd(e.entry.request)) bad = fmt("scanContents shows a wrong entry %lld", (long long)e.index); }
              if (nx == 0) break;
              if (nx <= c) { bad = "scanContents does not advance"; break; }
              c = nx;
            }
            bool good = (I)seen.size() == span; for (size_t i = 0; i < seen.size(); i++) if (seen[i] != n.start + (I)i) good = false;
            if (!good && bad.empty()) bad = fmt("scanContents lists %zu entries of %lld", seen.size(), (long long)span);
          }
          { int k = (int)std::min<I>(span, 1 + num(0) % 6); std::vector<RaftEntry> v; j->fetch_last(k, v); if ((int)v.size() != k) bad = "fetch_last"; for (size_t i = 0; i < v.size() && bad.empty(); i++) if (v[i].term != n.log[n.size - k + i].term || toCmd(v[i].request) != n.log[n.size - k + i].req) bad = "fetch_last contents"; }
          { I i = n.size + num(0) % 3; auto it = j->getIterator(i, true); if (it.valid()) bad = "iterator past the end is valid"; }
          { I i = n.start + num(0) % span; auto it = j->getIterator(i, true); if (!it.valid() || it.getCurrentIndex() != i) bad = "iterator inside the log is not valid"; }
        }, "query");
        if (!alive) { afterCrash(); continue; }
        if (!bad.empty()) violation("journal-query", bad);
        countProbe("query");
      } else if (l.kind == "reopen") {
        if (!on([&] { delete j; j = nullptr; }, "close")) { afterCrash(); continue; }
        std::string names; int left = liveThreads(1, &names);
        if (left) { sleepFor(100 * MS); if (liveThreads(1, &names)) violation("thread-leak", "threads left after closing the journal: " + names); }
        if (!open()) { afterCrash(); continue; }
        compare("after reopening");
        countProbe("clean reopen");
      } else if (l.kind == "checkpoint") {
        std::string cp = fmt("/vfs/n1/cp%llu", (unsigned long long)rng.next() % 100000); bool ok = false; St o; std::string bad;
        bool alive = on([&] {
          ok = j->checkpoint(cp).ok();
          if (ok) { RaftJournal c(cp); observe(o, &c, bad); }
        }, "checkpoint");
        if (!alive) { afterCrash(); continue; }
        if (!ok) violation("journal-op", "checkpoint fails");
        if (!bad.empty()) violation("journal-observe", "checkpoint: " + bad);
        std::string d = o.diff(cur());
        if (!d.empty()) violation("checkpoint-differs", "checkpoint / journal: " + d);
        vfs::removeTree(cp);
        countProbe("checkpoint");
      } else if (l.kind == "sleep") {
        sleepFor(num(0) * MS);
        if (!node(1).alive) { afterCrash(); continue; }
        hist = {cur()};   // synced once per second, whatever the policy
        countProbe("flushed by the background thread");
      } else if (l.kind == "burst") { burst(num(0), (int)num(1)); }
      else if (l.kind == "crash") {
        if (armed && num(1) != 0) continue;
        power = a[0] == "power";
        if (num(1) == 0) { countFault(power ? "power loss" : "process kill"); killNode(1, power); afterCrash(); }
        else if (!armed) { countFault(power ? "power loss at io point" : "process kill at io point"); armCrash(1, num(1), power); armed = true; }
      }
    }
    if (armed) { disarmCrash(1); armed = false; }
    if (!node(1).alive) afterCrash();
    compare("at the end");
    on([&] { delete j; }, "close");
  }
};
// concurrent users, as in a running node: one appender, one commit setter, one trimmer, term changes, readers, waiters
void Jr::burst(uint64_t seed, int mode) {
  struct Sh { std::vector<std::pair<I, Ent>> acked; std::map<I, Time> sizeAt, commitAt; bool done = false; I target = 0, ctarget = 0; };
  Sh sh; Rng g; g.seed(seed);
  int n = (int)g.range(5, 30);
  St s0 = cur();
  sh.target = s0.size + n; sh.ctarget = s0.commit;
  std::vector<Fiber*> fs;
  RaftJournal* jj = j;
  auto th = [&](const char* nm, std::function<void(Rng&)> f) { uint64_t sd = g.next(); fs.push_back(spawn([f, sd] { Rng r; r.seed(sd); try { f(r); } catch (quarkdb::FatalException& e) { violation("journal-burst", std::string("exception: ") + e.what()); } }, nm, 1)); };
  th("appender", [&](Rng& r) {
    for (int i = 0; i < n; i++) {
      I t = jj->getCurrentTerm(), idx = jj->getLogSize();
      Cmd c = {"SET", "b", fmt("%llu.%d", (unsigned long long)seed, i)};
      bool mk = mode == 2 && r.chance(0.1), ok;
      if (mk) { c = {"JOURNAL_LEADERSHIP_MARKER", std::to_string(t), "n2:7777"}; ok = jj->appendLeadershipMarker(idx, t, srv("n2:7777")); }
      else ok = jj->append(idx, RaftEntry(t, toReq(c)), r.chance(0.2));
      if (!ok) violation("journal-burst", fmt("append %lld by the only appender refused", (long long)idx));
      sh.acked.push_back({idx, {t, c}}); sh.sizeAt[idx + 1] = now();
      if (r.chance(0.3)) sleepFor(r.range(1, 400) * MS);
    }
    sh.target = jj->getLogSize(); sh.done = true;
  });
  th("committer", [&](Rng& r) {
    while (!sh.done || jj->getCommitIndex() < jj->getLogSize() - 1) {
      I c = jj->getCommitIndex(), z = jj->getLogSize();
      I to = c + (z - 1 - c > 0 ? r.range(0, z - 1 - c) : 0);
      if (!jj->setCommitIndex(to)) violation("journal-burst", "commit index refused");
      if (to > c) sh.commitAt[to] = now();
      if (r.chance(0.6)) sleepFor(r.range(1, 300) * MS);
    }
  });
  if (mode >= 1) th("terms", [&](Rng& r) { for (int i = 0; i < 4; i++) { I t = jj->getCurrentTerm() + r.range(0, 2); std::string v = jj->getVotedFor().empty() || t > jj->getCurrentTerm() ? "n3:7777" : ""; jj->setCurrentTerm(t, r.chance(0.5) || v.empty() ? RaftServer() : srv(v)); sleepFor(r.range(1, 700) * MS); } });
  if (mode == 2) th("trimmer", [&](Rng& r) { for (int i = 0; i < 6; i++) { I c = jj->getCommitIndex() - 4; if (c > jj->getLogStart()) jj->trimUntil(c); sleepFor(r.range(1, 500) * MS); } });
  for (int w = 0; w < 2; w++) th("update waiter", [&](Rng& r) {
    while (!sh.done || jj->getLogSize() < sh.target) {
      I z = jj->getLogSize(); Time t = now();
      // the whole log may be written already
      if (sh.done && z >= sh.target) break;
      jj->waitForUpdates(z, std::chrono::milliseconds(20000));
      Time ta = NEVER; for (auto& p : sh.sizeAt) if (p.first > z) ta = std::min(ta, p.second);
      if (ta != NEVER && now() - std::max(t, ta) > 2 * SEC) violation("lost-wakeup", fmt("a thread waiting for entry %lld woke up %.3f s after it had been written", (long long)z, (now() - std::max(t, ta)) / 1e9));
      if (sh.done) break;
      if (r.chance(0.3)) sleepFor(r.range(1, 200) * MS);
    }
  });
  th("commit waiter", [&](Rng& r) {
    I last = s0.size - 1 + n;
    while (jj->getCommitIndex() < last) {
      I c = jj->getCommitIndex(); Time t = now();
      jj->waitForCommits(c);
      Time ta = NEVER; for (auto& p : sh.commitAt) if (p.first > c) ta = std::min(ta, p.second);
      if (ta != NEVER && now() - std::max(t, ta) > 2 * SEC) violation("lost-wakeup", fmt("a thread waiting for commits after %lld woke up %.3f s late", (long long)c, (now() - std::max(t, ta)) / 1e9));
      if (r.chance(0.3)) sleepFor(r.range(1, 100) * MS);
    }
  });
  th("reader", [&](Rng& r) {
    std::map<I, Ent> committed;
    while (!sh.done) {
      I c = jj->getCommitIndex(), z = jj->getLogSize();
      I lo = jj->getLogStart();
      I i = r.range(lo, z - 1);
      RaftEntry e; rocksdb::Status st = jj->fetch(i, e);
      if (!st.ok()) sleepFor(SEC);
      if (!st.ok() && i >= jj->getLogStart()) violation("journal-burst", fmt("entry %lld cannot be read, log is %lld..%lld", (long long)i, (long long)jj->getLogStart(), (long long)jj->getLogSize() - 1));
      if (st.ok() && i <= c) { Ent x{e.term, toCmd(e.request)}; auto it = committed.find(i); if (it != committed.end() && it->second != x) violation("committed-changed", fmt("entry %lld", (long long)i)); committed[i] = x; }
      if (jj->getCommitIndex() < c) violation("commit-backwards", "during a burst");
      if (r.chance(0.5)) sleepFor(r.range(1, 50) * MS);
    }
  });
  Time dl = now() + 300 * SEC;
  for (auto* f : fs) while (!f->done && !f->dead) if (!blockOn((char*)f + 1, std::min(dl, now() + SEC)) && now() >= dl) violation("lost-wakeup", "thread '" + f->name + "' is still blocked 300 s after the start of the burst");
  bool died = !node(1).alive;
  bool pw = power;
  if (died) { armed = false; disarmCrash(1); j = nullptr; countProbe("crash during a burst"); sleepFor(rng.range(1, 300) * MS); open(); }
  St o; std::string bad;
  if (!on([&] { observe(o, j, bad); }, "observe")) { armed = false; disarmCrash(1); j = nullptr; open(); o = St(); on([&] { observe(o, j, bad); }, "observe"); pw = power; died = true; }
  if (!bad.empty()) violation("journal-observe", "after a burst: " + bad);
  structural(o);
  if (!died || !pw) {
    for (auto& e : sh.acked) if (e.first >= o.start && (!o.log.count(e.first) || o.log[e.first] != e.second)) violation("kill-lost", fmt("entry %lld which was appended is not there", (long long)e.first));
    if (!died && (o.commit != o.size - 1)) violation("journal-burst", "commit index is not where it was set last");
    if (o.term < s0.term) violation("term-backwards", "after a burst");
  } else {
    // the earlier part which was durable at the beginning
    const St& b = hist.front();
    I least = NEVER; for (auto& h : hist) least = std::min(least, h.size);
    if (o.term < b.term || o.size < least || o.commit < b.commit) violation("durable-lost", "after a power loss during a burst: " + o.diff(b, false));
    if (cur().policy == 0) for (auto& e : sh.acked) if (e.first >= o.start && (!o.log.count(e.first) || o.log[e.first] != e.second)) violation("durable-lost", fmt("entry %lld appended under policy 'always' is lost", (long long)e.first));
  }
  // membership rollback information is not visible: bursts do not touch it
  o.prev = s0.prev; o.prevEpoch = s0.prevEpoch;
  if (died && pw && o.epoch != s0.epoch) for (auto& h : hist) if (h.epoch == o.epoch) { o.prev = h.prev; o.prevEpoch = h.prevEpoch; }
  if (!died || !pw) { hist.push_back(o); if (mode >= 0) { sleepFor(3 * SEC); if (!node(1).alive) harnessError("died while sleeping"); hist = {o}; } }
  else hist = {o};
  if (armed) { disarmCrash(1); armed = false; }
  countProbe("concurrent burst");
}
void runJournal(const Plan& p) { Jr x(p); x.run(); }
Reg reg("journal", genJournal, runJournal);
}
