// Two clusters (and strangers) on one network, with addresses and directories mixed up: members of one cluster are added to
// the other, two nodes swap their directories, a node is wiped and set up again as a member of a cluster with another name
// but the same addresses, a node comes back with other timeouts. Whatever happens, nothing of one cluster may ever show up
// in another, and both must stay available as long as their own majority is intact.
#include "scen.hh"
#include "raft/RaftCommon.hh"
#include "raft/RaftJournal.hh"
#include <algorithm>
using namespace scen;
using namespace sim;
namespace {
std::string S(long long v) { return std::to_string(v); }
void genTwins(Plan& p, Rng& r) {
  p.knob("nb", r.chance(0.6) ? 3 : 1);
  p.knob("overlap", r.chance(0.5));       // the second one (if it is a single node) believes the others to be members, too
  p.knobS("idb", r.pick(std::vector<std::string>{"beta", "alphb", "ALPHA", "alpha2", "alph", "xalpha", "alpha-", "Alpha"}));
  p.knobS("idg", r.pick(std::vector<std::string>{"gamma", "alphc", "alpha1", "alp", "ALPHa"}));
  p.knob("pw", r.chance(0.25));
  p.knob("fsync", r.below(3));
  p.knob("faults", r.chance(0.6));
  p.knob("trim", r.chance(0.3));
  p.knob("undo", r.chance(0.5));
  p.knob("sched.mean", r.pick(std::vector<double>{2000, 10000, 40000}));
  int nb = (int)p.get("nb", 1), dur = r.range(6, 40);
  p.knob("dur", dur);
  auto at = [&] { return S(r.range(0, dur * 1000)); };
  auto A = [&] { return r.range(1, 3); };
  auto B = [&] { return r.range(4, 3 + nb); };
  for (int k = r.range(0, 5); k > 0; k--) {
    bool a = r.chance(0.6);
    p.add("mix", {at(), r.chance(0.8) ? "add" : "remove", a ? "A" : "B", S(a ? B() : A())});
  }
  // whoever is not itself any more: at most one of each cluster
  int odd = r.below(5);
  if (odd == 0 || odd == 1) p.add("mix", {at(), "swap", S(A()), S(B())});
  else if (odd == 2 || odd == 3) { p.add("mix", {at(), "wipe", S(A())}); if (nb == 3 && r.chance(0.3)) p.add("mix", {at(), "wipe", S(B())}); }
  else p.add("mix", {at(), "mistime", S(A()), r.chance(0.5) ? "hb" : "high"});
  if (p.get("faults", 0)) for (int k = r.range(1, 6); k > 0; k--) {
    int t = r.chance(0.6) ? A() : B();
    p.add("mix", {at(), r.pick(std::vector<std::string>{"kill", "kill", "iso", "coup", "reset"}), S(t), S(r.range(100, 6000))});
  }
}
struct Twins {
  const Plan& plan;
  Server sv[8];
  std::string dir[8];            // whose directory is at this address: A, B or G
  int gen[8] = {0};
  bool steady[8] = {false};      // running, nothing is being done to it
  bool mist[8] = {false};
  int nb; bool overlap, trim;
  std::string idA = "alpha", idB, idG;
  bool stopW = false, checking = true;
  std::map<std::string, std::pair<long long, long long>> val;  // key -> last acknowledged, last attempted
  long long ctr = 0, acked[2] = {0, 0};
  Twins(const Plan& p) : plan(p) { nb = (int)p.get("nb", 1); overlap = nb == 1 && p.get("overlap", 0); trim = p.get("trim", 0); auto s = [&](const char* k, const char* d) { auto i = p.knobs.find(k); return i == p.knobs.end() ? std::string(d) : i->second; }; idB = s("idb", "beta"); idG = s("idg", "gamma"); }
  int lo(char c) const { return c == 'A' ? 1 : 4; }
  int hi(char c) const { return c == 'A' ? 3 : 3 + nb; }
  bool live(char c) const { return c == 'A' || !overlap; }
  bool home(int n, char c) const { return n >= lo(c) && n <= hi(c); }
  std::string id(char c) const { return c == 'A' ? idA : c == 'B' ? idB : idG; }
  bool ask(int n, const Cmd& c, Reply& r, Time limit = 4 * SEC) {
    Conn k;
    if (!node(n).alive || !k.open(fmt("n%d", n), 7777, 2 * SEC)) return false;
    if (plan.get("pw", 0) && (!k.call({"AUTH", "the-common-password-of-both-of-these"}, r, limit) || r.err())) return false;
    return k.call(c, r, limit);
  }
  static std::string value(const Reply& r, const std::string& key) { for (auto& l : r.k) if (l.s.compare(0, key.size() + 1, key + " ") == 0) return l.s.substr(key.size() + 1); return ""; }
  // one look at a node: is it what it should be?
  void look(int n) {
    int g = gen[n]; char c = dir[n][0];
    if (!steady[n]) return;
    Reply r;
    if (!ask(n, {"RAFT_INFO"}, r) || r.t != '*') return;
    if (!steady[n] || gen[n] != g) return;
    std::string st = value(r, "STATUS"), ld = value(r, "LEADER"), ci = value(r, "CLUSTER-ID");
    if (ci != id(c)) violation("cluster-mixed", fmt("node %d, set up for cluster %s, says it belongs to %s", n, id(c).c_str(), ci.c_str()));
    int l = ld.size() > 1 && ld[0] == 'n' ? atoi(ld.c_str() + 1) : 0;
    if (c == 'G' || (c == 'B' && overlap)) {
      if (st == "LEADER" || l) violation("foreign-leader", fmt("node %d of cluster %s, which has no other node, is %s and has leader %s", n, id(c).c_str(), st.c_str(), ld.c_str()));
      if (value(r, "LOG-SIZE") != "1") violation("cluster-mixed", fmt("node %d of cluster %s, which has no other node, has %s journal entries", n, id(c).c_str(), value(r, "LOG-SIZE").c_str()));
    } else {
      if (l && !home(l, c)) violation("foreign-leader", fmt("node %d of cluster %s has leader %s", n, id(c).c_str(), ld.c_str()));
      if (st == "LEADER" && !home(n, c)) violation("foreign-leader", fmt("node %d, which holds the directory of another node of cluster %s and is no member, is a leader", n, id(c).c_str()));
      if (st == "LEADER" && mist[n]) violation("foreign-leader", fmt("node %d runs with different timeouts than the rest of cluster %s, and is leader", n, id(c).c_str()));
    }
    countProbe("looked at a node");
  }
  void looker() { Rng r = subRng(plan, "look"); while (checking) { look((int)r.range(1, 3 + nb)); sleepFor(r.range(20, 400) * MS); } }
  bool leaderCall(char c, const Cmd& q, Reply& r, Time limit) {
    Time dl = now() + limit;
    static int rot = 0;
    while (now() < dl) {
      int k = lo(c) + rot++ % (hi(c) - lo(c) + 1);
      if (ask(k, q, r) && !r.err()) return true;
      sleepFor(100 * MS);
    }
    return false;
  }
  void writer(char c) {
    Rng r = subRng(plan, c == 'A' ? "wa" : "wb");
    while (!stopW) {
      long long n = ++ctr;
      std::string key = std::string(1, (char)(c + 32)) + S((long long)r.below(7));
      auto& v = val[key];
      v.second = n;
      Reply q;
      if (leaderCall(c, {"SET", key, S(n)}, q, 3 * SEC)) { v.first = n; acked[c == 'B']++; }
      sleepFor(r.range(5, 150) * MS);
    }
  }
  void start(int n) { sv[n].start(); if (!sv[n].waitUp(120 * SEC)) violation("not-starting", fmt("node %d does not start: %s", n, node(n).deathReason.c_str())); gen[n]++; steady[n] = true; }
  void take(int n) { steady[n] = false; gen[n]++; if (node(n).alive) sv[n].kill(false); sleepFor(5 * MS); }
  void apply(const Cmd& e) {
    const std::string& w = e[1];
    Reply r;
    if (w == "add" || w == "remove") {
      char c = e[2][0]; int n = atoi(e[3].c_str());
      if (!live(c)) return;
      leaderCall(c, {w == "add" ? "RAFT_ADD_OBSERVER" : "RAFT_REMOVE_MEMBER", fmt("n%d:7777", n)}, r, 2 * SEC);
      if (w == "add" && dir[n][0] != c) leaderCall(c, {"RAFT_PROMOTE_OBSERVER", fmt("n%d:7777", n)}, r, 300 * MS), r.err() || r.t == 0 ? void() : violation("foreign-promoted", fmt("node %d of another cluster was promoted to a member of %s", n, id(c).c_str()));
      countProbe(w == "add" ? "member of another cluster added as observer" : "member of another cluster removed");
    } else if (w == "swap") {
      int a = atoi(e[2].c_str()), b = atoi(e[3].c_str());
      take(a); take(b);
      vfs::renameTo(sv[a].dbPath(), fmt("/vfs/n%d/tmpdb", a));
      vfs::copyTree(sv[b].dbPath(), sv[a].dbPath()); vfs::removeTree(sv[b].dbPath());
      vfs::copyTree(fmt("/vfs/n%d/tmpdb", a), sv[b].dbPath()); vfs::removeTree(fmt("/vfs/n%d/tmpdb", a));
      std::swap(dir[a], dir[b]);
      countFault("directories of two nodes swapped");
      start(a); start(b);
    } else if (w == "wipe") {
      int n = atoi(e[2].c_str()); char c = dir[n][0];
      if (c == 'G' || !home(n, c)) return;
      take(n);
      vfs::renameTo(sv[n].dbPath(), fmt("/vfs/n%d/olddb", n));
      std::vector<std::string> m;
      for (int i = lo(c); i <= hi(c); i++) m.push_back(fmt("n%d:7777", i));
      conf(n);
      if (!sv[n].bootstrap(idG, m, 0, (int)plan.get("fsync", 2))) harnessError("wipe");
      dir[n] = std::string("G") + c;
      conf(n);
      countFault("node wiped and set up for another cluster");
      start(n);
    } else if (w == "mistime") {
      int n = atoi(e[2].c_str());
      take(n);
      if (e[3] == "hb") sv[n].tHb = 240; else sv[n].tHigh = 1501;
      mist[n] = true;
      countFault("node restarted with other timeouts");
      start(n);
    } else if (w == "kill") { int n = atoi(e[2].c_str()); take(n); countFault("kill"); sleepFor(atoi(e[3].c_str()) * MS); start(n); }
    else if (w == "iso") {
      int n = atoi(e[2].c_str());
      for (int i = 1; i <= 3 + nb; i++) if (i != n) { net::block(i, n, true); net::block(n, i, true); }
      sleepFor(atoi(e[3].c_str()) * MS);
      net::healAll();
    } else if (w == "coup") { ask(atoi(e[2].c_str()), {"RAFT_ATTEMPT_COUP"}, r); countFault("coup"); }
    else if (w == "reset") { int n = atoi(e[2].c_str()); for (int i = 1; i <= 3 + nb; i++) if (i != n) net::resetAll(i, n); }
  }
  void conf(int n) { if (plan.get("pw", 0)) sv[n].extraConf = "redis.password the-common-password-of-both-of-these\n"; sv[n].writeConf(); }
  void progress(char c) {
    Time t0 = now();
    Reply r;
    if (!leaderCall(c, {"SET", std::string(1, (char)(c + 32)) + "fin", "1"}, r, 90 * SEC)) violation("no-progress", fmt("cluster %s accepts no writes although a majority of its members runs", id(c).c_str()));
    countProbe("progress"); (void)t0;
    for (auto& x : val) {
      if (x.first[0] != c + 32) continue;
      if (!leaderCall(c, {"GET", x.first}, r, 60 * SEC)) violation("no-progress", fmt("cluster %s does not serve", id(c).c_str()));
      long long v = r.t == '$' ? atoll(r.s.c_str()) : 0;
      if (v < x.second.first || v > x.second.second) violation("contents", fmt("%s of cluster %s is '%s', last acknowledged %lld, last attempted %lld", x.first.c_str(), id(c).c_str(), r.str().c_str(), x.second.first, x.second.second));
    }
    for (int i = 0; i < 7; i++) {
      std::string o = std::string(1, (char)((c == 'A' ? 'B' : 'A') + 32)) + S(i);
      if (leaderCall(c, {"EXISTS", o}, r, 60 * SEC) && r != rInt(0)) violation("cluster-mixed", fmt("cluster %s contains %s, which was written to the other one", id(c).c_str(), o.c_str()));
    }
  }
  void inspect(int n) {
    char c = dir[n][0];
    std::string path = sv[n].dbPath() + "/current/raft-journal", err;
    startNode(n);
    bool ok = onNode(n, [&, c] {
      quarkdb::RaftJournal j(path);
      if (j.getClusterID() != id(c)) { err = "belongs to cluster " + j.getClusterID(); return; }
      if ((c == 'G' || (c == 'B' && overlap)) && j.getLogSize() != 1) { err = "has " + S(j.getLogSize()) + " entries"; return; }
      for (auto i = std::max<quarkdb::LogIndex>(1, j.getLogStart()); i < j.getLogSize(); i++) {
        quarkdb::RaftEntry e;
        if (!j.fetch(i, e).ok()) { err = "entry " + S(i) + " is missing"; return; }
        for (size_t k = 0; k < e.request.size(); k++) {
          std::string x(e.request[k].data(), e.request[k].size());
          if (x.find("SET") != std::string::npos && e.request.size() > k + 1) { std::string y(e.request[k + 1].data(), e.request[k + 1].size()); if (y.size() >= 2 && (y[0] == 'a' || y[0] == 'b') && y[0] == c + 32) countProbe("entry of the right cluster"); else if (y.size() >= 2 && (y[0] == 'a' || y[0] == 'b')) err = "entry " + S(i) + " writes " + y; }
        }
      }
    }, "inspect", 60 * SEC);
    if (!ok) violation("cluster-mixed", fmt("the journal of node %d cannot be read: %s", n, node(n).deathReason.c_str()));
    if (!err.empty()) violation("cluster-mixed", fmt("the journal at node %d of cluster %s %s", n, id(c).c_str(), err.c_str()));
    stopNode(n);
    countProbe("journal inspected");
  }
  void run() {
    int N = 3 + nb;
    std::vector<std::string> ma = {"n1:7777", "n2:7777", "n3:7777"}, mb;
    if (overlap) mb = ma;
    for (int i = 4; i <= N; i++) mb.push_back(fmt("n%d:7777", i));
    for (int i = 1; i <= N; i++) {
      sv[i].id = i; dir[i] = i <= 3 ? "A" : "B";
      if (plan.get("pw", 0)) sv[i].extraConf = "redis.password the-common-password-of-both-of-these\n";
      if (!sv[i].bootstrap(i <= 3 ? idA : idB, i <= 3 ? ma : mb, 0, (int)plan.get("fsync", 2))) harnessError("bootstrap");
    }
    for (int i = 1; i <= N; i++) sv[i].start();
    for (int i = 1; i <= N; i++) { if (!sv[i].waitUp(120 * SEC)) violation("not-starting", "a node does not start"); steady[i] = true; }
    Group g;
    g.go([this] { writer('A'); }, "writer-a");
    if (live('B')) g.go([this] { writer('B'); }, "writer-b");
    g.go([this] { looker(); }, "looker");
    Reply r;
    if (trim) for (char c : {'A', 'B'}) if (live(c)) leaderCall(c, {"CONFIG_SET", "raft.trimming", "5:2"}, r, 20 * SEC);
    Time t0 = now();
    std::vector<Line> ev = plan.lines;
    std::stable_sort(ev.begin(), ev.end(), [](const Line& a, const Line& b) { return atol(a.a[0].c_str()) < atol(b.a[0].c_str()); });
    for (auto& l : ev) {
      if (l.kind != "mix" || l.a.size() < 3) continue;
      Time t = t0 + atol(l.a[0].c_str()) * MS;
      if (t > now()) sleepFor(t - now());
      apply(l.a);
    }
    Time e = t0 + (Time)plan.get("dur", 10) * SEC;
    if (e > now()) sleepFor(e - now());
    net::healAll();
    if (plan.get("undo", 0)) {
      for (int i = 1; i <= 3; i++) for (int k = 4; k <= N; k++) if (dir[i] == "B" && dir[k] == "A") apply({"0", "swap", S(i), S(k)});
      for (int i = 1; i <= N; i++) if (dir[i][0] == 'G') { take(i); std::string c = dir[i].substr(1); vfs::removeTree(sv[i].dbPath()); vfs::renameTo(fmt("/vfs/n%d/olddb", i), sv[i].dbPath()); dir[i] = c; start(i); }
      for (int i = 1; i <= N; i++) if (mist[i]) { take(i); sv[i].tHb = 250; sv[i].tHigh = 1500; mist[i] = false; start(i); }
    }
    for (char c : {'A', 'B'}) {
      // with the directory of one node elsewhere a cluster of one has no majority
      bool intact = live(c) && !(c == 'B' && nb == 1 && dir[4] != "B");
      if (!intact) continue;
      long long a0 = acked[c == 'B'];
      Time dl = now() + 120 * SEC;
      while (acked[c == 'B'] < a0 + 3) { if (now() > dl) violation("no-progress", fmt("cluster %s accepts no writes although a majority of its members runs", id(c).c_str())); sleepFor(200 * MS); }
    }
    stopW = true; checking = false; g.join();
    for (int i = 1; i <= N; i++) look(i);
    for (char c : {'A', 'B'}) if (live(c) && !(c == 'B' && nb == 1 && dir[4] != "B")) progress(c);
    for (int i = 1; i <= N; i++) { if (!node(i).alive) violation("node-died", fmt("node %d died: %s", i, node(i).deathReason.c_str())); steady[i] = false; if (!sv[i].stop(120 * SEC)) violation("not-stopping", fmt("node %d does not stop", i)); }
    for (int i = 1; i <= N; i++) inspect(i);
  }
};
void runTwins(const Plan& p) { Twins x(p); x.run(); }
Reg reg("twins", genTwins, runTwins);
}
