// Health reports of standalone nodes and clusters against what really is the case: disk space, manifest age, quorum,
// replicas; node failures, partitions, stalls and disk changes. Background checksum scans: when they run, what they find.
#include "scen.hh"
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstdlib>
using namespace scen;
using namespace sim;
namespace {
std::string S(long long v) { return std::to_string(v); }
const uint64_t GiB = 1ULL << 30;
void genHealth(Plan& p, Rng& r) {
  bool raft = r.chance(0.6);
  p.knob("raft", raft); raft = p.get("raft", 0);
  p.knob("nodes", raft ? r.pick(std::vector<double>{1, 2, 3, 3, 3, 4, 5, 5}) : 1);
  p.knob("extra", raft && r.chance(0.35) ? 1 : 0);
  p.knob("net.resolvefail", 0);
  p.knob("rto", r.pick(std::vector<double>{15, 900}));
  p.knob("sched.mean", r.pick(std::vector<double>{300, 1000, 3000}));
  int n = (int)p.get("nodes", 1), all = n + (int)p.get("extra", 0);
  p.knob("events", r.range(4, 14));
  int ev = (int)p.get("events", 8);
  auto disk = [&](int nd) {
    uint64_t tot = r.chance(0.5) ? (uint64_t)r.range(1, 60) * GiB : r.chance(0.5) ? (uint64_t)r.range(60, 400) * GiB : (uint64_t)r.range(1, 2000) * (GiB / 8);
    uint64_t av;
    switch (r.below(5)) {
      case 0: av = r.pick(std::vector<uint64_t>{GiB - 4096, GiB, GiB + 4096, 5 * GiB - 4096, 5 * GiB, 5 * GiB + 4096, 0}); break;
      case 1: av = (uint64_t)((double)tot * (0.001 * (double)r.range(20, 40))) / 4096 * 4096; break;
      case 2: av = (uint64_t)((double)tot * (0.001 * (double)r.range(90, 110))) / 4096 * 4096; break;
      case 3: av = tot / 2 / 4096 * 4096; break;
      default: av = (uint64_t)(r.unit() * (double)tot) / 4096 * 4096;
    }
    if (av > tot) av = tot;
    uint64_t fr = av;
    if (r.chance(0.4)) fr = std::min(tot, av + (uint64_t)(r.unit() * 0.1 * (double)tot) / 4096 * 4096);
    p.add("disk", {S(nd), S((long long)tot), S((long long)fr), S((long long)av)});
  };
  static const long A[] = {-1, 0, 10, 3598, 3599, 3600, 3601, 7200, 86400, -1, -7200};
  for (int i = 0; i < ev; i++) {
    double x = r.unit();
    int nd = (int)r.range(1, all);
    bool longer = false;
    if (x < 0.22) disk(nd);
    else if (x < 0.27) p.add("statfs", {S(nd), S(r.chance(0.6))});
    else if (x < (raft ? 0.33 : 0.6)) { p.add("age", {S(nd), S(A[r.below(11)])}); longer = r.chance(0.8); }
    else if (x < (raft ? 0.36 : 0.65)) p.add("old", {S(nd), r.pick(std::vector<std::string>{"MANIFEST-000000", "MANIFEST-999998", "000000.sst", "999998.sst"}), S(A[r.below(11)])});
    else if (raft && x < 0.5) p.add("iso", {S(nd)});
    else if (raft && x < 0.6) p.add("heal", {});
    else if (x < 0.7) p.add("kill", {S(nd)});
    else if (x < 0.78) p.add("start", {S(r.chance(0.5) ? 0 : nd)});
    else if (x < 0.84) p.add("stall", {S(nd), S(r.range(100, 20000))});
    else if (x < 0.88) p.add("write", {S(r.range(1, 30))});
    else if (x < 0.9) p.add("jump", {S(nd), S(r.range(-100000, 100000))});
    else p.add("scan", {r.chance(0.15) ? r.pick(std::vector<std::string>{"abc", "-5", "10x", "43200"}) : S(r.pick(std::vector<long>{1, 2, 3, 5, 10, 30, 100})), S(r.range(2, 6)), S(r.chance(0.5))});
    if (r.chance(0.75)) p.add("settle", {S(longer || r.chance(raft ? 0.05 : 0.2))});
  }
  if (r.chance(0.3)) { p.add("heal", {}); p.add("start", {"0"}); p.add("settle", {"1"}); }
  if (!raft && r.chance(0.08)) p.add("default", {S(r.range(1, 2))});
  if (r.chance(0.15)) p.add("corrupt", {S(r.range(1, n)), S(r.range(1, 5)), S(r.chance(0.5))});
}
struct Ind { std::string st, d, m; };
struct Rep { bool ok = false; std::string overall, node; std::vector<Ind> v; std::string text; };
int sev(const std::string& s) { return s == "GREEN" ? 0 : s == "YELLOW" ? 1 : s == "RED" ? 2 : 9; }
struct Hl {
  const Plan& plan;
  explicit Hl(const Plan& p) : plan(p) {}
  std::vector<Server> sv;
  bool raft = false; int n = 1, all = 1;
  struct Nd { bool up = false, iso = false, sfail = false; uint64_t tot = 1ULL << 40, fr = 1ULL << 39, av = 1ULL << 39; Time aged = -1; Time started = 0; };
  std::vector<Nd> nd;
  bool observer = false;
  struct Scan { int node; Time t; };
  std::vector<Scan> scans;
  bool periodSet = false; Time period = 0; Time lastRemake = 0;
  bool call(int i, const Cmd& c, Reply& r, Time to = 10 * SEC) {
    Conn k;
    if (!k.open(fmt("n%d", i), 7777, 3 * SEC, "client")) return false;
    return k.call(c, r, to);
  }
  std::string smDir(int i) { return fmt("/vfs/n%d/db/current/state-machine", i); }
  // newest file of a kind, seconds
  bool newest(int i, bool manifest, Time& t) {
    bool any = false; t = 0;
    auto d = vfs::lookup(smDir(i));
    if (!d) return false;
    for (auto& k : d->kids) {
      bool m = k.first.compare(0, 8, "MANIFEST") == 0, s = k.first.size() > 4 && k.first.substr(k.first.size() - 4) == ".sst";
      if (manifest ? m : s) { if (!any || k.second->mtime > t) t = k.second->mtime; any = true; }
    }
    return any;
  }
  // 0 in order, 1 too old
  int manifestWant(int i) {
    Time m, s;
    if (!newest(i, true, m) || !newest(i, false, s)) return 0;
    return s / SEC - m / SEC >= 3600;
  }
  std::string diskWant(int i) {
    if (nd[i].sfail) return "RED";
    double used = (double)(nd[i].tot - nd[i].fr), pct = 100.0 * (double)nd[i].av / (used + (double)nd[i].av);
    int w = 0;
    if (nd[i].av <= GiB) w = 2; else if (nd[i].av <= 5 * GiB) w = 1;
    if (fabs(pct - 3) < 1e-6 || fabs(pct - 10) < 1e-6) return "?";
    if (pct < 3) w = 2; else if (pct < 10) w = std::max(w, 1);
    return w == 2 ? "RED" : w == 1 ? "YELLOW" : "GREEN";
  }
  Rep ask(int i) {
    Rep h; Reply r;
    if (!call(i, {"QUARKDB_HEALTH"}, r) || r.t != '*') return h;
    bool list = false;
    for (auto& l : r.k) {
      h.text += l.s + "; ";
      if (l.s == "----------") { list = true; continue; }
      if (!list) { if (l.s.compare(0, 12, "NODE-HEALTH ") == 0) h.overall = l.s.substr(12); else if (l.s.compare(0, 5, "NODE ") == 0) h.node = l.s.substr(5); continue; }
      size_t q = l.s.find(">> ");
      if (q == std::string::npos) violation("health-format", "unexpected line " + escape(l.s));
      Ind x; x.st = l.s.substr(0, q);
      while (!x.st.empty() && x.st.back() == ' ') x.st.pop_back();
      std::string rest = l.s.substr(q + 3); size_t sp = rest.find(' ');
      x.d = rest.substr(0, sp); x.m = sp == std::string::npos ? "" : rest.substr(sp + 1);
      if (sev(x.st) == 9) violation("health-format", "unexpected status in " + escape(l.s));
      h.v.push_back(x);
    }
    h.ok = true;
    int w = 0; bool sawDisk = false;
    for (auto& x : h.v) {
      w = std::max(w, sev(x.st));
      if (x.d == "SM-FREE-SPACE") {
        sawDisk = true;
        std::string want = diskWant(i);
        if (want != "?" && want != x.st) violation("health-disk", fmt("disk of %llu bytes, %llu available (%llu free): reported %s %s, expected %s", (unsigned long long)nd[i].tot, (unsigned long long)nd[i].av, (unsigned long long)nd[i].fr, x.st.c_str(), x.m.c_str(), want.c_str()));
        if (!nd[i].sfail && strtoull(x.m.c_str(), nullptr, 10) != nd[i].av) violation("health-disk", fmt("%llu bytes available, reported '%s'", (unsigned long long)nd[i].av, x.m.c_str()));
        countProbe(("disk space reported " + x.st).c_str());
      }
    }
    if (!sawDisk) violation("health-disk", "no disk space indicator: " + h.text);
    if (h.overall != (w == 2 ? "RED" : w == 1 ? "YELLOW" : "GREEN")) violation("health-overall", "overall health is not the worst indicator: " + h.text);
    return h;
  }
  // a single voter needs nobody else
  bool inGroup(int i) { return nd[i].up && (!nd[i].iso || (n == 1 && i == 1)); }
  bool reach(int i, int j) { return nd[i].up && nd[j].up && !nd[i].iso && !nd[j].iso; }
  int groupVoters() { int k = 0; for (int i = 1; i <= n; i++) k += inGroup(i); return k; }
  // why the report of a node disagrees with the facts; empty when it agrees
  std::string judge(int i, const Rep& h, int man, std::string& leader) {
    if (!h.ok) return "no health report";
    std::vector<Ind> rest; bool sawMan = false;
    for (auto& x : h.v) {
      if (x.d == "SM-FREE-SPACE") continue;
      if (x.d == "SM-MANIFEST-TIMEDIFF") { sawMan = true; if (man >= 0 && x.st != (man ? "RED" : "GREEN")) return fmt("manifest reported %s '%s' although it is %s", x.st.c_str(), x.m.c_str(), man ? "an hour older than the data" : "fine"); if (man == 1) countProbe("stale manifest reported"); continue; }
      rest.push_back(x);
    }
    if (!sawMan) return "no manifest indicator";
    if (!raft) return rest.empty() ? "" : "unexpected indicators";
    bool quorum = groupVoters() >= n / 2 + 1;
    bool part = quorum && inGroup(i) && !(n == 1 && i > 1 && nd[1].iso);
    if (rest.empty() || rest[0].d != "PART-OF-QUORUM") return "no quorum indicator";
    if (h.node != fmt("n%d:7777", i)) return "node name " + h.node;
    bool lead = rest.size() > 1;
    if (!part) {
      if (rest[0].st != "RED" || rest[0].m != "No") return "claims to be part of the quorum: " + rest[0].m;
      if (lead) return "cut off, but reports like a leader";
      countProbe("cut-off node reported");
      return "";
    }
    if (rest[0].st != "GREEN" || rest[0].m.compare(0, 13, "Yes | LEADER ") != 0) return "part of the quorum, but says " + rest[0].m;
    std::string L = rest[0].m.substr(13);
    if (leader.empty()) leader = L; else if (leader != L) return "leaders differ: " + leader + " and " + L;
    int li = atoi(L.c_str() + 1);
    if (li < 1 || li > n || !inGroup(li)) return "the leader it names is not reachable: " + L;
    if (lead != (li == i)) return lead ? "reports like a leader, but names " + L : "is the leader, but shows no replicas";
    if (!lead) return "";
    if (rest[1].d != "QUORUM-STABILITY") return "no stability indicator";
    // one more failure among the voters costs the quorum; a cluster of two is always in that state and not reported
    bool shaky = n > 2 && groupVoters() == n / 2 + 1;
    if (rest[1].st != (shaky ? "YELLOW" : "GREEN") || rest[1].m != (shaky ? "Shaky" : "Good")) return fmt("%d of %d voters work, but the quorum is said to be %s", groupVoters(), n, rest[1].m.c_str());
    countProbe(shaky ? "shaky quorum reported" : "stable quorum reported");
    std::map<std::string, const Ind*> rep;
    for (size_t k = 2; k < rest.size(); k++) {
      if (rest[k].d != "REPLICA") return "unexpected indicator " + rest[k].d;
      if (!rep.insert({rest[k].m.substr(0, rest[k].m.find(' ')), &rest[k]}).second) return "replica listed twice";
    }
    int lim = observer ? all : n;
    if ((int)rep.size() != lim - 1) return fmt("%zu replicas listed, expected %d", rep.size(), lim - 1);
    for (int j = 1; j <= lim; j++) {
      if (j == i) continue;
      auto it = rep.find(fmt("n%d:7777", j));
      if (it == rep.end()) return fmt("n%d is not listed", j);
      bool on = it->second->m.find("| ONLINE |") != std::string::npos, off = it->second->m.find("| OFFLINE") != std::string::npos;
      if (on == off) return "unclear replica state " + it->second->m;
      if (on != reach(i, j)) return fmt("n%d is %s, but reported as %s", j, reach(i, j) ? "reachable" : "unreachable", it->second->m.c_str());
      if (on && it->second->m.find("UP-TO-DATE") == std::string::npos) return fmt("n%d is up to date, but reported as %s", j, it->second->m.c_str());
      if (it->second->st != (on ? "GREEN" : "YELLOW")) return fmt("status of n%d: %s %s", j, it->second->st.c_str(), it->second->m.c_str());
      countProbe(on ? "replica reported online" : "replica reported offline");
    }
    return "";
  }
  std::string value(const Reply& r, const std::string& key) { for (auto& l : r.k) if (l.s.compare(0, key.size() + 1, key + " ") == 0) return l.s.substr(key.size() + 1); return "?"; }
  void settle(bool lng) {
    std::vector<int> before(all + 1, -1);
    for (int i = 1; i <= all; i++) before[i] = manifestWant(i);
    // one check period of the manifest checker, or the time in which a cluster notices failures
    sleepFor((lng ? 5 * 60 + 12 : 12) * SEC);
    Time dl = now() + 60 * SEC;
    std::string why;
    for (;;) {
      why.clear();
      std::string leader;
      for (int i = 1; i <= all && why.empty(); i++) {
        if (!nd[i].up) continue;
        if (i > n && !observer) continue;
        if (!node(i).alive) violation("node-died", fmt("node %d died: %s", i, node(i).deathReason.c_str()));
        int man = lng && before[i] == manifestWant(i) ? before[i] : -1;
        Rep h = ask(i);
        why = judge(i, h, man, leader);
        if (!why.empty()) { why = fmt("n%d: ", i) + why + " [" + h.text + "]"; break; }
        Reply q;
        if (!call(i, {"QUARKDB_INFO"}, q) || value(q, "NODE-HEALTH") != h.overall) why = fmt("n%d: QUARKDB_INFO shows %s instead of %s", i, value(q, "NODE-HEALTH").c_str(), h.overall.c_str());
        else if (raft && (!call(i, {"RAFT_INFO"}, q) || value(q, "NODE-HEALTH") != h.overall)) why = fmt("n%d: RAFT_INFO shows %s instead of %s", i, value(q, "NODE-HEALTH").c_str(), h.overall.c_str());
        else if (raft) {
          std::string l = value(q, "LEADER");
          Reply one;
          if (!call(i, {"RAFT_INFO", "leader"}, one) || one != rStr(l)) why = fmt("n%d: RAFT_INFO leader says %s, RAFT_INFO %s", i, one.str().c_str(), l.c_str());
        }
      }
      if (why.empty()) { countProbe(lng ? "health agreed after a check period" : "health agreed"); return; }
      if (now() >= dl) violation("health-wrong", why);
      sleepFor(700 * MS);
    }
  }
  void links() { for (int i = 1; i <= all; i++) for (int j = 1; j <= all; j++) if (i != j) net::block(i, j, nd[i].iso || nd[j].iso); }
  void startOne(int i) {
    if (nd[i].up || i > all) return;
    sv[i].start();
    if (!sv[i].waitUp(120 * SEC)) violation("not-starting", fmt("node %d does not start: %s", i, node(i).deathReason.c_str()));
    nd[i].up = true; nd[i].started = now();
  }
  bool write(const Cmd& c, Time limit) {
    Time dl = now() + limit;
    int k = 1;
    while (now() < dl) {
      Reply r;
      if (inGroup(k) && call(k, c, r)) {
        if (!r.err()) return true;
        if (r.s.compare(0, 6, "MOVED ") == 0) { size_t p = r.s.rfind(" n"); if (p != std::string::npos) { int m = atoi(r.s.c_str() + p + 2); if (m >= 1 && m <= all) { k = m; sleepFor(50 * MS); continue; } } }
      }
      k = k % n + 1;
      sleepFor(200 * MS);
    }
    return false;
  }
  bool quorate() { return raft ? groupVoters() >= n / 2 + 1 : nd[1].up; }
  Time verified(int i, Time after) { Time last = -1; for (auto& s : scans) if (s.node == i && s.t > after) { last = s.t; break; } return last; }
  void scan(const std::string& p, int rounds, bool load) {
    if (!quorate()) return;
    if (!write({"CONFIG_SET", "state-machine.consistency-check.period", p}, 60 * SEC)) violation("not-serving", "cannot set the scan period");
    bool valid = !p.empty() && p.find_first_not_of("0123456789") == std::string::npos;
    Time per = valid ? (Time)atoll(p.c_str()) * SEC : 43200 * SEC;
    sleepFor(5 * SEC);  // replicas apply the change
    Time t0 = now(), W = valid && per < 1000 * SEC ? per * rounds + 10 * SEC : 60 * SEC;
    bool stop = false; Fiber* f = nullptr; int wr = 0; std::string bad;
    if (load) f = spawn([&] { while (!stop) { if (!write({"HSET", "load", S(wr % 50), S(wr)}, 20 * SEC)) { bad = "a write does not succeed while checksums are verified"; break; } wr++; sleepFor(100 * MS); } }, "load", 0);
    sleepFor(W);
    stop = true;
    if (f) { joinFiber(f); if (!bad.empty()) violation("not-serving", bad); }
    Time t1 = now();
    for (int i = 1; i <= all; i++) {
      if (!inGroup(i) || (i > n && (!observer || (n == 1 && nd[1].iso)))) continue;
      if (!node(i).alive) violation("node-died", fmt("node %d died while its intact store was verified: %s", i, node(i).deathReason.c_str()));
      std::vector<Time> v;
      for (auto& s : scans) if (s.node == i && s.t >= t0) v.push_back(s.t);
      if (per > W) {
        if (!v.empty() && t1 - nd[i].started < 43200 * SEC) violation("scan-schedule", fmt("n%d verified its checksums although the period is %s", i, p.c_str()));
        continue;
      }
      Time prev = t0;
      bool first = true;
      v.push_back(t1);
      for (size_t k = 0; k < v.size(); k++) {
        Time gap = v[k] - prev;
        if (gap > per + 4 * SEC) violation("scan-schedule", fmt("n%d: %.3f s without a checksum scan, the period is %s s", i, (double)gap / SEC, p.c_str()));
        if (!first && k + 1 < v.size() && gap < per - 50 * MS) violation("scan-schedule", fmt("n%d: checksum scans %.3f s apart, the period is %s s", i, (double)gap / SEC, p.c_str()));
        prev = v[k]; first = false;
      }
      countProbe("scan schedule checked");
    }
    periodSet = true;
  }
  void corrupt(int i, int per, bool ask1) {
    for (int k = 1; k <= all; k++) nd[k].iso = false;
    links();
    for (int k = 1; k <= all; k++) startOne(k);
    if (!write({"SET", "x", "y"}, 60 * SEC)) violation("not-serving", "no write succeeds in a healed cluster");
    sleepFor(3 * SEC);
    Reply r;
    if (!call(i, {"QUARKDB_MANUAL_COMPACTION"}, r, 30 * SEC)) violation("not-serving", "no reply to a manual compaction");
    if (!call(i, {"QUARKDB_VERIFY_CHECKSUM"}, r, 30 * SEC) || r.k.size() != 1 || r.k[0].s != "state-machine: OK") violation("scan-result", "verification of an intact store: " + r.str());
    auto d = vfs::lookup(smDir(i));
    auto files = [&] {
      std::vector<vfs::Ptr> v;
      for (auto& k : d->kids) if (k.first.size() > 4 && k.first.substr(k.first.size() - 4) == ".sst" && k.second->data.size() > 1) v.push_back(k.second);
      return v;
    };
    if (files().empty()) return;
    g_abortAllowed[i] = true;
    if (!write({"CONFIG_SET", "state-machine.consistency-check.period", ask1 ? "40000" : S(per)}, 60 * SEC)) violation("not-serving", "cannot set the scan period");
    sleepFor(2 * SEC);
    if (!node(i).alive) violation("node-died", fmt("node %d died: %s", i, node(i).deathReason.c_str()));
    for (auto& f : files()) f->data[f->data.size() / 2] ^= 1;   // all: some may be left-overs of an interrupted flush, no part of the store
    countFault("data file corrupted");
    if (ask1) {
      if (!call(i, {"QUARKDB_VERIFY_CHECKSUM"}, r, 30 * SEC) || r.k.size() != 1 || r.k[0].s.find("Corruption") == std::string::npos) violation("scan-result", "verification of a corrupted store: " + r.str());
      countProbe("corruption reported on request");
      if (!write({"CONFIG_SET", "state-machine.consistency-check.period", S(per)}, 60 * SEC) && node(i).alive) violation("not-serving", "cannot set the scan period");
      sleepFor(5 * SEC);
    }
    Time dl = now() + per * SEC + 6 * SEC;
    while (node(i).alive && now() < dl) sleepFor(100 * MS);
    if (node(i).alive) violation("scan-missed", fmt("n%d keeps running on a corrupted store, the scan period is %d s", i, per));
    if (node(i).deathReason.find("checksum") == std::string::npos) violation("node-died", fmt("node %d died: %s", i, node(i).deathReason.c_str()));
    countProbe("corruption found by the background scan");
    nd[i].up = false;
  }
  void run() {
    g_abortIsViolation = true;
    net::cfg.rtoReset = (Time)plan.get("rto", 15) * SEC;
    raft = plan.get("raft", 0); n = raft ? (int)plan.get("nodes", 1) : 1; all = n + (raft ? (int)plan.get("extra", 0) : 0);
    sv.resize(all + 1); nd.resize(all + 1);
    rocksdb::g_simVerify = [this](int k, const std::string& dir) { if (dir.find("state-machine") != std::string::npos) scans.push_back({k, now()}); };
    vfs::g_fault = [this](int k, const char* op, const std::string&) -> int { if (k >= 1 && k <= all && nd[k].sfail && !strcmp(op, "statfs")) { countFault("statfs failure"); return EIO; } return 0; };
    std::vector<std::string> mem;
    if (raft) for (int i = 1; i <= n; i++) mem.push_back(fmt("n%d:7777", i));
    for (int i = 1; i <= all; i++) {
      sv[i].id = i; sv[i].mode = raft ? "raft" : "standalone";
      vfs::setDisk(i, nd[i].tot, nd[i].fr, nd[i].av);
      if (!sv[i].bootstrap("health-cluster", i <= n ? mem : std::vector<std::string>{"LIMBO"})) violation("bootstrap-failed", "creating the database failed without any fault");
    }
    for (int i = 1; i <= all; i++) startOne(i);
    if (!write({"SET", "first", "write"}, 60 * SEC)) violation("not-serving", "no write succeeds without any fault");
    while (all > n && !observer) {
      // acknowledged before it is committed, so that a change of the leader can undo it
      write({"RAFT_ADD_OBSERVER", fmt("n%d:7777", all)}, 60 * SEC);
      if (!write({"SET", "second", "write"}, 60 * SEC)) violation("not-serving", "no write succeeds without any fault");
      Reply r;
      observer = call(1, {"RAFT_INFO"}, r) && value(r, "OBSERVERS") == fmt("n%d:7777", all);
      if (!observer) { if (now() > 300 * SEC) violation("not-serving", "cannot add an observer"); sleepFor(2 * SEC); }
    }
    for (auto& l : plan.lines) {
      const Cmd& a = l.a;
      auto I = [&](size_t k) { return k < a.size() ? atoll(a[k].c_str()) : 0; };
      int i = (int)I(0);
      if (l.kind == "disk" && i >= 1 && i <= all) { nd[i].tot = (uint64_t)I(1); nd[i].fr = (uint64_t)I(2); nd[i].av = (uint64_t)I(3); vfs::setDisk(i, nd[i].tot, nd[i].fr, nd[i].av); countFault("disk space changed"); if (nd[i].up) ask(i); }
      else if (l.kind == "statfs" && i >= 1 && i <= all) { nd[i].sfail = I(1); if (nd[i].up) ask(i); }
      else if (l.kind == "age" && i >= 1 && i <= all) {
        std::string fk = smDir(i) + "/999999.sst";
        Time m;
        if (I(1) == -1) { vfs::removeTree(fk); continue; }
        if (!newest(i, true, m)) continue;
        auto f = vfs::create(fk, "x", 0644);
        if (f) { f->mtime = m + (Time)I(1) * SEC; countFault("manifest and data age apart"); }
      }
      else if (l.kind == "old" && i >= 1 && i <= all && a.size() > 2) {
        Time m;
        if (!newest(i, true, m)) continue;
        auto f = vfs::create(smDir(i) + "/" + a[1], "x", 0644);
        if (f) { f->mtime = m - (Time)labs((long)I(2)) * SEC; countFault("older file left behind"); }
      }
      else if (l.kind == "iso" && i >= 1 && i <= all) { nd[i].iso = true; links(); countFault("node isolated"); }
      else if (l.kind == "heal") { for (auto& x : nd) x.iso = false; links(); }
      else if (l.kind == "kill" && i >= 1 && i <= all) { if (nd[i].up) { sv[i].kill(false); nd[i].up = false; countFault("node killed"); } }
      else if (l.kind == "start") { for (int k = 1; k <= all; k++) if (i == 0 || i == k) startOne(k); }
      else if (l.kind == "stall" && i >= 1 && i <= all) { if (nd[i].up) { stallNode(i, now() + I(1) * MS); countFault("node stalled"); } sleepFor(I(1) * MS); }
      else if (l.kind == "write") { for (int k = 0; k < I(0); k++) if (quorate() && !write({"SET", fmt("k%d", k), S((long long)now())}, 60 * SEC)) violation("not-serving", "a cluster with a quorum does not accept writes"); }
      else if (l.kind == "jump" && i >= 1 && i <= all) { node(i).realOffset += (Time)I(1) * SEC; countFault("wall clock jump"); }
      else if (l.kind == "settle") settle(I(0));
      else if (l.kind == "scan") scan(a[0], (int)I(1), I(2));
      else if (l.kind == "default") {
        if (!nd[1].up || periodSet) continue;
        Time t0 = nd[1].started;
        sleepUntil(t0 + (Time)I(0) * 43200 * SEC + 30 * SEC);
        size_t k = 0;
        for (auto& s : scans) if (s.node == 1 && s.t >= t0) k++;
        if (k != (size_t)I(0)) violation("scan-schedule", fmt("%zu checksum scans within %lld periods of 12 hours", k, I(0)));
        countProbe("default scan schedule checked");
      }
      else if (l.kind == "corrupt") corrupt(i, (int)I(1), I(2));
    }
  }
};
void runHealth(const Plan& p) { Hl x(p); x.run(); }
Reg reg("health", genHealth, runHealth);
}
