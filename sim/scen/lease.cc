// Leases on one node (standalone, or a one-member raft cluster) against real time: the lease clock is only known to the
// client as an interval, every reply must be possible for some clock inside it, and the clock may neither go back nor stop.
#include "model.hh"
#include <cerrno>
#include <cstring>
using namespace scen;
using namespace sim;
namespace {
void genLease(Plan& p, Rng& r) {
  p.knob("raft", r.chance(0.5));
  p.knob("crash", r.chance(0.7));
  p.knob("watchers", r.below(3));
  int keys = (int)r.range(1, 4), holders = (int)r.range(2, 3);
  int scale = r.pick(std::vector<int>{40, 400, 4000, 40000});
  int n = (int)r.range(15, 90);
  auto key = [&] { return "l" + std::to_string(r.below(keys)); };
  auto one = [&]() -> Cmd {
    double x = r.unit();
    if (x < 0.45) return {"LEASE_ACQUIRE", key(), "h" + std::to_string(r.below(holders)), r.chance(0.03) ? r.pick(std::vector<std::string>{"0", "-5", "x", "9000000000000000000"}) : std::to_string(r.range(1, scale))};
    if (x < 0.65) return {"LEASE_GET", key()};
    if (x < 0.75) return {"LEASE_RELEASE", key()};
    if (x < 0.81) return {"DEL", key()};
    if (x < 0.84) return {"SET", key(), "v"};
    if (x < 0.86) return {"GET", key()};
    if (x < 0.88) return {"FLUSHALL"};
    if (x < 0.94) return {"CLOCK_GET"};
    return {"LEASE_GET_PENDING_EXPIRATION_EVENTS"};
  };
  for (int i = 0; i < n; i++) {
    double x = r.unit();
    if (x < 0.45) p.add("sleep", {std::to_string(r.chance(0.1) ? r.range(0, scale * 3) : r.range(0, std::max(2, scale / 3)))});
    if (r.chance(0.12)) {
      int k = (int)r.range(1, 4);
      p.add("tx", {std::to_string(k)});
      for (int j = 0; j < k; j++) { Cmd c = one(); while (c[0] == "CLOCK_GET" || c[0].size() > 20) c = one(); p.add("op", c); }
    } else p.add("op", one());
    if (p.get("crash", 0) && r.chance(0.08)) {
      if (r.chance(0.4)) p.add("restart", {});
      else p.add("crash", {std::to_string(r.chance(0.4) ? 0 : r.range(1, 10)), std::to_string(r.range(0, scale))});
    }
  }
}
typedef long long ll;
struct LeaseRun {
  const Plan& plan;
  Server s;
  Conn conn;
  bool raft, done = false;
  struct K { bool held = false, str = false, fuzzy = false; std::string h; ll lo = 0, hi = 0; };
  std::map<std::string, K> m;
  ll sLo = 0, sHi = 0;             // the persisted clock
  ll bLo = 0, bHi = 0;             // what the running clock started from
  Time aLo = 0, aHi = 0;           // when it started
  bool lostAll = false;
  int gen = 0;
  LeaseRun(const Plan& p) : plan(p) { raft = p.get("raft", 0); }
  ll lo(Time t) { return bLo + std::max<ll>(0, (ll)(t - aHi) / MS - 1); }
  ll hi(Time t) { return bHi + (ll)(t - aLo) / MS + 1; }
  void up() {
    gen++;
    for (int i = 0; i < 4; i++) {
      bLo = sLo; bHi = sHi; aLo = now();
      s.start();
      bool served = s.waitUp(30 * SEC);
      Time dl = now() + 30 * SEC;
      while (served && s.alive()) {
        Reply r;
        if (conn.open(s.host(), s.port) && conn.call({"GET", "nosuchkey"}, r) && r.t == 'n') { aHi = now(); return; }
        if (now() > dl) violation("not-serving", "a node without faults did not serve within 30 s");
        sleepFor(50 * MS);
      }
      if (s.alive() || !node(1).deathReason.empty()) break;
      countProbe("crash during startup");
      conn.close();
    }
    violation("restart-failed", fmt("node does not come back after a crash or restart (%s)", s.startFailed ? "start refused" : node(1).deathReason.c_str()));
  }
  std::string state(const std::string& k) { K& x = m[k]; return x.fuzzy ? "?" : x.str ? "string" : x.held ? fmt("held by %s until %lld..%lld", x.h.c_str(), x.lo, x.hi) : "free"; }
  void bad(const char* cls, const Cmd& c, const Reply& r, ll tLo, ll tHi, const std::string& st) { violation(cls, fmt("%s -> %s; clock %lld..%lld, persisted %lld..%lld; the key was %s", show(c).c_str(), r.str().c_str(), tLo, tHi, sLo, sHi, st.c_str())); }
  static bool num(const std::string& s, const std::string& pre, const std::string& post, ll& v) {
    if (s.size() <= pre.size() + post.size() || s.compare(0, pre.size(), pre) || s.compare(s.size() - post.size(), post.size(), post)) return false;
    std::string d = s.substr(pre.size(), s.size() - pre.size() - post.size());
    char* e; errno = 0; v = strtoll(d.c_str(), &e, 10);
    return !*e && !errno;
  }
  // the stored key is still there as long as the persisted clock has not reached its deadline
  bool maybeHeld(const K& k) { return k.held && k.hi > sLo; }
  bool maybeFree(const K& k) { return !k.held || k.lo <= sHi; }
  void clocks(const Cmd& c, const Reply& r, size_t at, ll tLo, ll tHi) {
    ll st, dy;
    if (r.t != '*' || r.k.size() < at + 2 || !num(r.k[0].s, "STATIC-CLOCK: ", "", st) || !num(r.k[1].s, "DYNAMIC-CLOCK: ", "", dy)) violation("wrong-reply", show(c) + " -> " + r.str());
    if (st < sLo || st > sHi) violation(st < sLo ? "clock-backwards" : "clock-wrong", fmt("the persisted clock is %lld, expected %lld..%lld", st, sLo, sHi));
    if (dy < tLo || dy > tHi) violation(dy < tLo ? "clock-backwards" : "clock-wrong", fmt("the running clock is %lld, expected %lld..%lld", dy, tLo, tHi));
    sLo = sHi = st;
    countProbe("clock checked");
  }
  // one executed command; [tLo, tHi]: the stamp
  void exec(const Cmd& c, const Reply& r, ll tLo, ll tHi) {
    trace(fmt("%s -> %s (clock %lld..%lld, persisted %lld..%lld)", show(c).c_str(), r.str().c_str(), tLo, tHi, sLo, sHi));
    if (c[0] == "CLOCK_GET") { clocks(c, r, 0, tLo, tHi); return; }
    if (c[0] == "LEASE_GET_PENDING_EXPIRATION_EVENTS") {
      clocks(c, r, 0, tLo, tHi);
      std::map<std::string, ll> got;
      ll last = 0;
      for (size_t i = 2; i < r.k.size(); i++) {
        size_t p = r.k[i].s.find(": ");
        ll d = atoll(r.k[i].s.c_str());
        std::string k = p == std::string::npos ? "" : r.k[i].s.substr(p + 2);
        if (d < last) violation("events-wrong", "pending expirations out of order: " + r.str());
        last = d;
        if (!got.emplace(k, d).second) violation("events-wrong", fmt("two pending expirations for %s: %s", k.c_str(), r.str().c_str()));
        K& x = m[k];
        if (!x.fuzzy && (!maybeHeld(x) || d < x.lo || d > x.hi)) violation("events-wrong", fmt("pending expiration of %s at %lld; the key was %s", k.c_str(), d, state(k).c_str()));
        if (d <= sLo) violation("lease-not-expired", fmt("%s expires at %lld, the clock is already %lld", k.c_str(), d, sLo));
        if (!x.fuzzy) x.lo = x.hi = d;
      }
      for (auto& k : m) if (!k.second.fuzzy && !got.count(k.first)) {
        if (!maybeFree(k.second)) violation("expiration-lost", fmt("no pending expiration of %s: %s", k.first.c_str(), state(k.first).c_str()));
        k.second.held = false;
      }
      countProbe("pending expirations checked");
      return;
    }
    if (c[0] == "FLUSHALL") { if (r != rOk()) bad("wrong-reply", c, r, tLo, tHi, ""); m.clear(); lostAll = true; return; }
    K& k = m[c[1]];
    std::string st = state(c[1]);
    bool lease = c[0].compare(0, 6, "LEASE_") == 0;
    ll d = 0;
    bool badDur = c[0] == "LEASE_ACQUIRE" && (!num(c[3], "", "", d) || d < 1);
    if (badDur) { if (!r.err() || r.s.find("not an integer") == std::string::npos) bad("wrong-reply", c, r, tLo, tHi, st); return; }
    if (lease) { sLo = std::max(sLo, tLo); sHi = std::max(sHi, tHi); }
    bool wrongType = r.err() && r.s.find("WRONGTYPE") != std::string::npos;
    if (k.fuzzy) {
      // learn from the reply
      if (wrongType) { if (lease) { k = K(); k.str = true; } return; }
      if (c[0] == "DEL" || c[0] == "LEASE_RELEASE") { k = K(); return; }
      if (c[0] == "SET") { k = K(); k.str = true; return; }
      if (c[0] == "LEASE_ACQUIRE" && r.t == '+') { k = K(); k.held = true; k.h = c[2]; k.lo = sLo + d; k.hi = sHi + d; return; }
      if (r.t == 'n') k = K();
      return;
    }
    if (lease && k.str) { if (!wrongType) bad("wrong-reply", c, r, tLo, tHi, st); return; }
    bool mh = maybeHeld(k), mf = maybeFree(k);
    if (c[0] == "LEASE_ACQUIRE") {
      if (r.t == '+' && r.s == "ACQUIRED") { if (!mf) bad(k.h != c[2] ? "lease-stolen" : "lease-lost", c, r, tLo, tHi, st); }
      else if (r.t == '+' && r.s == "RENEWED") { if (!mh || k.h != c[2]) bad(mh ? "lease-stolen" : "lease-not-expired", c, r, tLo, tHi, st); }
      else {
        ll n;
        if (!r.err() || !num(r.s, "ERR lease held by '" + k.h + "', time remaining ", " ms", n)) bad("wrong-reply", c, r, tLo, tHi, st);
        if (!mh || k.h == c[2]) bad("lease-not-expired", c, r, tLo, tHi, st);
        if (n < k.lo - tHi || n > k.hi - tLo) bad("wrong-remaining", c, r, tLo, tHi, st);
        k.lo = std::max(k.lo, sLo + 1);
        countProbe("lease refused");
        return;
      }
      k = K(); k.held = true; k.h = c[2]; k.lo = sLo + d; k.hi = sHi + d;
      countProbe("lease granted");
    } else if (c[0] == "LEASE_GET") {
      if (r.t == 'n') { if (!mf) bad("lease-lost", c, r, tLo, tHi, st); if (k.held) countProbe("lease expired"); k = K(); return; }
      ll n;
      if (!mh) bad("lease-not-expired", c, r, tLo, tHi, st);
      if (r.t != '*' || r.k.size() != 2 || r.k[0].s != "HOLDER: " + k.h || !num(r.k[1].s, "REMAINING: ", " ms", n)) bad("wrong-reply", c, r, tLo, tHi, st);
      if (n < k.lo - tHi || n > k.hi - tLo) bad("wrong-remaining", c, r, tLo, tHi, st);
      countProbe("lease holder read");
    } else if (c[0] == "LEASE_RELEASE") {
      if (r.t == 'n') { if (!mf) bad("lease-lost", c, r, tLo, tHi, st); }
      else if (r == rOk()) { if (!mh) bad("lease-not-expired", c, r, tLo, tHi, st); }
      else bad("wrong-reply", c, r, tLo, tHi, st);
      k = K();
    } else if (c[0] == "DEL") {
      if (r.t != ':' || (r.i != 0 && r.i != 1)) bad("wrong-reply", c, r, tLo, tHi, st);
      if (r.i == 0 && (k.str || !mf)) bad("lease-lost", c, r, tLo, tHi, st);
      if (r.i == 1 && !k.str && !mh) bad("lease-not-expired", c, r, tLo, tHi, st);
      k = K();
    } else if (c[0] == "SET") {
      if (r == rOk()) { if (!mf) bad("lease-lost", c, r, tLo, tHi, st); k = K(); k.str = true; }
      else if (!wrongType) bad("wrong-reply", c, r, tLo, tHi, st);
      else if (!mh) bad("lease-not-expired", c, r, tLo, tHi, st);
    } else if (c[0] == "GET") {
      if (k.str ? r != rStr("v") : wrongType ? !mh : r.t != 'n' || !mf) bad("wrong-reply", c, r, tLo, tHi, st);
    }
  }
  // may or may not have been executed
  void maybe(const std::vector<Cmd>& cs, ll tLo, ll tHi) {
    for (auto& c : cs) {
      if (c[0] == "CLOCK_GET" || c[0] == "GET" || c[0].size() > 20) continue;
      if (c[0].compare(0, 6, "LEASE_") == 0) sHi = std::max(sHi, tHi);
      if (c[0] == "FLUSHALL") { for (int i = 0; i < 4; i++) m["l" + std::to_string(i)].fuzzy = true; }
      else if (c[0] != "LEASE_GET") m[c[1]].fuzzy = true;
    }
  }
  void watcher(int id) {
    Rng r = subRng(plan, id ? "watcher1" : "watcher0");
    Conn c;
    ll last = 0, lastDyn = 0;
    int g = -1;
    while (!done) {
      sleepFor((Time)r.range(0, 200000) * US);
      if (done || !s.up || !s.alive()) { c.close(); continue; }
      Reply q;
      if (!c.ep || c.broken) { c.close(); if (!c.open(s.host(), s.port, 200 * MS)) continue; }
      int g0 = gen;
      if (!c.call({r.chance(0.7) ? "CLOCK_GET" : "LEASE_GET_PENDING_EXPIRATION_EVENTS"}, q, 5 * SEC)) { c.close(); continue; }
      if (q.err()) continue;
      ll st, dy;
      if (q.t != '*' || q.k.size() < 2 || !num(q.k[0].s, "STATIC-CLOCK: ", "", st) || !num(q.k[1].s, "DYNAMIC-CLOCK: ", "", dy)) violation("wrong-reply", "clock: " + q.str());
      if (st < last) violation("clock-backwards", fmt("the persisted clock went from %lld to %lld", last, st));
      if (g0 == gen && g0 == g && dy < lastDyn) violation("clock-backwards", fmt("the running clock went from %lld to %lld", lastDyn, dy));
      if (dy < st) violation("clock-backwards", fmt("the running clock %lld is behind the persisted one, %lld", dy, st));
      last = st; lastDyn = dy; g = gen;
      countProbe("clock watched");
    }
  }
  void run() {
    s.id = 1;
    s.mode = raft ? "raft" : "standalone";
    if (!s.bootstrap("lease-cluster", raft ? std::vector<std::string>{"n1:7777"} : std::vector<std::string>{}, 0, 2)) violation("bootstrap-failed", "creating the database failed without any fault");
    g_abortIsViolation = true;
    up();
    Group g;
    for (int i = 0; i < (int)plan.get("watchers", 0); i++) g.go([this, i] { watcher(i); }, "watcher");
    bool armed = false;
    Time pause = 0;
    auto after = [&]() {
      if (s.alive()) return;
      if (!armed) violation("node-died", "the node died: " + node(1).deathReason);
      armed = false;
      conn.close();
      s.up = false;
      countProbe("crash during operation");
      sleepFor(pause);
      up();
    };
    for (size_t i = 0; i < plan.lines.size(); i++) {
      const Line& l = plan.lines[i];
      if (l.a.empty() && l.kind != "restart") continue;
      if (l.kind == "sleep") { sleepFor((Time)atoll(l.a[0].c_str()) * MS); after(); }
      else if (l.kind == "op") {
        Reply r;
        Time inv = now();
        bool ok = conn.call(l.a, r, 20 * SEC);
        if (!ok) { maybe({l.a}, lo(inv), hi(now())); if (s.alive() && !armed) violation("no-reply", show(l.a)); Time dl = now() + SEC; while (s.alive() && now() < dl) sleepFor(10 * MS); after(); continue; }
        exec(l.a, r, lo(inv), hi(now()));
        after();
      } else if (l.kind == "tx") {
        std::vector<Cmd> cs;
        for (int n = atoi(l.a[0].c_str()); n > 0 && i + 1 < plan.lines.size() && plan.lines[i + 1].kind == "op"; n--) cs.push_back(plan.lines[++i].a);
        std::string all = encodeRequest({"MULTI"});
        for (auto& c : cs) all += encodeRequest(c);
        all += encodeRequest({"EXEC"});
        Time inv = now();
        bool lost = !conn.sendRaw(all);
        Reply r;
        for (size_t k = 0; k < cs.size() + 2 && !lost; k++) {
          if (conn.read(r, now() + 20 * SEC) != 1) lost = true;
          else if (k < cs.size() + 1 && (r.t != '+' || r.s != (k ? "QUEUED" : "OK"))) violation("wrong-reply", "queueing a transaction: " + r.str());
        }
        if (lost) { maybe(cs, lo(inv), hi(now())); if (s.alive() && !armed) violation("no-reply", "transaction"); Time dl = now() + SEC; while (s.alive() && now() < dl) sleepFor(10 * MS); after(); continue; }
        if (r.t != '*' || r.k.size() != cs.size()) violation("wrong-reply", "EXEC -> " + r.str());
        // one stamp for all of them
        ll a = lo(inv), b = hi(now());
        for (size_t k = 0; k < cs.size(); k++) exec(cs[k], r.k[k], a, b);
        countProbe("transaction");
        after();
      } else if (l.kind == "restart") {
        conn.close();
        if (!s.stop(60 * SEC)) {
          if (s.alive()) violation("shutdown-hang", "clean shutdown did not finish within 60 s");
          s.up = false;
        } else countFault("clean restart");
        armed = false;
        up();
      } else if (l.kind == "crash" && l.a.size() >= 2) {
        int n = atoi(l.a[0].c_str());
        pause = (Time)atoll(l.a[1].c_str()) * MS;
        if (n == 0) { conn.close(); s.kill(false); countFault("process kill"); sleepFor(pause); armed = false; up(); }
        else { armCrash(1, n, false); armed = true; countFault("process kill at io point"); }
      }
    }
    done = true;
    g.join();
    conn.close();
    if (s.alive() && !s.stop(60 * SEC) && s.alive()) violation("shutdown-hang", "clean shutdown did not finish within 60 s");
  }
};
void runLease(const Plan& p) { LeaseRun x(p); x.run(); }
static Reg reg("lease", genLease, runLease);
}
