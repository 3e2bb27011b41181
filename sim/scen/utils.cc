// Shared building blocks with threads in them: request counters, in-flight tracking, assisted threads, background
// fsync, timeouts, the lease clock and the expiration cache. Only public interfaces, one simulated process.
#include "scen.hh"
#include "Commands.hh"
#include "RedisRequest.hh"
#include "Timekeeper.hh"
#include "raft/RaftTimeouts.hh"
#include "redis/Authenticator.hh"
#include "redis/Transaction.hh"
#include "storage/ExpirationEventCache.hh"
#include "inst.hh"
#include "utils/FsyncThread.hh"
#include "utils/RequestCounter.hh"
#include <algorithm>
#include <cstdlib>
using namespace scen;
using namespace sim;
namespace {
const char* KINDS[] = {"counter", "inflight", "assist", "fsync", "timeouts", "timekeeper", "expcache", "clock", "multimap", "auth"};
std::string S(long long v) { return std::to_string(v); }
void genUtils(Plan& p, Rng& r) {
  int kind = (int)p.get("kind", r.below(10));
  p.knob("kind", kind);
  p.knob("sched.mean", r.pick(std::vector<double>{3, 5, 15, 60, 300}));
  p.knob("wsync", r.chance(0.5) ? 1 : 4); p.knob("watomic", r.chance(0.5) ? 1 : 3);
  int T = (int)r.range(1, 5); p.knob("threads", T); T = (int)p.get("threads", T);
  p.knob("cores", r.pick(std::vector<double>{1, 2, 3, 4, 8}));
  p.knob("cpu.mode", r.range(0, 2));
  int n = (int)r.range(10, 120); p.knob("ops", n); n = (int)p.get("ops", n);
  auto op = [&](Cmd a) { a.insert(a.begin(), S(r.below(T))); p.add("op", a); };
  if (kind == 0) {
    p.knob("interval", r.range(1, 12)); p.knob("long", r.chance(0.15));
    for (int i = 0; i < n; i++) {
      double x = r.unit();
      if (x < 0.3) op({"r", S(r.range(1, 5))});
      else if (x < 0.55) op({"w", S(r.range(1, 5))});
      else if (x < 0.62) op({"other", S(r.below(6))});
      else if (x < 0.8) op({"tx", S(r.below(4)), S(r.below(4)), S(r.below(2))});
      else if (x < 0.88) op({"totals"});
      else if (x < 0.93) op({"report", S(r.below(2))});
      else op({"sleep", S(p.get("long", 0) && r.chance(0.3) ? r.range(60000, 900000) : r.chance(0.5) ? r.range(0, 3) : r.range(1, 8000))});
    }
  } else if (kind == 1) {
    for (int i = 0; i < n; i++) {
      double x = r.unit();
      if (x < 0.9) op({"req", S(r.below(5)), S(r.below(40))});
      else op({"sleep", S(r.below(100))});
      if (r.chance(0.35)) p.add("close", {S(r.chance(0.7) ? r.below(30) : r.below(1000)), S(r.below(3))});
    }
  } else if (kind == 2) {
    for (int i = 0; i < n; i++) {
      double x = r.unit();
      int w = (int)r.below(6);
      if (x < 0.3) p.add("start", {S(w), S(r.below(6)), S(r.chance(0.3) ? 3600000 : r.range(1, 300)), S(r.below(4))});
      else if (x < 0.42) p.add("stop", {S(w)});
      else if (x < 0.52) p.add("join", {S(w)});
      else if (x < 0.57) p.add("drop", {S(w)});
      else if (x < 0.67) p.add("callback", {S(w), S(r.below(3))});
      else if (x < 0.72) p.add("dropcb", {S(w)});
      else if (x < 0.77) p.add("move", {S(w)});
      else if (x < 0.82) p.add("wait", {S(w)});
      else if (x < 0.9) p.add("family", {S(r.range(1, 4)), S(r.chance(0.5) ? 3600000 : r.range(1, 500)), S(r.below(400)), S(r.below(2))});
      else p.add("sleep", {S(r.below(r.chance(0.5) ? 3 : 600))});
    }
  } else if (kind == 3) {
    p.knob("period", r.pick(std::vector<double>{1, 20, 500, 1000, 3600000}));
    for (int i = 0; i < n; i++) {
      double x = r.unit();
      if (x < 0.6) p.add("put", {S(r.below(20)), S(i)});
      else if (x < 0.8) p.add("sleep", {S(r.below(3000))});
      else if (x < 0.87) p.add("restart", {});
      else if (x < 0.95) p.add("power", {S(r.below(4))});
    }
  } else if (kind == 4) {
    p.knob("low", r.range(1, 2000)); p.knob("span", r.pick(std::vector<double>{0, 1, 50, 500, 3000}));
    for (int i = 0; i < n; i++) {
      double x = r.unit();
      if (x < 0.35) op({"hb", S(r.range(-2000, 100))});
      else if (x < 0.6) op({"check"});
      else if (x < 0.7) op({"trigger"});
      else if (x < 0.8) op({"refresh"});
      else if (x < 0.85) op({"text"});
      else op({"sleep", S(r.below(3000))});
    }
  } else if (kind == 5) {
    for (int i = 0; i < n; i++) {
      double x = r.unit();
      if (x < 0.5) op({"get"});
      else if (x < 0.7) op({"sync", S(r.below(3000))});
      else if (x < 0.74) op({"reset", S(r.below(100000))});
      else op({"sleep", S(r.below(1500))});
    }
  } else if (kind == 6) {
    for (int i = 0; i < n; i++) {
      double x = r.unit();
      if (x < 0.45) op({"ins", S(r.below(20)), S(r.below(15))});
      else if (x < 0.65) op({"rem", S(r.below(15))});
      else if (x < 0.8) op({"pop"});
      else if (x < 0.97) op({"peek"});
      else op({"clear"});
    }
  } else if (kind == 8) {
    int keys = (int)r.range(1, 6), vals = (int)r.range(1, 8);
    for (int i = 0; i < n; i++) {
      double x = r.unit();
      std::string k = "k" + S(r.below(keys)), v = "v" + S(r.below(vals)), st = S(r.chance(0.6) ? r.range(1, 3) : r.range(1, 100)), st2 = S(r.chance(0.6) ? r.range(1, 3) : r.range(1, 100));
      if (x < 0.38) op({"insert", k, v});
      else if (x < 0.62) op({"erase", k, v});
      else if (x < 0.66) op({"size"});
      else if (x < 0.76) op({"keys", st});
      else if (x < 0.86) op({"match", k, st, S(r.chance(0.3) ? r.below(4) : 0)});
      else op({"all", st, st2, S(r.chance(0.3) ? r.below(4) : 0), S(r.chance(0.2))});
    }
  } else if (kind == 9) {
    for (int i = 0; i < n; i++) {
      double x = r.unit();
      if (x < 0.3) op({"challenge", S(r.below(4))});
      else if (x < 0.6) op({"answer", S(r.below(6)), S(r.below(64))});
      else if (x < 0.75) op({"replay"});
      else if (x < 0.8) op({"forget"});
      else op({"sleep", S(r.chance(0.7) ? r.below(30000) : r.range(59000, 61000))});
      if (r.chance(0.1)) op({"jump", S(r.range(-100000, 100000))});
    }
  } else {
    for (int i = 0; i < n; i++) {
      double x = r.unit();
      if (x < 0.4) op({"now"});
      else if (x < 0.6) op({"adv", S(r.below(5000))});
      else if (x < 0.7) op({"set", S(r.below(50000))});
      else op({"sleep", S(r.below(20))});
    }
  }
}
typedef std::chrono::milliseconds ms;
// something which has to end soon, whatever the schedule
void must(const char* what, std::function<void()> fn) {
  if (!onNode(1, std::move(fn), what, 120 * SEC) && node(1).alive) violation("stop-hangs", std::string(what) + " does not end");
}
struct Threads {
  std::vector<Fiber*> f;
  void go(std::function<void()> fn, const std::string& nm) { f.push_back(spawn(std::move(fn), nm, 1)); }
  void join() { for (auto* x : f) joinFiber(x); f.clear(); }
  void join(Time limit, const char* what) {
    Time dl = now() + limit;
    for (auto* x : f) while (!x->done) { if (now() > dl) violation("stop-hangs", what); sleepFor(50 * MS); }
    join();
  }
};
// run every thread's share of the "op" lines
void perThread(const Plan& p, const std::function<void(int, const Cmd&)>& fn, Threads& t, const char* nm = "worker") {
  int T = (int)p.get("threads", 1);
  for (int k = 0; k < T; k++)
    t.go([&p, fn, k] { for (auto& l : p.lines) if (l.kind == "op" && l.a.size() > 1 && atoi(l.a[0].c_str()) == k) fn(k, Cmd(l.a.begin() + 1, l.a.end())); }, fmt("%s%d", nm, k));
}
// ---- request counters ----
struct Cnt { long long v[4] = {0, 0, 0, 0}; };
bool parseStats(const std::vector<std::string>& d, Cnt& c) {
  static const char* nm[] = {"READS ", "WRITES ", "TXREAD ", "TXREADWRITE "};
  if (d.size() != 4) return false;
  for (int i = 0; i < 4; i++) { if (d[i].compare(0, strlen(nm[i]), nm[i])) return false; c.v[i] = atoll(d[i].c_str() + strlen(nm[i])); }
  return true;
}
void runCounter(const Plan& p) {
  int interval = (int)p.get("interval", 10);
  quarkdb::RequestCounter* rc = nullptr;
  Time t0 = now(); time_t w0 = 0;
  onNode(1, [&] { w0 = time(nullptr); rc = new quarkdb::RequestCounter(std::chrono::seconds(interval)); }, "create");
  Cnt lo, hi;     // completed, started
  long long maxSeen[4] = {0, 0, 0, 0};
  static const char* NM[] = {"reads", "writes", "read transactions", "write transactions"};
  auto total = [&](const Cnt& before, const Cnt& seen, const Cnt& after) {
    for (int i = 0; i < 4; i++)
      if (seen.v[i] < before.v[i] || seen.v[i] > after.v[i])
        violation("counter-wrong", fmt("%lld %s counted, between %lld and %lld were made", seen.v[i], NM[i], before.v[i], after.v[i]));
  };
  Threads th;
  perThread(p, [&](int, const Cmd& a) {
    if (a[0] == "r" || a[0] == "w") {
      int k = a[0] == "w";
      static const char* R[] = {"get", "HGETALL", "deque_len", "sismember", "vhlen"};
      static const char* Wr[] = {"set", "DEL", "hset", "lhset", "vhdel"};
      quarkdb::RedisRequest q;
      int n = atoi(a[1].c_str());
      q.push_back(k ? Wr[n % 5] : R[n % 5]); q.push_back("x");
      for (int i = 0; i < n; i++) { hi.v[k]++; rc->account(q); lo.v[k]++; }
    } else if (a[0] == "other") {
      static const char* O[] = {"ping", "nonsense", "raft_info", "publish", "quarkdb_info", "auth"};
      quarkdb::RedisRequest q; q.push_back(O[atoi(a[1].c_str()) % 6]); rc->account(q);
    } else if (a[0] == "tx") {
      int nr = atoi(a[1].c_str()), nw = atoi(a[2].c_str());
      if (nr + nw == 0) nr = 1;
      quarkdb::Transaction tx;
      for (int i = 0; i < nr; i++) tx.emplace_back("GET", "a");
      for (int i = 0; i < nw; i++) tx.emplace_back("SET", "a", "b");
      tx.setPhantom(a[3] == "1");
      int t = nw ? 3 : 2;
      hi.v[0] += nr; hi.v[1] += nw; hi.v[t]++;
      rc->account(tx);
      lo.v[0] += nr; lo.v[1] += nw; lo.v[t]++;
    } else if (a[0] == "totals") {
      Cnt b = lo, s;
      if (now() % 2) { auto st = rc->getOverallStats(); s.v[0] = st.reads; s.v[1] = st.writes; s.v[2] = st.txread; s.v[3] = st.txreadwrite; }
      else {
        std::vector<std::string> h; std::vector<std::vector<std::string>> d;
        rc->fillHistorical(h, d);
        if (h.size() != d.size() || h.empty() || h[0] != "TOTALS" || !parseStats(d[0], s)) violation("counter-wrong", "statistics report is malformed");
      }
      total(b, s, hi);
      (void)maxSeen;
      countProbe("totals checked under load");
    } else if (a[0] == "report") rc->setReportingStatus(a[1] == "1");
    else if (a[0] == "sleep") sleepFor(atoll(a[1].c_str()) * MS);
  }, th);
  th.join();
  sleepFor((interval * 2 + 2) * SEC);
  std::vector<std::string> h; std::vector<std::vector<std::string>> d;
  onNode(1, [&] { rc->fillHistorical(h, d); }, "fill");
  if (h.size() != d.size() || h.empty() || h[0] != "TOTALS") violation("counter-wrong", "statistics report is malformed");
  Cnt tot, sum;
  if (!parseStats(d[0], tot)) violation("counter-wrong", "statistics report is malformed");
  total(lo, tot, lo);
  long long prev = -1; long long end = (long long)w0 + (now() - t0) / SEC + 1;
  for (size_t i = 1; i < h.size(); i++) {
    Cnt c; if (h[i].compare(0, 10, "TIMESTAMP ") || !parseStats(d[i], c)) violation("counter-wrong", "history row is malformed: " + h[i]);
    long long ts = atoll(h[i].c_str() + 10);
    if (ts > end || ts < (long long)w0 - 1) violation("counter-wrong", fmt("history timestamp %lld outside of the run (%lld to %lld)", ts, (long long)w0, end));
    if (prev >= 0 && ts > prev) violation("counter-wrong", "history is not ordered from newest to oldest");
    prev = ts;
    for (int k = 0; k < 4; k++) { if (c.v[k] < 0) violation("counter-wrong", fmt("negative number of %s in the history", NM[k])); sum.v[k] += c.v[k]; }
  }
  size_t rows = h.size() - 1;
  if (rows > 100) violation("counter-wrong", fmt("%zu history rows", rows));
  double el = (double)(now() - t0) / SEC;
  if (rows < 100 && rows < (size_t)(el / (interval * 1.05 + 0.1)) ) violation("counter-wrong", fmt("only %zu history rows after %.0f seconds, one expected every %d seconds", rows, el, interval));
  for (int k = 0; k < 4; k++) {
    if (rows < 100 && sum.v[k] != tot.v[k]) violation("counter-wrong", fmt("history adds up to %lld %s, the total is %lld", sum.v[k], NM[k], tot.v[k]));
    if (sum.v[k] > tot.v[k]) violation("counter-wrong", fmt("history adds up to %lld %s, more than the total of %lld", sum.v[k], NM[k], tot.v[k]));
  }
  if (rows == 100) countProbe("history full");
  countProbe("counters reconciled");
  Time s = now(); must("stopping the request counter", [&] { delete rc; });
  if (now() - s > 20 * SEC) violation("stop-slow", "stopping the request counter took more than 20 seconds");
}
// ---- requests in flight ----
void runInflight(const Plan& p) {
  auto* t = inst::iftNew(p.seed % 4 != 0);
  int inside = 0; bool closed = false, quiet = false; uint64_t admitted = 0, refused = 0;
  bool done = false; int epoch = 0;
  if (p.seed % 4 == 0) { bool ok; auto* r0 = inst::iftEnter(t, ok); if (ok) violation("admitted-while-closed", "a tracker created closed admits requests"); inst::iftLeave(r0); inst::iftAccept(t, true); }
  Threads w, ctl;
  perThread(p, [&](int, const Cmd& a) {
    if (a[0] == "sleep") { sleepFor(atoll(a[1].c_str()) * US); return; }
    bool wasClosed = closed; int ep = epoch;
    bool okReg; auto* reg = inst::iftEnter(t, okReg);
    if (okReg) {
      if (wasClosed && ep == epoch) violation("admitted-while-closed", "a request was admitted after the shard stopped accepting requests");
      inside++; admitted++;
      if (quiet) violation("drain-incomplete", "a request entered after the drain had completed");
      if (inst::iftCount(t) < 1) violation("drain-incomplete", "a request is in flight and the tracker reports none");
      int k = atoi(a[1].c_str());
      if (k == 1) sleepFor(atoll(a[2].c_str()) * US);
      else if (k == 2) { for (int i = 0; i < 5; i++) yieldNow(); }
      if (quiet) violation("drain-incomplete", "a request was still running after the drain had completed");
      inside--;
    } else refused++;
    inst::iftLeave(reg);
  }, w);
  ctl.go([&] {
    for (auto& l : p.lines) if (l.kind == "close") {
      sleepFor(atoll(l.a[0].c_str()) * US);
      if (done) break;
      inst::iftAccept(t, false); closed = true;
      if (inst::iftAccepting(t)) violation("admitted-while-closed", "still accepting");
      inst::iftSpin(t);
      if (inside) violation("drain-incomplete", fmt("%d requests in flight when the drain completed", inside));
      quiet = true;
      int k = atoi(l.a[1].c_str());
      if (k == 1) sleepFor(300 * US); else if (k == 2) for (int i = 0; i < 20; i++) yieldNow();
      quiet = false; closed = false; epoch++;
      inst::iftAccept(t, true);
      countProbe("drains");
    }
  }, "drainer");
  w.join(60 * SEC, "requests never end"); done = true; ctl.join(60 * SEC, "the drain never ends although all requests have ended");
  if (inst::iftCount(t) != 0) violation("drain-incomplete", fmt("%lld in flight at the end", (long long)inst::iftCount(t)));
  { bool ok; auto* r = inst::iftEnter(t, ok); if (ok) inst::iftLeave(r); else violation("never-accepts", "requests are refused after accepting was turned on again"); }
  countProbe("requests admitted", admitted); countProbe("requests refused", refused);
  inst::iftAccept(t, false); inst::iftSpin(t);
  inst::iftDelete(t);
}
// ---- assisted threads ----
struct Wk {
  quarkdb::AssistedThread* t = nullptr;
  std::shared_ptr<bool> running = std::make_shared<bool>(false);
  std::shared_ptr<bool> self = std::make_shared<bool>(false);      // ends on its own
  bool stopped = false;
  std::vector<std::shared_ptr<int>> cbs, dead;                     // must run once / must not run any more
};
void runAssist(const Plan& p) {
  std::vector<Wk> ws(6);
  Rng rng = subRng(p, "assist");
  auto checkCbs = [&](Wk& w, bool after) {
    for (auto& c : w.cbs) { int e = w.stopped ? 1 : 0; if (*c != e && (after || *c > 1 || !w.stopped)) violation("termination-callback", fmt("a termination callback ran %d times, expected %d", *c, e)); }
    for (auto& c : w.dead) if (*c > 1) violation("termination-callback", "a dropped termination callback ran again");
  };
  auto joined = [&](Wk& w, Time s, const char* what) {
    if (*w.running) violation("join-early", std::string(what) + " returned while the thread was running");
    if (now() - s > 20 * SEC) violation("stop-slow", fmt("%s took %.1f s although the thread was asked to terminate", what, (now() - s) / 1e9));
  };
  auto body = [&](std::shared_ptr<bool> running, std::shared_ptr<bool> self, int kind, long waitMs, std::shared_ptr<int> cb) {
    return [running, self, kind, waitMs, cb, &ws](quarkdb::ThreadAssistant& as) {
      if (kind == 5) { sleepFor(waitMs % 50 * MS); *running = false; return; }      // ends on its own
      if (cb) inst::taCallback(as, [cb] { ++*cb; });
      int spurious = 0; Time t0 = now();
      while (!inst::taRequested(as)) {
        if (kind == 0 || kind == 3) inst::taWaitFor(as, waitMs);
        else if (kind == 1) inst::taWaitUntilSteady(as, waitMs);
        else if (kind == 4) inst::taWaitUntilSystem(as, waitMs);
        else { inst::taWaitFor(as, waitMs); yieldNow(); }
        spurious++;
      }
      Time e = now();
      inst::taWaitFor(as, 3600000);            // termination was requested: must not wait
      if (now() - e > 5 * SEC) violation("stop-slow", "a thread which was asked to terminate still waits");
      inst::taWaitUntilSteady(as, 3600000);
      if (now() - e > 5 * SEC) violation("stop-slow", "a thread which was asked to terminate still waits");
      if (waitMs > 100 && spurious > 5 + 20 * ((now() - t0) / (waitMs * MS) + 1)) violation("busy-loop", fmt("%d wakeups in %.1f s with a period of %ld ms", spurious, (now() - t0) / 1e9, waitMs));
      *running = false;
    };
  };
  auto fin = [&](Wk& w) {     // object destroyed or joined
    if (w.t) { Time s = now(); inst::atDelete(w.t); joined(w, s, "destruction"); if (!*w.self || w.stopped) { } w.t = nullptr; }
    w.cbs.clear(); w.dead.clear();
  };
  Threads th;
  th.go([&] {
    for (auto& l : p.lines) {
      const Cmd& a = l.a;
      Wk* w = a.empty() ? nullptr : &ws[atoi(a[0].c_str()) % 6];
      if (l.kind == "sleep") sleepFor(atoll(a[0].c_str()) * MS);
      else if (l.kind == "start") {
        int kind = atoi(a[1].c_str()); long wait = atol(a[2].c_str()); int how = atoi(a[3].c_str());
        auto run = std::make_shared<bool>(true); auto self = std::make_shared<bool>(kind == 5);
        std::shared_ptr<int> cb; if (kind == 3) cb = std::make_shared<int>(0);
        if (w->t && how < 3) {
          // the same object starts a new thread: the old one is joined first, its callbacks are forgotten
          auto old = w->running; auto oldCbs = w->cbs;
          Time s = now();
          inst::atReset(w->t, body(run, self, kind, wait, cb));
          if (*old) violation("join-early", "reset() started a thread while the previous one was running");
          if (now() - s > 20 * SEC) violation("stop-slow", "reset() did not stop the previous thread in time");
          for (auto& c : oldCbs) if (*c != 1) violation("termination-callback", fmt("a termination callback ran %d times when the thread was reset", *c));
          w->dead.insert(w->dead.end(), oldCbs.begin(), oldCbs.end());
          w->cbs.clear();
          countProbe("thread objects reused");
        } else {
          if (w->t) { auto oc = w->cbs; Time s = now(); inst::atDelete(w->t); w->t = nullptr; joined(*w, s, "destruction"); for (auto& c : oc) if (*c != 1) violation("termination-callback", fmt("a termination callback ran %d times, thread destroyed", *c)); w->cbs.clear(); w->dead.clear(); }
          if (how == 2) { w->t = inst::atNew(); inst::atStop(w->t); inst::atJoin(w->t); inst::atReset(w->t, body(run, self, kind, wait, cb)); }
          else w->t = inst::atNew(body(run, self, kind, wait, cb));
        }
        w->running = run; w->self = self; w->stopped = false;
        // the worker registers its own callback at some later time: it must run when termination is requested, or at once
        if (cb) w->cbs.push_back(cb);
        countProbe("threads started");
      } else if (!w || (!w->t && l.kind != "family")) continue;
      else if (l.kind == "stop") { if (*w->self) continue; inst::atStop(w->t); w->stopped = true; }
      else if (l.kind == "join" || l.kind == "wait") {
        if (l.kind == "wait") { if (!w->stopped && !*w->self) continue; Time s = now(); inst::atBlock(w->t); joined(*w, s, "blockUntilThreadJoins()"); if (*w->self && !w->stopped) continue; }
        else { Time s = now(); inst::atJoin(w->t); joined(*w, s, "join()"); if (*w->self) { for (auto& c : w->cbs) if (*c > 1) violation("termination-callback", "ran twice"); w->cbs.clear(); continue; } w->stopped = true; }
        checkCbs(*w, true);
        inst::atJoin(w->t); inst::atStop(w->t);      // again: no effect
      } else if (l.kind == "drop") {
        auto oc = w->cbs; bool self = *w->self; Time s = now(); inst::atDelete(w->t); w->t = nullptr; joined(*w, s, "destruction");
        for (auto& c : oc) if (*c != 1 && !(self && *c <= 1)) violation("termination-callback", fmt("a termination callback ran %d times, thread destroyed", *c));
        w->cbs.clear(); w->dead.clear();
      } else if (l.kind == "callback") {
        if (*w->self) continue;
        auto c = std::make_shared<int>(0);
        bool already = w->stopped;
        inst::atCallback(w->t, [c] { ++*c; });
        if (already && *c != 1) violation("termination-callback", "a callback registered after the request to terminate did not run at once");
        w->cbs.push_back(c);
      } else if (l.kind == "dropcb") {
        // a callback the worker itself is about to register may be registered after this
        inst::atDropCallbacks(w->t);
        std::vector<std::shared_ptr<int>> keep; w->cbs.swap(keep);
      } else if (l.kind == "move") {
        auto* n = inst::atMove(w->t);
        inst::atDelete(w->t); w->t = n;
        countProbe("thread objects moved");
      } else if (l.kind == "family") {
        // a coordinator passes the request to terminate on to its workers
        int n = atoi(a[0].c_str()); long wait = atol(a[1].c_str()); long life = atol(a[2].c_str());
        int alive = 0; bool coord = true;
        bool late = a[3] == "1";
        auto* c = inst::atNew([&, n, wait, late](quarkdb::ThreadAssistant& as) {
          {
            std::vector<quarkdb::AssistedThread*> kids;
            for (int i = 0; i < n; i++) {
              alive++;
              kids.push_back(inst::atNew([&, wait](quarkdb::ThreadAssistant& s) { while (!inst::taRequested(s)) inst::taWaitFor(s, wait); alive--; }));
              if (!late) inst::taPropagate(as, *kids.back());
            }
            if (late) for (auto& k : kids) inst::taPropagate(as, *k);
            for (auto& k : kids) inst::atBlock(k);
            inst::taDropCallbacks(as); for (auto* k : kids) inst::atDelete(k);
          }
          coord = false;
        });
        sleepFor(life * MS);
        Time s = now();
        if (p.seed & 1) inst::atStop(c);
        inst::atDelete(c);
        if (alive || coord) violation("join-early", "a coordinator was joined while its workers were running");
        if (now() - s > 20 * SEC) violation("stop-slow", "the request to terminate did not reach the workers");
        countProbe("coordinators stopped");
      }
    }
    for (auto& w : ws) if (w.t) { auto oc = w.cbs; bool self = *w.self; Time s = now(); inst::atDelete(w.t); w.t = nullptr; joined(w, s, "destruction"); for (auto& c : oc) if (*c != 1 && !(self && *c <= 1)) violation("termination-callback", fmt("a termination callback ran %d times, thread destroyed", *c)); }
  }, "owner");
  th.join(300 * SEC + (Time)p.lines.size() * SEC, "stopping or joining a thread does not end");
}
// ---- background fsync ----
void runFsync(const Plan& p) {
  long period = (long)p.get("period", 1000);
  std::string path = "/vfs/n1/db";
  rocksdb::DB* db = nullptr; quarkdb::FsyncThread* ft = nullptr;
  std::map<std::string, std::pair<std::string, Time>> w;   // key -> last value, time of the write
  std::map<std::string, std::set<std::string>> older;
  auto open = [&] {
    onNode(1, [&] {
      rocksdb::Options o; o.create_if_missing = true;
      if (!rocksdb::DB::Open(o, path, &db).ok()) harnessError("open");
      ft = new quarkdb::FsyncThread(db, ms(period));
    }, "open");
  };
  open();
  Time opened = now();
  for (auto& l : p.lines) {
    if (l.kind == "put") {
      std::string k = "k" + l.a[0], v = l.a[1];
      onNode(1, [&] { rocksdb::WriteOptions wo; if (!db->Put(wo, k, v).ok()) harnessError("put"); }, "put");
      older[k].insert(v); w[k] = {v, now()};
    } else if (l.kind == "sleep") sleepFor(atoll(l.a[0].c_str()) * MS);
    else if (l.kind == "restart") {
      Time s = now();
      must("stopping the background fsync", [&] { delete ft; });
      if (now() - s > 20 * SEC) violation("stop-slow", fmt("stopping the background fsync took %.1f s", (now() - s) / 1e9));
      onNode(1, [&] { ft = new quarkdb::FsyncThread(db, ms(period)); opened = now(); }, "start");
      countProbe("fsync thread restarted");
    } else if (l.kind == "power") {
      Time t = now(), since = opened;
      killNode(1, true); ft = nullptr; db = nullptr;
      open();
      for (auto& [k, vt] : w) {
        std::string v;
        bool due = vt.second + (period * 2 + 500) * MS < t && since + (period * 2 + 500) * MS < t;
        bool found = false;
        onNode(1, [&] { found = db->Get(rocksdb::ReadOptions(), k, &v).ok(); }, "get");
        if (due && (!found || v != vt.first)) violation("fsync-missed", fmt("a write made %.1f s before a power loss is gone although the log is synced every %ld ms", (t - vt.second) / 1e9, period));
        if (due) countProbe("old writes survived a power loss");
        if (found) vt.first = v; 
      }
      for (auto it = w.begin(); it != w.end();) {
        std::string v; bool found = false; std::string k = it->first;
        onNode(1, [&] { found = db->Get(rocksdb::ReadOptions(), k, &v).ok(); if (found) db->SyncWAL(); }, "get");
        if (!found) it = w.erase(it); else ++it;
      }
      opened = now();
      countFault("power loss");
    }
  }
  Time s = now();
  must("stopping the background fsync", [&] { delete ft; delete db; });
  if (now() - s > 20 * SEC) violation("stop-slow", fmt("stopping the background fsync took %.1f s", (now() - s) / 1e9));
}
// ---- timeouts and heartbeats ----
void runTimeouts(const Plan& p) {
  long low = (long)p.get("low", 100), high = low + (long)p.get("span", 50);
  quarkdb::RaftTimeouts to{ms(low), ms(high), ms(low / 2 + 1)};
  quarkdb::RaftHeartbeatTracker* tr = nullptr;
  onNode(1, [&] { tr = new quarkdb::RaftHeartbeatTracker(to); }, "create");
  typedef std::chrono::steady_clock SC;
  Time hbLo = 0, hbHi = 0;       // last heartbeat: at least the completed ones, at most the started ones
  auto ns = [](SC::time_point t) { return (Time)std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count(); };
  int trigStarted = 0, trigDone = 0, seen = 0, trigBusy = 0;
  std::set<long> rnds;
  Threads th;
  auto rnd = [&](ms v) { rnds.insert(v.count()); if (v.count() < low || v.count() > high) violation("timeout-range", fmt("election timeout of %ld ms outside of %ld to %ld", (long)v.count(), low, high)); };
  perThread(p, [&](int, const Cmd& a) {
    if (a[0] == "sleep") sleepFor(atoll(a[1].c_str()) * MS);
    else if (a[0] == "hb") {
      SC::time_point t = SC::now() + ms(atoll(a[1].c_str()));
      if (ns(t) < 0) return;
      hbHi = std::max(hbHi, ns(t));
      tr->heartbeat(t);
      hbLo = std::max(hbLo, ns(t));
      Time b = hbLo, g = ns(tr->getLastHeartbeat());
      if (g < b || g > hbHi) violation("heartbeat-lost", fmt("last heartbeat %lld, expected between %lld and %lld", (long long)g, (long long)b, (long long)hbHi));
    } else if (a[0] == "check") {
      Time lo = hbLo; long rmin = low;
      SC::time_point t = SC::now();
      auto r = tr->timeout(t);
      Time hi = hbHi;
      if (r == quarkdb::TimeoutStatus::kArtificial) { seen++; if (seen > trigStarted) violation("timeout-wrong", fmt("%d artificial timeouts reported, %d triggered", seen, trigStarted)); }
      else if (r == quarkdb::TimeoutStatus::kYes) { if (ns(t) - lo <= rmin * MS) violation("timeout-wrong", fmt("timeout after %.3f ms of silence, the lowest allowed is %ld ms", (ns(t) - lo) / 1e6, low)); countProbe("timeouts"); }
      else if (ns(t) - hi > high * MS + MS) violation("timeout-wrong", fmt("no timeout after %.3f ms of silence, the highest allowed is %ld ms", (ns(t) - hi) / 1e6, high));
    } else if (a[0] == "trigger") { trigStarted++; tr->triggerTimeout(); trigDone++; }
    else if (a[0] == "refresh") { ms v = tr->refreshRandomTimeout(); rnd(v); rnd(tr->getRandomTimeout()); rnd(to.getRandom()); }
    else if (a[0] == "text") {
      quarkdb::RaftTimeouts q{ms(1), ms(2), ms(3)};
      if (!quarkdb::RaftTimeouts::fromString(q, to.toString()) || !(q == to)) violation("timeout-wrong", "timeouts do not survive the way to text and back: " + to.toString());
      rnd(q.getRandom());
      (void)trigBusy;
    }
  }, th);
  th.join();
  onNode(1, [&] {
    if (trigDone && !seen) {
      auto r = tr->timeout(SC::time_point());
      if (r != quarkdb::TimeoutStatus::kArtificial) violation("timeout-wrong", "a triggered timeout was never reported");
    } else tr->timeout(SC::time_point());
    if (tr->timeout(SC::time_point()) != quarkdb::TimeoutStatus::kNo) violation("timeout-wrong", "a triggered timeout was reported more than once");
    // distinct nodes must not time out together for ever
    std::set<long> v; for (int i = 0; i < 200; i++) { ms x = tr->refreshRandomTimeout(); rnd(x); v.insert(x.count()); }
    if (high - low >= 50 && v.size() < 10) violation("timeout-range", fmt("election timeouts are hardly random: %zu different values in 200", v.size()));
    if (high > low + 1 && (*v.begin() > low + (high - low) * 0.3 + 1 || *v.rbegin() < low + (high - low) * 0.7 - 1)) violation("timeout-range", fmt("election timeouts are not spread over the range %ld to %ld", low, high));
    delete tr;
  }, "end");
}
// ---- the lease clock ----
void runTimekeeper(const Plan& p) {
  quarkdb::Timekeeper* tk = nullptr;
  uint64_t start = p.seed % 3 ? 0 : 123456;
  // possible (value, anchor) pairs: every call in progress or not overwritten
  struct A { uint64_t v; Time lo, hi; };
  Time c0 = now(); onNode(1, [&] { tk = new quarkdb::Timekeeper(start); }, "create");
  std::vector<A> as{{start, c0, now()}};
  uint64_t stat = start; int busy = 0; bool writing = false;
  std::vector<std::pair<Time, A>> done;
  Threads th;
  perThread(p, [&](int, const Cmd& a) {
    if (a[0] == "sleep") sleepFor(atoll(a[1].c_str()) * MS);
    else if (a[0] == "sync" || a[0] == "reset") {
      if (writing) return;     // one writer: the state machine
      writing = true;
      uint64_t v = a[0] == "sync" ? stat + atoll(a[1].c_str()) : (uint64_t)atoll(a[1].c_str());
      stat = v;
      Time s = now();
      as.push_back({v, s, NEVER});
      size_t i = as.size() - 1;
      if (a[0] == "sync") tk->synchronize(v); else tk->reset(v);
      as[i].hi = now();
      if (!busy) as.erase(as.begin(), as.begin() + i);
      writing = false;
      if (as.size() == 1) {
        uint64_t g = tk->getDynamicTime();
        if (!writing && as.size() == 1 && as[0].lo == s && (g < v || g > v + (uint64_t)((now() - s) / MS) + 1)) violation("clock-wrong", fmt("clock shows %llu right after it was set to %llu", (unsigned long long)g, (unsigned long long)v));
      }
      countProbe("clock set");
    } else if (a[0] == "get") {
      busy++;
      size_t from = as.size() - 1;
      if (as[from].hi == NEVER && from) from--;
      Time s = now(); uint64_t g = tk->getDynamicTime(); Time e = now();
      bool ok = false;
      for (size_t i = from; i < as.size() && !ok; i++) {
        Time hi = std::min(as[i].hi, e);
        Time minEl = std::max<Time>(0, s - hi), maxEl = e - as[i].lo;
        if (g + 1 >= as[i].v + (uint64_t)(minEl / MS) && g <= as[i].v + (uint64_t)(maxEl / MS) + 1) ok = true;
      }
      if (!ok) violation("clock-wrong", fmt("clock shows %llu, %.3f ms after it was set to %llu", (unsigned long long)g, (s - as[from].lo) / 1e6, (unsigned long long)as[from].v));
      busy--;
      countProbe("clock read");
    }
  }, th);
  th.join();
  onNode(1, [&] { delete tk; }, "end");
}
// ---- lease expirations ----
void runExpcache(const Plan& p) {
  auto* c = new quarkdb::ExpirationEventCache();
  std::map<std::string, uint64_t> m;
  if ((int)p.get("threads", 1) > 1) {
    // concurrent: every thread has its own leases, one thread drains
    int T = (int)p.get("threads", 1);
    std::vector<std::map<std::string, uint64_t>> own(T);
    Threads th;
    perThread(p, [&](int k, const Cmd& a) {
      auto& o = own[k];
      if (a[0] == "ins") { std::string n = fmt("t%d-%s", k, a[2].c_str()); uint64_t d = atoll(a[1].c_str()); if (o.count(n)) { c->remove(o[n], n); } c->insert(d, n); o[n] = d; }
      else if (a[0] == "rem") { std::string n = fmt("t%d-%s", k, a[1].c_str()); if (o.count(n)) { c->remove(o[n], n); o.erase(n); } }
      else { size_t s = c->size(); if (c->empty() && o.size() && c->empty()) violation("expiration-lost", "the cache is empty although this thread has leases in it"); if (s < o.size()) violation("expiration-lost", fmt("the cache has %zu leases, this thread alone added %zu", s, o.size())); if (!o.empty()) { uint64_t f = c->getFrontDeadline(); uint64_t mine = UINT64_MAX; for (auto& x : o) mine = std::min(mine, x.second); if (f > mine) violation("expiration-lost", fmt("first deadline %llu, this thread has a lease with %llu", (unsigned long long)f, (unsigned long long)mine)); } }
    }, th);
    th.join();
    for (auto& o : own) m.insert(o.begin(), o.end());
  } else {
    onNode(1, [&] {
      for (auto& l : p.lines) {
        if (l.kind != "op" || l.a.size() < 2) continue;
        Cmd a(l.a.begin() + 1, l.a.end());
        if (a[0] == "ins") { std::string n = "l" + a[2]; if (m.count(n)) { c->remove(m[n], n); m.erase(n); } c->insert(atoll(a[1].c_str()), n); m[n] = atoll(a[1].c_str()); }
        else if (a[0] == "rem") { std::string n = "l" + a[1]; if (m.count(n)) { c->remove(m[n], n); m.erase(n); } }
        else if (a[0] == "clear") { c->clear(); m.clear(); }
        else if (m.empty()) { if (!c->empty() || c->size()) violation("expiration-lost", "the cache should be empty"); }
        else {
          if (c->empty() || c->size() != m.size()) violation("expiration-lost", fmt("%zu leases in the cache, expected %zu", c->size(), m.size()));
          uint64_t f = UINT64_MAX; for (auto& x : m) f = std::min(f, x.second);
          std::string n = c->getFrontLease();
          if (c->getFrontDeadline() != f) violation("expiration-lost", fmt("first deadline %llu, expected %llu", (unsigned long long)c->getFrontDeadline(), (unsigned long long)f));
          if (!m.count(n) || m[n] != f) violation("expiration-lost", "wrong lease in front: " + n);
          if (a[0] == "pop") { c->pop_front(); m.erase(n); }
        }
      }
    }, "cache");
  }
  // what is left comes out in order of deadlines
  onNode(1, [&] {
    uint64_t last = 0;
    while (!c->empty()) {
      uint64_t d = c->getFrontDeadline(); std::string n = c->getFrontLease(); c->pop_front();
      if (d < last) violation("expiration-lost", "expirations are not in order");
      last = d;
      if (!m.count(n) || m[n] != d) violation("expiration-lost", "unexpected expiration of " + n);
      m.erase(n);
    }
    if (!m.empty()) violation("expiration-lost", fmt("%zu expirations are missing", m.size()));
    delete c;
  }, "drain");
  countProbe("expiration caches drained");
}
// ---- wrapped clocks ----
void runClock(const Plan& p) {
  quarkdb::SteadyClock real(false), fake(true); quarkdb::SystemClock sysFake(true), sysReal(false);
  auto* box = inst::boxNew();
  typedef std::chrono::steady_clock SC;
  auto nsf = [](auto t) { return (Time)std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count(); };
  Time lo = 0, hi = 0; Time last = 0; bool setBusy = false;
  Threads th;
  perThread(p, [&](int, const Cmd& a) {
    if (a[0] == "sleep") sleepFor(atoll(a[1].c_str()) * MS);
    else if (a[0] == "now") {
      Time b = lo, g = nsf(inst::clockNow(fake));
      if (g < b || g > hi) violation("clock-wrong", fmt("a fake steady clock shows %lld, expected %lld to %lld", (long long)g, (long long)b, (long long)hi));
      Time x = nsf(SC::now()), r = nsf(inst::clockNow(real)), y = nsf(SC::now());
      if (r < x || r > y) violation("clock-wrong", "a real clock does not follow the underlying clock");
      std::string s = inst::boxGet(box); if (!s.empty() && (s.size() != 40 || s.find_first_not_of(s[0]) != std::string::npos)) violation("torn-read", "a synchronized value was read while it was being changed");
      (void)last; (void)setBusy;
    } else if (a[0] == "adv") {
      Time d = atoll(a[1].c_str()) * MS; hi += d; inst::clockAdvance(fake, atoll(a[1].c_str())); lo += d;
      real.advance(ms(5000)); sysReal.advance(ms(5000));
      fake.set(SC::time_point() + ms(77));      // no effect on a steady clock
    } else if (a[0] == "set") {
      inst::boxSet(box, 40, (char)('a' + atoll(a[1].c_str()) % 26));
      sysFake.set(std::chrono::system_clock::time_point() + ms(atoll(a[1].c_str())));
    }
  }, th);
  th.join();
  if (nsf(inst::clockNow(fake)) != lo) violation("clock-wrong", fmt("a fake clock was advanced by %lld ns and shows %lld", (long long)lo, (long long)nsf(inst::clockNow(fake))));
}
// ---- the subscription map: iterations against concurrent insertions and removals ----
void runMultimap(const Plan& p) {
  auto* m = inst::mmNew();
  uint64_t tick = 1;
  // for every pair: when it was surely there and when it was possibly there
  struct Iv { uint64_t mayFrom, from, to, mayTo; };
  std::map<inst::KV, std::vector<Iv>> hist;
  std::map<inst::KV, int> balance;      // successful insertions minus successful removals
  std::map<inst::KV, int> inprog;       // removals by iterators in progress: any of them may hit
  std::map<inst::KV, bool> busy;
  auto check = [&](const std::vector<inst::KV>& got, uint64_t s, uint64_t e, const std::function<bool(const inst::KV&)>& wanted, const char* what) {
    for (size_t i = 0; i + 1 < got.size(); i++) if (!(got[i] < got[i + 1])) violation("iteration-wrong", fmt("%s: %s/%s is returned twice or out of order", what, got[i + 1].first.c_str(), got[i + 1].second.c_str()));
    std::set<inst::KV> have(got.begin(), got.end());
    for (auto& g : have) {
      bool ok = false;
      for (auto& iv : hist[g]) if (iv.mayFrom <= e && iv.mayTo >= s) ok = true;
      if (!ok || !wanted(g)) violation("iteration-wrong", fmt("%s returned %s/%s, which was not in the map", what, g.first.c_str(), g.second.c_str()));
    }
    for (auto& h : hist) if (wanted(h.first) && !have.count(h.first))
      for (auto& iv : h.second) if (iv.from <= s && iv.to >= e) violation("iteration-missed", fmt("%s did not return %s/%s, which was in the map all the time", what, h.first.first.c_str(), h.first.second.c_str()));
    countProbe(fmt("iterations: %s", what));
  };
  // one removal: the element must be closed in the history before the call and fixed up after it
  auto eraseDone = [&](const inst::KV& kv, uint64_t inv, bool hit) {
    balance[kv] -= hit;
    if (balance[kv] < 0) violation("erase-twice", fmt("%s/%s was reported removed more often than inserted", kv.first.c_str(), kv.second.c_str()));
    uint64_t resp = tick++;
    auto& v = hist[kv];
    if (hit) for (auto& iv : v) if (iv.mayTo == UINT64_MAX) iv.mayTo = resp;
    (void)inv;
    // a removal which missed: whatever it had ended tentatively goes on, unless somebody else removed it
    if (!hit && !v.empty() && v.back().mayTo == UINT64_MAX && inprog[kv] == 0) v.push_back({v.back().mayFrom, resp, UINT64_MAX, UINT64_MAX});
  };
  auto eraseBegin = [&](const inst::KV& kv) { uint64_t t = tick++; for (auto& iv : hist[kv]) if (iv.to == UINT64_MAX) iv.to = t; return t; };
  Threads th;
  perThread(p, [&](int, const Cmd& a) {
    if (a[0] == "insert" || a[0] == "erase") {
      inst::KV kv{a[1], a[2]};
      if (busy[kv] || inprog[kv]) return;       // one change of one pair at a time; the pairs of a key still race
      busy[kv] = true;
      if (a[0] == "insert") {
        auto& v = hist[kv];
        uint64_t inv = tick++;
        size_t ix = v.size();
        bool there = balance[kv] > 0;
        if (!there) v.push_back({inv, UINT64_MAX, UINT64_MAX, UINT64_MAX});
        bool r = inst::mmInsert(m, kv);
        if (r == there) violation("insert-wrong", fmt("inserting %s/%s returned %d, it was %s", kv.first.c_str(), kv.second.c_str(), r, there ? "there" : "not there"));
        if (r) { balance[kv]++; hist[kv][ix].from = tick++; }
      } else {
        bool there = balance[kv] > 0;
        uint64_t inv = eraseBegin(kv);
        bool r = inst::mmErase(m, kv);
        if (r != there) violation("erase-wrong", fmt("removing %s/%s returned %d, it was %s", kv.first.c_str(), kv.second.c_str(), r, there ? "there" : "not there"));
        eraseDone(kv, inv, r);
      }
      busy[kv] = false;
    } else if (a[0] == "size") { inst::mmSize(m); }
    else if (a[0] == "keys") {
      uint64_t s = tick++;
      auto got = inst::mmKeys(m, atoi(a[1].c_str()), 1000);
      uint64_t e = tick++;
      for (size_t i = 0; i + 1 < got.size(); i++) if (!(got[i] < got[i + 1])) violation("iteration-wrong", "a key is returned twice or out of order: " + got[i + 1]);
      std::set<std::string> have(got.begin(), got.end());
      std::map<std::string, bool> may;
      for (auto& h : hist) for (auto& iv : h.second) {
        if (iv.mayFrom <= e && iv.mayTo >= s) may[h.first.first] = true;
        if (iv.from <= s && iv.to >= e && !have.count(h.first.first)) violation("iteration-missed", "the key iteration did not return " + h.first.first);
      }
      for (auto& k : have) if (!may.count(k)) violation("iteration-wrong", "the key iteration returned " + k + ", which was not in the map");
      countProbe("iterations: keys");
    } else {
      bool all = a[0] == "all";
      int er = atoi(a[3].c_str());         // remove every er-th element through the iterator
      bool skip = all && a.size() > 4 && a[4] == "1";
      uint64_t s = tick++;
      std::vector<inst::KV> got;
      uint64_t inv = 0;
      auto visit = [&](const inst::KV& kv) -> int {
        if (got.size() > 1000) violation("iteration-endless", "an iteration returns more elements than there can be");
        got.push_back(kv);
        if (er && got.size() % er == 0 && !busy[kv] && !inprog[kv]) { inprog[kv]++; inv = eraseBegin(kv); return 1; }
        return skip && got.size() % 2 ? 2 : 0;
      };
      auto after = [&](const inst::KV& kv, bool hit) { inprog[kv]--; eraseDone(kv, inv, hit); };
      if (all) inst::mmAll(m, atoi(a[1].c_str()), atoi(a[2].c_str()), visit, after);
      else inst::mmMatch(m, a[1], atoi(a[2].c_str()), visit, after);
      uint64_t e = tick++;
      std::set<std::string> skipped;
      if (skip) for (auto& g : got) skipped.insert(g.first);
      std::string key = a[1];
      check(got, s, e, [&](const inst::KV& kv) { return all ? !skip || !skipped.count(kv.first) || std::find(got.begin(), got.end(), kv) != got.end() : kv.first == key; }, all ? "all" : "one key");
    }
  }, th);
  th.join(300 * SEC, "operations of the subscription map do not end");
  size_t n = 0;
  for (auto& b : balance) n += b.second;
  if (inst::mmSize(m) != n) violation("size-wrong", fmt("the map says it has %zu entries, it has %zu", inst::mmSize(m), n));
  onNode(1, [&] { inst::mmDelete(m); }, "end");
}
// ---- challenges ----
void runAuth(const Plan& p) {
  typedef quarkdb::Authenticator A;
  std::string secret(32 + p.seed % 40, 's');
  for (size_t i = 0; i < secret.size(); i++) secret[i] = (char)(p.seed >> (i % 8 * 8)) ^ (char)(i * 7);
  onNode(1, [&] {
    A* a = new A(secret);
    A other(std::string_view("another secret of more than 32 characters"));
    struct Ch { std::string text; Time lo, hi; bool used = false; };
    std::vector<Ch> ch;                 // all challenges given out; only the last one counts
    std::string lastSig;
    bool valid = false;
    Rng r = subRng(p, "auth");
    auto rnd = [&] { std::string x(64, 0); for (auto& c : x) c = (char)r.below(256); return x; };
    std::set<std::string> seen;
    for (auto& l : p.lines) {
      if (l.kind != "op" || l.a.size() < 2) continue;
      Cmd c(l.a.begin() + 1, l.a.end());
      if (c[0] == "sleep") sleepFor(atoll(c[1].c_str()) * MS);
      else if (c[0] == "jump") { node(1).realOffset += atoll(c[1].c_str()) * SEC; countFault("wall clock jump"); }
      else if (c[0] == "challenge") {
        std::string opp = rnd(), mine = rnd();
        Ch x;
        x.lo = now();
        if (c.size() > 1 && c[1] == "0") {
          int64_t t = (int64_t)r.below(1ull << 40);
          x.text = a->generateChallenge(opp, std::chrono::system_clock::time_point(std::chrono::milliseconds(t)), mine);
          if (x.text != opp + "---" + S(t) + "---" + mine) violation("bad-challenge", "the challenge does not contain what it is made of");
        } else {
          x.text = a->generateChallenge(opp);
          if (x.text.size() < 64 + 3 + 1 + 3 + 64 || x.text.compare(0, 67, opp + "---") || x.text.compare(x.text.size() - 67, 3, "---")) violation("bad-challenge", "malformed challenge");
          if (!seen.insert(x.text.substr(x.text.size() - 64)).second) violation("bad-challenge", "the random part of a challenge repeats");
        }
        x.hi = now();
        ch.push_back(x);
        valid = true;
        countProbe("challenges");
      } else if (c[0] == "forget") { a->resetDeadline(); valid = false; }
      else if (c[0] == "answer" || c[0] == "replay") {
        if (ch.empty()) { if (a->validateSignature(std::string(32, 'x')) == A::ValidationStatus::kOk) violation("auth-bypass", "a signature is accepted although there is no challenge"); continue; }
        Ch& x = ch.back();
        std::string sig = A::generateSignature(x.text, secret);
        bool right = true;
        if (c[0] == "replay") { if (lastSig.empty()) continue; right = lastSig == sig; sig = lastSig; }
        else {
          int w = atoi(c[1].c_str()), bit = c.size() > 2 ? atoi(c[2].c_str()) : 0;
          if (w == 0) { sig[bit % 32] ^= (char)(1 << bit % 8); right = false; }
          else if (w == 1) { sig = A::generateSignature(x.text, "another secret of more than 32 characters"); right = false; }
          else if (w == 2 && ch.size() > 1) { sig = A::generateSignature(ch[ch.size() - 2].text, secret); right = false; }
          else if (w == 3 && bit < 8) { sig = sig.substr(0, bit * 4); right = false; }
          else if (w == 3 && bit < 12) { sig += "x"; right = false; }
        }
        Time s = now();
        auto st = a->validateSignature(sig);
        Time e = now();
        bool ok = st == A::ValidationStatus::kOk;
        if (ok && !right) violation("auth-bypass", "a wrong signature is accepted");
        if (ok && !valid) violation("auth-bypass", "the answer to a challenge is accepted twice, or after the challenge was withdrawn");
        if (ok && s > x.hi + 60 * SEC) violation("auth-bypass", fmt("an answer is accepted %.3f s after the challenge", (s - x.hi) / 1e9));
        if (!ok && right && valid && e < x.lo + 60 * SEC) violation("auth-refused", fmt("the right answer is refused %.3f s after the challenge", (e - x.lo) / 1e9));
        if (ok) countProbe("answers accepted"); else countProbe("answers refused");
        lastSig = A::generateSignature(x.text, secret);
        valid = false;
      }
    }
    // HMAC-SHA256, RFC 4231 test case 2, and every part of text and key matters
    static const unsigned char want[] = {0x5b, 0xdc, 0xc1, 0x46, 0xbf, 0x60, 0x75, 0x4e, 0x6a, 0x04, 0x24, 0x26, 0x08, 0x95, 0x75, 0xc7, 0x5a, 0x00, 0x3f, 0x08, 0x9d, 0x27, 0x39, 0x83, 0x9d, 0xec, 0x58, 0xb9, 0x64, 0xec, 0x38, 0x43};
    if (A::generateSignature("what do ya want for nothing?", "Jefe") != std::string((const char*)want, 32)) violation("bad-signature", "the signature is not HMAC-SHA256");
    std::string t = rnd() + "---" + S(r.below(1 << 30)) + "---" + rnd(), base = A::generateSignature(t, secret);
    for (int i = 0; i < 8; i++) { std::string u = t; u[r.below(u.size())] ^= (char)(1 << r.below(8)); if (A::generateSignature(u, secret) == base) violation("bad-signature", "two different challenges have the same signature"); }
    for (int i = 0; i < 8; i++) { std::string u = secret; u[r.below(u.size())] ^= (char)(1 << r.below(8)); if (A::generateSignature(t, u) == base) violation("bad-signature", "two different secrets give the same signature"); }
    delete a;
  }, "auth");
}
void runUtils(const Plan& p) {
  startNode(1); vfs::mkdirs("/vfs/n1", 2);
  node(1).cores = (int)p.get("cores", 4);
  int k = (int)p.get("kind", 0);
  countProbe(std::string("runs: ") + KINDS[k]);
  switch (k) {
    case 0: runCounter(p); break; case 1: onNode(1, [&] { runInflight(p); }, "inflight"); break; case 2: runAssist(p); break; case 3: runFsync(p); break;
    case 4: runTimeouts(p); break; case 5: runTimekeeper(p); break; case 6: onNode(1, [&] { runExpcache(p); }, "main"); break; case 7: onNode(1, [&] { runClock(p); }, "main"); break;
    case 8: runMultimap(p); break; case 9: runAuth(p); break;
  }
  std::string names;
  int left = liveThreads(1, &names);
  if (left) violation("thread-left", fmt("%d threads still run at the end: %s", left, names.c_str()));
  stateSample(mixSeed(p.seed, "u"));
}
Reg reg("utils", genUtils, runUtils);
}
