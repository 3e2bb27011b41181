// Several clients on one node: writers replace a whole group of keys of every type inside one transaction, together
// with two counters; readers look at parts of the group in read-only transactions or in single commands. Every
// observation must be of one state which existed between two transactions, not older than what was already known.
#include "model.hh"
#include <algorithm>
using namespace scen;
using namespace sim;
namespace {
std::string S(long long v) { return std::to_string(v); }
const int NF = 4;
void genIso(Plan& p, Rng& r) {
  p.knob("raft", r.chance(0.5));
  p.knob("fsync", r.below(3));
  p.knob("writers", r.range(1, 3)); p.knob("readers", r.range(1, 4)); p.knob("groups", r.chance(0.7) ? 1 : 2);
  p.knob("ops", r.range(8, 40));
  p.knob("crash", r.chance(0.4));
  p.knob("sched.mean", r.pick(std::vector<double>{20, 100, 500, 3000}));
  p.knob("db.flush", r.pick(std::vector<double>{600, 2000, 8000, 64000}));
  p.knob("gap", r.pick(std::vector<double>{0, 0.3, 3}));
  int W = (int)p.get("writers", 1), R = (int)p.get("readers", 1), ops = (int)p.get("ops", 10), G = (int)p.get("groups", 1);
  for (int c = 0; c < W + R; c++)
    for (int k = 0; k < ops; k++)
      p.add("op", {S(c), c < W ? (r.chance(0.12) ? "wipe" : r.chance(0.06) ? "peek" : "write") : r.chance(0.7) ? "look" : "peek", S(r.below(G)), S(r.below(1000000))});
  if (p.get("crash", 0)) for (int k = r.range(1, 3); k > 0; k--) p.add("crash", {S(r.range(5, 400)), S(r.chance(0.4) ? 0 : r.range(1, 20)), r.chance(0.25) ? "stop" : "kill"});
}
struct View { bool hasT = false, hasN = false; std::string t; long long n = 0; };
struct Iso {
  const Plan& plan;
  Server s;
  bool raft;
  struct Group_ { long long floor = 0, tried = 0; std::map<long long, std::string> tok; } g[3];
  int running = 0, phase = 0;
  bool down = false, crashed = false;
  uint64_t ctr = 0;
  Iso(const Plan& p) : plan(p) { raft = p.get("raft", 0); }
  // one way of looking at group gi
  Cmd observe(int gi, Rng& r, bool one) {
    std::string p = "g" + S(gi), f = "f" + S(r.below(NF));
    switch (r.below(one ? 11 : 19)) {
      case 0: return {"HGETALL", p + "h"};
      case 1: return {"HVALS", p + "h"};
      case 2: return {"SMEMBERS", p + "s"};
      case 3: return {"HSCAN", p + "h", "0", "COUNT", "50"};
      case 4: return {"DEQUE_SCAN_BACK", p + "d", "0", "COUNT", "50"};
      case 5: return {"LHSCAN", p + "l", "0", "COUNT", "50"};
      case 6: return {"VHGETALL", p + "v"};
      case 7: return {"HGETALL", p + "c"};
      case 8: return {"EXISTS", p + "x", p + "h", p + "s", p + "d", p + "l", p + "v"};
      case 9: return {"SSCAN", p + "s", "0", "COUNT", "50"};
      case 10: return {"HGETALL", p + "c"};
      case 11: return {"GET", p + "x"};
      case 12: return {"HGET", p + "h", f};
      case 13: return {"HLEN", p + "h"};
      case 14: return {"LHGET", p + "l", f};
      case 15: return {"LHLEN", p + "l"};
      case 16: return {"SCARD", p + "s"};
      case 17: return {"DEQUE_LEN", p + "d"};
      default: return {"HGET", p + "c", r.chance(0.5) ? "a" : "b"};
    }
  }
  void torn(const Cmd& c, const Reply& r, const std::string& ctx) { violation("torn-state", fmt("%s answered %s%s", show(c).c_str(), r.str(300).c_str(), ctx.c_str())); }
  // what an answer says about the state; tokens: empty when the group is wiped
  void tok(View& v, const std::string& t, const Cmd& c, const Reply& r, const std::string& ctx) {
    if (v.hasT && v.t != t) violation("torn-state", fmt("%s answered %s although the token was '%s' for another read of the same transaction%s", show(c).c_str(), r.str(300).c_str(), v.t.c_str(), ctx.c_str()));
    v.hasT = true; v.t = t;
  }
  void num(View& v, long long n, const Cmd& c, const Reply& r, const std::string& ctx) {
    if (v.hasN && v.n != n) violation("torn-state", fmt("%s answered %s although the count was %lld for another read of the same transaction%s", show(c).c_str(), r.str(300).c_str(), v.n, ctx.c_str()));
    v.hasN = true; v.n = n;
  }
  int full = -1;   // 1: the group must be there, 0: must be wiped (learned from sizes)
  void absorb(View& v, const Cmd& c, const Reply& r0, int& size, const std::string& ctx) {
    const std::string& w = c[0];
    Reply r = r0;
    if (r.err()) violation("unexpected-error", fmt("%s answered %s%s", show(c).c_str(), r.str().c_str(), ctx.c_str()));
    auto sz = [&](long long n, long long expect) {
      if (n != 0 && n != expect) torn(c, r0, ctx);
      int x = n != 0;
      if (size >= 0 && size != x) violation("torn-state", fmt("%s answered %s: the group is %s here and %s for another read of the same transaction%s", show(c).c_str(), r0.str(300).c_str(), x ? "there" : "wiped", x ? "wiped" : "there", ctx.c_str()));
      size = x;
      if (!x) tok(v, "", c, r0, ctx);
    };
    auto same = [&](const std::vector<Reply>& k, size_t step, size_t off, size_t count) {
      sz((long long)(k.size() / step), (long long)count);
      if (k.size() % step) torn(c, r0, ctx);
      for (size_t i = off; i < k.size(); i += step) { if (k[i].t != '$') torn(c, r0, ctx); tok(v, k[i].s, c, r0, ctx); }
    };
    if (w == "HSCAN" || w == "SSCAN" || w == "LHSCAN" || w == "DEQUE_SCAN_BACK") {
      if (r.t != '*' || r.k.size() != 2 || r.k[0].s != "0") torn(c, r0, ctx);
      Reply in = r.k[1];
      if (w == "HSCAN") same(in.k, 2, 1, NF);
      else if (w == "LHSCAN") { same(in.k, 3, 2, NF); for (size_t i = 0; i < in.k.size(); i += 3) if (in.k[i].s != "L" + in.k[i + 2].s) torn(c, r0, ctx); }
      else same(in.k, 1, 0, 1);
    } else if (w == "HGETALL" && c[1].back() == 'c') {
      if (r.t != '*' || (r.k.size() != 4 && !r.k.empty())) torn(c, r0, ctx);
      if (r.k.empty()) num(v, 0, c, r0, ctx);
      for (size_t i = 1; i < r.k.size(); i += 2) num(v, atoll(r.k[i].s.c_str()), c, r0, ctx);
    } else if (w == "HGETALL") { if (r.t != '*') torn(c, r0, ctx); same(r.k, 2, 1, NF); }
    else if (w == "HVALS") { if (r.t != '*') torn(c, r0, ctx); same(r.k, 1, 0, NF); }
    else if (w == "SMEMBERS") { if (r.t != '*') torn(c, r0, ctx); same(r.k, 1, 0, 1); }
    else if (w == "VHGETALL") { if (r.t != '*' || r.k.size() != 2) torn(c, r0, ctx); same(r.k[1].k, 2, 1, 1); }
    else if (w == "EXISTS") sz(r.i, 6);
    else if (w == "HLEN" || w == "LHLEN") sz(r.i, NF);
    else if (w == "SCARD" || w == "DEQUE_LEN") sz(r.i, 1);
    else if (w == "HGET" && c[1].back() == 'c') num(v, r.t == 'n' ? 0 : atoll(r.s.c_str()), c, r0, ctx);
    else if (w == "GET" || w == "HGET" || w == "LHGET") { if (r.t == 'n') sz(0, 1); else { tok(v, r.s, c, r0, ctx); sz(1, 1); } }
  }
  // the view must fit a known state not older than lo
  void settle(int gi, View& v, int size, long long lo, const std::string& ctx) {
    Group_& q = g[gi];
    if (size == 1 && v.hasT && v.t.empty()) violation("torn-state", "the group is both there and wiped" + ctx);
    if (!v.hasN && v.hasT && !v.t.empty()) for (auto& x : q.tok) if (x.second == v.t) { v.n = x.first; v.hasN = true; }
    if (!v.hasN) return;
    if (v.n < lo) violation("stale-state", fmt("state %lld was read after state %lld was known%s", v.n, lo, ctx.c_str()));
    if (v.n > q.tried) violation("invented-state", fmt("state %lld was read but only %lld transactions were ever sent%s", v.n, q.tried, ctx.c_str()));
    if (v.hasT) {
      auto it = q.tok.find(v.n);
      if (it == q.tok.end()) q.tok[v.n] = v.t;
      else if (it->second != v.t) violation("torn-state", fmt("state %lld was seen with the tokens '%s' and '%s'%s", v.n, it->second.c_str(), v.t.c_str(), ctx.c_str()));
    }
    q.floor = std::max(q.floor, v.n);
  }
  std::vector<Cmd> writeOps(int gi, bool wipe, const std::string& t, Rng& r) {
    std::string p = "g" + S(gi);
    std::vector<std::vector<Cmd>> parts;
    auto& shuffle = parts;
    if (wipe) {
      std::vector<std::string> ks = {p + "x", p + "h", p + "s", p + "l", p + "v", p + "d"};
      if (r.chance(0.5)) { Cmd c = {"DEL"}; for (auto& k : ks) c.push_back(k); parts.push_back({c}); }
      else for (auto& k : ks) parts.push_back({k.back() == 'd' && r.chance(0.5) ? Cmd{"DEQUE_CLEAR", k} : Cmd{"DEL", k}});
    } else {
      parts.push_back({{"SET", p + "x", t}});
      std::vector<Cmd> h;
      if (r.chance(0.3)) h.push_back({"DEL", p + "h"});
      if (r.chance(0.5)) { Cmd c = {"HMSET", p + "h"}; for (int i = 0; i < NF; i++) { c.push_back("f" + S(i)); c.push_back(t); } h.push_back(c); }
      else for (int i = 0; i < NF; i++) h.push_back({"HSET", p + "h", "f" + S(i), t});
      parts.push_back(h);
      parts.push_back({{"DEL", p + "s"}, {"SADD", p + "s", t}});
      parts.push_back({r.chance(0.5) ? Cmd{"DEQUE_CLEAR", p + "d"} : Cmd{"DEL", p + "d"}, {r.chance(0.5) ? "DEQUE_PUSH_BACK" : "DEQUE_PUSH_FRONT", p + "d", t}});
      std::vector<Cmd> l;
      if (r.chance(0.2)) l.push_back({"DEL", p + "l"});
      if (r.chance(0.5)) { Cmd c = {"LHMSET", p + "l"}; for (int i = 0; i < NF; i++) { c.push_back("f" + S(i)); c.push_back("L" + t); c.push_back(t); } l.push_back(c); }
      else for (int i = 0; i < NF; i++) l.push_back({"LHSET", p + "l", "f" + S(i), "L" + t, t});
      parts.push_back(l);
      std::vector<Cmd> v;
      if (r.chance(0.2)) v.push_back({"DEL", p + "v"});
      v.push_back({"VHSET", p + "v", "f", t});
      parts.push_back(v);
    }
    parts.push_back({{"HINCRBY", p + "c", "a", "1"}});
    parts.push_back({{"HINCRBY", p + "c", "b", "1"}});
    for (size_t i = shuffle.size(); i > 1; i--) std::swap(shuffle[i - 1], shuffle[r.below(i)]);
    std::vector<Cmd> o;
    for (auto& x : parts) for (auto& c : x) o.push_back(c);
    return o;
  }
  // 1 ok, 0 connection lost
  int tx(Conn& k, const std::vector<Cmd>& cs, std::vector<Reply>& out) {
    std::string b = encodeRequest({"MULTI"});
    for (auto& c : cs) b += encodeRequest(c);
    b += encodeRequest({"EXEC"});
    if (!k.sendRaw(b)) return 0;
    Reply r;
    for (size_t i = 0; i < cs.size() + 1; i++) {
      if (!rd(k, r)) return 0;
      if (raft && r.err()) return 0;
      if (r != (i ? rStatus("QUEUED") : rOk())) violation("tx-queue", fmt("%s in a transaction answered %s", i ? show(cs[i - 1]).c_str() : "MULTI", r.str().c_str()));
    }
    if (!rd(k, r)) return 0;
    if (r.err() && raft) return 0;   // no leader (yet)
    if (r.t != '*' || r.k.size() != cs.size()) violation("tx-exec", fmt("EXEC of %zu commands answered %s", cs.size(), r.str().c_str()));
    out = r.k;
    return 1;
  }
  bool rd(Conn& k, Reply& r) {
    int gen = s.gen;
    bool was = crashed;
    int x = k.read(r, now() + 25 * SEC);
    if (x == 1) return true;
    if (x == -2) violation("garbage", "reply bytes are not valid protocol");
    if (x == 0 && gen == s.gen && !down && !crashed && !was && s.alive()) violation("no-reply", "request not answered within 25 s on a working node");
    return false;
  }
  void client(int id, std::vector<Line> ops) {
    Conn k;
    Rng gapR = subRng(plan, ("gap" + S(id)).c_str());
    for (auto& l : ops) {
      if (l.a.size() < 4) continue;
      int gi = atoi(l.a[2].c_str()) % 3;
      Group_& q = g[gi];
      Rng r; r.seed(mixSeed(strtoull(l.a[3].c_str(), nullptr, 10) + 1, "iso"));
      Time dl = now() + 60 * SEC;
      while (!k.ep || k.broken) {
        k.close();
        if (!down && k.open(s.host(), s.port)) { Reply x; if (k.call({"GET", "nokey"}, x) && x.t == 'n') break; k.close(); }
        if (now() > dl && !crashed) violation("not-serving", "a node without faults did not serve within 60 s");
        if (now() > dl + 120 * SEC) violation("not-serving", "the node does not serve again after its restart");
        sleepFor(50 * MS);
      }
      long long lo = q.floor;
      const std::string& kind = l.a[1];
      View v; int size = -1;
      bool lost = false;
      if (kind == "peek") {
        Cmd c = observe(gi, r, true);
        Reply x;
        if (!k.sendRaw(encodeRequest(c)) || !rd(k, x) || (raft && x.err())) lost = true;
        else { std::string ctx; absorb(v, c, x, size, ctx); settle(gi, v, size, lo, fmt(" (%s answered %s)", show(c).c_str(), x.str(300).c_str())); countProbe("single read judged"); }
      } else if (kind == "look") {
        std::vector<Cmd> cs; std::vector<Reply> out;
        for (int m = r.range(2, 7); m > 0; m--) cs.push_back(observe(gi, r, false));
        if (!tx(k, cs, out)) lost = true;
        else {
          std::string ctx = "; read-only transaction:";
          for (size_t i = 0; i < cs.size(); i++) ctx += " " + show(cs[i]) + " = " + out[i].str(160) + ";";
          for (size_t i = 0; i < cs.size(); i++) absorb(v, cs[i], out[i], size, ctx);
          settle(gi, v, size, lo, ctx);
          countProbe("read-only transaction judged");
        }
      } else {
        bool wipe = kind == "wipe";
        std::string t = wipe ? "" : "t" + S(id) + "." + S((long long)ctr++);
        std::vector<Cmd> cs, body = writeOps(gi, wipe, t, r);
        std::vector<Reply> out;
        size_t pre = r.chance(0.4) ? r.range(1, 3) : 0, post = r.chance(0.4) ? r.range(1, 3) : 0;
        for (size_t i = 0; i < pre; i++) cs.push_back(observe(gi, r, false));
        for (auto& c : body) cs.push_back(c);
        for (size_t i = 0; i < post; i++) cs.push_back(observe(gi, r, false));
        q.tried++;
        if (!tx(k, cs, out)) lost = true;
        else {
          std::string ctx = "; transaction:";
          for (size_t i = 0; i < cs.size(); i++) ctx += " " + show(cs[i]) + " = " + out[i].str(160) + ";";
          View b, a; int sb = -1, sa = -1;
          for (size_t i = 0; i < pre; i++) absorb(b, cs[i], out[i], sb, ctx);
          for (size_t i = pre + body.size(); i < cs.size(); i++) absorb(a, cs[i], out[i], sa, ctx);
          for (size_t i = pre; i < pre + body.size(); i++) {
            if (out[i].err()) violation("unexpected-error", fmt("%s answered %s%s", show(cs[i]).c_str(), out[i].str().c_str(), ctx.c_str()));
            if (cs[i][0] == "HINCRBY") num(a, out[i].i, cs[i], out[i], ctx);
          }
          tok(a, t, {"(what was written)"}, rStr(t), ctx);
          if (sa >= 0 && sa != (wipe ? 0 : 1)) violation("torn-state", "a transaction does not see its own writes" + ctx);
          if (!b.hasN) { b.hasN = true; b.n = a.n - 1; }
          else if (b.n != a.n - 1) violation("lost-update", fmt("the counters were at %lld before and at %lld after the increment inside one transaction%s", b.n, a.n, ctx.c_str()));
          if (b.n > 0 || b.hasT) settle(gi, b, sb, std::min(lo, b.n), ctx);
          auto it = q.tok.find(a.n);
          if (it != q.tok.end() && it->second != t) violation("lost-update", fmt("state %lld belongs to the tokens '%s' and '%s'%s", a.n, it->second.c_str(), t.c_str(), ctx.c_str()));
          settle(gi, a, -1, lo + 1, ctx);
          countProbe("write transaction judged");
        }
      }
      if (lost) { k.close(); countProbe("operation without an answer"); if (!crashed && !raft) violation("no-reply", "connection closed without an answer to a well-formed request"); sleepFor(20 * MS); }
      double gap = plan.get("gap", 0);
      if (gap > 0) sleepFor((Time)(gap * MS * 2 * gapR.unit()));
    }
    k.close();
    running--;
  }
  void up() {
    for (int i = 0; i < 6; i++) {
      s.start();
      if (s.waitUp(30 * SEC)) { down = false; return; }
      if (s.alive() || !node(1).deathReason.empty()) break;
    }
    violation("restart-failed", fmt("node does not come back after a crash or restart (%s)", s.startFailed ? "start refused" : node(1).deathReason.c_str()));
  }
  void run() {
    s.id = 1;
    s.mode = raft ? "raft" : "standalone";
    s.pollerThreads = 4;
    if (!s.bootstrap("iso-cluster", raft ? std::vector<std::string>{"n1:7777"} : std::vector<std::string>{}, 0, (int)plan.get("fsync", 0))) violation("bootstrap-failed", "creating the database failed without any fault");
    g_abortIsViolation = true;
    for (auto& x : g) x.tok[0] = "";
    up();
    std::map<int, std::vector<Line>> per;
    std::vector<Line> crashes;
    for (auto& l : plan.lines) {
      if (l.kind == "op" && !l.a.empty()) per[atoi(l.a[0].c_str())].push_back(l);
      if (l.kind == "crash" && l.a.size() >= 3) crashes.push_back(l);
    }
    Group gr;
    for (auto& x : per) { running++; gr.go([this, &x] { client(x.first, x.second); }, "client" + S(x.first)); }
    for (auto& l : crashes) {
      sleepFor(atol(l.a[0].c_str()) * MS);
      if (!running) break;
      crashed = true;
      long n = atol(l.a[1].c_str());
      if (l.a[2] == "stop") {
        down = true;
        if (!s.stop(60 * SEC)) { if (s.alive()) violation("shutdown-hang", "clean shutdown did not finish within 60 s"); s.up = false; }
        countFault("clean restart");
      } else if (n) {
        armCrash(1, n, false);
        Time dl = now() + 2 * SEC;
        while (s.alive() && now() < dl) sleepFor(5 * MS);
        disarmCrash(1);
        if (s.alive()) continue;
        countFault("process kill at io point");
        down = true; s.up = false;
      } else { down = true; s.kill(false); countFault("process kill"); }
      sleepFor(100 * MS);
      up();
    }
    gr.join();
    for (int i = 0; i < 3; i++) stateSample(strHash(fmt("%d %lld %zu", i, g[i].floor, g[i].tok.size())));
    down = true;
    if (!s.stop(60 * SEC) && s.alive()) violation("shutdown-hang", "clean shutdown did not finish within 60 s");
  }
};
void runIso(const Plan& p) { Iso x(p); x.run(); }
Reg reg("iso", genIso, runIso);
}
