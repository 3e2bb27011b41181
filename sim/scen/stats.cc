// COMMAND_STATS and MONITOR of whole nodes: every request which was answered is counted once in its class by every replica
// which executed it, the history adds up, and every monitor sees every request of every connection once and in its order.
#include "model.hh"
#include <cstring>
using namespace scen;
using namespace sim;
namespace {
typedef long long ll;
void genStats(Plan& p, Rng& r) {
  int n = r.chance(0.5) ? 0 : r.chance(0.5) ? 1 : 3;   // 0: standalone
  p.knob("nodes", n);
  n = (int)p.get("nodes", n);
  p.knob("monitors", r.below(4));
  p.knob("slowmon", r.chance(0.4));
  p.knob("leavemon", r.chance(0.4));
  p.knob("readers", r.below(3));
  p.knob("rclients", r.range(1, 6));
  int clients = (int)p.get("rclients", 3);
  p.knob("long", r.chance(0.3));
  bool lng = p.get("long", 0);
  int tok = 0;
  for (int c = 0; c < clients; c++) {
    int k = (int)r.range(2, 25);
    for (int i = 0; i < k; i++) {
      std::string pause = std::to_string(r.chance(0.5) ? 0 : r.range(0, lng ? 9000 : 400));
      int what = r.below(10);
      std::string kind = what < 4 ? "one" : what < 8 ? "pipe" : "tx";
      int m = kind == "one" ? 1 : (int)r.range(1, r.chance(0.1) ? 200 : 8);
      std::string rw;
      for (int j = 0; j < m; j++) rw += "rwrwph"[r.below(6)];   // read, write, ping, hash write
      p.add("do", {std::to_string(c), pause, kind, rw});
    }
  }
  (void)tok;
}
struct Stats {
  const Plan& plan;
  std::vector<Server> sv;
  int n, all;
  bool done = false;
  std::map<int, ll> reads, sReads;   // per node: executed there / sent there
  std::map<int, ll> writesAt;
  ll writes = 0, sWrites = 0, txs = 0;
  bool uncertain = false;
  struct Tok { int node, client; Time sent; };
  std::map<std::string, Tok> toks;
  std::map<std::pair<int, int>, std::vector<std::string>> order;   // (node, client) -> tokens in the order sent
  std::vector<int> usedNodes;
  Stats(const Plan& p) : plan(p) { n = (int)p.get("nodes", 0); all = std::max(1, n); sv.resize(all + 1); }
  void client(int id) {
    Rng r = subRng(plan, fmt("client%d", id).c_str());
    Conn c;
    int at = 0, num = 0;
    auto connect = [&]() -> bool {
      Time dl = now() + 60 * SEC;
      for (int t = 1;; t = t % all + 1) {
        Reply q;
        if (c.open(fmt("n%d", t), 7777, 2 * SEC)) {
          // must not be counted where it is not answered
          sReads[t]++;
          if (c.call({"GET", "nosuch"}, q, 10 * SEC)) { if (q.t == 'n') { reads[t]++; at = t; return true; } else sReads[t]--; }
        }
        c.close();
        if (now() > dl) violation("not-serving", "no node serves in a cluster without faults");
        sleepFor(100 * MS);
      }
    };
    if (!connect()) return;
    for (auto& l : plan.lines) {
      if (l.kind != "do" || l.a.size() < 4 || atoi(l.a[0].c_str()) != id) continue;
      sleepFor((Time)atoi(l.a[1].c_str()) * MS);
      std::vector<Cmd> cs;
      std::vector<std::string> ts;
      bool tx = l.a[2] == "tx";
      for (char x : l.a[3]) {
        std::string t = fmt("<%d.%d>", id, num++);
        if (x == 'p' && tx) x = 'r';
        cs.push_back(x == 'r' ? Cmd{"GET", t} : x == 'w' ? Cmd{"SET", fmt("k%d", (int)r.below(5)), t} : x == 'h' ? Cmd{"HSET", "h" + std::to_string(id), "f", t} : Cmd{"PING", t});
        if (x != 'p') ts.push_back(t);   // PING is answered before it reaches the shard
      }
      std::string out;
      if (tx) out += encodeRequest({"MULTI"});
      for (auto& q : cs) out += encodeRequest(q);
      if (tx) out += encodeRequest({"EXEC"});
      ll rd = 0, wr = 0;
      for (auto& q : cs) { if (q[0] == "GET") rd++; else if (q[0] != "PING") wr++; }
      for (auto& t : ts) { toks[t] = {at, id, now()}; order[{at, id}].push_back(t); }
      sReads[at] += rd; sWrites += wr;
      if (!c.sendRaw(out)) { uncertain = true; c.close(); connect(); continue; }
      size_t need = tx ? cs.size() + 2 : cs.size();
      Reply q;
      for (size_t k = 0; k < need; k++) {
        if (c.read(q, now() + 60 * SEC) != 1) violation("no-reply", fmt("client %d: reply %zu of %zu is missing", id, k + 1, need));
        if (q.err()) { if (n < 2) violation("wrong-reply", q.str()); uncertain = true; if (k + 1 == need) { c.close(); connect(); } continue; }
        if (tx) continue;
        if (cs[k][0] == "GET") reads[at]++; else if (cs[k][0] != "PING") { writes++; writesAt[at]++; }
      }
      if (tx && !q.err()) { reads[at] += rd; writes += wr; writesAt[at] += wr; txs++; if (q.t != '*' || q.k.size() != cs.size()) violation("wrong-reply", "EXEC: " + q.str()); }
      if (!tx && q.err() && c.broken) connect();
    }
    c.close();
  }
  static bool parse(const Reply& q, std::vector<std::pair<std::string, std::vector<ll>>>& rows) {
    // [ header, [ "READS n", ... ] ] pairs, possibly nested
    rows.clear();
    std::function<void(const Reply&)> rec = [&](const Reply& x) {
      for (size_t i = 0; i < x.k.size(); i++) {
        if (x.k[i].t == '*') { rec(x.k[i]); continue; }
        if (i + 1 < x.k.size() && x.k[i + 1].t == '*') {
          std::vector<ll> v;
          for (auto& y : x.k[i + 1].k) { size_t p = y.s.rfind(' '); v.push_back(p == std::string::npos ? -1 : atoll(y.s.c_str() + p + 1)); }
          rows.push_back({x.k[i].s, v});
          i++;
        }
      }
    };
    rec(q);
    return !rows.empty() && rows[0].first == "TOTALS";
  }
  void reader(int id) {
    Rng r = subRng(plan, fmt("reader%d", id).c_str());
    std::map<int, std::vector<ll>> last;
    while (!done) {
      sleepFor((Time)r.range(5, 3000) * MS);
      int t = (int)r.range(1, all);
      Conn c; Reply q;
      ll r0 = reads[t], w0 = n <= 1 ? writes : 0;
      if (done || !c.open(fmt("n%d", t), 7777, 2 * SEC)) continue;
      if (!c.call({"COMMAND_STATS"}, q, 10 * SEC)) continue;
      std::vector<std::pair<std::string, std::vector<ll>>> rows;
      if (!parse(q, rows) || rows[0].second.size() != 4) violation("wrong-reply", "COMMAND_STATS: " + q.str(400));
      auto& v = rows[0].second;
      auto& o = last[t];
      if (!o.empty()) for (int i = 0; i < 4; i++) if (v[i] < o[i]) violation("counter-backwards", fmt("node %d: counter %d went from %lld to %lld", t, i, o[i], v[i]));
      o = v;
      if (v[0] < r0 || v[1] < w0) violation("counter-wrong", fmt("node %d: %lld reads and %lld writes were answered, %lld and %lld are counted", t, r0, w0, v[0], v[1]));
      if (!uncertain && (v[0] > sReads[t] || v[1] > sWrites)) violation("counter-wrong", fmt("node %d: %lld reads and %lld writes were sent, %lld and %lld are counted", t, sReads[t], sWrites, v[0], v[1]));
      countProbe("counters read");
    }
  }
  void monitor(int id) {
    Rng r = subRng(plan, fmt("monitor%d", id).c_str());
    sleepFor((Time)r.range(0, r.chance(0.5) ? 1 : 3000) * MS);
    int t = (int)r.range(1, all);
    Conn c; Reply q;
    if (!c.open(fmt("n%d", t), 7777, 5 * SEC) || !c.sendRaw(encodeRequest({"MONITOR"}))) return;
    std::vector<std::string> early;   // another connection may be faster than the acknowledgement
    for (;;) {
      if (c.read(q, now() + 10 * SEC) != 1) violation("no-reply", "MONITOR");
      if (q == rOk()) break;
      if (q.t != '+' || q.s.find(": ") == std::string::npos) violation("wrong-reply", "MONITOR: " + q.str());
      early.push_back(q.s);
    }
    Time reg = now();
    bool slow = plan.get("slowmon", 0) && r.chance(0.5);
    Time leave = plan.get("leavemon", 0) && r.chance(0.5) ? now() + (Time)r.range(0, 3000) * MS : NEVER;
    std::map<std::string, size_t> seen;
    std::map<int, std::string> lastOf;
    auto line = [&](const std::string& s) {
      if (s.find("\"RAFT_") != std::string::npos) return;   // requests of other nodes
      for (size_t p = s.find('<'); p != std::string::npos; p = s.find('<', p + 1)) {
        size_t e = s.find('>', p);
        if (e == std::string::npos) break;
        std::string tk = s.substr(p, e - p + 1);
        auto it = toks.find(tk);
        if (it == toks.end() || it->second.node != t) violation("monitor-wrong", fmt("a monitor of node %d shows %s, which was not sent there: %s", t, tk.c_str(), s.c_str()));
        if (!seen.emplace(tk, seen.size()).second) violation("monitor-duplicate", fmt("a monitor of node %d shows %s twice", t, tk.c_str()));
        int num = atoi(tk.c_str() + tk.find('.') + 1), cl = it->second.client;
        auto& l = lastOf[cl];
        if (!l.empty() && num < atoi(l.c_str())) violation("monitor-order", fmt("a monitor of node %d shows %s after request %s of the same connection", t, tk.c_str(), l.c_str()));
        l = std::to_string(num);
      }
    };
    for (auto& x : early) line(x);
    Time drain = NEVER;
    for (;;) {
      if (done && drain == NEVER) drain = now() + 5 * SEC;   // heartbeats between the nodes never end
      if (now() >= drain) break;
      if (now() >= leave) { c.close(); countProbe("monitor left"); return; }
      if (slow && !done) sleepFor((Time)r.range(1, 2000) * MS);
      int k = c.read(q, std::min(leave, now() + 200 * MS));
      if (k < 0) violation("closed", fmt("the connection of a monitor of node %d was closed", t));
      if (k == 1) { trace("monitor: " + q.s.substr(0, 150)); line(q.s); }
    }
    for (auto& tk : toks) if (tk.second.node == t && tk.second.sent >= reg && !seen.count(tk.first)) violation("monitor-missed", fmt("a monitor of node %d never saw %s, sent %.3f s after MONITOR was acknowledged", t, tk.first.c_str(), (double)(tk.second.sent - reg) / SEC));
    countProbe("monitor complete");
    countProbe("monitored requests", seen.size());
  }
  void run() {
    g_abortIsViolation = true;
    std::vector<std::string> mem;
    for (int i = 1; i <= n; i++) mem.push_back(fmt("n%d:7777", i));
    for (int i = 1; i <= all; i++) {
      sv[i].id = i; sv[i].mode = n ? "raft" : "standalone";
      if (!sv[i].bootstrap("stats-cluster", mem, 0, 2)) violation("bootstrap-failed", "creating the database failed without any fault");
      sv[i].start();
    }
    for (int i = 1; i <= all; i++) if (!sv[i].waitUp(30 * SEC)) violation("not-serving", "a node does not start");
    Group g, h;
    for (int i = 0; i < (int)plan.get("monitors", 0); i++) h.go([this, i] { monitor(i); }, "monitor");
    for (int i = 0; i < (int)plan.get("readers", 0); i++) h.go([this, i] { reader(i); }, "reader");
    if (plan.get("monitors", 0)) sleepFor(500 * MS);
    for (int i = 0; i < (int)plan.get("rclients", 1); i++) g.go([this, i] { client(i); }, "client");
    g.join();
    Time q0 = now();
    done = true;
    h.join();
    // all replicas execute everything; the last interval is over after ten seconds
    sleepFor(12 * SEC);
    if (now() - q0 < 12 * SEC) sleepFor(SEC);
    for (int t = 1; t <= all; t++) {
      Conn c; Reply q;
      if (!c.open(fmt("n%d", t), 7777, 5 * SEC) || !c.call({"COMMAND_STATS"}, q, 10 * SEC)) violation("not-serving", "COMMAND_STATS");
      std::vector<std::pair<std::string, std::vector<ll>>> rows;
      if (!parse(q, rows) || rows[0].second.size() != 4) violation("wrong-reply", "COMMAND_STATS: " + q.str(400));
      auto v = rows[0].second;
      std::vector<ll> sum(4);
      for (size_t i = 1; i < rows.size(); i++) for (int j = 0; j < 4; j++) sum[j] += rows[i].second[j];
      if (now() < 900 * SEC && sum != v) violation("counter-wrong", fmt("node %d: the intervals add up to %lld/%lld/%lld/%lld, the totals are %lld/%lld/%lld/%lld", t, sum[0], sum[1], sum[2], sum[3], v[0], v[1], v[2], v[3]));
      if (!uncertain) {
        if (v[0] != reads[t]) violation("counter-wrong", fmt("node %d: %lld reads counted, %lld were answered", t, v[0], reads[t]));
        if (writesAt[t] == writes && v[1] != writes) violation("counter-wrong", fmt("node %d: %lld writes counted, %lld were answered", t, v[1], writes));
        countProbe("final counters compared");
      }
      c.close();
    }
    Group st;
    for (int i = 1; i <= all; i++) st.go([this, i] { if (!sv[i].stop(60 * SEC) && node(i).alive) violation("shutdown-hang", fmt("clean shutdown of node %d did not finish", i)); }, "stop");
    st.join();
  }
};
void runStats(const Plan& p) { Stats x(p); x.run(); }
static Reg reg("stats", genStats, runStats);
}
