// One node (standalone, or a one-member raft cluster) driven by clients, compared with the reference model:
// replies, contents, transactions, pipelining, paging, crashes and restarts.
#include "model.hh"
#include <cerrno>
#include <cstring>
using namespace scen;
using namespace sim;
namespace {
void genSm(Plan& p, Rng& r) {
  bool raft = r.chance(0.5);
  p.knob("raft", raft);
  p.knob("fsync", r.below(3));
  p.knob("crash", r.chance(0.6));
  p.knob("power", raft && r.chance(0.3));
  p.knob("keys", r.range(4, 18));
  p.knob("fields", r.range(2, 9));
  p.knob("chunk", r.chance(0.3));
  p.knob("ops", r.chance(0.1) ? r.range(200, 500) : r.range(20, 150));
  p.knob("tx", r.chance(0.7) ? 0.12 : 0);
  p.knob("pipe", r.chance(0.7) ? 0.15 : 0);
  p.knob("scan", 0.06);
  p.knob("wsync", r.chance(0.3) ? 1 : 6);
  if (p.get("power", 0)) p.knobs["fsync"] = "0";
  p.knob("rdfail", r.chance(0.3) ? r.pick(std::vector<double>{0.03, 0.1, 0.3}) : 0);
  GenOpts o;
  o.keys = (int)p.get("keys", 6);
  o.fields = (int)p.get("fields", 5);
  o.uniq = "v";
  if (r.chance(0.4)) o.types = {(int)r.below(6), (int)r.below(6)};
  uint64_t ctr = 0;
  int n = (int)p.get("ops", 50);
  for (int i = 0; i < n; i++) {
    double x = r.unit();
    if (p.get("rdfail", 0) && r.chance(p.get("rdfail", 0))) p.add("rderr", {std::to_string(r.chance(0.6) ? r.range(1, 6) : r.range(1, 40))});
    if (x < p.get("tx", 0)) {
      std::string q = fmt("%d", (int)r.range(1, 6));
      int k = atoi(q.c_str());
      GenOpts t = o;
      int what = r.below(3);
      if (what == 0) t.writes = false;
      if (what == 1) t.reads = false;
      p.add("tx", {q, r.chance(0.12) ? "discard" : r.chance(0.3) ? "step" : "burst"});
      for (int j = 0; j < k; j++) p.add("op", genCmd(r, t, ctr));
      i += k;
    } else if (x < p.get("tx", 0) + p.get("pipe", 0)) {
      int k = r.range(2, r.chance(0.1) ? 60 : 8);
      p.add("pipe", {std::to_string(k)});
      GenOpts t = o;
      if (r.chance(0.5)) t.reads = false;
      // versions of versioned hashes count batches, and pipelined writes are batched: not predictable here
      std::vector<int> ty;
      for (int x : t.types) if (x != 5) ty.push_back(x);
      t.types = ty.empty() ? std::vector<int>{0, 1, 2, 3, 4} : ty;
      for (int j = 0; j < k; j++) p.add("op", genCmd(r, t, ctr));
      i += k;
    } else if (x < 1 - p.get("scan", 0)) p.add("op", genCmd(r, o, ctr));
    else {
      const char* w[] = {"HSCAN", "SSCAN", "LHSCAN", "DEQUE_SCAN_BACK", "SCAN", "LHSCANM", "SCANM"};
      int k = r.below(7);
      static const std::vector<std::string> pats = {"*", "h*", "h1", "h?", "[h]1", "#h*", "h[02]*", "k1*", "k*", "k[1-4]", "*2"};
      p.add("scan", {w[k], "k" + std::to_string(r.below(o.keys)), std::to_string(r.range(1, r.chance(0.5) ? 3 : 12)), pats[r.below(pats.size())]});
    }
    if (p.get("crash", 0) && r.chance(0.03)) {
      int y = r.below(4);
      if (y == 0) p.add("restart", {});
      else p.add("crash", {p.get("power", 0) && r.chance(0.5) ? "power" : "kill", std::to_string(r.chance(0.3) ? 0 : r.range(1, 12))});
    }
    if (r.chance(0.01)) p.add("check", {});
  }
}
struct Sm {
  const Plan& plan;
  Server s;
  std::vector<Model> cand;
  Conn conn;
  bool raft;
  Rng rng;
  Sm(const Plan& p) : plan(p), cand(1), rng(subRng(p, "sm")) { raft = p.get("raft", 0); }
  bool connect() {
    Time dl = now() + 30 * SEC;
    while (true) {
      if (conn.open(s.host(), s.port)) {
        Reply r;
        if (!raft) { if (conn.call({"PING"}, r)) return true; }
        // wait for leadership
        else if (conn.call({"PING"}, r) && conn.call({"GET", "nosuchkey"}, r) && r.t == 'n') return true;
      }
      if (!s.alive()) return false;
      if (now() > dl) violation("not-serving", "a node without faults did not serve within 30 s");
      sleepFor(200 * MS);
    }
  }
  // the n-th database read fails: the request may be refused or the process may stop, anything else must be right
  bool rdArmed = false, rdFired = false; long rdLeft = 0;
  void rdClear() { vfs::g_fault = nullptr; rdArmed = rdFired = false; g_abortAllowed[1] = false; }
  void rdArm(long n) {
    rdClear();
    rdArmed = g_abortAllowed[1] = true; rdLeft = n;
    vfs::g_fault = [this](int nd, const char* op, const std::string&) -> int { if (nd != 1 || rdFired || strcmp(op, "dbread") || --rdLeft > 0) return 0; rdFired = true; countFault("database read error"); return EIO; };
  }
  static bool ioError(const Reply& r) { return r.err() && r.s.find("IO error") != std::string::npos; }
  void down() {
    conn.close();
    s.kill(false);
  }
  void up() {
    rdClear();
    for (int i = 0; i < 4; i++) {   // an armed crash point may fire during startup
      s.start();
      if (s.waitUp(30 * SEC)) { if (connect()) return; }
      if (s.alive() || !node(1).deathReason.empty()) break;
      countProbe("crash during startup");
      conn.close();
    }
    violation("restart-failed", fmt("node does not come back after a crash or restart (%s)", s.startFailed ? "start refused" : node(1).deathReason.c_str()));
  }
  // keep the models in which the command gives this reply
  void step(const std::vector<Cmd>& tx, const std::vector<Reply>& got, const char* what) {
    for (size_t i = 0; i < tx.size(); i++) trace(fmt("%s %s -> %s", what, show(tx[i]).c_str(), i < got.size() ? got[i].str().c_str() : "?"));
    std::vector<Model> next;
    std::vector<Reply> want;
    for (auto& m : cand) {
      Model c = m;
      std::vector<Reply> w = c.tx(tx);
      bool ok = w.size() == got.size();
      for (size_t i = 0; ok && i < w.size(); i++) ok = sameReply(w[i], got[i]);
      if (ok) add(next, c); else want = w;
    }
    if (next.empty() && rdFired && got.size() == tx.size()) {
      bool some = false;
      for (auto& m : cand) {
        Model c = m; bool ok = true;
        std::vector<Cmd> ex; std::vector<Reply> g;   // the requests which failed had no effect
        for (size_t i = 0; i < tx.size(); i++) { if (ioError(got[i])) some = true; else { ex.push_back(tx[i]); g.push_back(got[i]); } }
        std::vector<Reply> w = c.tx(ex);
        for (size_t i = 0; ok && i < w.size(); i++) ok = sameReply(w[i], g[i]);
        if (ok) add(next, c);
      }
      if (!some) next.clear();
      else if (!next.empty()) countProbe("read error reported");
    }
    if (next.empty()) {
      std::string d;
      for (size_t i = 0; i < tx.size(); i++)
        d += fmt("  %s -> %s, expected %s\n", show(tx[i]).c_str(), i < got.size() ? got[i].str().c_str() : "(none)", i < want.size() ? want[i].str().c_str() : "?");
      violation("wrong-reply", fmt("%s replies differ from the sequential specification:\n%s", what, d.c_str()));
    }
    cand = std::move(next);
  }
  static void add(std::vector<Model>& v, const Model& m) { for (auto& x : v) if (x == m) return; v.push_back(m); }
  // commands sent, no reply: each transaction of the list may or may not have been applied, as a prefix
  void maybe(const std::vector<std::vector<Cmd>>& txs) {
    for (auto& t : txs) for (auto& c : t) trace("unacknowledged " + show(c));
    std::vector<Model> next = cand;
    std::vector<Model> cur = cand;
    for (auto& t : txs) { for (auto& m : cur) { m.tx(t); } for (auto& m : cur) add(next, m); }
    cand = next;
  }
  bool send(const std::string& bytes) {
    if (!plan.get("chunk", 0)) return conn.sendRaw(bytes);
    size_t o = 0;
    while (o < bytes.size()) {
      size_t n = std::min<size_t>(bytes.size() - o, rng.range(1, rng.chance(0.5) ? 3 : 200));
      if (!conn.sendRaw(bytes.substr(o, n))) return false;
      o += n;
      if (rng.chance(0.5)) sleepFor(rng.range(1, 2000) * US);
    }
    return true;
  }
  // 1 reply; 0 node died; otherwise violation
  int read(Reply& r) {
    int x = conn.read(r, now() + 20 * SEC);
    if (x == 1) return 1;
    if (!s.alive()) return 0;
    if (x == -2) violation("garbage", "reply bytes are not valid protocol");
    violation("no-reply", x == 0 ? "request not answered within 20 s on an idle node" : "connection closed without an answer to a well-formed request");
  }
  void check() {
    rdClear();
    Model m = cand[0];
    // narrow down the candidates by full reads
    for (auto& c0 : std::vector<Model>(cand)) {
      Model c = c0;
      for (auto& q : c.dump()) {
        Reply r;
        if (!conn.sendRaw(encodeRequest(q.first)) || !read(r)) return;
        step({q.first}, {r}, "full read");
      }
    }
    if (cand.size() == 1) {
      std::map<std::string, std::string> raw;
      std::string dir = s.dbPath() + "/current/state-machine";
      if (rocksdb::simDump(dir, &raw)) {
        size_t user = 0;
        for (auto& kv : raw) if (kv.first.compare(0, 2, "__") != 0) user++;
        if (user != cand[0].rawKeys()) {
          std::string d;
          for (auto& kv : raw) d += fmt("  %s = %s\n", escape(kv.first).c_str(), escape(kv.second).c_str());
          violation("stray-keys", fmt("the store holds %zu keys, the contents need %zu:\n%s", user, cand[0].rawKeys(), d.c_str()));
        }
        countProbe("raw-key count compared");
        // the administrative view of the same store, page by page
        std::map<std::string, std::string> got, raw2;
        std::string cur;
        Reply r;
        for (;;) {
          size_t n = (size_t)rng.range(1, 60);
          Cmd c = {"RAW_SCAN"};
          if (rng.chance(0.7) || !cur.empty()) { c.push_back(cur.empty() ? "!" : cur); if (rng.chance(0.7)) { c.push_back("COUNT"); c.push_back(std::to_string(n)); } }
          if (c.size() < 4) n = 50;
          if (!conn.sendRaw(encodeRequest(c)) || !read(r)) return;
          if (r.t != '*' || r.k.size() % 2 || r.k.size() > 2 * n) violation("raw-scan", show(c) + " -> " + r.str());
          for (size_t i = 0; i < r.k.size(); i += 2) {
            if (!got.emplace(r.k[i].s, r.k[i + 1].s).second || got.rbegin()->first != r.k[i].s) violation("raw-scan", show(c) + ": out of order: " + r.str());
          }
          if (r.k.size() < 2 * n) break;
          cur = got.rbegin()->first + std::string(1, '\0');
        }
        if (rocksdb::simDump(dir, &raw2) && raw2 == raw) {
          if (got != raw) violation("raw-scan", fmt("raw scans show %zu keys, the store holds %zu", got.size(), raw.size()));
          countProbe("raw contents compared");
        }
      }
    }
    countProbe("full content compared");
  }
  void scan(const Line& l) {
    std::string what = l.a[0], key = l.a[1], count = l.a[2], pat = l.a[3];
    bool pm = what == "LHSCANM", sm = what == "SCANM";
    if (pm) what = "LHSCAN";
    if (sm) what = "SCAN";
    std::vector<Reply> items;
    std::string cursor = "0";
    std::vector<std::vector<Reply>> pages;
    for (int guard = 0;; guard++) {
      if (guard > 2000) violation("scan-endless", fmt("%s %s never reaches cursor 0", what.c_str(), key.c_str()));
      Cmd c = {what};
      if (what != "SCAN") c.push_back(key);
      c.push_back(cursor);
      if (pm) { c.push_back("MATCHLOC"); c.push_back(pat); }
      if (sm) { c.push_back("MATCH"); c.push_back(pat); }
      c.push_back("COUNT"); c.push_back(count);
      Reply r;
      if (!conn.sendRaw(encodeRequest(c)) || !read(r)) return;
      if (rdFired && ioError(r)) { countProbe("read error reported"); return; }
      if (r.err()) {
        bool want = false;
        for (auto& m : cand) { auto it = m.m.find(key); if (what != "SCAN" && it != m.m.end()) want |= it->second.t != (what == "HSCAN" ? Val::Hash : what == "SSCAN" ? Val::Set : what == "LHSCAN" ? Val::LHash : Val::Deque); }
        if (!want || guard) violation("scan-error", fmt("%s: %s", show(c).c_str(), r.str().c_str()));
        return;
      }
      if (r.t != '*' || r.k.size() != 2) violation("scan-error", fmt("%s: %s", show(c).c_str(), r.str().c_str()));
      size_t per = what == "HSCAN" ? 2 : what == "LHSCAN" ? 3 : 1;
      if (r.k[1].k.size() > per * atoi(count.c_str())) violation("scan-page", fmt("%s returned more than COUNT elements: %s", show(c).c_str(), r.str().c_str()));
      pages.push_back(r.k[1].k);
      cursor = r.k[0].s;
      if (cursor == "0") break;
    }
    if (what == "DEQUE_SCAN_BACK") std::reverse(pages.begin(), pages.end());
    for (auto& pg : pages) for (auto& x : pg) items.push_back(x);
    bool ok = false;
    std::string want;
    for (auto& m : cand) {
      std::vector<Reply> w;
      auto it = m.m.find(key);
      const Val* v = it == m.m.end() ? nullptr : &it->second;
      if (what == "SCAN") { for (auto& kv : m.m) if (!sm || globMatch(pat, kv.first)) w.push_back(rStr(kv.first)); }
      else if (!v) {}
      else if (what == "HSCAN" && v->t == Val::Hash) for (auto& e : v->h) { w.push_back(rStr(e.first)); w.push_back(rStr(e.second)); }
      else if (what == "SSCAN" && v->t == Val::Set) for (auto& e : v->h) w.push_back(rStr(e.first));
      else if (what == "DEQUE_SCAN_BACK" && v->t == Val::Deque) for (auto& e : v->d) w.push_back(rStr(e));
      else if (what == "LHSCAN" && v->t == Val::LHash) {
        // order of listing: locality hints in their stored (escaped) form
        auto esc = [](const std::string& h) { std::string o; for (char c : h) { if (c == '#') o += '|'; o += c; } return o + "##"; };
        std::map<std::pair<std::string, std::string>, std::pair<std::string, std::string>> s2;
        for (auto& e : v->l) if (!pm || globMatch(pat, e.second.first)) s2[{esc(e.second.first), e.first}] = {e.second.first, e.second.second};
        for (auto& e : s2) { w.push_back(rStr(e.second.first)); w.push_back(rStr(e.first.second)); w.push_back(rStr(e.second.second)); }
      }
      else continue;
      if (w == items) ok = true;
      want = Reply(rArr(w)).str(400);
    }
    countProbe("scan " + l.a[0]);
    if (!ok) violation("scan-wrong", fmt("%s %s COUNT %s %s over all pages gives %s, expected %s", l.a[0].c_str(), key.c_str(), count.c_str(), pat.c_str(), rArr(items).str(400).c_str(), want.c_str()));
  }
  void run() {
    s.id = 1;
    s.mode = raft ? "raft" : "standalone";
    if (!s.bootstrap("sm-cluster", raft ? std::vector<std::string>{"n1:7777"} : std::vector<std::string>{}, 0, (int)plan.get("fsync", 0))) violation("bootstrap-failed", "creating the database failed without any fault");
    g_abortIsViolation = true;
    up();
    vfs::writebackTree("/vfs/n1");   // power loss right after the first start: see DESIGN.md, known findings
    bool armed = false, power = false;
    auto afterFault = [&]() {
      // node may have died at an armed crash point
      if (!armed && !rdArmed) return;
      if (s.alive()) return;
      if (rdFired) countProbe("read error ends the process");
      armed = false;
      conn.close();
      s.up = false;
      countProbe("crash during operation");
      up();
      // contents must be one of the possible states
      check();
    };
    for (size_t i = 0; i < plan.lines.size(); i++) {
      const Line& l = plan.lines[i];
      if (rdFired) { afterFault(); rdClear(); }
      if (l.kind == "rderr") { if (!l.a.empty()) rdArm(atol(l.a[0].c_str())); continue; }
      stateSample(strHash(cand[0].hashKey()));
      if (l.kind == "op") {
        Reply r;
        if (!send(encodeRequest(l.a)) || !read(r)) { maybe({{l.a}}); afterFault(); continue; }
        step({l.a}, {r}, "single command");
      } else if (l.kind == "tx") {
        std::vector<Cmd> ops;
        for (int n = atoi(l.a[0].c_str()); n > 0 && i + 1 < plan.lines.size() && plan.lines[i + 1].kind == "op"; n--) ops.push_back(plan.lines[++i].a);
        bool disc = l.a[1] == "discard", stp = l.a[1] == "step";
        bool bad = false;
        Reply r;
        bool lost = false;
        std::vector<Reply> acks;
        std::vector<Cmd> seq;
        seq.push_back({"MULTI"});
        for (auto& c : ops) seq.push_back(c);
        seq.push_back({disc ? "DISCARD" : "EXEC"});
        std::string all;
        for (auto& c : seq) all += encodeRequest(c);
        if (!stp && !send(all)) lost = true;
        for (size_t k = 0; k < seq.size() && !lost; k++) {
          if (stp && !send(encodeRequest(seq[k]))) { lost = true; break; }
          if (!read(r)) { lost = true; break; }
          acks.push_back(r);
        }
        if (lost) { if (!disc) maybe({ops}); afterFault(); continue; }
        if (acks[0] != rOk()) violation("tx-queue", "MULTI answered " + acks[0].str());
        std::vector<Cmd> queued;
        for (size_t k = 0; k < ops.size(); k++) {
          if (acks[k + 1] == rStatus("QUEUED")) queued.push_back(ops[k]);
          else violation("tx-queue", show(ops[k]) + " inside MULTI answered " + acks[k + 1].str());
        }
        const Reply& e = acks.back();
        if (disc) { if (e != rOk()) violation("tx-queue", "DISCARD answered " + e.str()); continue; }
        if (e.t != '*' || e.k.size() != queued.size()) violation("tx-exec", "EXEC answered " + e.str());
        step(queued, e.k, "transaction");
        countProbe("transaction");
        (void)bad;
      } else if (l.kind == "pipe") {
        std::vector<Cmd> ops;
        for (int n = atoi(l.a[0].c_str()); n > 0 && i + 1 < plan.lines.size() && plan.lines[i + 1].kind == "op"; n--) ops.push_back(plan.lines[++i].a);
        std::string all;
        for (auto& c : ops) all += encodeRequest(c);
        bool lost = !send(all);
        size_t k = 0;
        for (; k < ops.size() && !lost; k++) {
          Reply r;
          if (!read(r)) { lost = true; break; }
          step({ops[k]}, {r}, "pipelined command");
        }
        if (lost) {
          std::vector<std::vector<Cmd>> rest;
          for (; k < ops.size(); k++) rest.push_back({ops[k]});
          maybe(rest);
          afterFault();
          continue;
        }
        countProbe("pipelined batch");
      } else if (l.kind == "scan") { if (l.a.size() >= 4) scan(l); afterFault(); }
      else if (l.kind == "check") { check(); afterFault(); }
      else if (l.kind == "restart") {
        conn.close();
        if (!s.stop(60 * SEC)) {
          if (s.alive()) violation("shutdown-hang", "clean shutdown did not finish within 60 s");
          countProbe("crash during shutdown");
          s.up = false;
        } else countFault("clean restart");
        up();
      } else if (l.kind == "crash") {
        power = l.a[0] == "power";
        int n = atoi(l.a[1].c_str());
        if (n == 0) {
          conn.close();
          s.kill(power);
          countFault(power ? "power loss" : "process kill");
          sleepFor(rng.range(1, 500) * MS);
          up();
        } else { armCrash(1, n, power); armed = true; countFault(power ? "power loss at io point" : "process kill at io point"); }
      }
    }
    check();
    afterFault();
    check();
    conn.close();
    if (s.alive()) {
      if (!s.stop(60 * SEC)) { if (s.alive()) violation("shutdown-hang", "clean shutdown did not finish within 60 s"); }
      else {
        up();
        check();
        conn.close();
        s.stop(60 * SEC);
      }
    }
  }
};
void runSm(const Plan& p) { Sm x(p); x.run(); }
Reg reg("sm", genSm, runSm);
}
