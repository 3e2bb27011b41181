// Publishers, subscribers and versioned-hash watchers on one node or on a three-node cluster with leadership changes.
// A subscription must see every message published (and acknowledged) while it was active exactly once and in order,
// and nothing else; a watcher must be able to rebuild the hash from the revisions it receives.
#include "model.hh"
#include <algorithm>
using namespace scen;
using namespace sim;
namespace {
std::string S(long long v) { return std::to_string(v); }
const std::vector<std::string> PATTERNS = {"c*", "c[0-2]", "*1", "c?", "*", "__vhash@*", "d*", "c\\1", "[^c]*"};
void genPubsub(Plan& p, Rng& r) {
  p.knob("nodes", r.chance(0.25) ? 3 : 1);
  int n = (int)p.get("nodes", 1);
  p.knob("raft", n > 1 || r.chance(0.5));
  p.knob("subs", r.range(1, 5)); p.knob("pubs", r.range(1, 4)); p.knob("watchers", r.range(0, 3)); p.knob("writers", r.range(0, 3));
  p.knob("crowd", r.chance(0.12) ? r.range(95, 230) : 0);
  p.knob("ops", r.range(10, 60));
  p.knob("sched.mean", r.pick(std::vector<double>{20, 100, 500, 2000}));
  p.knob("drops", r.chance(0.4) ? 0.08 : 0);
  p.knob("faults", n > 1 && r.chance(0.8));
  p.knob("gap", r.pick(std::vector<double>{0.3, 3, 30}));   // typical pause between operations, ms
  int ops = (int)p.get("ops", 30), id = 0;
  double drops = p.get("drops", 0);
  auto ch = [&] { return r.chance(0.9) ? "c" + S(r.below(4)) : "d" + S(r.below(2)); };
  auto put = [&](int who, Cmd a) { a.insert(a.begin(), S(who)); p.add("op", a); };
  for (int i = 0; i < (int)p.get("subs", 1); i++, id++) {
    put(id, {"kind", "sub", r.chance(0.3) ? "push" : "plain"});
    for (int k = 0; k < ops; k++) {
      double x = r.unit();
      if (x < 0.28) { Cmd c = {"subscribe"}; for (int q = r.range(1, 3); q > 0; q--) c.push_back(ch()); put(id, c); }
      else if (x < 0.42) { Cmd c = {"psubscribe"}; for (int q = r.range(1, 2); q > 0; q--) c.push_back(r.pick(PATTERNS)); put(id, c); }
      else if (x < 0.55) { Cmd c = {"unsubscribe"}; for (int q = r.range(1, 2); q > 0; q--) c.push_back(ch()); put(id, c); }
      else if (x < 0.64) { Cmd c = {"punsubscribe"}; for (int q = r.range(1, 2); q > 0; q--) c.push_back(r.pick(PATTERNS)); put(id, c); }
      else if (x < 0.70) put(id, {"ping"});
      else if (x < 0.76) put(id, {"set", "s" + S(id), S(k)});
      else if (x < 0.80) put(id, {"publish", ch(), "self" + S(id) + "." + S(k)});
      else if (x < 0.80 + drops) put(id, {r.chance(0.5) ? "drop" : "reopen"});
      else put(id, {"read", S(r.below(60))});
    }
  }
  for (int i = 0; i < (int)p.get("pubs", 1); i++, id++) {
    put(id, {"kind", "pub"});
    for (int k = 0; k < ops * 2; k++) {
      if (r.chance(0.85)) put(id, {"publish", ch(), "p" + S(id) + "." + S(k) + (r.chance(0.02) ? std::string(r.range(100, 20000), 'x') : r.chance(0.05) ? std::string("\r\n\0$", 4) : "")});
      else put(id, {"read", S(r.below(40))});
    }
  }
  for (int i = 0; i < (int)p.get("watchers", 1); i++, id++) {
    put(id, {"kind", "watch", r.chance(0.3) ? "push" : "plain"});
    for (int k = 0; k < std::max(2, ops / 6); k++) put(id, {"watch", "h" + S(r.below(3)), S(r.below(400)), r.chance(0.3) ? "pattern" : "channel"});
  }
  uint64_t ctr = 0;
  for (int i = 0; i < (int)p.get("writers", 1); i++, id++) {
    put(id, {"kind", "write"});
    for (int k = 0; k < ops; k++) {
      Cmd c = {"tx"};
      int m = r.chance(0.5) ? 1 : r.range(1, 5);
      for (int q = 0; q < m; q++) {
        if (c.size() > 1) c.push_back(";");
        std::string key = "h" + S(r.below(3));
        if (r.chance(0.7)) for (auto& a : Cmd{"VHSET", key, "f" + S(r.below(6)), "w" + S(i) + "." + S(++ctr)}) c.push_back(a);
        else { c.push_back("VHDEL"); c.push_back(key); for (int z = r.range(1, 3); z > 0; z--) c.push_back("f" + S(r.below(6))); }
      }
      put(id, c);
    }
  }
  if (p.get("faults", 0)) for (int k = r.range(1, 6); k > 0; k--) p.add("fault", {r.pick(std::vector<std::string>{"coup", "coup", "cut", "kill", "stall"}), S(r.range(1, n)), S(r.range(50, 4000))});
}
struct Pub { int pid; std::string chan, payload; Time inv, resp; long long hits; int node; };
struct Sub { bool pattern; std::string name; Time sent = 0, conf = 0, uSent = 0, uConf = 0; };
struct Del { bool pattern; std::string name, chan, payload; Time at; };
struct Session {
  int client, node, gen;
  std::vector<Sub> subs;
  std::vector<Del> dels;
  bool clean = false;          // ended by the client, with everything delivered
  Time endSent = 0;
};
struct VTx { uint64_t version; std::vector<Cmd> cmds; };
struct PubSub {
  const Plan& plan;
  int N;
  bool raft;
  std::vector<std::unique_ptr<Server>> srv;
  std::vector<Pub> pubs;
  std::vector<std::unique_ptr<Session>> sessions;
  std::map<std::string, std::map<uint64_t, std::vector<Cmd>>> written;       // key -> version -> commands of that transaction
  struct Rev { uint64_t v; std::vector<std::pair<std::string, std::string>> up; int client; };
  std::map<std::string, std::vector<Rev>> revs;
  bool lostWrites = false;      // a write got no answer: its version is unknown
  bool ending = false, calm = true;
  int faultsActive = 0;
  std::vector<int> serverGen;
  explicit PubSub(const Plan& p) : plan(p) { N = (int)p.get("nodes", 1); raft = p.get("raft", 0) || N > 1; }
  struct Client {
    int id = 0;
    bool push = false;
    Conn conn;
    int node = 0;
    std::vector<Cmd> lines;
    Rng rng;
    Session* s = nullptr;
    std::set<std::pair<bool, std::string>> active;
    bool dead = false;          // the session is over (purged, redirected, lost)
    struct Wait { std::string kind; std::string name; bool done = false; Reply r; };
    std::deque<Wait*> waits;
    std::string watchKey, watchChan;
    bool watchPattern = false;
    std::map<uint64_t, std::vector<std::pair<std::string, std::string>>> seenRev;
    std::vector<uint64_t> seenOrder;
  };
  bool up(int i) { return srv[i]->alive() && srv[i]->up; }
  // connect to the node which currently serves; false: none
  bool openAt(Client* c, int node) {
    c->conn.close();
    c->waits.clear(); c->active.clear(); c->dead = false; c->s = nullptr; c->seenRev.clear(); c->seenOrder.clear();
    if (!c->conn.open(srv[node]->host(), srv[node]->port, 2 * SEC)) return false;
    c->node = node;
    if (c->push) { Reply r; if (!c->conn.call({"ACTIVATE_PUSH_TYPES"}, r) || r != rOk()) return false; }
    sessions.emplace_back(new Session);
    c->s = sessions.back().get();
    c->s->client = c->id; c->s->node = node; c->s->gen = serverGen[node];
    return true;
  }
  bool open(Client* c) {
    Time dl = now() + 120 * SEC;
    int start = N > 1 ? (int)c->rng.below(N) : 0;
    for (int k = 0; !ending; k++) {
      int node = (start + k) % N;
      if (openAt(c, node)) {
        if (N == 1) return true;
        // only leaders serve subscriptions
        Reply r;
        if (c->conn.call({"RAFT_LEADER_INFO"}, r, 3 * SEC) && !r.err()) return true;
      } else if (N == 1 && !srv[0]->alive()) return false;
      c->conn.close();
      if (now() > dl) violation("not-serving", fmt("client %d found no node to talk to within 120 s", c->id));
      sleepFor(c->rng.range(5, 120) * MS);
    }
    return false;
  }
  void bad(const std::string& cls, const std::string& m) { violation(cls, m); }
  bool isMsg(const Reply& r, Reply& body) {
    body = r;
    if (r.t == '>') {
      if (r.k.empty() || r.k[0].s != "pubsub") bad("garbage", "push message of unknown kind: " + r.str());
      body.k.erase(body.k.begin());
      return true;
    }
    if (r.t != '*' || r.k.empty()) return false;
    static const std::set<std::string> names = {"message", "pmessage", "subscribe", "psubscribe", "unsubscribe", "punsubscribe"};
    return r.k[0].t == '$' && names.count(r.k[0].s);
  }
  // read until all expected replies have arrived, or until the deadline if none is expected
  bool pump(Client* c, Time until) {
    Time limit = now() + 60 * SEC;
    while (!c->dead) {
      bool waiting = !c->waits.empty();
      Reply r;
      int k = c->conn.read(r, waiting ? limit : until);
      if (k == -2) bad("garbage", "subscriber received bytes which are not valid protocol");
      if (k == -1) { c->dead = true; if (N == 1 && srv[0]->alive() && !ending) bad("closed", fmt("the connection of client %d was closed", c->id)); return false; }
      if (k == 0) {
        if (!waiting) return true;
        if (srv[c->node]->alive() && !ending && N == 1) bad("no-reply", fmt("client %d: %s %s got no answer within 60 s", c->id, c->waits.front()->kind.c_str(), c->waits.front()->name.c_str()));
        c->dead = true;
        return false;
      }
      got(c, r);
      if (c->waits.empty() && now() >= until) return !c->dead;
    }
    return false;
  }
  void got(Client* c, const Reply& r) {
    Reply b;
    if (r.err()) {
      // on one node with no leadership changes nothing may go wrong; otherwise the subscriptions are gone
      if (N == 1 && !ending) bad("unexpected-error", fmt("client %d received %s", c->id, r.str().c_str()));
      c->dead = true;
      countProbe("subscriptions purged");
      return;
    }
    if (isMsg(r, b)) {
      if (c->push != (r.t == '>')) bad("garbage", "message in the wrong format: " + r.str());
      const std::string& kind = b.k[0].s;
      if (kind == "message" || kind == "pmessage") {
        bool pat = kind == "pmessage";
        if (b.k.size() != (pat ? 4u : 3u)) bad("garbage", "malformed message: " + r.str());
        delivered(c, pat, b.k[1].s, b.k[pat ? 2 : 1].s, b.k[pat ? 3 : 2].s);
        return;
      }
      // confirmation
      if (c->waits.empty() || c->waits.front()->kind != kind || c->waits.front()->name != b.k[1].s || b.k.size() != 3) bad("wrong-reply", fmt("client %d received confirmation %s, expected %s", c->id, r.str().c_str(), c->waits.empty() ? "nothing" : (c->waits.front()->kind + " " + c->waits.front()->name).c_str()));
      bool pat = kind[0] == 'p', un = kind.find("unsub") != std::string::npos;
      if (un) c->active.erase({pat, b.k[1].s}); else c->active.insert({pat, b.k[1].s});
      if (b.k[2].i != (long long)c->active.size()) bad("wrong-reply", fmt("client %d: after %s %s the node counts %lld subscriptions, the client has %zu", c->id, kind.c_str(), b.k[1].s.c_str(), b.k[2].i, c->active.size()));
      for (auto& s : c->s->subs) if (s.pattern == pat && s.name == b.k[1].s) { if (un) { if (s.uSent && !s.uConf) s.uConf = now(); } else if (!s.conf) s.conf = now(); }
      c->waits.pop_front();
      return;
    }
    if (c->waits.empty()) bad("extra-reply", fmt("client %d received %s without having asked", c->id, r.str().c_str()));
    auto* w = c->waits.front();
    if (w->kind.find("subscribe") != std::string::npos) bad("wrong-reply", fmt("client %d: %s %s answered %s", c->id, w->kind.c_str(), w->name.c_str(), r.str().c_str()));
    c->waits.pop_front();
    w->r = r;
    w->done = true;
  }
  void delivered(Client* c, bool pat, const std::string& name, const std::string& chan, const std::string& payload) {
    c->s->dels.push_back({pat, name, chan, payload, now()});
    countProbe(pat ? "pattern messages delivered" : "messages delivered");
    bool known = false;
    for (auto& s : c->s->subs) if (s.pattern == pat && s.name == name && !s.uConf) known = true;
    if (!known) bad("unsubscribed-delivery", fmt("client %d received a message for %s, to which it is not subscribed", c->id, name.c_str()));
    if (pat ? !globMatch(name, chan) : name != chan) bad("wrong-delivery", fmt("client %d: message of channel %s delivered for %s", c->id, chan.c_str(), name.c_str()));
    if (chan.compare(0, 8, "__vhash@") == 0) revision(c, pat, name, chan.substr(8), payload);
  }
  void revision(Client* c, bool pat, const std::string& name, const std::string& key, const std::string& payload) {
    Conn tmp;   // parse the payload as protocol
    Reply r;
    tmp.rx = payload;
    static sim::net::EpPtr none;
    if (!parseReply(payload, r) || r.t != '*' || r.k.size() != 2 || r.k[0].t != ':' || r.k[1].t != '*' || r.k[1].k.size() % 2) bad("bad-revision", "the payload of a hash revision is malformed: " + escape(payload.substr(0, 200)));
    std::vector<std::pair<std::string, std::string>> up;
    for (size_t i = 0; i + 1 < r.k[1].k.size(); i += 2) up.push_back({r.k[1].k[i].s, r.k[1].k[i + 1].s});
    uint64_t v = (uint64_t)r.k[0].i;
    revs[key].push_back({v, up, c->id});
    if (key == c->watchKey && pat == c->watchPattern) {
      if (!c->seenOrder.empty() && v != c->seenOrder.back() + 1) bad("revision-gap", fmt("watcher %d of %s received revision %llu after revision %llu", c->id, key.c_str(), (unsigned long long)v, (unsigned long long)c->seenOrder.back()));
      c->seenOrder.push_back(v);
      c->seenRev[v] = up;
    }
    countProbe("hash revisions delivered");
  }
  static std::string escape(const std::string& s) { std::string o; for (char ch : s) o += ch >= 32 && ch < 127 ? std::string(1, ch) : fmt("\\x%02x", (unsigned char)ch); return o; }
  static bool parseAt(const std::string& s, size_t& p, Reply& r) {
    size_t e = s.find("\r\n", p);
    if (e == std::string::npos || p >= s.size()) return false;
    char t = s[p];
    std::string h = s.substr(p + 1, e - p - 1);
    p = e + 2;
    r.t = t;
    if (t == ':') { r.i = atoll(h.c_str()); return true; }
    if (t == '$') { size_t n = atoll(h.c_str()); if (p + n + 2 > s.size() || s.compare(p + n, 2, "\r\n")) return false; r.s = s.substr(p, n); p += n + 2; return true; }
    if (t == '*') { for (long long i = 0, n = atoll(h.c_str()); i < n; i++) { r.k.emplace_back(); if (!parseAt(s, p, r.k.back())) return false; } return true; }
    return false;
  }
  static bool parseReply(const std::string& s, Reply& r) { size_t p = 0; return parseAt(s, p, r) && p == s.size(); }
  // send a command, wait for everything it produces
  bool simple(Client* c, const Cmd& q, Reply& r) {
    Client::Wait w;
    w.kind = q[0];
    c->waits.push_back(&w);
    bool ok = c->conn.sendRaw(encodeRequest(q)) && pump(c, 0) && w.done;
    if (!ok) { c->dead = true; c->waits.clear(); return false; }
    r = w.r;
    return true;
  }
  bool subCmd(Client* c, const Cmd& q) {
    bool pat = q[0][0] == 'p', un = q[0].find("unsub") != std::string::npos;
    std::vector<std::unique_ptr<Client::Wait>> w;
    for (size_t i = 1; i < q.size(); i++) {
      if (un) { for (auto& s : c->s->subs) if (s.pattern == pat && s.name == q[i] && !s.uSent) s.uSent = now(); }
      else {
        bool have = false;
        for (auto& s : c->s->subs) if (s.pattern == pat && s.name == q[i] && !s.uSent) have = true;
        if (!have) { Sub s; s.pattern = pat; s.name = q[i]; s.sent = now(); c->s->subs.push_back(s); }
      }
      w.emplace_back(new Client::Wait);
      w.back()->kind = q[0]; w.back()->name = q[i];
      c->waits.push_back(w.back().get());
    }
    Client::Wait okw;
    okw.kind = "ok";
    if (c->push) c->waits.push_back(&okw);
    bool ok = c->conn.sendRaw(encodeRequest(q)) && pump(c, 0);
    if (!ok) { c->waits.clear(); c->dead = true; return false; }
    if (c->push && okw.r != rOk()) bad("wrong-reply", "the reply to " + q[0] + " with push types is " + okw.r.str());
    countProbe(q[0]);
    return true;
  }
  void publish(Client* c, const std::string& ch, const std::string& payload) {
    size_t ix = pubs.size();
    pubs.push_back({c->id, ch, payload, now(), 0, 0, c->node});
    Reply r;
    if (!simple(c, {"PUBLISH", ch, payload}, r)) return;
    if (r.t != ':') bad("wrong-reply", "PUBLISH answered " + r.str());
    pubs[ix].resp = now();
    pubs[ix].hits = r.i;
    countProbe("published");
  }
  // the client is done with this connection
  void finish(Client* c, bool clean) {
    if (c->s && clean && !c->dead && c->conn.ep) {
      c->s->endSent = now();
      Reply r;
      if (simple(c, {"PING"}, r) && r == rStatus("PONG")) c->s->clean = true;
    }
    c->conn.close();
    c->s = nullptr;
    c->waits.clear();
  }
  void runClient(Client* c) {
    std::string kind = "sub";
    double gap = plan.get("gap", 3);
    for (auto& l : c->lines) {
      if (ending) break;
      if (l[0] == "kind") { if (l.size() > 1) kind = l[1]; c->push = l.size() > 2 && l[2] == "push"; continue; }
      if (c->rng.chance(0.5)) sleepFor((Time)(c->rng.unit() * 2 * gap * MS));
      if (l[0] == "tx" || l[0] == "publish") {
        // may be redirected: only plain requests on this connection
        if (!c->conn.ep || c->dead) { finish(c, false); if (!open(c)) break; }
        if (l[0] == "publish") { if (l.size() > 2) publish(c, l[1], l[2]); }
        else tx(c, l);
        continue;
      }
      if (l[0] == "watch") { if (l.size() > 3) watch(c, l[1], atol(l[2].c_str()), l[3] == "pattern"); continue; }
      if (!c->conn.ep || c->dead) { finish(c, false); if (!open(c)) break; }
      if (l[0] == "read") { if (l.size() > 1) pump(c, now() + atol(l[1].c_str()) * MS); }
      else if (l[0] == "ping") { Reply r; if (simple(c, {"PING"}, r) && r != rStatus("PONG")) bad("wrong-reply", "PING answered " + r.str()); }
      else if (l[0] == "set") { Reply r; if (l.size() > 2 && simple(c, {"SET", l[1], l[2]}, r) && r != rOk()) bad("wrong-reply", "SET answered " + r.str()); }
      else if (l[0] == "drop") { if (c->conn.ep) { NoPreempt np; net::resetConn(c->conn.ep); } finish(c, false); countFault("subscriber connection reset"); }
      else if (l[0] == "reopen") finish(c, true);
      else if (l.size() > 1) subCmd(c, l);
    }
    if (kind == "sub" && c->conn.ep && !c->dead) pump(c, now() + 50 * MS);
    if (kind == "sub" && N > 1) return;      // stays subscribed, see stranded()
    finish(c, true);
  }
  // once the faults are over, nobody may be left subscribed at a node which does not serve, without having been told
  void stranded(std::vector<std::unique_ptr<Client>>& cl) {
    int leader = -1;
    Time since = now(), dl = now() + 300 * SEC;
    while (now() - since < 15 * SEC) {
      int l = -1, count = 0;
      for (int i = 0; i < N; i++) { Conn q; Reply r; if (q.open(srv[i]->host(), srv[i]->port, SEC) && q.call({"RAFT_LEADER_INFO"}, r, SEC) && !r.err()) { l = i; count++; } }
      if (count != 1 || l != leader) { leader = count == 1 ? l : -1; since = now(); }
      if (now() > dl) violation("not-serving", "no leader stays for 15 s within 300 s after the faults stopped");
      for (auto& c : cl) if (c->conn.ep && !c->dead) pump(c.get(), now() + 1 * MS);
      sleepFor(500 * MS);
    }
    for (auto& c : cl) if (c->conn.ep && !c->dead && !c->active.empty()) {
      pump(c.get(), now() + 10 * MS);
      if (c->dead) continue;
      if (c->node != leader) violation("stranded-subscriber", fmt("client %d still has %zu subscriptions at node %d, which has not been leader for 15 s, and was not told", c->id, c->active.size(), c->node + 1));
      countProbe("subscribers at the leader at the end");
    }
    for (auto& c : cl) finish(c.get(), true);
  }
  void tx(Client* c, const Cmd& l) {
    std::vector<Cmd> v(1);
    for (size_t i = 1; i < l.size(); i++) { if (l[i] == ";") v.emplace_back(); else v.back().push_back(l[i]); }
    std::vector<Cmd> q;
    for (auto& x : v) if (x.size() >= 3 && (x[0] == "VHDEL" || x.size() == 4)) q.push_back(x);
    if (q.empty()) return;
    std::string all;
    bool multi = q.size() > 1 || c->rng.chance(0.3);
    std::vector<std::unique_ptr<Client::Wait>> w;
    auto add = [&](const Cmd& x) { all += encodeRequest(x); w.emplace_back(new Client::Wait); w.back()->kind = x[0]; c->waits.push_back(w.back().get()); };
    if (multi) add({"MULTI"});
    for (auto& x : q) add(x);
    if (multi) add({"EXEC"});
    if (!c->conn.sendRaw(all) || !pump(c, 0)) { lostWrites = true; c->waits.clear(); c->dead = true; return; }
    std::vector<Reply> rs;
    if (multi) { rs = w.back()->r.k; if (w.back()->r.t != '*' || rs.size() != q.size()) bad("wrong-reply", "EXEC answered " + w.back()->r.str()); }
    else rs.push_back(w[0]->r);
    // the version a key got from this transaction: the highest one reported (removing nothing reports the old one)
    std::map<std::string, std::vector<Cmd>> per;
    std::map<std::string, uint64_t> ver;
    for (size_t i = 0; i < q.size(); i++) {
      if (rs[i].t != ':') bad("wrong-reply", show(q[i]) + " answered " + rs[i].str());
      per[q[i][1]].push_back(q[i]);
      ver[q[i][1]] = std::max<uint64_t>(ver[q[i][1]], (uint64_t)rs[i].i);
    }
    for (auto& kv : per) txs[kv.first].push_back({ver[kv.first], kv.second});
    countProbe("hash transactions");
  }
  std::map<std::string, std::vector<VTx>> txs;
  void watch(Client* c, const std::string& key, long forMs, bool pattern) {
    finish(c, false);
    if (!open(c)) return;
    c->watchKey = key; c->watchPattern = pattern;
    std::string name = pattern ? "__vhash@" + key.substr(0, key.size() - 1) + "[" + key.back() + "]" : "__vhash@" + key;
    if (!subCmd(c, {pattern ? "psubscribe" : "subscribe", name})) { finish(c, false); return; }
    Reply base;
    if (!simple(c, {"VHGETALL", key}, base)) { finish(c, false); return; }
    uint64_t v;
    std::map<std::string, std::string> st;
    if (!vh(base, v, st)) bad("wrong-reply", "VHGETALL answered " + base.str());
    if (!pump(c, now() + forMs * MS)) { finish(c, false); return; }
    Reply fin;
    if (!simple(c, {"VHGETALL", key}, fin)) { finish(c, false); return; }
    uint64_t v2;
    std::map<std::string, std::string> st2;
    if (!vh(fin, v2, st2)) bad("wrong-reply", "VHGETALL answered " + fin.str());
    Time dl = now() + 30 * SEC;
    while (!c->dead && v2 > v && (c->seenOrder.empty() || c->seenOrder.back() < v2)) {
      if (now() > dl) bad("revision-lost", fmt("watcher %d of %s: revision %llu was not delivered within 30 s (last one received: %llu, subscribed at %llu)", c->id, key.c_str(), (unsigned long long)v2, (unsigned long long)(c->seenOrder.empty() ? 0 : c->seenOrder.back()), (unsigned long long)v));
      pump(c, now() + 20 * MS);
    }
    if (c->dead) { finish(c, false); return; }
    if (v2 < v) bad("revision-rollback", fmt("the version of %s went from %llu to %llu", key.c_str(), (unsigned long long)v, (unsigned long long)v2));
    for (uint64_t x = v + 1; x <= v2; x++) {
      auto it = c->seenRev.find(x);
      if (it == c->seenRev.end()) bad("revision-gap", fmt("watcher %d of %s never received revision %llu", c->id, key.c_str(), (unsigned long long)x));
      for (auto& u : it->second) if (u.second.empty()) st.erase(u.first); else st[u.first] = u.second;
    }
    if (st != st2) bad("replay-differs", fmt("watcher %d: replaying the revisions of %s from %llu to %llu does not give the contents of the hash", c->id, key.c_str(), (unsigned long long)v, (unsigned long long)v2));
    if (v2 > v) countProbe("hash rebuilt from revisions");
    finish(c, true);
  }
  static bool vh(const Reply& r, uint64_t& v, std::map<std::string, std::string>& m) {
    if (r.t != '*' || r.k.size() != 2 || r.k[0].t != ':' || r.k[1].t != '*') return false;
    v = (uint64_t)r.k[0].i;
    for (size_t i = 0; i + 1 < r.k[1].k.size(); i += 2) m[r.k[1].k[i].s] = r.k[1].k[i + 1].s;
    return true;
  }
  // ---- history checks
  void checkHistory() {
    std::map<std::string, size_t> byPayload;
    for (size_t i = 0; i < pubs.size(); i++) byPayload[pubs[i].payload] = i;
    std::vector<long long> sure(pubs.size(), 0), maybe(pubs.size(), 0);
    for (auto& sp : sessions) {
      Session& s = *sp;
      // what arrived
      std::map<std::pair<bool, std::string>, std::vector<size_t>> seq;
      for (auto& d : s.dels) {
        if (d.chan.compare(0, 8, "__vhash@") == 0) continue;
        auto it = byPayload.find(d.payload);
        if (it == byPayload.end() || pubs[it->second].chan != d.chan) violation("wrong-delivery", fmt("client %d received a message nobody published: %s on %s", s.client, escape(d.payload.substr(0, 60)).c_str(), d.chan.c_str()));
        Pub& pb = pubs[it->second];
        auto& v = seq[{d.pattern, d.name}];
        if (std::find(v.begin(), v.end(), it->second) != v.end()) violation("duplicate-delivery", fmt("client %d received message %s twice for %s", s.client, escape(pb.payload.substr(0, 60)).c_str(), d.name.c_str()));
        // an instance of the subscription which can explain it
        bool expl = false;
        for (auto& u : s.subs) if (u.pattern == d.pattern && u.name == d.name && !(pb.resp && pb.resp < u.sent) && !(u.uConf && pb.inv > u.uConf)) expl = true;
        if (!expl) violation("unsubscribed-delivery", fmt("client %d received message %s for %s, published while that subscription was not active", s.client, escape(pb.payload.substr(0, 60)).c_str(), d.name.c_str()));
        v.push_back(it->second);
      }
      for (auto& kv : seq) {
        auto& v = kv.second;
        // order: only within one channel
        for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++)
          if (pubs[v[i]].chan == pubs[v[j]].chan && pubs[v[j]].resp && pubs[v[j]].resp < pubs[v[i]].inv) violation("reordered", fmt("client %d received message %s before %s for %s, which was published earlier", s.client, escape(pubs[v[i]].payload.substr(0, 40)).c_str(), escape(pubs[v[j]].payload.substr(0, 40)).c_str(), kv.first.second.c_str()));
      }
      // what had to arrive
      for (auto& u : s.subs) {
        auto& v = seq[{u.pattern, u.name}];
        Time lastInv = -1;
        for (size_t x : v) if (!(u.uConf && pubs[x].inv > u.uConf) && pubs[x].inv > u.sent) lastInv = std::max(lastInv, pubs[x].inv);
        for (size_t i = 0; i < pubs.size(); i++) {
          Pub& pb = pubs[i];
          bool elsewhere = pb.node != s.node;
          if (elsewhere && (!pb.resp || !u.conf || pb.inv < u.conf || (u.uSent && pb.resp >= u.uSent))) continue;
          if (elsewhere) {
            // a deposed leader may take a while to notice, but a subscription which was never reported lost cannot have holes
            if ((u.pattern ? globMatch(u.name, pb.chan) : u.name == pb.chan) && lastInv > pb.resp + 15 * SEC && std::find(v.begin(), v.end(), i) == v.end())
              violation("silently-lost", fmt("client %d stayed subscribed to %s at node %d without being told anything, and missed message %s published at node %d", s.client, u.name.c_str(), s.node + 1, escape(pb.payload.substr(0, 60)).c_str(), pb.node + 1));
            continue;
          }
          if ((u.pattern ? !globMatch(u.name, pb.chan) : u.name != pb.chan)) continue;
          if (!(pb.resp && pb.resp < u.sent) && !(u.uConf && pb.inv > u.uConf)) maybe[i]++;
          if (!pb.resp || !u.conf || pb.inv < u.conf) continue;
          bool must = false;
          if (u.uSent) must = pb.resp < u.uSent && (s.clean || u.uConf);
          else must = s.clean && pb.resp < s.endSent;
          if (must && N == 1) sure[i]++;
          // a later message having arrived, an earlier one cannot be missing
          if (!must && lastInv > pb.resp && (!u.uSent || pb.resp < u.uSent)) must = true;
          if (must && std::find(v.begin(), v.end(), i) == v.end())
            violation("lost-message", fmt("client %d, subscribed to %s, never received message %s published on %s", s.client, u.name.c_str(), escape(pb.payload.substr(0, 60)).c_str(), pb.chan.c_str()));
          if (must) countProbe("deliveries required and found");
        }
      }
    }
    for (size_t i = 0; i < pubs.size(); i++) if (pubs[i].resp) {
      if (pubs[i].hits < sure[i] || (N == 1 && pubs[i].hits > maybe[i] + crowdMax(pubs[i].chan)))
        violation("wrong-count", fmt("PUBLISH %s reported %lld receivers, at least %lld and at most %lld were subscribed", escape(pubs[i].payload.substr(0, 40)).c_str(), pubs[i].hits, sure[i], maybe[i] + crowdMax(pubs[i].chan)));
    }
    // revisions carry exactly the changes of their transaction
    if (!lostWrites) for (auto& kv : txs) {
      std::map<uint64_t, std::vector<Cmd>> byV;
      std::vector<VTx> v = kv.second;
      std::map<std::string, std::string> st;
      std::map<uint64_t, std::vector<const VTx*>> at;
      for (auto& t : v) at[t.version].push_back(&t);
      std::map<uint64_t, std::map<std::string, std::string>> want;
      bool usable = true;
      uint64_t expect = 0;
      for (auto& av : at) {
        // transactions changing nothing report the version they found: they change nothing in the replay either
        if (av.first > expect + 1) { usable = false; break; }
        if (av.first == 0) { expect = 0; continue; }
        int changing = 0;
        std::map<std::string, std::string> change;
        for (auto* t : av.second) {
          std::map<std::string, std::string> ch, loc = st;
          bool any = false;
          for (auto& q : t->cmds) {
            if (q[0] == "VHSET") { loc[q[2]] = q[3]; ch[q[2]] = q[3]; any = true; }
            else for (size_t i = 2; i < q.size(); i++) if (loc.erase(q[i])) { ch[q[i]] = ""; any = true; }
          }
          if (any) {
            // which transaction made this version is only unclear if several look like changing it
            changing++;
            change = ch;
          }
        }
        if (changing != 1) { usable = false; break; }
        for (auto& c : change) if (c.second.empty()) st.erase(c.first); else st[c.first] = c.second;
        want[av.first] = change;
        expect = av.first;
      }
      (void)usable;
      for (auto& rv : revs[kv.first]) {
        auto it = want.find(rv.v);
        if (it == want.end()) continue;
        std::map<std::string, std::string> got;
        for (auto& u : rv.up) got[u.first] = u.second;
        if (got != it->second) violation("wrong-revision", fmt("revision %llu of %s does not carry the fields changed by its transaction", (unsigned long long)rv.v, kv.first.c_str()));
        countProbe("revision contents compared");
      }
    }
  }
  long long crowdMax(const std::string& chan) { return crowdOn && chan == "c1" ? (long long)plan.get("crowd", 0) : 0; }
  bool crowdOn = false;
  void run() {
    std::vector<std::string> mem;
    for (int i = 1; i <= N; i++) mem.push_back(fmt("n%d:7777", i));
    for (int i = 0; i < N; i++) {
      srv.emplace_back(new Server);
      srv[i]->id = i + 1;
      srv[i]->mode = raft ? "raft" : "standalone";
      if (!srv[i]->bootstrap("ps-cluster", raft ? mem : std::vector<std::string>{}, 0, 2)) violation("bootstrap-failed", "creating the database failed without any fault");
      serverGen.push_back(0);
    }
    g_abortIsViolation = true;
    for (auto& s : srv) s->start();
    for (auto& s : srv) if (!s->waitUp(30 * SEC)) violation("start-failed", "server does not start");
    std::vector<std::unique_ptr<Client>> cl;
    int n = 0;
    for (auto& l : plan.lines) if (l.kind == "op" && l.a.size() > 1) n = std::max(n, atoi(l.a[0].c_str()) + 1);
    for (int i = 0; i < n; i++) { cl.emplace_back(new Client); cl[i]->id = i; cl[i]->rng = subRng(plan, fmt("client%d", i).c_str()); }
    for (auto& l : plan.lines) if (l.kind == "op" && l.a.size() > 1) { int i = atoi(l.a[0].c_str()); if (i >= 0 && i < n) cl[i]->lines.push_back(Cmd(l.a.begin() + 1, l.a.end())); }
    // wait until somebody serves
    {
      Client w;
      w.id = -1; w.rng = subRng(plan, "wait");
      for (Time dl = now() + 120 * SEC;;) {
        Reply r;
        if (open(&w) && w.conn.call({"GET", "x"}, r) && !r.err()) break;
        if (now() > dl) violation("not-serving", "nobody serves");
        sleepFor(100 * MS);
      }
      finish(&w, false);
      sessions.clear();
    }
    // many more subscribers of one channel, reading at the end only
    std::vector<std::unique_ptr<Client>> crowd;
    int want = N == 1 ? (int)plan.get("crowd", 0) : 0;
    for (int i = 0; i < want; i++) {
      crowd.emplace_back(new Client);
      crowd[i]->id = 1000 + i; crowd[i]->rng = subRng(plan, "crowd");
      if (openAt(crowd[i].get(), 0)) subCmd(crowd[i].get(), {"subscribe", "c1"});
    }
    Group g;
    for (auto& c : cl) { Client* x = c.get(); g.go([this, x] { runClient(x); }, fmt("client%d", x->id)); }
    Group fg;
    fg.go([this] {
      for (auto& l : plan.lines) if (l.kind == "fault" && l.a.size() > 2) {
        if (ending) return;
        sleepFor(atol(l.a[2].c_str()) * MS);
        if (ending) return;
        int t = atoi(l.a[1].c_str());
        if (t < 1 || t > N) continue;
        const std::string& k = l.a[0];
        if (k == "coup") { Conn c; Reply r; if (c.open(srv[t - 1]->host(), 7777)) c.call({"RAFT_ATTEMPT_COUP"}, r, 2 * SEC); countFault("coup attempted"); }
        else if (k == "cut") { for (int j = 1; j <= N; j++) if (j != t) { net::block(t, j, true); net::block(j, t, true); } sleepFor(4 * SEC); net::healAll(); countFault("partition"); }
        else if (k == "kill") { srv[t - 1]->kill(false); serverGen[t - 1]++; sleepFor(1 * SEC); srv[t - 1]->start(); if (!srv[t - 1]->waitUp(60 * SEC)) violation("restart-failed", "a killed node does not come back"); countFault("kill and restart"); }
        else if (k == "stall") { for (int j = 0; j <= N; j++) if (j != t) { net::slowLink(t, j, 2 * SEC); } sleepFor(3 * SEC); for (int j = 0; j <= N; j++) if (j != t) net::slowLink(t, j, 0); countFault("slow node"); }
      }
    }, "faults");
    g.join();
    ending = true;
    fg.join();
    ending = false;
    net::healAll();
    if (N > 1) stranded(cl);
    for (auto& c : crowd) { if (c->conn.ep && !c->dead) { pump(c.get(), now() + 1 * MS); } finish(c.get(), true); }
    checkHistory();
    for (auto& s : srv) if (!s->stop(60 * SEC)) { if (s->alive()) violation("shutdown-hang", "clean shutdown did not finish within 60 s"); violation("shutdown-crash", "node died during a clean shutdown: " + node(s->id).deathReason); }
  }
};
void runPubsub(const Plan& p) { PubSub x(p); x.run(); }
Reg reg("pubsub", genPubsub, runPubsub);
}
