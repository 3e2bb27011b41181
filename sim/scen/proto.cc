// Many client connections to one node (standalone or a one-member raft cluster): pipelining, segmentation, transactions,
// authentication, internal commands, arbitrary commands and malformed bytes, with disconnects at any point.
// Every connection owns a key prefix, so the exact reply of each request follows from the sequential model.
#include "model.hh"
#include <algorithm>
#include <cerrno>
#include <openssl/hmac.h>
#include <openssl/sha.h>
using namespace scen;
using namespace sim;
namespace {
const std::string SECRET = "correct-horse-battery-staple-0123456789";
std::string hmac(const std::string& text, const std::string& key) {
  std::string o(SHA256_DIGEST_LENGTH, 0);
  unsigned n = 0;
  NoPreempt np;
  HMAC(EVP_sha256(), key.data(), (int)key.size(), (const unsigned char*)text.data(), text.size(), (unsigned char*)&o[0], &n);
  return o;
}
std::string pack(const std::vector<Cmd>& v) {
  std::string o = be64(v.size());
  for (auto& c : v) { o += be64(c.size()); for (auto& a : c) { o += be64(a.size()); o += a; } }
  return o;
}
// ------------------------------------------------------------------------------------------------ arbitrary requests
const std::vector<const char*>& table() {
  static const std::vector<const char*> t = {"get", "exists", "scan", "hget", "hexists", "hkeys", "hgetall", "hlen", "hvals", "hscan", "sismember", "smembers", "scard", "sscan",
    "deque_len", "deque_scan_back", "config_get", "config_getall", "lhget", "lhlen", "lhscan", "lhget_with_fallback", "raw_scan_tombstones", "raw_scan", "raw_get_all_versions", "clock_get", "type",
    "vhgetall", "vhlen", "lease_get_pending_expiration_events", "set", "del", "hset", "hmset", "hsetnx", "hincrby", "hincrbyfloat", "hincrbymulti", "hdel", "hclone", "sadd", "srem", "smove",
    "deque_push_front", "deque_pop_front", "deque_push_back", "deque_pop_back", "deque_trim_front", "deque_clear", "lhset", "lhdel", "lhlocdel", "lhmset", "lhdel_with_fallback",
    "lhset_and_del_fallback", "convert_hash_field_to_lhash", "lease_acquire", "lease_get", "lease_release", "timestamped_lease_acquire", "timestamped_lease_get", "timestamped_lease_release",
    "vhset", "vhdel", "tx_readonly", "tx_readwrite", "multiop_read", "multiop_readwrite", "artificially_slow_write_never_use_this", "config_set",
    "ping", "client_id", "command_stats", "client", "convert_string_to_int", "convert_int_to_string",
    "raft_handshake", "raft_append_entries", "raft_info", "raft_leader_info", "raft_request_vote", "raft_request_pre_vote", "raft_fetch", "raft_attempt_coup", "raft_heartbeat", "raft_fetch_last",
    "raft_journal_scan", "raft_set_fsync_policy", "raft_journal_manual_compaction", "activate_stale_reads", "raft_promote_observer", "raft_remove_member", "raft_demote_to_observer",
    "quarkdb_info", "quarkdb_detach", "quarkdb_attach", "quarkdb_start_resilvering", "quarkdb_finish_resilvering", "quarkdb_resilvering_copy_file", "quarkdb_cancel_resilvering",
    "quarkdb_bulkload_finalize", "quarkdb_invalid_command", "quarkdb_manual_compaction", "quarkdb_level_stats", "quarkdb_compression_stats", "quarkdb_version", "quarkdb_health",
    "quarkdb_verify_checksum", "recovery_info", "recovery_set", "recovery_get", "recovery_del", "recovery_force_reconfigure_journal", "recovery_scan", "recovery_get_all_versions",
    "publish", "nosuchcommand", "quarkdb_checkpoint"};
  return t;
}
// commands whose arguments address stored data; the others appear less often
size_t dataCommands() { return 65; }
Cmd fuzzCmd(Rng& r, bool packed = true, bool inner = false) {
  const auto& t = table();
  Cmd c = {t[r.chance(0.75) ? r.below(dataCommands()) : r.below(t.size())]};
  if (r.chance(0.01)) c[0] = r.pick(std::vector<std::string>{"bad\r\n+OK", "\r\n", "a\nb", std::string("\0", 1), "x\r\n:5\r\n"});
  static const std::vector<std::string> nums = {"0", "1", "-1", "2", "10", "100000", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "1e5", "nan", "inf", "-inf", "1e400", "0x10", "+1", " 1", "1 ", "--", "2147483648", "-2147483649", "4294967296"};
  static const std::vector<std::string> words = {"COUNT", "MATCH", "MATCHLOC", "count", "match", "matchloc", "next:", "next:##f", "next:#", "next:z1", "next:|#a##b", "next:a", "next:a##", "0", "raw", "*", "[", "[a-", "[^", "\\", "?", "**", "#", "##", "|", "|#", "a##b", "real", "phantom", "setname", "getname", "always", "async", "n1:7777", "n2:7777", "abc:", "cluster-p", "proto-cluster"};
  auto arg = [&]() -> std::string {
    if (inner && r.chance(0.03)) return "";
    switch (r.below(9)) {
      case 0: case 1: case 2: return "z" + std::to_string(r.below(8));
      case 3: return "zf" + std::to_string(r.below(4));
      case 4: return r.pick(nums);
      case 5: return r.pick(words);
      case 6: if (r.chance(0.15)) return r.pick(std::vector<std::string>{"\r\n", "\n", "\r", "x\r\n+OK\r\n", "'\r\n$3\r\nabc\r\n", "a\nb"}); return std::string(1, (char)r.below(256)) + std::string(r.below(3), (char)r.below(256));
      case 7: return r.chance(0.2) ? std::string(r.range(1, 70000), 'y') : be64(r.chance(0.5) ? r.below(100) : r.next());
      default: return r.chance(0.5) ? std::to_string(r.range(-3, 30)) : "zh" + std::to_string(r.below(3));
    }
  };
  int n = r.chance(0.1) ? r.below(9) : r.chance(0.6) ? r.range(1, 3) : r.range(1, 5);
  for (int i = 0; i < n; i++) c.push_back(arg());
  std::string nm = c[0];
  bool scan = nm.find("scan") != std::string::npos;
  if (scan && r.chance(0.7)) {
    // well shaped, with strange contents
    c.resize(1);
    if (nm != "scan" && nm != "raft_journal_scan") c.push_back("z" + std::to_string(r.below(8)));
    c.push_back(r.chance(0.4) ? "0" : r.chance(0.6) ? "next:" + arg() : arg());
    if (r.chance(0.5)) { c.push_back("COUNT"); c.push_back(r.chance(0.6) ? std::to_string(r.range(1, 20)) : arg()); }
    if (r.chance(0.4)) { c.push_back(nm == "lhscan" ? "MATCHLOC" : "MATCH"); c.push_back(arg()); }
  }
  // data commands mostly get a key of the namespace of these connections
  else if (r.chance(0.9) && c.size() > 1 && nm.compare(0, 5, "raft_") != 0 && nm.compare(0, 8, "quarkdb_") != 0) c[1] = inner && r.chance(0.03) ? "" : "z" + std::to_string(r.below(8));
  if (nm.compare(0, 3, "tx_") == 0 || nm.compare(0, 7, "multiop") == 0) {
    if (!packed) return {"get", "z1"};
    std::vector<Cmd> v;
    for (int i = r.range(0, 4); i > 0; i--) v.push_back(fuzzCmd(r, r.chance(0.1), true));
    std::string p = pack(v);
    if (r.chance(0.5)) {
      // damage it
      switch (r.below(5)) {
        case 0: p.resize(r.below(p.size() + 1)); break;
        case 1: if (p.size() >= 8) p.replace(8 * r.below(p.size() / 8), 8, be64(r.chance(0.5) ? r.next() : (uint64_t)r.range(-3, 40))); break;
        case 2: p[r.below(p.size())] ^= (char)(1 << r.below(8)); break;
        case 3: p += be64(r.below(3)); break;
        default: p = arg();
      }
    }
    if (p.empty()) p = "x";
    c = {nm, p, r.chance(0.8) ? r.chance(0.5) ? "real" : "phantom" : arg()};
    if (r.chance(0.05)) c.pop_back();
  }
  // these act on the whole node by design
  if (nm == "config_set" && c.size() > 1) c[1] = "zcfg" + std::to_string(r.below(3));
  if (nm == "quarkdb_checkpoint" && c.size() > 1) c[1] = "/vfs/n1/cp" + std::to_string(r.below(3));
  if (nm == "artificially_slow_write_never_use_this" && c.size() > 1) c[1] = r.chance(0.5) ? "3" : "x";
  if (!inner) for (auto& a : c) if (a.empty()) a = "e";
  // keys and hints which end in '|' are stored ambiguously (see known-findings.txt); they are decided by a replay of their own
  for (size_t i = 1; i < c.size(); i++) if (!c[i].empty() && c[i].back() == '|') c[i] += 'x';
  if (r.chance(0.2)) for (auto& ch : c[0]) if (r.chance(0.3)) ch = (char)toupper(ch);
  if (r.chance(0.1)) std::replace(c[0].begin(), c[0].end(), '_', '-');
  return c;
}
std::string garbage(Rng& r) {
  auto n = [&]() -> std::string { static const std::vector<std::string> v = {"0", "-1", "-2", "-100", "1", "2", "3", "2147483647", "2147483645", "2147483646", "4294967297", "-2147483648", "99999999999999999999", "-9223372036854775808", "9223372036854775807", "1000000000", "5", "1048576", "", "abc", "1a", "+3", " 2", "-", "00000000000000000000000000000000000000000000000000000000000000000000000000000000001"}; return r.pick(v); };
  std::string o;
  switch (r.below(8)) {
    case 0: o = "*" + n() + "\r\n"; break;
    case 1: o = "*1\r\n$" + n() + "\r\n"; break;
    case 2: o = "*2\r\n$4\r\nping\r\n$" + n() + "\r\nx\r\n"; break;
    case 3: o = "*1\r\n$4\r\nping" + std::string(r.chance(0.5) ? "\n\n" : "\rx"); break;
    case 4: for (int i = r.range(1, 60); i > 0; i--) o += (char)r.below(256); break;
    case 5: o = r.chance(0.5) ? "PING\r\n" : "\r\n"; break;
    case 6: { o = encodeRequest(fuzzCmd(r)); for (int i = r.range(1, 3); i > 0; i--) o[r.below(o.size())] = (char)r.below(256); break; }
    default: { o = encodeRequest(fuzzCmd(r)); o.resize(r.below(o.size())); }
  }
  if (r.chance(0.3)) o += encodeRequest({"PING"});
  if (r.chance(0.2)) o += std::string(r.range(1, 300), (char)r.below(256));
  return o;
}
// ------------------------------------------------------------------------------------------------ generation
void genProto(Plan& p, Rng& r) {
  p.knob("raft", r.chance(0.5));
  p.knob("pw", r.chance(0.45));
  p.knob("pwlocal", r.chance(0.5));
  p.knob("conns", r.range(1, 5));
  p.knob("fuzzers", r.chance(0.4) ? r.range(1, 2) : 0);
  p.knob("raws", r.chance(0.35) ? r.range(1, 2) : 0);
  p.knob("authers", p.get("pw", 0) ? r.range(1, 3) : r.chance(0.2));
  p.knob("foreign", r.chance(0.35));
  p.knob("drops", r.chance(0.4) ? 0.06 : 0);
  p.knob("chunk", r.chance(0.4) ? 0.5 : 0);
  p.knob("sndbuf", r.chance(0.3) ? r.range(2000, 60000) : 4 << 20);
  p.knob("slowread", r.chance(0.3) ? 0.1 : 0);
  p.knob("big", r.chance(0.3) ? 0.03 : 0);
  p.knob("monitor", r.chance(0.25));
  p.knob("jump", r.chance(0.3));
  p.knob("stoploaded", r.chance(0.15));
  p.knob("bursts", r.range(5, 30));
  int conns = (int)p.get("conns", 3), fz = (int)p.get("fuzzers", 0), rw = (int)p.get("raws", 0), au = (int)p.get("authers", 0), fo = (int)p.get("foreign", 0);
  int bursts = (int)p.get("bursts", 15);
  bool pw = p.get("pw", 0), anyLocal = pw && !p.get("pwlocal", 0);
  if (anyLocal) p.knob("net.resolvefail", 0);
  auto put = [&](int c, Cmd a) { a.insert(a.begin(), std::to_string(c)); p.add("c", a); };
  int id = 0;
  std::vector<std::vector<Cmd>> per;
  auto data = [&](std::vector<Cmd>& out, int n, int cid, uint64_t& ctr, bool shortOnly) {
    GenOpts o;
    o.keys = (int)r.range(2, 6); o.fields = (int)r.range(2, 5); o.uniq = fmt("v%d.", cid); o.prefix = fmt("c%dk", cid);
    o.config = false; o.flush = false; o.nasty = false; o.scans = false;
    o.types = {0, 1, 2, 3, 4};
    if (r.chance(0.5)) o.types = {(int)r.below(5), (int)r.below(5)};
    GenOpts ro = o; ro.writes = false;
    GenOpts wo = o; wo.reads = false;
    auto one = [&](const GenOpts& g) -> Cmd {
      for (;;) {
        Cmd c = genCmd(r, g, ctr);
        if (upper(c[0]) == "KEYS") continue;
        if (shortOnly && c.size() >= 5) continue;
        if (r.chance(p.get("big", 0)) && upper(c[0]) == "SET" && c.size() == 3) c[2] += std::string(r.range(1000, 80000), 'B');
        return c;
      }
    };
    for (int b = 0; b < n; b++) {
      Cmd l = {"cmds"};
      auto push = [&](const Cmd& c) { if (l.size() > 1) l.push_back(";"); l.insert(l.end(), c.begin(), c.end()); };
      int m = r.chance(0.08) ? r.range(60, 230) : r.chance(0.5) ? r.range(1, 4) : r.range(3, 25);
      double wr = r.pick(std::vector<double>{0.2, 0.6, 0.95, 1});
      for (int i = 0; i < m; i++) {
        double x = r.unit();
        if (x < 0.03) push({"PING"});
        else if (x < 0.05) push({"PING", fmt("p%d.%llu", cid, (unsigned long long)++ctr)});
        else if (x < 0.06) push({"EXEC"});
        else if (x < 0.07) push({"DISCARD"});
        else if (x < 0.08) push({r.chance(0.5) ? "NOSUCHCMD" : "TIMESTAMPED_LEASE_GET", "x", "12345678"});
        else if (x < 0.09) push(r.pick(std::vector<Cmd>{{"CLIENT", "setname", fmt("n%d.%llu", cid, (unsigned long long)++ctr)}, {"CLIENT", "getname"}, {"CLIENT"}, {"CLIENT", "x"}, {"CLIENT_ID"}, {"QUARKDB_VERSION"}, {"QUARKDB_INFO"}, {"RAFT_INFO"}, {"COMMAND_STATS"}, {"QUARKDB_HEALTH"}, {"CONVERT_INT_TO_STRING", "7"}, {"PUBLISH", "nochan", "x"}, {"RECOVERY_GET", "x"}, {"MULTI", "x"}}));
        else if (x < 0.13) {
          // transaction, sometimes badly formed inside
          push({"MULTI"});
          int kind = r.below(3);
          for (int k = r.below(6); k > 0; k--) {
            GenOpts t = kind == 0 ? ro : kind == 1 ? wo : o;
            if (r.chance(0.3)) { t.types = {5}; }
            if (r.chance(0.05)) push({"MULTI"});
            if (r.chance(0.05)) push(r.chance(0.5) ? Cmd{"PING"} : Cmd{"RAFT_INFO"});
            if (r.chance(0.03)) push({"NOSUCHCMD"});
            push(one(t));
          }
          push({r.chance(0.15) ? "DISCARD" : "EXEC"});
        } else if (x < 0.16 && !shortOnly) {
          std::vector<Cmd> v;
          int kind = r.below(3);
          for (int k = r.range(1, 5); k > 0; k--) v.push_back(one(kind == 0 ? ro : kind == 1 ? wo : o));
          Cmd q = {"PACK", r.chance(0.5) ? "real" : "phantom"};
          for (size_t k = 0; k < v.size(); k++) { if (k) q.push_back("|"); q.insert(q.end(), v[k].begin(), v[k].end()); }
          push(q);
        } else push(one(r.chance(wr) ? wo : ro));
      }
      out.push_back(l);
      if (r.chance(0.4)) out.push_back({"sync"});
      if (r.chance(0.2)) out.push_back({"sleep", std::to_string(r.range(0, 300))});
      if (r.chance(p.get("drops", 0))) out.push_back({r.chance(0.5) ? "drop" : "close"});
    }
  };
  for (int i = 0; i < conns; i++, id++) {
    std::vector<Cmd> v;
    uint64_t ctr = 0;
    bool local = anyLocal && r.chance(0.3);
    v.push_back({"open", local ? r.pick(std::vector<std::string>{"localhost", "127.0.0.1", "::1", "localhost.localdomain"}) : "client"});
    if (pw && !local) v.push_back({"auth", r.chance(0.8) ? "ok" : "pw"});
    data(v, bursts, id, ctr, false);
    per.push_back(v);
  }
  static const std::vector<std::string> hows = {"ok", "ok", "okslow", "pw", "badpw", "prefixpw", "longpw", "wrongsig", "trunc", "longsig", "empty", "superseded", "replay", "retry", "other", "late", "bare", "shortnonce", "wrongkey", "echo", "emptykey", "old"};
  for (int i = 0; i < au; i++, id++) {
    std::vector<Cmd> v;
    uint64_t ctr = 0;
    std::string host = r.chance(0.2) ? r.pick(std::vector<std::string>{"localhost", "127.0.0.1"}) : r.pick(std::vector<std::string>{"client", "localhost.evil.com", "notlocalhost", "127.0.0.10"});
    v.push_back({"open", host});
    for (int k = r.range(2, 10); k > 0; k--) {
      int y = r.below(10);
      if (y < 5) { v.push_back({"auth", r.pick(hows)}); }
      else if (y < 9) data(v, 1, id, ctr, true);
      else { v.push_back({"sync"}); v.push_back({"open", host}); }
    }
    if (r.chance(0.5)) { v.push_back({"auth", "ok"}); data(v, 2, id, ctr, true); }
    per.push_back(v);
  }
  for (int i = 0; i < fz; i++, id++) {
    std::vector<Cmd> v;
    v.push_back({"open", "client"});
    if (pw) v.push_back({"auth", "ok"});
    for (int b = 0; b < bursts * 2; b++) {
      Cmd l = {"fuzz"};
      bool tx = r.chance(0.2);
      int m = tx ? r.range(1, 6) : r.range(1, 12);
      if (tx) l.push_back("MULTI");
      for (int k = 0; k < m; k++) { Cmd c = fuzzCmd(r, !tx); if (l.size() > 1) l.push_back(";"); l.insert(l.end(), c.begin(), c.end()); }
      if (tx) { l.push_back(";"); l.push_back(r.chance(0.8) ? "EXEC" : "DISCARD"); }
      v.push_back(l);
      if (r.chance(0.3)) v.push_back({"sync"});
      if (r.chance(p.get("drops", 0))) { v.push_back({"drop"}); }
    }
    per.push_back(v);
  }
  for (int i = 0; i < rw; i++, id++) {
    std::vector<Cmd> v;
    for (int b = 0; b < bursts; b++) {
      v.push_back({"open", "client"});
      if (pw && r.chance(0.5)) v.push_back({"auth", "ok"});
      v.push_back({"raw", garbage(r)});
    }
    per.push_back(v);
  }
  for (int i = 0; i < fo; i++, id++) {
    std::vector<Cmd> v;
    v.push_back({"open", "client"});
    if (pw && r.chance(0.6)) v.push_back({"auth", "ok"});
    for (int b = 0; b < bursts; b++) {
      if (r.chance(0.5)) v.push_back({"hs", r.pick(std::vector<std::string>{"badid", "badid2", "noid", "badtime", "short", "long", "okbad", "okshort"})});
      Cmd c = r.pick(std::vector<Cmd>{
        {"RAFT_HEARTBEAT", "%T+100", "n9:7777"}, {"RAFT_REQUEST_VOTE", "%T+100", "n9:7777", "1000000", "%T+99"}, {"RAFT_REQUEST_PRE_VOTE", "%T+100", "n9:7777", "1000000", "%T+99"},
        {"RAFT_APPEND_ENTRIES", "n9:7777", std::string("%A")}, {"QUARKDB_START_RESILVERING", "ev1"}, {"QUARKDB_RESILVERING_COPY_FILE", "ev1", "state-machine/x", "abc"}, {"QUARKDB_FINISH_RESILVERING", "ev1"},
        {"QUARKDB_DETACH"}, {"QUARKDB_ATTACH"}, {"QUARKDB_CANCEL_RESILVERING", "ev1"}, {"TIMESTAMPED_LEASE_ACQUIRE", "zz", "me", "100000", be64(1ull << 60)}, {"TIMESTAMPED_LEASE_GET", "zz", be64(1ull << 60)},
        {"TIMESTAMPED_LEASE_RELEASE", "zz", be64(1ull << 60)}, {"%PTS"}, {"JOURNAL_LEADERSHIP_MARKER", "5", "n9:7777"}, {"JOURNAL_UPDATE_MEMBERS", "n9:7777|"}, {"RECOVERY_SET", "a", "b"}, {"RECOVERY_FORCE_RECONFIGURE_JOURNAL", "n9:7777", "other"}});
      c.insert(c.begin(), "internal");
      v.push_back(c);
      if (r.chance(0.15)) v.push_back({"open", "client"});
      if (r.chance(0.3)) v.push_back({"raftbad", std::to_string(r.below(1 << 30))});
    }
    per.push_back(v);
  }
  for (size_t i = 0; i < per.size(); i++) for (auto& c : per[i]) put((int)i, c);
}
// ------------------------------------------------------------------------------------------------ execution
enum Mode { EXACT, ERR, GOOD, ANY, NOAUTH };
struct Want { Mode m; Reply r; std::string what; };
struct Proto {
  const Plan& plan;
  Server s;
  bool raft, pw;
  bool ending = false;
  long term0 = -1;
  std::set<std::string> challenges;
  std::map<int, Model> known;    // per connection: the effect of everything answered so far
  std::string lastChallenge;     // of any connection
  struct Client {
    int id = 0;
    Conn conn;
    std::string host;
    Model m;
    std::vector<Cmd> lines;
    Rng rng;
    bool authed = false, tainted = false, local = false, isFuzz = false;
    bool multi = false;
    std::vector<Cmd> queue;
    std::string name;
    std::deque<Want> want;
    uint64_t sent = 0, got = 0;
    Fiber* reader = nullptr;
    int gen = 0;
    bool readerStop = false, readerDone = true, lost = false, expectClose = false;
    uint64_t marks = 0;
    // requests not yet known to be answered: (command list applied atomically)
    std::deque<std::pair<uint64_t, std::vector<Cmd>>> pendingTx;
    std::vector<std::string> oldChallenges;
    std::deque<Reply> extra;
  };
  std::vector<std::unique_ptr<Client>> cl;
  explicit Proto(const Plan& p) : plan(p) { raft = p.get("raft", 0); pw = p.get("pw", 0); }
  static std::vector<Cmd> split(const Cmd& l, size_t from, const std::string& sep) {
    std::vector<Cmd> v(1);
    for (size_t i = from; i < l.size(); i++) { if (l[i] == sep) v.emplace_back(); else v.back().push_back(l[i]); }
    std::vector<Cmd> o;
    for (auto& c : v) if (!c.empty()) o.push_back(c);
    return o;
  }
  bool needsAuth(const Client& c) const { return pw && !(c.local && !plan.get("pwlocal", 0)); }
  // ---- reading
  void readLoop(Client* c, int gen) {
    while (c->gen == gen) {
      if (c->want.empty()) {
        if (c->readerStop) break;
        // anything arriving now is one reply too many
        char b;
        (void)b;
        Reply r;
        int k = c->conn.read(r, now() + 20 * MS);
        if (c->gen != gen) break;
        if (k == 1 && c->want.empty()) violation("extra-reply", fmt("connection %d received a reply nobody asked for: %s", c->id, r.str().c_str()));
        if (k == 1) { check(c, r); continue; }
        if (k == -1) { c->lost = true; break; }
        if (k == -2) violation("garbage", "reply bytes are not valid protocol");
        continue;
      }
      if (c->conn.off >= c->conn.rx.size() && c->rng.chance(plan.get("slowread", 0) * 5)) sleepFor(c->rng.range(1, 700) * MS);
      Reply r;
      int k = c->conn.read(r, now() + 40 * SEC);
      if (c->gen != gen) break;
      if (k == 1) { check(c, r); continue; }
      if (k == -2) violation("garbage", "reply bytes are not valid protocol");
      if (k == -1) { c->lost = true; if (!c->tainted && !ending && s.alive()) violation("closed", fmt("connection %d was closed although only well-formed requests were sent; unanswered: %s", c->id, c->want.front().what.c_str())); break; }
      if (ending || !s.alive()) break;
      violation("no-reply", fmt("connection %d: no answer to %s within 40 s", c->id, c->want.front().what.c_str()));
    }
    c->readerDone = true;
    wakeAll(&c->readerDone);
  }
  void check(Client* c, const Reply& r) {
    Want w = c->want.front();
    c->want.pop_front();
    c->got++;
    while (!c->pendingTx.empty() && c->pendingTx.front().first < c->got) { known[c->id].tx(c->pendingTx.front().second); c->pendingTx.pop_front(); }
    trace(fmt("c%d %s -> %s", c->id, w.what.c_str(), r.str(60).c_str()));
    bool noauth = r.err() && r.s.compare(0, 6, "NOAUTH") == 0;
    bool ok = true;
    switch (w.m) {
      case EXACT: ok = sameReply(w.r, r) && !noauth; break;
      case ERR: ok = r.err() && !noauth; break;
      case GOOD: ok = !r.err(); break;
      case NOAUTH: ok = noauth; break;
      case ANY: break;
    }
    if (ending && r.err()) ok = true;
    if (!ok) violation(w.m == NOAUTH ? "served-unauthenticated" : noauth ? "refused-authenticated" : "wrong-reply",
      fmt("connection %d: %s answered %s, expected %s", c->id, w.what.c_str(), r.str().c_str(), w.m == EXACT ? w.r.str().c_str() : w.m == ERR ? "an error" : w.m == NOAUTH ? "an authentication error" : "no error"));
    if (w.m == NOAUTH) countProbe("unauthenticated request refused");
    if (c->want.empty()) wakeAll(&c->want);
  }
  // ---- the protocol as seen by one connection
  void expect(Client* c, Mode m, const Reply& r, const Cmd& what) { c->want.push_back({m, r, show(what, 30)}); c->sent++; }
  // applied atomically, acknowledged by the reply with this number
  void note(Client* c, const std::vector<Cmd>& t) { c->pendingTx.push_back({c->sent - 1, t}); }
  void feed(Client* c, const Cmd& q) {
    std::string n = upper(q[0]);
    bool na = needsAuth(*c) && !c->authed;
    Reply none;
    auto isData = [&] { return (isWrite(q) || isRead(n)) && n.compare(0, 12, "TIMESTAMPED_") != 0; };
    if (n == "MULTI") {
      if (q.size() != 1) return expect(c, ERR, none, q);
      if (c->multi) return expect(c, ERR, none, q);
      c->multi = true; c->queue.clear();
      return expect(c, EXACT, rOk(), q);
    }
    if (n == "EXEC" || n == "DISCARD") {
      if (!c->multi) return expect(c, ERR, none, q);
      c->multi = false;
      if (n == "DISCARD") return expect(c, EXACT, rOk(), q);
      if (c->queue.empty()) return expect(c, EXACT, rArr(), q);
      if (na) return expect(c, NOAUTH, none, q);
      std::vector<Cmd> t = c->queue;
      expect(c, EXACT, rArr(c->m.tx(t)), q);
      return note(c, t);
    }
    if (n == "PACK") return;
    if (c->multi) {
      if (!isData()) return expect(c, ERR, none, q);
      c->queue.push_back(q);
      return expect(c, EXACT, rStatus("QUEUED"), q);
    }
    if (na) return expect(c, NOAUTH, none, q);
    if (isData()) {
      expect(c, EXACT, c->m.single(q), q);
      if (isWrite(q)) note(c, {q});
      return;
    }
    if (n == "PING") return expect(c, EXACT, q.size() == 1 ? rStatus("PONG") : rStr(q[1]), q);
    if (n == "CLIENT") {
      if (q.size() == 3 && q[1] == "setname") { c->name = q[2]; return expect(c, EXACT, rOk(), q); }
      if (q.size() == 2 && q[1] == "getname") return expect(c, EXACT, rStr(c->name), q);
      return expect(c, ERR, none, q);
    }
    if (n == "CLIENT_ID" || n == "QUARKDB_VERSION" || n == "QUARKDB_INFO" || n == "COMMAND_STATS" || n == "QUARKDB_HEALTH" || n == "CONVERT_INT_TO_STRING") return expect(c, GOOD, none, q);
    if (n == "RAFT_INFO") return expect(c, raft ? GOOD : ERR, none, q);
    if (n == "PUBLISH") return expect(c, EXACT, rInt(0), q);
    expect(c, ERR, none, q);   // unknown, internal, recovery commands
  }
  static bool isRead(const std::string& n) {
    static const std::set<std::string> r = {"GET", "EXISTS", "TYPE", "HGET", "HEXISTS", "HKEYS", "HGETALL", "HLEN", "HVALS", "SISMEMBER", "SMEMBERS", "SCARD", "DEQUE_LEN", "LHGET", "LHLEN", "LHGET_WITH_FALLBACK", "VHGETALL", "VHLEN", "DEQUE_SCAN_BACK", "LHSCAN", "HSCAN", "SSCAN", "KEYS", "CONFIG_GET", "CONFIG_GETALL"};
    return r.count(n) > 0;
  }
  bool send(Client* c, const std::string& bytes) {
    if (!c->rng.chance(plan.get("chunk", 0))) return c->conn.sendRaw(bytes, 60 * SEC);
    size_t o = 0;
    while (o < bytes.size()) {
      size_t n = std::min<size_t>(bytes.size() - o, c->rng.chance(0.5) ? c->rng.range(1, 4) : c->rng.range(1, 400));
      if (bytes.size() > 4000) n = std::min<size_t>(bytes.size() - o, n * 50);
      if (!c->conn.sendRaw(bytes.substr(o, n), 60 * SEC)) return false;
      o += n;
      if (c->rng.chance(0.3)) sleepFor(c->rng.range(1, 1500) * US);
    }
    return true;
  }
  void stopReader(Client* c) {
    c->readerStop = true;
    c->gen++;
    while (!c->readerDone) blockOn(&c->readerDone, now() + 10 * MS);
  }
  void startReader(Client* c) {
    c->readerStop = false; c->readerDone = false; c->lost = false;
    int g = ++c->gen;
    spawn([this, c, g] { readLoop(c, g); }, fmt("reader%d", c->id), 0);
  }
  bool sync(Client* c) {
    Time dl = now() + 300 * SEC;
    while (!c->want.empty() && !c->readerDone) {
      if (now() > dl) violation("no-reply", fmt("connection %d: replies missing", c->id));
      blockOn(&c->want, now() + 20 * MS);
    }
    return c->want.empty();
  }
  bool open(Client* c, const std::string& host) {
    stopReader(c);
    c->conn.close();
    c->want.clear(); c->pendingTx.clear(); c->sent = c->got = 0;
    c->host = host;
    c->local = host == "localhost" || host == "127.0.0.1" || host == "::1" || host == "localhost.localdomain" || host == "localhost6" || host == "localhost6.localdomain6";
    c->authed = false; c->multi = false; c->queue.clear(); c->name = ""; c->tainted = false;
    for (int i = 0; i < 20 && !ending; i++) {
      if (c->conn.open(s.host(), s.port, 2 * SEC, host)) {
        // reverse lookups may fail: such a connection counts as remote
        startReader(c);
        return true;
      }
      if (!s.alive()) return false;
      sleepFor(200 * MS);
    }
    if (ending || !s.alive()) return false;
    violation("not-serving", fmt("connection %d cannot connect", c->id));
  }
  // one request and its reply, in order with everything before
  bool call(Client* c, const Cmd& q, Reply& r) {
    if (!sync(c)) return false;
    stopReader(c);
    bool ok = c->conn.sendRaw(encodeRequest(q));
    int k = ok ? c->conn.read(r, now() + 40 * SEC) : -1;
    trace(fmt("c%d %s -> %s", c->id, show(q, 30).c_str(), k == 1 ? r.str(60).c_str() : "?"));
    if (k != 1) {
      if (ending || !s.alive()) return false;
      violation(k == 0 ? "no-reply" : k == -2 ? "garbage" : "closed", fmt("connection %d: %s not answered", c->id, show(q, 30).c_str()));
    }
    startReader(c);
    return true;
  }
  void auth(Client* c, const std::string& how) {
    Reply r;
    auto bad = [&](const std::string& what, const Reply& r) {
      if (ending && r.err()) return;
      violation("auth-accepted", fmt("%s (%s): %s was answered %s", how.c_str(), c->host.c_str(), what.c_str(), r.str().c_str()));
    };
    auto refused = [&](const Cmd& q, const std::string& what) {
      if (!call(c, q, r)) return;
      if (!r.err()) bad(what, r);
      c->authed = false;
      countProbe("authentication refused: " + how);
    };
    auto accepted = [&](const Cmd& q) {
      if (!call(c, q, r)) return;
      if (r != rOk()) { if (ending && r.err()) return; violation("auth-refused", fmt("%s: right credentials were answered %s", how.c_str(), r.str().c_str())); }
      c->authed = true;
      countProbe("authentication accepted: " + how);
    };
    if (c->multi) { return; }
    if (!pw) {
      // no password set: every attempt is an error and changes nothing
      if (!call(c, how == "pw" ? Cmd{"AUTH", SECRET} : how == "bare" ? Cmd{"HMAC_AUTH_VALIDATE_CHALLENGE", "x"} : Cmd{"HMAC_AUTH_GENERATE_CHALLENGE", std::string(64, 'a')}, r)) return;
      if (!r.err()) bad("authentication without password", r);
      return;
    }
    auto nonce = [&] { std::string n; for (int i = 0; i < 64; i++) n += (char)c->rng.below(256); return n; };
    auto challenge = [&](std::string& out) -> bool {
      std::string n = nonce();
      if (!call(c, {"HMAC_AUTH_GENERATE_CHALLENGE", n}, r)) return false;
      c->authed = false;
      if (r.t != '$' || r.s.size() < 64 + 64 || r.s.compare(0, 64, n) != 0) violation("bad-challenge", "challenge does not contain the bytes of the client: " + r.str());
      std::string own = r.s.substr(r.s.size() - 64);
      if (!challenges.insert(own).second) violation("bad-challenge", "the random part of a challenge was used before");
      out = r.s;
      lastChallenge = r.s;
      c->oldChallenges.push_back(r.s);
      return true;
    };
    std::string ch, ch2, other = lastChallenge;
    if (how == "pw") return accepted({"AUTH", SECRET});
    if (how == "badpw") return refused({"AUTH", "correct-horse-battery-staple-0123456780"}, "wrong password");
    if (how == "prefixpw") return refused({"AUTH", SECRET.substr(0, c->rng.range(1, SECRET.size() - 1))}, "prefix of the password");
    if (how == "longpw") return refused({"AUTH", SECRET + "x"}, "password with a suffix");
    if (how == "bare") {
      // whatever happened before, no challenge is open now (a valid or invalid attempt ends it)
      if (c->oldChallenges.empty()) return refused({"HMAC_AUTH_VALIDATE_CHALLENGE", hmac("", SECRET)}, "signature without challenge");
      return refused({"HMAC_AUTH_VALIDATE_CHALLENGE", "garbage"}, "garbage");
    }
    if (how == "old") {
      if (c->oldChallenges.empty()) return;
      std::string o = c->oldChallenges[c->rng.below(c->oldChallenges.size())];
      return refused({"HMAC_AUTH_VALIDATE_CHALLENGE", hmac(o, SECRET)}, "signature of a challenge used before");
    }
    if (how == "shortnonce") { refused({"HMAC_AUTH_GENERATE_CHALLENGE", nonce().substr(0, c->rng.range(1, 63))}, "short nonce"); return; }
    if (!challenge(ch)) return;
    std::string sig = hmac(ch, SECRET);
    if (how == "ok") accepted({"HMAC_AUTH_VALIDATE_CHALLENGE", sig});
    else if (how == "okslow") { sleepFor(c->rng.range(1, 55) * SEC); accepted({"HMAC_AUTH_VALIDATE_CHALLENGE", sig}); }
    else if (how == "late") { sleepFor(c->rng.range(61, 4000) * SEC); refused({"HMAC_AUTH_VALIDATE_CHALLENGE", sig}, "signature after the deadline"); }
    else if (how == "wrongsig") { sig[c->rng.below(sig.size())] ^= (char)(1 << c->rng.below(8)); refused({"HMAC_AUTH_VALIDATE_CHALLENGE", sig}, "altered signature"); }
    else if (how == "trunc") refused({"HMAC_AUTH_VALIDATE_CHALLENGE", sig.substr(0, c->rng.range(1, 31))}, "truncated signature");
    else if (how == "longsig") refused({"HMAC_AUTH_VALIDATE_CHALLENGE", sig + std::string(1, '\0')}, "extended signature");
    else if (how == "empty") refused({"HMAC_AUTH_VALIDATE_CHALLENGE", std::string(1, '\0')}, "null signature");
    else if (how == "echo") refused({"HMAC_AUTH_VALIDATE_CHALLENGE", ch}, "echoed challenge");
    else if (how == "wrongkey") refused({"HMAC_AUTH_VALIDATE_CHALLENGE", hmac(ch, SECRET + "x")}, "signature with another key");
    else if (how == "emptykey") refused({"HMAC_AUTH_VALIDATE_CHALLENGE", hmac(ch, "")}, "signature with an empty key");
    else if (how == "superseded") { if (!challenge(ch2)) return; refused({"HMAC_AUTH_VALIDATE_CHALLENGE", sig}, "signature of a superseded challenge"); }
    else if (how == "retry") {
      // a failed attempt ends the challenge
      refused({"HMAC_AUTH_VALIDATE_CHALLENGE", "nonsense"}, "nonsense signature");
      refused({"HMAC_AUTH_VALIDATE_CHALLENGE", sig}, "second attempt on one challenge");
    } else if (how == "replay") {
      accepted({"HMAC_AUTH_VALIDATE_CHALLENGE", sig});
      std::string h = c->host;
      if (!open(c, h)) return;
      refused({"HMAC_AUTH_VALIDATE_CHALLENGE", sig}, "signature replayed on a new connection");
      if (!challenge(ch2)) return;
      refused({"HMAC_AUTH_VALIDATE_CHALLENGE", sig}, "signature of an older challenge");
    } else if (how == "other") {
      if (other.empty() || other == ch) { accepted({"HMAC_AUTH_VALIDATE_CHALLENGE", sig}); return; }
      refused({"HMAC_AUTH_VALIDATE_CHALLENGE", hmac(other, SECRET)}, "signature of another connection's challenge");
    }
  }
  // the contents of the prefix after unanswered requests: some prefix of them took effect
  void resync(Client* c) {
    std::vector<std::vector<Cmd>> un;
    for (auto& t : c->pendingTx) un.push_back(t.second);
    std::vector<Model> cand = {known[c->id]};
    Model cur = known[c->id];
    for (auto& t : un) { cur.tx(t); cand.push_back(cur); }
    c->conn.close();
    sleepFor(8 * SEC);
    std::string h = c->host;
    if (!open(c, h)) return;
    if (pw && needsAuth(*c)) auth(c, "pw");
    Model found;
    bool any = false;
    std::string last;
    for (size_t i = cand.size(); i-- > 0 && !any;) {
      bool ok = true;
      for (auto& q : cand[i].dump(false)) {
        if (q.first[0] == "CONFIG_GETALL") continue;
        Reply r;
        if (!call(c, q.first, r)) return;
        if (!sameReply(q.second, r)) { ok = false; last = show(q.first) + " = " + r.str() + ", expected " + q.second.str(); break; }
      }
      if (ok) {
        // and nothing else
        Reply r;
        if (!call(c, {"KEYS", fmt("c%dk*", c->id)}, r)) return;
        if (r.k.size() != cand[i].m.size()) ok = false;
      }
      if (ok) { any = true; found = cand[i]; }
    }
    if (ending || !s.alive()) return;
    if (!any) violation("partial-effect", fmt("after a disconnect the data of connection %d is not the effect of a prefix of its requests (%s)", c->id, last.c_str()));
    c->m = found;
    known[c->id] = found;
    countProbe("resynchronised after disconnect");
  }
  
  void doLine(Client* c, const Cmd& l) {
    const std::string& k = l[0];
    if (k == "open") { if (l.size() > 1) { sync(c); open(c, l[1]); } return; }
    if (!c->conn.ep && k != "open") return;
    if (k == "sleep") { if (l.size() > 1) sleepFor(atoi(l[1].c_str()) * MS); return; }
    if (k == "sync") { sync(c); return; }
    if (k == "auth") { if (l.size() > 1 && !c->lost) auth(c, l[1]); return; }
    if (k == "cmds") {
      if (c->lost) return;
      std::string all;
      std::vector<Cmd> v = split(l, 1, ";");
      for (auto& q : v) {
        if (q[0] == "PACK") {
          if (q.size() < 3) continue;
          std::vector<Cmd> t = split(q, 2, "|");
          bool w = false;
          for (auto& x : t) w |= isWrite(x);
          if (t.empty()) continue;
          Cmd e = {w ? "TX_READWRITE" : "TX_READONLY", pack(t), q[1]};
          all += encodeRequest(e);
          Reply none;
          if (c->multi) expect(c, ERR, none, {"PACK"});
          else if (needsAuth(*c) && !c->authed) { for (size_t i = 0; i < (q[1] == "phantom" ? t.size() : 1); i++) expect(c, NOAUTH, none, {"PACK"}); }
          else {
            std::vector<Reply> rs = c->m.tx(t);
            if (q[1] == "real") expect(c, EXACT, rArr(rs), q); else for (size_t i = 0; i < rs.size(); i++) expect(c, EXACT, rs[i], t[i]);
            note(c, t);
          }
          continue;
        }
        if (needsAuth(*c) && !c->authed && q.size() >= 5) continue;
        all += encodeRequest(q);
        feed(c, q);
      }
      countProbe("pipelined requests", v.size());
      send(c, all);
      return;
    }
    if (k == "fuzz") {
      if (c->lost) return;
      c->isFuzz = true;
      std::string all;
      Reply none;
      for (auto& q : split(l, 1, ";")) {
        all += encodeRequest(q);
        int n = 1;
        if (upper(q[0]).compare(0, 3, "TX_") == 0 || upper(q[0]).compare(0, 3, "TX-") == 0 || upper(q[0]).compare(0, 7, "MULTIOP") == 0) n = packedReplies(q);
        for (int i = 0; i < n; i++) expect(c, ANY, none, q);
        countProbe("arbitrary request " + lower(q[0]));
      }
      // replies stay aligned with requests
      std::string mark = fmt("mark%d.%llu", c->id, (unsigned long long)++c->marks);
      all += encodeRequest({"PING", mark});
      expect(c, needsAuth(*c) && !c->authed ? NOAUTH : EXACT, rStr(mark), {"PING", mark});
      send(c, all);
      return;
    }
    if (k == "raw") {
      sync(c);
      stopReader(c);
      c->tainted = true;
      c->conn.sendRaw(l[1]);
      // whatever comes back is ignored; the node must survive
      Time dl = now() + c->rng.range(1, 300) * MS;
      Reply r;
      while (c->conn.read(r, dl) == 1) {}
      c->conn.close();
      countProbe("malformed bytes");
      return;
    }
    if (k == "hs") {
      std::string tm = fmt("%ld:%ld:%ld", s.tLow, s.tHigh, s.tHb), id = "proto-cluster", how = l[1];
      Reply r;
      bool na = needsAuth(*c) && !c->authed;
      if (how.compare(0, 2, "ok") == 0) {
        if (!call(c, {"RAFT_HANDSHAKE", "0.4.3", id, tm}, r)) return;
        if (raft && !na && r != rOk() && !ending) violation("handshake-refused", "a correct handshake was answered " + r.str());
        if ((!raft || na) && !r.err()) violation("handshake-accepted", "a handshake was accepted by a node which must refuse it: " + r.str());
        how = how.substr(2) == "bad" ? "badid" : "short";
      }
      Cmd q = {"RAFT_HANDSHAKE", "0.4.3", id, tm};
      if (how == "badid") q[2] = "proto-clustex"; else if (how == "badid2") q[2] = "proto-cluster2"; else if (how == "noid") q[2] = "p"; else if (how == "badtime") q[3] = fmt("%ld:%ld:%ld", s.tLow, s.tHigh, s.tHb + 1); else if (how == "short") q.pop_back(); else if (how == "long") q.push_back("x");
      if (na && q.size() >= 5) return;
      if (!call(c, q, r)) return;
      if (!r.err()) violation("handshake-accepted", fmt("handshake '%s' was answered %s", show(q).c_str(), r.str().c_str()));
      countProbe("wrong handshake refused");
      return;
    }
    if (k == "raftbad") {
      // malformed requests between members, on a connection which completed the handshake
      if (!raft || (needsAuth(*c) && !c->authed)) return;
      Rng g;
      g.seed(strtoull(l[1].c_str(), nullptr, 10));
      std::string tm = fmt("%ld:%ld:%ld", s.tLow, s.tHigh, s.tHb);
      Reply r;
      if (!call(c, {"RAFT_HANDSHAKE", "0.4.3", "proto-cluster", tm}, r)) return;
      if (r != rOk() && !ending) violation("handshake-refused", "a correct handshake was answered " + r.str());
      for (int i = g.range(1, 4); i > 0; i--) {
        Cmd q = malformedRaft(g, term0 + 100);
        if (!call(c, q, r)) return;
        if (!r.err()) violation("malformed-accepted", fmt("the malformed request '%s' was answered %s", show(q).c_str(), r.str().c_str()));
        countProbe("malformed request between members refused");
      }
      call(c, {"RAFT_HANDSHAKE", "0.4.3", "other-cluster", tm}, r);
      return;
    }
    if (k == "internal") {
      Cmd q(l.begin() + 1, l.end());
      for (auto& a : q) if (a.compare(0, 3, "%T+") == 0) a = std::to_string(std::max(0l, term0) + atol(a.c_str() + 3));
      if (q[0] == "%PTS") q = {"TX_READWRITE", pack({{"TIMESTAMPED_LEASE_ACQUIRE", "zz", "me", "100000", be64(1ull << 60)}}), "phantom"};
      if (q[0] == "RAFT_APPEND_ENTRIES") {
        // header: term, previous index, previous term, commit index, number of entries; one entry
        std::string ser = be64(term0 + 100);
        q = {"RAFT_APPEND_ENTRIES", "n9:7777", be64(term0 + 100) + be64(0) + be64(0) + be64(1) + be64(1), ser + be64(3) + "SET" + be64(2) + "zz" + be64(1) + "1"};
      }
      Reply r;
      if (needsAuth(*c) && !c->authed && q.size() >= 5) return;   // such requests end an unauthenticated connection
      if (!call(c, q, r)) return;
      if (!r.err()) violation("internal-command-accepted", fmt("'%s' sent by a client without a valid handshake was answered %s", show(q).c_str(), r.str().c_str()));
      countProbe("internal command refused");
      return;
    }
    if (k == "drop" || k == "close") {
      stopReader(c);
      if (k == "drop" && c->conn.ep) { NoPreempt np; net::resetConn(c->conn.ep); }
      c->conn.close();
      countFault(k == "drop" ? "connection reset with requests in flight" : "connection closed with requests in flight");
      if (c->isFuzz) { c->want.clear(); sleepFor(100 * MS); open(c, c->host); if (pw && needsAuth(*c)) auth(c, "pw"); return; }
      resync(c);
      return;
    }
  }
  static std::string le64(int64_t v) { return std::string((const char*)&v, 8); }
  static Cmd malformedRaft(Rng& g, int64_t term) {
    auto part = [&](const std::string& x) { return le64((int64_t)x.size()) + x; };
    std::string good = le64(term) + part("SET") + part("zz") + part("1");
    auto badEntry = [&]() -> std::string {
      switch (g.below(7)) {
        case 0: return good.substr(0, 1 + g.below(7));                               // not even a term
        case 1: return good + part("x").substr(0, g.below(8) + 1);                   // cut within a part
        case 2: return good.substr(0, good.size() - 1);
        case 3: return good + le64(-g.range(1, 100)) + "abc";
        case 4: return good + le64((int64_t)1 << g.range(20, 62)) + "abc";
        case 5: return good + le64(std::numeric_limits<int64_t>::min() + (int64_t)g.below(3)) + "abc";
        default: return le64(term) + le64(std::numeric_limits<int64_t>::max() - (int64_t)g.below(40)) + "SET";
      }
    };
    auto header = [&](int64_t n) { return be64(term) + be64(0) + be64(0) + be64(1) + be64(n); };
    std::string id = "n9:7777", T = std::to_string(term);
    auto server = [&] { return g.pick(std::vector<std::string>{":", "n9", "n9:", "n9:x", "n9:7777:1", "n9:77x77"}); };
    auto number = [&] { return g.pick(std::vector<std::string>{"x", T + "x", "99999999999999999999999", "1.5", "- 1"}); };
    switch (g.below(12)) {
      case 0: case 1: case 2: return {"RAFT_APPEND_ENTRIES", id, header(1), badEntry()};
      case 3: return {"RAFT_APPEND_ENTRIES", id, header(2), good, badEntry()};
      case 4: { std::string h = header(0); h.resize(1 + g.below(39)); return {"RAFT_APPEND_ENTRIES", id, h}; }
      case 5: return {"RAFT_APPEND_ENTRIES", id, header(g.pick(std::vector<int64_t>{0, 2, -1, 1ll << 32, (1ll << 32) + 2, -(1ll << 32)})), good};
      case 6: return {"RAFT_APPEND_ENTRIES", server(), header(1), good};
      case 7: return g.chance(0.5) ? Cmd{"RAFT_APPEND_ENTRIES", id, header(0) + std::string(1 + g.below(9), 'x')} : Cmd{"RAFT_APPEND_ENTRIES", id};
      case 8: return {"RAFT_HEARTBEAT", number(), id};
      case 9: return {"RAFT_HEARTBEAT", T, server()};
      case 10: return {g.chance(0.5) ? "RAFT_REQUEST_VOTE" : "RAFT_REQUEST_PRE_VOTE", number(), id, "1000000", T};
      default: {
        Cmd q = {g.chance(0.5) ? "RAFT_REQUEST_VOTE" : "RAFT_REQUEST_PRE_VOTE", T, id, "1000000", T};
        switch (g.below(4)) { case 0: q[2] = server(); break; case 1: q[3] = number(); break; case 2: q[4] = number(); break; default: if (g.chance(0.5)) q.pop_back(); else q.push_back("x"); }
        return q;
      }
    }
  }
  static std::string lower(std::string s) { for (auto& c : s) { c = (char)tolower(c); if (c == '-') c = '_'; } return s; }
  // replies to a packed transaction: as many as it has commands if it is well formed and marked phantom, else one
  static int packedReplies(const Cmd& q) {
    if (q.size() != 3 || q[2] != "phantom") return 1;
    const std::string& s = q[1];
    size_t pos = 0;
    auto num = [&](int64_t& v) { if (s.size() - pos < 8) return false; uint64_t x = 0; for (int i = 0; i < 8; i++) x = x << 8 | (unsigned char)s[pos + i]; v = (int64_t)x; pos += 8; return true; };
    int64_t n;
    if (!num(n) || n <= 0) return 1;
    bool w = false;
    static std::set<std::string> reads, writes;
    if (reads.empty()) {
      for (size_t i = 0; i < dataCommands(); i++) { Cmd c = {table()[i]}; if (std::string(table()[i]).compare(0, 2, "tx") != 0) (i <= 29 ? reads : writes).insert(table()[i]); }
      reads.insert("keys"); writes.insert("flushall"); writes.insert("config_set"); writes.insert("artificially_slow_write_never_use_this");
    }
    for (int64_t i = 0; i < n; i++) {
      int64_t parts;
      if (!num(parts)) return 1;
      std::string name;
      for (int64_t j = 0; j < parts; j++) { int64_t len; if (!num(len) || len <= 0 || (size_t)len > s.size() - pos) return 1; if (j == 0) name = lower(s.substr(pos, len)); pos += len; }
      if (parts <= 0) return 1;
      if (name.compare(0, 12, "timestamped_") == 0) return 1;
      if (writes.count(name)) w = true;
      else if (!reads.count(name)) return 1;
    }
    bool rw = lower(q[0]) == "tx_readwrite" || lower(q[0]) == "multiop_readwrite";
    return rw == w ? (int)n : 1;
  }
  void run() {
    s.id = 1;
    s.mode = raft ? "raft" : "standalone";
    if (pw) s.extraConf = "redis.password " + SECRET + "\n";
    if (pw && plan.get("pwlocal", 0)) s.extraConf += "redis.require_password_for_localhost true\n";
    net::cfg.sndBuf = (size_t)plan.get("sndbuf", 4 << 20);
    if (!s.bootstrap("proto-cluster", raft ? std::vector<std::string>{"n1:7777"} : std::vector<std::string>{}, 0, 2)) violation("bootstrap-failed", "creating the database failed without any fault");
    g_abortIsViolation = true;
    s.start();
    if (!s.waitUp(30 * SEC)) violation("start-failed", "server does not start");
    Client admin;
    admin.id = -1;
    admin.rng = subRng(plan, "admin");
    auto adminUp = [&] {
      Time dl = now() + 60 * SEC;
      for (;;) {
        if (open(&admin, "client")) {
          if (pw) auth(&admin, "ok");
          Reply r;
          if (call(&admin, {"GET", "nosuchkey"}, r) && r.t == 'n') break;
        }
        if (now() > dl) violation("not-serving", "the node does not serve");
        sleepFor(300 * MS);
      }
    };
    adminUp();
    std::map<std::string, std::string> info0 = raftInfo(&admin);
    term0 = raft ? atol(info0["TERM"].c_str()) : 0;
    int n = 0;
    for (auto& l : plan.lines) if (l.kind == "c" && l.a.size() > 1) n = std::max(n, atoi(l.a[0].c_str()) + 1);
    for (int i = 0; i < n; i++) { cl.emplace_back(new Client); cl[i]->id = i; cl[i]->rng = subRng(plan, fmt("client%d", i).c_str()); }
    for (auto& l : plan.lines) if (l.kind == "c" && l.a.size() > 1) { int i = atoi(l.a[0].c_str()); if (i >= 0 && i < n) cl[i]->lines.push_back(Cmd(l.a.begin() + 1, l.a.end())); }
    Conn mon;
    if (plan.get("monitor", 0)) {
      Reply r;
      if (mon.open(s.host(), s.port) && (!pw || mon.call({"AUTH", SECRET}, r))) mon.call({"MONITOR"}, r);
      if (pw == false && r != rOk()) violation("monitor", "MONITOR answered " + r.str());
    }
    if (plan.get("jump", 0)) {
      Rng jr = subRng(plan, "jump");
      for (int i = 0; i < 5; i++) { Time off = jr.range(-200000, 200000) * SEC; after(jr.range(10, 20000) * MS, [off] { node(1).realOffset += off; countFault("wall clock jump"); }); }
    }
    Group g;
    int done = 0;
    for (auto& c : cl) { Client* x = c.get(); g.go([this, x, &done] { for (auto& l : x->lines) { if (ending || !s.alive()) break; doLine(x, l); } if (!ending) { sync(x); } done++; }, fmt("client%d", x->id)); }
    if (plan.get("stoploaded", 0)) {
      // clean shutdown with requests in flight: must finish, and whatever was answered must be there afterwards
      Rng sr = subRng(plan, "stop");
      sleepFor(sr.range(1, 3000) * MS);
      if (done < n) {
        // unanswered requests may have been applied or not
        ending = true;
        countFault("shutdown under load");
        if (!s.stop(60 * SEC)) { if (s.alive()) violation("shutdown-hang", "clean shutdown did not finish within 60 s"); violation("shutdown-crash", "node died during a clean shutdown: " + node(1).deathReason); }
        g.join();
        for (auto& c : cl) stopReader(c.get());
        stopReader(&admin); admin.conn.close(); mon.close();
        return;
      }
    }
    g.join();
    if (!s.alive()) violation("node-down", "node died: " + node(1).deathReason);
    // drain the monitor
    if (mon.ep) { Reply r; while (mon.read(r, now()) == 1) { countProbe("monitor line"); } if (plan.get("slowread", 0) == 0 && mon.broken && plan.get("sndbuf", 0) > 1 << 20) violation("closed", "the MONITOR connection was closed"); mon.close(); }
    for (auto& c : cl) { stopReader(c.get()); c->conn.close(); }
    sleepFor(500 * MS);
    for (int round = 0; round < 2; round++) {
      checkAll(&admin);
      if (raft && round == 0) {
        auto i1 = raftInfo(&admin);
        for (auto k : {"TERM", "CLUSTER-ID", "LEADER", "NODES", "OBSERVERS", "VOTED-FOR", "MEMBERSHIP-EPOCH"})
          if (i1[k] != info0[k]) violation("raft-state-changed", fmt("%s changed from '%s' to '%s' although no cluster member asked for it", k, info0[k].c_str(), i1[k].c_str()));
        countProbe("raft state unchanged");
      }
      stopReader(&admin); admin.conn.close();
      if (!s.stop(60 * SEC)) { if (s.alive()) violation("shutdown-hang", "clean shutdown did not finish within 60 s"); violation("shutdown-crash", "node died during a clean shutdown: " + node(1).deathReason); }
      if (round == 1) break;
      s.start();
      if (!s.waitUp(30 * SEC)) violation("restart-failed", "node does not restart: " + node(1).deathReason);
      adminUp();
    }
  }
  std::map<std::string, std::string> raftInfo(Client* a) {
    std::map<std::string, std::string> m;
    Reply r;
    if (!raft || !call(a, {"RAFT_INFO"}, r)) return m;
    for (auto& x : r.k) { size_t p = x.s.find(' '); if (p != std::string::npos) m[x.s.substr(0, p)] = x.s.substr(p + 1); }
    return m;
  }
  void checkAll(Client* a) {
    std::set<std::string> keys;
    for (auto& c : cl) {
      for (auto& kv : c->m.m) keys.insert(kv.first);
      for (auto& q : c->m.dump(false)) {
        if (q.first[0] == "CONFIG_GETALL") continue;
        Reply r;
        if (!call(a, q.first, r)) violation("not-serving", "node stopped serving: " + node(1).deathReason);
        if (!sameReply(q.second, r)) violation("wrong-data", fmt("%s = %s, expected %s", show(q.first).c_str(), r.str().c_str(), q.second.str().c_str()));
      }
    }
    Reply r;
    if (!call(a, {"KEYS", "*"}, r)) violation("not-serving", "node stopped serving: " + node(1).deathReason);
    std::set<std::string> got;
    bool fuzz = false;
    for (auto& c : cl) fuzz |= c->isFuzz;
    for (auto& x : r.k) { if ((x.s.size() > 2 && x.s[0] == 'c' && isdigit((unsigned char)x.s[1])) || !fuzz) if (!rawKey(x.s)) got.insert(x.s); }
    for (auto& k : got) if (!keys.count(k)) violation("unexpected-key", "a key exists which no accepted request created: " + escape(k));
    for (auto& k : keys) if (!got.count(k)) violation("wrong-data", "KEYS does not list " + escape(k));
    countProbe("full content compared");
  }
  // keys which malformed input happening to be valid may have created
  bool rawKey(const std::string& k) { return plan.get("raws", 0) && k.compare(0, 1, "c") != 0; }
};
void runProto(const Plan& p) { Proto x(p); x.run(); }
Reg reg("proto", genProto, runProto);
}
