// Starting from a configuration file and a password file: reading failures, short reads, every file mode, files replaced
// while they are read, and arbitrary contents. An independent reading of the documented format says what a node may do:
// run with exactly the settings of one version of the files, or refuse to start.
#include "scen.hh"
#include "Configuration.hh"
#include "config/ConfigurationReader.hh"
#include "utils/FileUtils.hh"
#include <algorithm>
#include <cctype>
#include <cerrno>
using namespace scen;
using namespace sim;
namespace {
std::string S(long long v) { return std::to_string(v); }
const std::string CONF = "/vfs/n1/conf", PWF = "/vfs/n1/pw";
// ------------------------------------------------------------------------------------------------ reference
struct Ref {
  bool ok = false, dup = false, modeGiven = false;
  std::string mode, db, host, trace = "info", cert, key, pwf, pw;
  long long port = 0;
  bool reqLocal = false, wal = true;
};
bool space(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\f' || c == '\n'; }
bool boolean(const std::string& v, bool& o) { if (v == "true") { o = true; return true; } if (v == "false") { o = false; return true; } return false; }
Ref reference(const std::string& text) {
  Ref f;
  std::set<std::string> seen;
  size_t at = 0;
  while (at <= text.size()) {
    size_t nl = text.find('\n', at);
    std::string line = text.substr(at, nl == std::string::npos ? std::string::npos : nl - at);
    at = nl == std::string::npos ? text.size() + 1 : nl + 1;
    std::vector<std::string> w;
    for (size_t i = 0; i < line.size();) {
      while (i < line.size() && space(line[i])) i++;
      size_t b = i;
      while (i < line.size() && !space(line[i])) i++;
      if (i > b) w.push_back(line.substr(b, i - b));
    }
    if (w.empty() || w[0].compare(0, 6, "redis.") != 0) continue;
    std::string o = w[0].substr(6);
    if (w.size() < 2) return f;
    const std::string& v = w[1];
    if (!seen.insert(o).second) f.dup = true;
    if (o == "mode") { if (v != "standalone" && v != "raft" && v != "bulkload") return f; f.mode = v; f.modeGiven = true; }
    else if (o == "database") f.db = v;
    else if (o == "myself") {
      size_t c = v.find(':');
      if (c == std::string::npos || v.find(':', c + 1) != std::string::npos || c + 1 == v.size()) return f;
      std::string num = v.substr(c + 1);
      size_t d = num[0] == '-' ? 1 : 0;
      if (num.size() == d || num.size() > 11) return f;
      for (size_t i = d; i < num.size(); i++) if (!isdigit((unsigned char)num[i])) return f;
      f.host = v.substr(0, c); f.port = atoll(num.c_str());
      if (f.port > 2147483647LL || f.port < -2147483648LL) return f;
    }
    else if (o == "trace") {
      if (v == "off" || v == "error" || v == "info") f.trace = v;
      else if (v == "warn" || v == "warning") f.trace = "warning";
      else if (v == "debug" || v == "all") f.trace = "debug";
      else return f;
    }
    else if (o == "certificate") f.cert = v;
    else if (o == "certificate_key") f.key = v;
    else if (o == "write_ahead_log") { if (!boolean(v, f.wal)) return f; }
    else if (o == "password_file") f.pwf = v;
    else if (o == "password") f.pw = v;
    else if (o == "require_password_for_localhost") { if (!boolean(v, f.reqLocal)) return f; }
    else return f;
  }
  if (!f.modeGiven || f.db.empty() || f.db.back() == '/') return f;
  if ((f.mode == "raft") == f.host.empty()) return f;
  if (f.cert.empty() != f.key.empty()) return f;
  if (!f.pwf.empty() && !f.pw.empty()) return f;
  if (f.pwf.empty() && f.pw.empty() && f.reqLocal) return f;
  f.ok = true;
  return f;
}
std::string describe(const Ref& f) { return fmt("mode=%s database=%s myself=%s:%lld trace=%s certificate=%s key=%s password_file=%s password=%s local=%d wal=%d", f.mode.c_str(), escape(f.db).c_str(), escape(f.host).c_str(), f.port, f.trace.c_str(), escape(f.cert).c_str(), escape(f.key).c_str(), escape(f.pwf).c_str(), escape(f.pw).c_str(), f.reqLocal, f.wal); }
std::string traceName(quarkdb::TraceLevel t) {
  switch (t) { case quarkdb::TraceLevel::off: return "off"; case quarkdb::TraceLevel::error: return "error"; case quarkdb::TraceLevel::warning: return "warning"; case quarkdb::TraceLevel::info: return "info"; case quarkdb::TraceLevel::debug: return "debug"; }
  return "?";
}
Ref observed(const quarkdb::Configuration& c) {
  Ref f; f.ok = true;
  f.mode = c.getMode() == quarkdb::Mode::raft ? "raft" : c.getMode() == quarkdb::Mode::standalone ? "standalone" : c.getMode() == quarkdb::Mode::bulkload ? "bulkload" : "?";
  f.db = c.getDatabase(); f.host = c.getMyself().hostname; f.port = c.getMyself().port; f.trace = traceName(c.getTraceLevel());
  f.cert = c.getCertificatePath(); f.key = c.getCertificateKeyPath(); f.pwf = c.getPasswordFilePath(); f.pw = c.getPassword();
  f.reqLocal = c.getRequirePasswordForLocalhost(); f.wal = c.getWriteAheadLog();
  return f;
}
struct PwFile { std::string data; int mode = 0400; bool dir = false, missing = false; };
bool pwGood(const PwFile& w) { return !w.dir && !w.missing && (w.mode & 0777) == 0400 && w.data.find_last_not_of(" \t\n\r\f\v") != std::string::npos; }
std::string trimmed(std::string s) { while (!s.empty() && space(s.back())) s.pop_back(); return s; }
// ------------------------------------------------------------------------------------------------ generation
const char* MODES[] = {"0400", "0400", "0600", "0444", "0440", "0404", "0500", "0700", "0000", "0200", "0401", "0410", "0402", "0420", "02400", "01400"};
std::string secret(Rng& r, int lo, int hi) {
  static const std::string cs = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_=+/#!~";
  std::string o; int n = (int)r.range(lo, hi);
  for (int i = 0; i < n; i++) o += cs[r.below(cs.size())];
  return o;
}
std::string pwText(Rng& r, bool full) {
  std::string o = full && r.chance(0.9) ? secret(r, 32, 60) : r.chance(0.25) ? secret(r, 0, 3) : r.chance(0.2) ? secret(r, 1, 1) : secret(r, 20, 60);
  if (r.chance(0.12)) { static const int L[] = {1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 10240}; o = secret(r, 1, 1); int n = L[r.below(11)]; while ((int)o.size() < n) o += (char)('a' + o.size() % 26); }
  if (r.chance(0.1)) o.insert(r.below(o.size() + 1), r.pick(std::vector<std::string>{" ", "\n", "\t", std::string(1, '\0'), "\r\n", "\xc3\xa9"}));
  if (r.chance(0.05)) o = " " + o;
  if (r.chance(0.6)) o += r.pick(std::vector<std::string>{"\n", "\n", "\r\n", " ", "  \n", "\t\n", "\n\n\n", "\v", "\f", " \n \n"});
  return o;
}
std::string confText(Rng& r, int level, const std::string& kind) {
  struct O { std::string n, v; };
  std::vector<O> o;
  bool odd = r.chance(level == 2 ? 0.12 : 0.5);
  std::string mode = odd && r.chance(0.25) ? r.pick(std::vector<std::string>{"standalone", "raft", "bulkload", "Raft", "rafter", "", "rocksdb"}) : kind;
  if (!(odd && r.chance(0.1))) o.push_back({"mode", mode});
  if (!(odd && r.chance(0.1))) o.push_back({"database", odd && r.chance(0.3) ? r.pick(std::vector<std::string>{"/vfs/n1/db2", "/vfs/n1/nodb", "/vfs/n1/db/", "/", "db", ""}) : "/vfs/n1/db"});
  if ((mode == "raft") != (odd && r.chance(0.15))) o.push_back({"myself", odd && r.chance(0.5) ? r.pick(std::vector<std::string>{"n1:7778", "n2:7777", "n1", "n1:", "n1:abc", ":7777", "n1:7777:1", "n1:99999999999999999999", "n1:4294975073", "n1:7777x", "n1:-1", ""}) : "n1:7777"});
  if (r.chance(0.5)) o.push_back({"trace", r.pick(std::vector<std::string>{"off", "error", "warn", "warning", "info", "debug", "all", odd ? "verbose" : "info"})});
  if (r.chance(0.5)) o.push_back({"write_ahead_log", r.pick(std::vector<std::string>{"true", "false", odd ? "yes" : "true", odd ? "False" : "false"})});
  if (level == 1 && r.chance(0.3)) o.push_back({"certificate", r.pick(std::vector<std::string>{"/etc/cert.pem", "/vfs/c", "c", odd ? "" : "d"})});
  if (level == 1 && r.chance(0.3)) o.push_back({"certificate_key", r.pick(std::vector<std::string>{"/etc/key.pem", "/vfs/k", "k", odd ? "" : "l"})});
  if (r.chance(0.45)) o.push_back({"password_file", odd && r.chance(0.15) ? "/vfs/n1/nofile" : PWF});
  else if (r.chance(0.4)) o.push_back({"password", level == 2 && r.chance(0.85) ? secret(r, 32, 50) : secret(r, 1, 45)});
  if (odd && r.chance(0.08)) o.push_back({"password", secret(r, 32, 40)});
  if (r.chance(0.4)) o.push_back({"require_password_for_localhost", r.pick(std::vector<std::string>{"true", "true", "false", odd ? "1" : "false"})});
  if (odd && r.chance(0.2)) o.push_back({r.pick(std::vector<std::string>{"blublu", "", "m", "mod", "mode2", "data", "databases", "certificate_", "password_files", "passwords", "write", "require_password", "MODE", "."}), r.pick(std::vector<std::string>{"raft", "standalone", "true", "x"})});
  if (odd && r.chance(0.1) && !o.empty()) { O d = o[r.below(o.size())]; if (r.chance(0.5)) d.v = r.pick(std::vector<std::string>{"standalone", "raft", "/vfs/n1/db2", "true", "false", "n1:7777"}); o.push_back(d); }
  for (size_t i = o.size(); i > 1; i--) if (r.chance(0.7)) std::swap(o[i - 1], o[r.below(i)]);
  std::string t;
  auto ws = [&]() -> std::string { return r.pick(std::vector<std::string>{" ", " ", " ", "\t", "  ", "   \t ", "\v"}); };
  auto noise = [&] {
    if (r.chance(0.75)) return;
    switch (r.below(9)) {
      case 0: t += "# a comment with redis.mode standalone inside\n"; break;
      case 1: t += "\n\n"; break;
      case 2: t += "xrd.port 7777\n"; break;
      case 3: t += "  \t \n"; break;
      case 4: t += "#redis.password " + secret(r, 32, 40) + "\n"; break;
      case 5: t += "x\n"; break;
      case 6: t += "# " + std::string(r.range(1, 3000), 'c') + "\n"; break;
      case 7: t += "xrd redis.database /vfs/n1/db2\n"; break;
      default: t += "\r\n"; break;
    }
  };
  noise();
  if (r.chance(0.05)) t = "\n" + t;
  for (auto& x : o) {
    noise();
    if (r.chance(0.08)) t += ws();
    t += "redis." + x.n;
    if (!x.v.empty()) t += ws() + x.v; else if (r.chance(0.3)) t += ws();
    if (r.chance(0.08)) t += ws() + r.pick(std::vector<std::string>{"# trailing words", "extra", "redis.mode standalone"});
    t += r.chance(0.07) ? "\r\n" : r.chance(0.05) ? " \n" : "\n";
  }
  noise();
  if (r.chance(0.15) && !t.empty() && t.back() == '\n') t.pop_back();
  if (odd && r.chance(0.12)) {
    if (r.chance(0.5)) t.resize(r.below(t.size() + 1));
    else if (!t.empty()) for (int i = (int)r.range(1, 3); i > 0; i--) t[r.below(t.size())] = r.chance(0.4) ? r.pick(std::vector<char>{' ', '\n', '\0', '#', '.'}) : (char)r.below(256);
  }
  return t;
}
void genConf(Plan& p, Rng& r) {
  p.knob("full", r.chance(0.45));
  p.knob("net.resolvefail", 0);
  p.knob("sched.mean", r.pick(std::vector<double>{60, 300, 1000}));
  bool full = p.get("full", 0);
  int n = full ? (int)r.range(1, 4) : (int)r.range(10, 60);
  p.knob("rounds", n); n = (int)p.get("rounds", n);
  for (int i = 0; i < n; i++) {
    int level = full ? 2 : 1;
    std::string kind = r.chance(0.5) ? "standalone" : "raft";
    std::string fault = r.chance(level == 2 ? 0.3 : 0.45) ? r.chance(0.5) ? "err" : r.chance(0.5) ? "short" : "shorterr" : "none";
    std::string swap = r.chance(0.3) ? r.pick(std::vector<std::string>{"conf", "pw", "pw", "chmod"}) : "none";
    static const int E[] = {EIO, EACCES, EMFILE, ENOENT, EINTR, ENOMEM, EPERM, EISDIR};
    Cmd a = {S(level), kind, fault, S(r.below(fault == "shorterr" ? 14 : 7)), S(E[r.below(8)]), swap, S(r.below(7)), confText(r, level, kind), pwText(r, level == 2), r.chance(0.65) ? "0400" : MODES[r.below(16)]};
    std::string c1 = a[7], w1 = a[8], m1 = a[9];
    if (swap == "conf") c1 = r.chance(0.1) ? "" : confText(r, level, kind);
    if (swap == "pw") { w1 = pwText(r, level == 2); m1 = MODES[r.below(16)]; }
    if (swap == "chmod") m1 = MODES[r.below(16)];
    a.push_back(c1); a.push_back(w1); a.push_back(m1);
    a.push_back(r.chance(0.06) ? r.pick(std::vector<std::string>{"pw-missing", "pw-dir", "conf-missing", "conf-dir"}) : "-");
    a.push_back(r.pick(std::vector<std::string>{"kill", "stop", "kill", "none"}));
    p.add("round", a);
  }
}
// ------------------------------------------------------------------------------------------------ execution
struct Cf {
  const Plan& plan;
  explicit Cf(const Plan& p) : plan(p) {}
  Server sv;
  std::string conf[2]; PwFile pw[2];
  std::string special;
  bool swapped = false, faulted = false;
  std::string what;
  struct Pair { int c, w; };
  static bool anyPw(const Ref& f) { return !f.pw.empty() || !f.pwf.empty(); }
  // what the node may do with the files it may have seen
  std::vector<Pair> pairs(const std::string& swap) {
    std::vector<Pair> v = {{0, 0}};
    if (swap == "conf") v.push_back({1, 0});
    if (swap == "pw" || swap == "chmod") v.push_back({0, 1});
    return v;
  }
  // the password of a combination; false when no node may run with it
  bool password(const Pair& q, std::string& out) {
    if (special == "conf-missing" || special == "conf-dir") { if (q.c == 0) return false; }
    Ref f = reference(conf[q.c]);
    if (!f.ok) return false;
    if (!f.pw.empty()) { out = f.pw; return true; }
    if (f.pwf.empty()) { out = ""; return true; }
    if (f.pwf != PWF || !pwGood(pw[q.w])) return false;
    out = trimmed(pw[q.w].data);
    return true;
  }
  void place(const std::string& path, const std::string& data, int mode) { vfs::create(path, data, mode); }
  void setFiles() {
    vfs::mkdirs("/vfs/n1", 2);
    for (auto& p : {CONF, PWF, CONF + ".new", PWF + ".new"}) vfs::removeTree(p);
    if (special == "conf-dir") vfs::mkdirs(CONF, 2); else if (special != "conf-missing") place(CONF, conf[0], 0600);
    if (special == "pw-dir") vfs::mkdirs(PWF, 2); else if (special != "pw-missing") place(PWF, pw[0].data, pw[0].mode);
    place(CONF + ".new", conf[1], 0600);
    place(PWF + ".new", pw[1].data, pw[1].mode);
  }
  void arm(const std::string& fault, int nth, int err, const std::string& swap, int snth) {
    auto cnt = std::make_shared<int>(0), sc = std::make_shared<int>(0), sh = std::make_shared<int>(0);
    swapped = faulted = false;
    auto ours = [](const std::string& p) { return p == CONF || p == PWF; };
    vfs::g_fault = [=](int nd, const char* op, const std::string& path) -> int {
      if (nd != 1 || !ours(path)) return 0;
      int s = (*sc)++, k = (*cnt)++;
      if (s == snth && swap != "none") {
        swapped = true;
        countFault(swap == "chmod" ? "file mode changed while starting" : "file replaced while starting");
        if (swap == "conf") vfs::renameTo(CONF + ".new", CONF);
        else if (swap == "pw") vfs::renameTo(PWF + ".new", PWF);
        else if (auto f = vfs::lookup(PWF)) { if (!f->dir) f->mode = pw[1].mode; }
      }
      if ((fault == "err" || fault == "shorterr") && k == nth && strcmp(op, "close")) { faulted = true; countFault((std::string("file error: ") + op).c_str()); return err; }
      return 0;
    };
    vfs::g_short = [=](int nd, const char* op, const std::string& path, size_t n) -> size_t {
      if (nd != 1 || !ours(path) || (fault != "short" && fault != "shorterr") || strcmp(op, "read")) return n;
      (*sh)++;
      countFault("short read");
      size_t k = 1 + (size_t)((*sh * 7919 + nth * 104729) % (long)n);
      return k < n ? k : n;
    };
  }
  void disarm() { vfs::g_fault = nullptr; vfs::g_short = nullptr; }
  void load(const Cmd& a) {
    const std::string swap = a[5];
    node(1).alive ? void() : startNode(1);
    bool acc = false, pwOk = false, strOk = false; std::string pwd; Ref got, viaStr; std::string threw;
    setFiles();
    arm(a[2], atoi(a[3].c_str()), atoi(a[4].c_str()), swap, atoi(a[6].c_str()));
    bool fin = onNode(1, [&] {
      quarkdb::Configuration c;
      acc = quarkdb::Configuration::fromFile(CONF, c);
      if (acc) {
        got = observed(c);
        try { pwd = c.extractPasswordOrDie(); pwOk = true; } catch (quarkdb::FatalException& e) { threw = e.what(); }
      }
    }, "load");
    disarm();
    if (!fin) violation("config-crash", "reading the configuration ends the process: " + node(1).deathReason + " " + what);
    countProbe(acc ? pwOk ? "configuration and password accepted" : "password refused" : "configuration refused");
    auto prs = pairs(swapped ? swap : "none");
    bool mustAccept = !faulted;
    bool confMust = !faulted;
    for (auto& q : prs) {
      std::string t;
      if (!password(q, t)) mustAccept = false;
      bool cgood = !(q.c == 0 && (special == "conf-missing" || special == "conf-dir")) && reference(conf[q.c]).ok && !reference(conf[q.c]).dup;
      if (!cgood) confMust = mustAccept = false;
    }
    if (!acc) {
      if (confMust) violation("config-refused", "a valid configuration file is refused: " + what);
      return;
    }
    std::vector<int> cs;
    for (auto& q : prs) {
      if (q.c == 0 && (special == "conf-missing" || special == "conf-dir")) continue;
      Ref f = reference(conf[q.c]);
      if (f.ok && describe(f) == describe(got)) cs.push_back(q.c);
    }
    if (cs.empty()) {
      Ref f = reference(conf[0]);
      violation("config-accepted", std::string("the settings accepted are not those of the file: ") + describe(got) + (f.ok ? ", the file says " + describe(f) : ", the file must be refused") + " " + what);
    }
    if (!pwOk) {
      if (mustAccept) violation("password-refused", "a valid password is refused: " + threw.substr(0, 200) + " " + what);
      return;
    }
    bool ok = false;
    for (auto& q : prs) {
      std::string t;
      if (std::count(cs.begin(), cs.end(), q.c) && password(q, t) && t == pwd) ok = true;
    }
    if (!ok) violation("password-wrong", fmt("the node runs with the password '%s' (%zu bytes); file 0: mode %o, %zu bytes %s", escape(pwd).c_str(), pwd.size(), pw[0].mode, pw[0].data.size(), what.c_str()));
    (void)strOk; (void)viaStr;
  }
  // ---------------------------------------------------------------- whole node
  bool ask(const std::string& from, const std::vector<Cmd>& cmds, std::vector<Reply>& out) {
    for (int t = 0; t < 5; t++) {
      Conn c;
      out.clear();
      if (!c.open("n1", 7777, 5 * SEC, from)) { sleepFor(200 * MS); continue; }
      bool ok = true;
      for (auto& k : cmds) { Reply r; if (!c.call(k, r, 20 * SEC)) { ok = false; break; } out.push_back(r); }
      if (ok) return true;
      sleepFor(100 * MS);
    }
    return false;
  }
  void plainConf(const std::string& kind) { vfs::removeTree(CONF); place(CONF, "redis.mode " + kind + "\nredis.database /vfs/n1/db\n" + (kind == "raft" ? "redis.myself n1:7777\n" : ""), 0600); }
  bool writeUntilOk(const std::vector<Cmd>& pre, const Cmd& c, Time limit) {
    Time dl = now() + limit;
    while (now() < dl) {
      std::vector<Cmd> v = pre; v.push_back(c);
      std::vector<Reply> r;
      if (ask("client", v, r) && !r.back().err()) return true;
      if (!node(1).alive) return false;
      sleepFor(200 * MS);
    }
    return false;
  }
  void templates() {
    for (std::string kind : {"standalone", "raft"}) {
      sv.mode = kind;
      if (!sv.bootstrap("conf-cluster", kind == "raft" ? std::vector<std::string>{"n1:7777"} : std::vector<std::string>{})) harnessError("bootstrap");
      plainConf(kind);
      sv.start();
      if (!sv.waitUp(60 * SEC)) harnessError("template does not start: " + sv.refusal);
      if (!writeUntilOk({}, {"SET", "whoami", kind}, 60 * SEC)) harnessError("template does not serve");
      if (!sv.stop()) harnessError("template does not stop");
      vfs::renameTo("/vfs/n1/db", "/vfs/n1/t-" + kind);
    }
  }
  void full(const Cmd& a) {
    const std::string kind = a[1], swap = a[5], end = a[14], other = kind == "raft" ? "standalone" : "raft";
    if (node(1).alive) stopNode(1);
    setFiles();
    for (auto& d : {"/vfs/n1/db", "/vfs/n1/db2", "/vfs/n1/nodb"}) vfs::removeTree(d);
    vfs::copyTree("/vfs/n1/t-" + kind, "/vfs/n1/db");
    vfs::copyTree("/vfs/n1/t-" + other, "/vfs/n1/db2");
    arm(a[2], atoi(a[3].c_str()), atoi(a[4].c_str()), swap, atoi(a[6].c_str()));
    sv.throwIsRefusal = true; sv.refusal.clear();
    g_abortAllowed[1] = true;
    sv.start();
    bool up = sv.waitUp(120 * SEC);
    disarm();
    g_abortAllowed[1] = false;
    auto prs = pairs(swapped ? swap : "none");
    bool must = !faulted;
    struct Want { Ref f; std::string pw; };
    std::vector<Want> want;
    for (auto& q : prs) {
      std::string t;
      if (!password(q, t)) { must = false; continue; }
      Ref f = reference(conf[q.c]);
      std::string dbKind = f.db == "/vfs/n1/db" ? kind : f.db == "/vfs/n1/db2" ? other : "";
      if (f.dup || dbKind != f.mode || (!t.empty() && t.size() < 32)) must = false;
      if (!t.empty() && t.size() < 32) continue;
      if (!f.cert.empty()) { countProbe("TLS configured"); must = false; }
      want.push_back({f, t});
    }
    if (!up) {
      if (!sv.exited && node(1).alive) violation("start-hangs", "the node neither starts nor refuses " + what);
      if (!node(1).alive && node(1).deathReason.find("quick_exit(1)") == std::string::npos) violation("start-crash", "starting ends with " + node(1).deathReason + " " + what);
      countProbe("node refused to start");
      if (must) violation("start-refused", "a node with valid files refuses to start: " + sv.refusal.substr(0, 300) + node(1).deathReason + " " + what);
      if (node(1).alive) stopNode(1);
      return;
    }
    countProbe("node started");
    if (want.empty()) violation("started-anyway", "a node runs although its files must be refused " + what);
    // passwords to try
    std::vector<std::string> tries;
    for (auto& w : {pw[0].data, pw[1].data}) { std::string t = trimmed(w); if (!t.empty()) { tries.push_back(t); tries.push_back(t + "x"); if (t.size() > 1) tries.push_back(t.substr(0, t.size() - 1)); if (t != w) tries.push_back(w); } }
    for (auto& w : want) if (!w.f.pw.empty()) { tries.push_back(w.f.pw); tries.push_back(w.f.pw + "\n"); tries.push_back(w.f.pw.substr(1)); }
    tries.push_back("wrong-password-which-is-long-enough-0123");
    std::sort(tries.begin(), tries.end());
    tries.erase(std::unique(tries.begin(), tries.end()), tries.end());
    while (tries.size() && tries[0].empty()) tries.erase(tries.begin());
    std::string obs; std::vector<Reply> r;
    auto must1 = [&](const std::string& from, const std::vector<Cmd>& v) { if (!ask(from, v, r)) violation("not-serving", "a started node does not answer: " + node(1).deathReason + " " + what); };
    bool matching = true;   // writing to a raft database in standalone mode ends the process: administrators must not do that
    for (auto& w : want) matching &= (w.f.db == "/vfs/n1/db" ? kind : w.f.db == "/vfs/n1/db2" ? other : "") == w.f.mode;
    must1("client", {{"GET", "whoami"}, {"PING"}, {"QUARKDB_INFO"}, matching ? Cmd{"SET", "sneaky", "1"} : Cmd{"GET", "sneaky"}});
    bool openRemote = !(r[0].err() && r[0].s.compare(0, 6, "NOAUTH") == 0);
    for (auto& x : r) if ((x.err() && x.s.compare(0, 6, "NOAUTH") == 0) == openRemote) violation("auth-inconsistent", "some commands need authentication and others do not: " + x.str());
    must1("localhost", {{"PING"}});
    bool openLocal = !r[0].err();
    std::string good; bool haveGood = false;
    obs = fmt("remote=%d local=%d", openRemote, openLocal);
    for (size_t i = 0; i < tries.size(); i++) {
      must1("client", {{"AUTH", tries[i]}, {"PING"}});
      bool ok = !r[0].err();
      if (r[1].err() == (ok || openRemote)) violation("auth-inconsistent", "reply to AUTH: " + r[0].str() + ", afterwards: " + r[1].str());
      if (ok) { good = tries[i]; haveGood = true; }
      obs += ok ? " +" : " -";
    }
    std::vector<Cmd> pre;
    if (haveGood) pre.push_back({"AUTH", good});
    std::string from = openRemote || haveGood ? "client" : "localhost";
    std::vector<Cmd> v = pre; v.push_back({"QUARKDB_INFO"}); v.push_back({"RAFT_INFO"});
    must1(from, v);
    Reply info = r[pre.size()], ri = r[pre.size() + 1];
    for (auto& l : info.k) if (l.s.compare(0, 5, "MODE ") == 0 || l.s.compare(0, 15, "BASE-DIRECTORY ") == 0) obs += " " + l.s;
    for (auto& l : ri.k) if (l.s.compare(0, 7, "MYSELF ") == 0) obs += " " + l.s;
    std::string exp; bool wal = true; const Want* m = nullptr;
    for (auto& w : want) {
      std::string md = w.f.mode; for (auto& ch : md) ch = (char)toupper(ch);
      std::string e = fmt("remote=%d local=%d", w.pw.empty(), w.pw.empty() || !w.f.reqLocal);
      for (auto& t : tries) e += t == w.pw ? " +" : " -";
      e += " MODE " + md + " BASE-DIRECTORY " + w.f.db;
      if (w.f.mode == "raft") e += " MYSELF " + w.f.host + ":" + S(w.f.port);
      if (e == obs) { m = &w; wal &= w.f.wal; }
      exp = e;
    }
    if (!m) violation("wrong-settings", "the running node shows " + obs + ", its files say " + exp + " " + what);
    countProbe(m->pw.empty() ? "ran without password" : "ran with password");
    std::string dbKind = m->f.db == "/vfs/n1/db" ? kind : m->f.db == "/vfs/n1/db2" ? other : "";
    bool serves = dbKind == m->f.mode && (m->f.mode != "raft" || (m->f.host == "n1" && m->f.port == 7777));
    bool wrote = false;
    if (serves && m->f.mode != "bulkload") {
      if (!writeUntilOk(pre, {"SET", "durable", S(plan.seed)}, 90 * SEC)) violation("not-serving", "a started node does not accept writes " + what);
      v = pre; v.push_back({"GET", "whoami"}); v.push_back({"GET", "sneaky"});
      must1("client", v);
      if (r[pre.size()] != rStr(dbKind)) violation("wrong-database", "the node serves another database: whoami = " + r[pre.size()].str() + " " + what);
      if (!openRemote && r.back() != rNil()) violation("auth-bypass", "an unauthenticated write was applied " + what);
      wrote = wal || m->f.mode == "raft" || end == "stop";
      countProbe(m->f.wal ? "acknowledged with write-ahead log" : "acknowledged without write-ahead log");
    }
    if (end == "kill") sv.kill(false);
    else if (!sv.stop()) violation("not-stopping", "the node does not stop " + what);
    if (!wrote || m->f.db != "/vfs/n1/db") return;
    plainConf(kind);
    sv.throwIsRefusal = false;
    sv.start();
    if (!sv.waitUp(120 * SEC)) violation("not-restarting", "the node does not start again: " + node(1).deathReason + " " + what);
    if (!writeUntilOk({}, {"SET", "again", "1"}, 90 * SEC)) violation("not-serving", "the restarted node does not accept writes " + what);
    must1("client", {{"GET", "durable"}, {"GET", "whoami"}});
    if (r[0] != rStr(S(plan.seed)) || r[1] != rStr(kind)) violation("lost-write", "acknowledged write is gone after " + end + ": " + r[0].str() + " " + what);
    countProbe("acknowledged write survives " + end);
    if (!sv.stop()) violation("not-stopping", "the node does not stop " + what);
  }
  void run() {
    g_abortIsViolation = true;
    sv.id = 1;
    bool haveTemplates = false;
    int i = 0;
    for (auto& l : plan.lines) {
      if (l.kind != "round" || l.a.size() < 15) continue;
      const Cmd& a = l.a;
      conf[0] = a[7]; conf[1] = a[10];
      pw[0] = {a[8], (int)strtol(a[9].c_str(), nullptr, 8), a[13] == "pw-dir", a[13] == "pw-missing"};
      pw[1] = {a[5] == "chmod" ? a[8] : a[11], (int)strtol(a[12].c_str(), nullptr, 8), false, false};
      if (a[5] == "chmod") { pw[1].dir = pw[0].dir; pw[1].missing = pw[0].missing; }
      special = a[13];
      what = fmt("[round %d, fault %s, swap %s %s]", i++, a[2].c_str(), a[5].c_str(), special.c_str());
      if (a[0] == "1") load(a);
      else { if (!haveTemplates) { templates(); haveTemplates = true; } full(a); }
    }
  }
};
void runConf(const Plan& p) { Cf x(p); x.run(); }
Reg reg("conf", genConf, runConf);
}
