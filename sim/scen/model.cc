#include "model.hh"
#include <cstring>
#include <cstdlib>
#include <climits>
namespace scen {
std::string upper(std::string s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
bool parseI64(const std::string& s, long long& v) {
  char* e = nullptr;
  v = strtoll(s.c_str(), &e, 10);
  return e == s.c_str() + s.size() && v != LLONG_MIN && v != LLONG_MAX;
}
std::string be64(uint64_t v) { std::string s(8, 0); for (int i = 0; i < 8; i++) s[i] = (char)(v >> (56 - 8 * i)); return s; }
static uint64_t rd64(const std::string& s) { uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | (unsigned char)s[i]; return v; }
static bool parseD(const std::string& s, double& v) {
  char* e = nullptr;
  v = strtod(s.c_str(), &e);
  return !(e != s.c_str() + s.size() || v == HUGE_VAL || v == -HUGE_VAL);
}
static bool gm(const char* p, const char* pe, const char* s, const char* se) {
  while (p < pe) {
    if (*p == '*') {
      while (p < pe && *p == '*') p++;
      if (p == pe) return true;
      for (; s <= se; s++) if (gm(p, pe, s, se)) return true;
      return false;
    }
    if (s >= se) return false;
    if (*p == '?') { p++; s++; continue; }
    if (*p == '[') {
      p++;
      bool no = p < pe && *p == '^', hit = false;
      if (no) p++;
      while (p < pe && *p != ']') {
        if (*p == '\\' && p + 1 < pe) { p++; if (*p == *s) hit = true; p++; continue; }
        if (p + 2 < pe && p[1] == '-') { char a = *p, b = p[2]; if (a > b) std::swap(a, b); if (*s >= a && *s <= b) hit = true; p += 3; continue; }
        if (*p == *s) hit = true;
        p++;
      }
      if (p < pe) p++;
      if (hit == no) return false;
      s++;
      continue;
    }
    if (*p == '\\' && p + 1 < pe) p++;
    if (*p != *s) return false;
    p++; s++;
  }
  return s == se;
}
bool globMatch(const std::string& p, const std::string& s) { return gm(p.data(), p.data() + p.size(), s.data(), s.data() + s.size()); }
bool sameReply(const Reply& a, const Reply& b) {
  if (a.t != b.t) return false;
  if (a.t == '-') {
    bool wa = a.s.find("WRONGTYPE") != std::string::npos, wb = b.s.find("WRONGTYPE") != std::string::npos;
    return wa == wb;
  }
  if (a.t == '*' || a.t == '>') {
    if (a.k.size() != b.k.size()) return false;
    for (size_t i = 0; i < a.k.size(); i++) if (!sameReply(a.k[i], b.k[i])) return false;
    return true;
  }
  return a == b;
}
static Reply eWrong() { return rErr("ERR Invalid Argument: WRONGTYPE Operation against a key holding the wrong kind of value"); }
static Reply eArgs(const Cmd& c) { return rErr("ERR wrong number of arguments for '" + c[0] + "' command"); }
static Reply eInt() { return rErr("ERR Invalid Argument: value is not an integer or out of range"); }
static const char* tname(Val::T t) {
  switch (t) {
    case Val::String: return "string"; case Val::Hash: return "hash"; case Val::Set: return "set"; case Val::Deque: return "deque";
    case Val::LHash: return "locality hash"; case Val::VHash: return "versioned hash"; case Val::Lease: return "lease"; default: return "none";
  }
}
void Model::advance(uint64_t ts) {
  if (ts <= clock) return;
  clock = ts;
  for (auto it = m.begin(); it != m.end();) {
    if (it->second.t == Val::Lease && it->second.deadline <= clock) it = m.erase(it); else ++it;
  }
}
Reply Model::exec(const Cmd& c) {
  std::string n = upper(c[0]);
  size_t a = c.size();
  auto is = [&](const char* x) { return n == x; };
  // ---- strings and generic
  if (is("FLUSHALL")) { if (a != 1) return eArgs(c); m.clear(); bumped.clear(); return rOk(); }
  if (is("SET")) {
    if (a != 3) return eArgs(c);
    if (wrong(c[1], Val::String)) return eWrong();
    get(c[1], Val::String).s = c[2];
    return rOk();
  }
  if (is("GET")) {
    if (a != 2) return eArgs(c);
    if (wrong(c[1], Val::String)) return eWrong();
    Val* v = find(c[1]);
    return v ? rStr(v->s) : rNil();
  }
  if (is("DEL")) {
    if (a < 2) return eArgs(c);
    long long x = 0;
    for (size_t i = 1; i < a; i++) { x += m.erase(c[i]); bumped.erase(c[i]); }
    return rInt(x);
  }
  if (is("EXISTS")) {
    if (a < 2) return eArgs(c);
    long long x = 0;
    for (size_t i = 1; i < a; i++) x += m.count(c[i]);
    return rInt(x);
  }
  if (is("TYPE")) { if (a != 2) return eArgs(c); Val* v = find(c[1]); return rStatus(v ? tname(v->t) : "none"); }
  if (is("KEYS")) {
    if (a != 2) return eArgs(c);
    Reply r = rArr();
    for (auto& kv : m) if (c[1].empty() || c[1] == "*" || globMatch(c[1], kv.first)) r.k.push_back(rStr(kv.first));
    return r;
  }
  // ---- hashes
  if (is("HSET") || is("HSETNX")) {
    if (a != 4) return eArgs(c);
    if (wrong(c[1], Val::Hash)) return eWrong();
    Val& v = get(c[1], Val::Hash);
    bool created = !v.h.count(c[2]);
    if (created || is("HSET")) v.h[c[2]] = c[3];
    return rInt(created);
  }
  if (is("HMSET")) {
    if (a <= 3 || a % 2) return eArgs(c);
    if (wrong(c[1], Val::Hash)) return eWrong();
    Val& v = get(c[1], Val::Hash);
    for (size_t i = 2; i < a; i += 2) v.h[c[i]] = c[i + 1];
    return rOk();
  }
  if (is("HINCRBY") || is("HINCRBYMULTI")) {
    bool multi = is("HINCRBYMULTI");
    if (multi ? (a < 4 || (a - 1) % 3) : a != 4) return eArgs(c);
    long long sum = 0;
    for (size_t i = 1; i + 2 < a; i += 3) {
      long long by, old = 0;
      if (!parseI64(c[i + 2], by)) { if (!multi) return eInt(); continue; }
      if (wrong(c[i], Val::Hash)) { if (!multi) return eWrong(); continue; }
      Val* v = find(c[i]);
      auto it = v ? v->h.find(c[i + 1]) : std::map<std::string, std::string>::iterator();
      bool ex = v && it != v->h.end();
      if (ex && !parseI64(it->second, old)) { if (!multi) return rErr("ERR Invalid Argument: hash value is not an integer"); continue; }
      old = (long long)((unsigned long long)old + (unsigned long long)by);
      get(c[i], Val::Hash).h[c[i + 1]] = std::to_string(old);
      sum += old;
    }
    return rInt(sum);
  }
  if (is("HINCRBYFLOAT")) {
    if (a != 4) return eArgs(c);
    double by, old = 0;
    if (!parseD(c[3], by)) return rErr("ERR not a float");
    if (wrong(c[1], Val::Hash)) return eWrong();
    Val* v = find(c[1]);
    if (v && v->h.count(c[2]) && !parseD(v->h[c[2]], old)) return rErr("ERR hash value is not a float");
    old += by;
    get(c[1], Val::Hash).h[c[2]] = std::to_string(old);
    return rStr(std::to_string(old));
  }
  if (is("HDEL")) {
    if (a < 3) return eArgs(c);
    if (wrong(c[1], Val::Hash)) return eWrong();
    Val* v = find(c[1]);
    long long x = 0;
    if (v) { for (size_t i = 2; i < a; i++) x += v->h.erase(c[i]); drop(c[1]); }
    return rInt(x);
  }
  if (is("HCLONE")) {
    if (a != 3) return eArgs(c);
    if (wrong(c[2], Val::Hash)) return eWrong();
    if (find(c[2])) return rErr("ERR target key already exists, will not overwrite");
    Val* v = find(c[1]);
    if (!v) return rOk();
    if (v->t != Val::Hash) return eWrong();
    Val copy = *v;
    m[c[2]] = copy;
    return rOk();
  }
  if (is("HGET") || is("HEXISTS")) {
    if (a != 3) return eArgs(c);
    if (wrong(c[1], Val::Hash)) return eWrong();
    Val* v = find(c[1]);
    bool ex = v && v->h.count(c[2]);
    if (is("HEXISTS")) return rInt(ex);
    return ex ? rStr(v->h[c[2]]) : rNil();
  }
  if (is("HKEYS") || is("HVALS") || is("HGETALL") || is("SMEMBERS")) {
    if (a != 2) return eArgs(c);
    Val::T t = is("SMEMBERS") ? Val::Set : Val::Hash;
    if (wrong(c[1], t)) return eWrong();
    Reply r = rArr();
    Val* v = find(c[1]);
    if (v) for (auto& kv : v->h) { if (!is("HVALS")) r.k.push_back(rStr(kv.first)); if (is("HVALS") || is("HGETALL")) r.k.push_back(rStr(kv.second)); }
    return r;
  }
  if (is("HLEN") || is("SCARD") || is("DEQUE_LEN") || is("LHLEN") || is("VHLEN")) {
    if (a != 2) return eArgs(c);
    Val::T t = is("HLEN") ? Val::Hash : is("SCARD") ? Val::Set : is("DEQUE_LEN") ? Val::Deque : is("LHLEN") ? Val::LHash : Val::VHash;
    if (wrong(c[1], t)) return eWrong();
    Val* v = find(c[1]);
    return rInt(v ? v->size() : 0);
  }
  // ---- sets
  if (is("SADD") || is("SREM")) {
    if (a < 3) return eArgs(c);
    if (wrong(c[1], Val::Set)) return eWrong();
    long long x = 0;
    if (is("SADD")) { Val& v = get(c[1], Val::Set); for (size_t i = 2; i < a; i++) x += v.h.emplace(c[i], "").second; }
    else if (Val* v = find(c[1])) { for (size_t i = 2; i < a; i++) x += v->h.erase(c[i]); drop(c[1]); }
    return rInt(x);
  }
  if (is("SMOVE")) {
    if (a != 4) return eArgs(c);
    if (wrong(c[1], Val::Set) || wrong(c[2], Val::Set)) return eWrong();
    Val* v = find(c[1]);
    if (!v || !v->h.count(c[3])) return rInt(0);
    if (c[1] != c[2]) { v->h.erase(c[3]); drop(c[1]); get(c[2], Val::Set).h[c[3]] = ""; }
    return rInt(1);
  }
  if (is("SISMEMBER")) {
    if (a != 3) return eArgs(c);
    if (wrong(c[1], Val::Set)) return eWrong();
    Val* v = find(c[1]);
    return rInt(v && v->h.count(c[2]));
  }
  // ---- deques
  if (is("DEQUE_PUSH_FRONT") || is("DEQUE_PUSH_BACK")) {
    if (a < 3) return eArgs(c);
    if (wrong(c[1], Val::Deque)) return eWrong();
    Val& v = get(c[1], Val::Deque);
    for (size_t i = 2; i < a; i++) { if (is("DEQUE_PUSH_BACK")) v.d.push_back(c[i]); else v.d.push_front(c[i]); }
    return rInt(v.d.size());
  }
  if (is("DEQUE_POP_FRONT") || is("DEQUE_POP_BACK")) {
    if (a != 2) return eArgs(c);
    if (wrong(c[1], Val::Deque)) return eWrong();
    Val* v = find(c[1]);
    if (!v) return rNil();
    Reply r;
    if (is("DEQUE_POP_FRONT")) { r = rStr(v->d.front()); v->d.pop_front(); } else { r = rStr(v->d.back()); v->d.pop_back(); }
    drop(c[1]);
    return r;
  }
  if (is("DEQUE_TRIM_FRONT") || is("DEQUE_CLEAR")) {
    long long keep = 0;
    if (is("DEQUE_CLEAR") ? a != 2 : a != 3) return eArgs(c);
    if (a == 3 && (!parseI64(c[2], keep) || keep < 0)) return eInt();
    if (wrong(c[1], Val::Deque)) return eWrong();
    Val* v = find(c[1]);
    long long x = 0;
    if (v) { while ((long long)v->d.size() > keep) { v->d.pop_front(); x++; } drop(c[1]); }
    return rInt(x);
  }
  // ---- configuration
  if (is("CONFIG_SET")) { if (a != 3) return eArgs(c); conf[c[1]] = c[2]; return rOk(); }
  if (is("CONFIG_GET")) { if (a != 2) return eArgs(c); auto it = conf.find(c[1]); return it == conf.end() ? rNil() : rStr(it->second); }
  if (is("CONFIG_GETALL")) { if (a != 1) return eArgs(c); Reply r = rArr(); for (auto& kv : conf) { r.k.push_back(rStr(kv.first)); r.k.push_back(rStr(kv.second)); } return r; }
  // ---- locality hashes
  auto lset = [&](const std::string& k, const std::string& f, const std::string& hint, const std::string& val) {
    Val& v = get(k, Val::LHash);
    bool created = !v.l.count(f);
    v.l[f] = {hint, val};
    return created;
  };
  auto lget = [&](const std::string& k, const std::string& f) -> Reply {
    if (wrong(k, Val::LHash)) return eWrong();
    Val* v = find(k);
    if (!v || !v->l.count(f)) return rNil();
    return rStr(v->l[f].second);
  };
  auto ldel = [&](const std::string& k, const std::vector<std::string>& fs) -> Reply {
    if (wrong(k, Val::LHash)) return eWrong();
    long long x = 0;
    if (Val* v = find(k)) { for (auto& f : fs) x += v->l.erase(f); drop(k); }
    return rInt(x);
  };
  if (is("LHSET")) { if (a != 5) return eArgs(c); if (wrong(c[1], Val::LHash)) return eWrong(); return rInt(lset(c[1], c[2], c[3], c[4])); }
  if (is("LHMSET")) {
    if (a <= 4 || (a - 2) % 3) return eArgs(c);
    if (wrong(c[1], Val::LHash)) return eWrong();
    for (size_t i = 2; i < a; i += 3) lset(c[1], c[i], c[i + 1], c[i + 2]);
    return rOk();
  }
  if (is("LHDEL")) { if (a < 3) return eArgs(c); return ldel(c[1], std::vector<std::string>(c.begin() + 2, c.end())); }
  if (is("LHLOCDEL")) {
    if (a != 4) return eArgs(c);
    if (wrong(c[1], Val::LHash)) return eWrong();
    Val* v = find(c[1]);
    if (!v || !v->l.count(c[2]) || v->l[c[2]].first != c[3]) return rInt(0);
    return ldel(c[1], {c[2]});
  }
  if (is("LHGET")) { if (a != 3 && a != 4) return eArgs(c); return lget(c[1], c[2]); }
  if (is("LHSET_AND_DEL_FALLBACK")) {
    if (a != 6) return eArgs(c);
    if (wrong(c[1], Val::LHash)) return eWrong();
    Reply r = rInt(lset(c[1], c[2], c[3], c[4]));
    exec({"HDEL", c[5], c[2]});
    return r;
  }
  if (is("LHDEL_WITH_FALLBACK")) {
    if (a != 4) return eArgs(c);
    Reply r = ldel(c[1], {c[2]});
    if (r == rInt(1)) return r;
    return exec({"HDEL", c[3], c[2]});
  }
  if (is("LHGET_WITH_FALLBACK")) {
    if (a != 4 && a != 5) return eArgs(c);
    Reply r = lget(c[1], c[2]);
    if (r.t != 'n') return r;
    return exec({"HGET", c[a - 1], c[2]});
  }
  if (is("CONVERT_HASH_FIELD_TO_LHASH")) {
    if (a != 6) return eArgs(c);
    if (lget(c[3], c[4]).t == '$') return rErr("ERR Destination field already exists!");
    Reply r = exec({"HGET", c[1], c[2]});
    if (r.t == 'n') return rErr("ERR NotFound: ");
    if (r.t != '$') return r;
    if (wrong(c[3], Val::LHash)) return eWrong();
    lset(c[3], c[4], c[5], r.s);
    exec({"HDEL", c[1], c[2]});
    return rOk();
  }
  // ---- versioned hashes
  if (is("VHSET") || is("VHDEL")) {
    bool set = is("VHSET");
    if (set ? a != 4 : a < 3) return eArgs(c);
    if (wrong(c[1], Val::VHash)) return eWrong();
    bool changed = false;
    if (set) { get(c[1], Val::VHash).h[c[2]] = c[3]; changed = true; }
    else if (Val* v = find(c[1])) for (size_t i = 2; i < a; i++) changed |= v->h.erase(c[i]) > 0;
    Val* v = find(c[1]);
    if (!v) return rInt(0);
    if (changed && !bumped.count(c[1])) { v->version++; bumped.insert(c[1]); }
    if (changed) {
      VRevision& rev = revisions[c[1]];
      rev.number = v->version;
      if (set) rev.updates.push_back({c[2], c[3]}); else for (size_t i = 2; i < a; i++) rev.updates.push_back({c[i], ""});
    }
    return rInt(v->version);
  }
  if (is("VHGETALL")) {
    if (a != 2) return eArgs(c);
    if (wrong(c[1], Val::VHash)) return eWrong();
    Val* v = find(c[1]);
    Reply r = rArr({rInt(v ? v->version : 0), rArr()});
    if (v) for (auto& kv : v->h) { r.k[1].k.push_back(rStr(kv.first)); r.k[1].k.push_back(rStr(kv.second)); }
    return r;
  }
  // ---- leases, as found in the log (timestamp attached)
  if (is("TIMESTAMPED_LEASE_ACQUIRE")) {
    if (a != 5) return eArgs(c);
    long long dur;
    if (!parseI64(c[3], dur) || dur < 1) return rErr("ERR value is not an integer or out of range");
    uint64_t ts = rd64(c[4]);
    advance(ts);
    if (wrong(c[1], Val::Lease)) return eWrong();
    Val* v = find(c[1]);
    if (v && v->s != c[2]) return rErr(fmt("ERR lease held by '%s', time remaining %lld ms", v->s.c_str(), (long long)(v->deadline - ts)));
    bool ren = v != nullptr;
    Val& l = get(c[1], Val::Lease);
    l.s = c[2];
    l.grant = clock;
    l.deadline = clock + dur;
    return rStatus(ren ? "RENEWED" : "ACQUIRED");
  }
  if (is("TIMESTAMPED_LEASE_GET")) {
    if (a != 3) return eArgs(c);
    uint64_t ts = rd64(c[2]);
    advance(ts);
    if (wrong(c[1], Val::Lease)) return eWrong();
    Val* v = find(c[1]);
    if (!v) return rNil();
    return rArr({rStatus("HOLDER: " + v->s), rStatus(fmt("REMAINING: %lld ms", (long long)(v->deadline - ts)))});
  }
  if (is("TIMESTAMPED_LEASE_RELEASE")) {
    if (a != 3) return eArgs(c);
    advance(rd64(c[2]));
    if (wrong(c[1], Val::Lease)) return eWrong();
    return m.erase(c[1]) ? rOk() : rNil();
  }
  // scans: only the single page form (cursor 0, COUNT larger than the contents)
  if (is("DEQUE_SCAN_BACK") || is("LHSCAN") || is("HSCAN") || is("SSCAN")) {
    if (a < 3) return eArgs(c);
    Val::T t = is("DEQUE_SCAN_BACK") ? Val::Deque : is("LHSCAN") ? Val::LHash : is("HSCAN") ? Val::Hash : Val::Set;
    if (wrong(c[1], t)) return eWrong();
    Reply items = rArr();
    if (Val* v = find(c[1])) {
      if (t == Val::Deque) for (auto& e : v->d) items.k.push_back(rStr(e));
      else if (t == Val::LHash) {
        // listed in the order of the stored (escaped) form of the locality hint
        auto esc = [](const std::string& h) { std::string o; for (char c : h) { if (c == '#') o += '|'; o += c; } return o + "##"; };
        std::map<std::pair<std::string, std::string>, std::pair<std::string, std::string>> s;
        for (auto& e : v->l) s[{esc(e.second.first), e.first}] = {e.second.first, e.second.second};
        for (auto& e : s) { items.k.push_back(rStr(e.second.first)); items.k.push_back(rStr(e.first.second)); items.k.push_back(rStr(e.second.second)); }
      } else for (auto& e : v->h) { items.k.push_back(rStr(e.first)); if (t == Val::Hash) items.k.push_back(rStr(e.second)); }
    }
    return rArr({rStr("0"), items});
  }
  if (is("PING")) return a > 2 ? eArgs(c) : a == 1 ? rStatus("PONG") : rStr(c[1]);
  return rErr("ERR unknown command");
}
std::string Model::hashKey() const {
  std::string s;
  auto put = [&](const std::string& x) { s += std::to_string(x.size()); s += ':'; s += x; };
  for (auto& kv : m) {
    const Val& v = kv.second;
    put(kv.first); s += (char)('a' + v.t); put(v.s);
    for (auto& e : v.h) { put(e.first); put(e.second); }
    s += '|';
    for (auto& e : v.d) put(e);
    s += '|';
    for (auto& e : v.l) { put(e.first); put(e.second.first); put(e.second.second); }
    s += fmt("|%llu,%llu,%llu;", (unsigned long long)v.version, (unsigned long long)v.grant, (unsigned long long)v.deadline);
  }
  s += '#';
  for (auto& kv : conf) { put(kv.first); put(kv.second); }
  return s + std::to_string(clock);
}
size_t Model::rawKeys() const {
  size_t n = conf.size();
  for (auto& kv : m) {
    const Val& v = kv.second;
    n += 1;
    switch (v.t) {
      case Val::String: n += 1; break;
      case Val::Lease: n += 2; break;
      case Val::LHash: n += 2 * v.l.size(); break;
      default: n += v.size();
    }
  }
  return n;
}
std::vector<std::pair<Cmd, Reply>> Model::dump(bool leases) {
  std::vector<Cmd> q;
  q.push_back({"CONFIG_GETALL"});
  for (auto& kv : m) {
    const std::string& k = kv.first;
    if (kv.second.t == Val::Lease && !leases) continue;
    q.push_back({"TYPE", k});
    switch (kv.second.t) {
      case Val::String: q.push_back({"GET", k}); break;
      case Val::Hash: q.push_back({"HGETALL", k}); q.push_back({"HLEN", k}); break;
      case Val::Set: q.push_back({"SMEMBERS", k}); q.push_back({"SCARD", k}); break;
      case Val::Deque: q.push_back({"DEQUE_LEN", k}); q.push_back({"DEQUE_SCAN_BACK", k, "0", "COUNT", "100000"}); break;
      case Val::LHash: q.push_back({"LHLEN", k}); q.push_back({"LHSCAN", k, "0", "COUNT", "100000"}); for (auto& f : kv.second.l) { q.push_back({"LHGET", k, f.first}); q.push_back({"LHGET", k, f.first, f.second.first}); } break;
      case Val::VHash: q.push_back({"VHGETALL", k}); q.push_back({"VHLEN", k}); break;
      default: break;
    }
  }
  std::vector<std::pair<Cmd, Reply>> out;
  for (auto& c : q) { Reply r = exec(c); out.push_back({c, r}); }
  if (leases) out.push_back({{"KEYS", "*"}, exec({"KEYS", "*"})});
  return out;
}
bool isWrite(const Cmd& c) {
  static const std::set<std::string> w = {"FLUSHALL", "SET", "DEL", "HSET", "HSETNX", "HMSET", "HINCRBY", "HINCRBYMULTI", "HINCRBYFLOAT", "HDEL", "HCLONE", "SADD", "SREM", "SMOVE",
    "DEQUE_PUSH_FRONT", "DEQUE_PUSH_BACK", "DEQUE_POP_FRONT", "DEQUE_POP_BACK", "DEQUE_TRIM_FRONT", "DEQUE_CLEAR", "CONFIG_SET", "LHSET", "LHDEL", "LHLOCDEL", "LHMSET",
    "LHSET_AND_DEL_FALLBACK", "LHDEL_WITH_FALLBACK", "CONVERT_HASH_FIELD_TO_LHASH", "VHSET", "VHDEL", "LEASE_ACQUIRE", "LEASE_GET", "LEASE_RELEASE", "TIMESTAMPED_LEASE_ACQUIRE",
    "TIMESTAMPED_LEASE_GET", "TIMESTAMPED_LEASE_RELEASE"};
  return w.count(upper(c[0])) > 0;
}
std::string keyOf(const Cmd& c) {
  static const std::set<std::string> multi = {"FLUSHALL", "DEL", "EXISTS", "KEYS", "HINCRBYMULTI", "HCLONE", "SMOVE", "LHSET_AND_DEL_FALLBACK", "LHDEL_WITH_FALLBACK", "LHGET_WITH_FALLBACK",
    "CONVERT_HASH_FIELD_TO_LHASH", "SCAN", "CONFIG_GETALL"};
  std::string n = upper(c[0]);
  if (c.size() < 2) return "";
  if (n.compare(0, 7, "CONFIG_") == 0) return c.size() > 1 && n != "CONFIG_GETALL" ? "!conf:" + c[1] : "";
  if (multi.count(n)) return (n == "DEL" || n == "EXISTS") && c.size() == 2 ? c[1] : "";
  return c[1];
}
Cmd genCmd(Rng& r, const GenOpts& o, uint64_t& counter) {
  static const std::vector<std::string> nastyF = {"#", "##", "|", "|#", "a#b", std::string("\0x", 2), std::string("\xff\xff", 2), "f1", "f1#", "f", "next:", std::string(3, '\0'), "a##", "#|#"};
  int nt = 6;
  auto typeOf = [&](int i) { return o.types.empty() ? i % nt : o.types[i % o.types.size()]; };
  bool nasty = o.nasty && r.chance(0.15);
  auto keyN = [&](int want) -> std::string {
    // keys have a home type; sometimes another one is used
    for (int tries = 0; tries < 40; tries++) {
      int i = r.below(o.keys);
      if (typeOf(i) == want || (o.mixTypes && r.chance(0.03))) return (o.nasty && i >= 6 ? nastyF[i % nastyF.size()] : "") + o.prefix + std::to_string(i);
    }
    return o.prefix + std::to_string(r.below(o.keys));
  };
  auto field = [&]() -> std::string { return nasty && r.chance(0.5) ? r.pick(nastyF) : "f" + std::to_string(r.below(o.fields)); };
  auto hint = [&]() -> std::string { return nasty && r.chance(0.5) ? r.pick(nastyF) + "h" : "h" + std::to_string(r.below(3)); };
  auto val = [&]() -> std::string {
    counter++;
    if (nasty && r.chance(0.2)) return r.chance(0.5) ? std::string("\r\n$3\r\n\0", 9) : std::string(r.range(100, 3000), 'x');
    return o.uniq + std::to_string(counter);
  };
  auto num = [&]() -> std::string {
    if (o.badArgs && r.chance(0.05)) return std::vector<std::string>{"abc", "+3", "9223372036854775807", "1.5", " 7", "-"}[r.below(6)];
    return std::to_string(r.range(-5, 20));
  };
  Cmd c;
  bool write = o.writes && (!o.reads || r.chance(0.6));
  int t = o.types.empty() ? (int)r.below(nt) : o.types[r.below(o.types.size())];
  if (o.config && r.chance(0.03)) {
    if (write) c = {"CONFIG_SET", "cfg" + std::to_string(r.below(3)), val()};
    else c = r.chance(0.5) ? Cmd{"CONFIG_GETALL"} : Cmd{"CONFIG_GET", "cfg" + std::to_string(r.below(3))};
    return c;
  }
  if (write && o.flush && r.chance(0.004)) return {"FLUSHALL"};
  if (r.chance(write ? 0.04 : 0.12)) {
    int tt = typeOf(r.below(o.keys));
    if (write) { c = {"DEL", keyN(tt)}; if (o.multiKey && r.chance(0.4)) c.push_back(keyN(typeOf(r.below(o.keys)))); return c; }
    if (r.chance(0.4)) { c = {"EXISTS", keyN(tt)}; if (o.multiKey && r.chance(0.4)) c.push_back(keyN(typeOf(r.below(o.keys)))); return c; }
    if (o.multiKey && r.chance(0.3)) return {"KEYS", std::vector<std::string>{"*", "k*", o.prefix + "[0-3]", "?1", "**", o.prefix + "2"}[r.below(6)]};
    return {"TYPE", keyN(tt)};
  }
  std::string k = keyN(t);
  switch (t) {
    case 0:
      if (write) c = {"SET", k, val()}; else c = {"GET", k};
      break;
    case 1:
      if (write) switch (r.below(10)) {
        case 0: case 1: c = {"HSET", k, field(), r.chance(0.3) ? std::to_string(r.below(100)) : val()}; break;
        case 2: c = {"HSETNX", k, field(), val()}; break;
        case 3: { c = {"HMSET", k}; for (int i = r.range(1, 4); i > 0; i--) { c.push_back(field()); c.push_back(val()); } break; }
        case 4: c = {"HINCRBY", k, "n" + std::to_string(r.below(2)), num()}; break;
        case 5: if (o.multiKey) { c = {"HINCRBYMULTI", k, "n0", num()}; if (r.chance(0.6)) { c.push_back(keyN(1)); c.push_back("n1"); c.push_back(num()); } } else c = {"HINCRBY", k, "n1", num()}; break;
        case 6: c = {"HINCRBYFLOAT", k, "x0", r.chance(0.1) && o.badArgs ? "zz" : fmt("%d.%d", (int)r.range(-3, 3), (int)r.below(100))}; break;
        case 7: case 8: { c = {"HDEL", k}; for (int i = r.range(1, 3); i > 0; i--) c.push_back(field()); break; }
        case 9: if (o.multiKey) c = {"HCLONE", k, keyN(1)}; else c = {"HDEL", k, field()}; break;
      } else switch (r.below(6)) {
        case 0: c = {"HGET", k, r.chance(0.3) ? "n0" : field()}; break;
        case 1: c = {"HEXISTS", k, field()}; break;
        case 2: c = {"HKEYS", k}; break;
        case 3: c = {"HGETALL", k}; break;
        case 4: c = {"HLEN", k}; break;
        case 5: c = {"HVALS", k}; break;
      }
      break;
    case 2:
      if (write) switch (r.below(5)) {
        case 0: case 1: { c = {"SADD", k}; for (int i = r.range(1, 4); i > 0; i--) c.push_back(field()); break; }
        case 2: case 3: { c = {"SREM", k}; for (int i = r.range(1, 3); i > 0; i--) c.push_back(field()); break; }
        case 4: if (o.multiKey) c = {"SMOVE", k, keyN(2), field()}; else c = {"SADD", k, field()}; break;
      } else switch (r.below(3)) {
        case 0: c = {"SISMEMBER", k, field()}; break;
        case 1: c = {"SMEMBERS", k}; break;
        case 2: c = {"SCARD", k}; break;
      }
      break;
    case 3:
      if (write) switch (r.below(8)) {
        case 0: case 1: case 2: { c = {r.chance(0.5) ? "DEQUE_PUSH_BACK" : "DEQUE_PUSH_FRONT", k}; for (int i = r.range(1, 4); i > 0; i--) c.push_back(val()); break; }
        case 3: case 4: c = {"DEQUE_POP_FRONT", k}; break;
        case 5: c = {"DEQUE_POP_BACK", k}; break;
        case 6: c = {"DEQUE_TRIM_FRONT", k, num()}; break;
        case 7: if (r.chance(0.3)) c = {"DEQUE_CLEAR", k}; else c = {"DEQUE_TRIM_FRONT", k, std::to_string(r.below(6))}; break;
      } else c = {"DEQUE_LEN", k};
      break;
    case 4:
      if (write) switch (r.below(9)) {
        case 0: case 1: case 2: c = {"LHSET", k, field(), hint(), val()}; break;
        case 3: { c = {"LHMSET", k}; for (int i = r.range(1, 3); i > 0; i--) { c.push_back(field()); c.push_back(hint()); c.push_back(val()); } break; }
        case 4: { c = {"LHDEL", k}; for (int i = r.range(1, 3); i > 0; i--) c.push_back(field()); break; }
        case 5: c = {"LHLOCDEL", k, field(), hint()}; break;
        case 6: if (o.multiKey) c = {"LHSET_AND_DEL_FALLBACK", k, field(), hint(), val(), keyN(1)}; else c = {"LHDEL", k, field()}; break;
        case 7: if (o.multiKey) c = {"LHDEL_WITH_FALLBACK", k, field(), keyN(1)}; else c = {"LHSET", k, field(), hint(), val()}; break;
        case 8: if (o.multiKey) c = {"CONVERT_HASH_FIELD_TO_LHASH", keyN(1), field(), k, field(), hint()}; else c = {"LHDEL", k, field()}; break;
      } else switch (r.below(4)) {
        case 0: c = {"LHGET", k, field()}; break;
        case 1: c = {"LHGET", k, field(), hint()}; break;
        case 2: c = {"LHLEN", k}; break;
        case 3: if (o.multiKey) { c = {"LHGET_WITH_FALLBACK", k, field()}; if (r.chance(0.5)) c.push_back(hint()); c.push_back(keyN(1)); } else c = {"LHGET", k, field()}; break;
      }
      break;
    default:
      if (write) { if (r.chance(0.7)) c = {"VHSET", k, field(), val()}; else { c = {"VHDEL", k}; for (int i = r.range(1, 2); i > 0; i--) c.push_back(field()); } }
      else c = r.chance(0.7) ? Cmd{"VHGETALL", k} : Cmd{"VHLEN", k};
  }
  if (o.badArgs && r.chance(0.02) && c.size() > 1) { int y = (int)r.below(10); if (y == 0) c.resize(1 + r.below(c.size())); else if (y < 5) c.pop_back(); else c.push_back("extra"); }
  return c;
}
}  // namespace scen
