// Sequential reference model of the data commands (written from the command documentation, not from the storage layout).
#pragma once
#include "scen.hh"
#include <deque>
namespace scen {
struct Val {
  enum T { None, String, Hash, Set, Deque, LHash, VHash, Lease } t = None;
  std::string s;                                                   // string, lease holder
  std::map<std::string, std::string> h;                            // hash, vhash, set (value unused)
  std::deque<std::string> d;
  std::map<std::string, std::pair<std::string, std::string>> l;    // field -> (hint, value)
  uint64_t version = 0, grant = 0, deadline = 0;
  size_t size() const { return t == String ? 1 : t == Deque ? d.size() : t == LHash ? l.size() : h.size(); }
  bool operator==(const Val& o) const { return t == o.t && s == o.s && h == o.h && d == o.d && l == o.l && version == o.version && grant == o.grant && deadline == o.deadline; }
};
struct VRevision { uint64_t number = 0; std::vector<std::pair<std::string, std::string>> updates; };
struct Model {
  std::map<std::string, Val> m;
  std::map<std::string, std::string> conf;
  uint64_t clock = 0;
  // one batch: all commands of a transaction
  std::set<std::string> bumped;
  std::map<std::string, VRevision> revisions;    // of the current batch
  void beginBatch() { bumped.clear(); revisions.clear(); }
  Reply exec(const Cmd& c);                      // inside the current batch
  Reply single(const Cmd& c) { beginBatch(); return exec(c); }
  std::vector<Reply> tx(const std::vector<Cmd>& v) { beginBatch(); std::vector<Reply> r; for (auto& c : v) r.push_back(exec(c)); return r; }
  bool operator==(const Model& o) const { return m == o.m && conf == o.conf && clock == o.clock; }
  std::string hashKey() const;
  size_t rawKeys() const;                        // how many stored keys the contents correspond to
  // commands whose replies together describe the whole content
  std::vector<std::pair<Cmd, Reply>> dump(bool leases = true);
 private:
  Val* find(const std::string& k) { auto it = m.find(k); return it == m.end() ? nullptr : &it->second; }
  Val& get(const std::string& k, Val::T t) { Val& v = m[k]; v.t = t; return v; }
  bool wrong(const std::string& k, Val::T t) { Val* v = find(k); return v && v->t != t; }
  void drop(const std::string& k) { Val* v = find(k); if (v && v->t != Val::VHash && v->size() == 0) m.erase(k); }
  void advance(uint64_t ts);
};
bool globMatch(const std::string& p, const std::string& s);
// errors match by kind, everything else exactly
bool sameReply(const Reply& a, const Reply& b);
bool isWrite(const Cmd& c);
bool parseI64(const std::string& s, long long& v);
std::string be64(uint64_t v);
std::string upper(std::string s);
std::string keyOf(const Cmd& c);                 // the only key touched, or "" when several
// random commands
struct GenOpts {
  int keys = 6, fields = 5;
  bool mixTypes = true, multiKey = true, badArgs = true, scans = true, config = true, flush = true, nasty = true, reads = true, writes = true;
  std::string uniq;                              // prefix making written values unique
  std::string prefix = "k";
  std::vector<int> types;                        // subset of value types (empty: all)
};
Cmd genCmd(Rng& r, const GenOpts& o, uint64_t& counter);
}  // namespace scen
