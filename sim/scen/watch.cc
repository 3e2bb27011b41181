#include "watch.hh"
#include "qclient/QClient.hh"
#include <cstring>
using namespace sim;
namespace scen {
std::vector<std::string> splitStr(const std::string& s, const std::string& sep) {
  std::vector<std::string> v; size_t a = 0;
  for (;;) { size_t b = s.find(sep, a); if (b == std::string::npos) { v.push_back(s.substr(a)); return v; } v.push_back(s.substr(a, b - a)); a = b + sep.size(); }
}
static int64_t le64(const char* p) { int64_t v; memcpy(&v, p, 8); return v; }
static int64_t be(const std::string& s, size_t off = 0) { int64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | (unsigned char)s[off + i]; return v; }
static std::string be8(int64_t v) { std::string s(8, 0); for (int i = 0; i < 8; i++) s[i] = (char)((uint64_t)v >> (56 - 8 * i)); return s; }
bool parseEntry(const std::string& raw, LogEntry& e) {
  e.req.clear();
  if (raw.size() < 8) return false;
  e.term = le64(raw.data());
  size_t p = 8;
  while (p < raw.size()) {
    if (p + 8 > raw.size()) return false;
    int64_t l = le64(raw.data() + p);
    p += 8;
    if (l < 0 || p + l > raw.size()) return false;
    e.req.push_back(raw.substr(p, l));
    p += l;
  }
  return !e.req.empty();
}
bool parseTx(const LogEntry& e, std::vector<Cmd>& out, bool& phantom) {
  out.clear();
  phantom = true;
  if (e.req[0] != "TX_READWRITE" && e.req[0] != "TX_READONLY") { out.push_back(e.req); return true; }
  if (e.req.size() != 3) return false;
  phantom = e.req[2] == "phantom";
  if (!phantom && e.req[2] != "real") return false;
  const std::string& s = e.req[1];
  size_t p = 0;
  auto num = [&](int64_t& v) { if (p + 8 > s.size()) return false; v = be(s, p); p += 8; return v >= 0; };
  int64_t cnt;
  if (!num(cnt)) return false;
  for (int64_t i = 0; i < cnt; i++) {
    int64_t parts;
    if (!num(parts)) return false;
    Cmd c;
    for (int64_t j = 0; j < parts; j++) { int64_t l; if (!num(l) || p + l > s.size()) return false; c.push_back(s.substr(p, l)); p += l; }
    out.push_back(c);
  }
  return p == s.size();
}
static uint64_t kvHash(const std::string& k, const std::string& v) { return strHash(std::to_string(k.size()) + ":" + k + v); }
void Watch::install() {
  rocksdb::simHooks.onWrite = [this](int nd, const std::string& p, const std::vector<rocksdb::BatchOp>& ops) { write(nd, p, ops); };
  rocksdb::simHooks.onOpen = [this](int nd, const std::string& p, const std::map<std::string, std::string>& m) { opened(nd, p, m); };
  qclient::simTap = [this](int from, const std::string& host, const Cmd& req, const qclient::redisReplyPtr& r) { NoPreempt np; message(from, host, req, r.get()); };
  onNodeDown([this](int nd, bool power) { if (power) powerLost(nd); });
}
static bool limbo(const std::string& raw) { return raw.find("#!^NULL-HOSTNAME^!#") != std::string::npos; }
static int part(int nd, const std::string& p) {
  std::string base = fmt("/vfs/n%d/db/current/", nd);
  if (p.compare(0, base.size(), base)) return 0;
  std::string r = p.substr(base.size());
  return r == "raft-journal" ? 1 : r == "state-machine" ? 2 : 0;
}
void Watch::write(int nd, const std::string& p, const std::vector<rocksdb::BatchOp>& ops) {
  int k = part(nd, p);
  if (k == 1) journal(nd, n[nd], ops, false);
  else if (k == 2) stateMachine(nd, n[nd], ops, false);
}
void Watch::opened(int nd, const std::string& p, const std::map<std::string, std::string>& m) {
  int k = part(nd, p);
  if (!k) return;
  std::vector<rocksdb::BatchOp> ops;
  for (auto& kv : m) { rocksdb::BatchOp o; o.type = rocksdb::kTypeValue; o.key = kv.first; o.value = kv.second; ops.push_back(o); }
  NodeView& v = n[nd];
  if (k == 1) { v.log.clear(); v.meta.clear(); v.memberIdx.clear(); v.term = v.size = v.start = v.commit = 0; v.open = false; journal(nd, v, ops, true); }
  else { v.sm.clear(); v.smHash = 0; v.applied = 0; v.clock = 0; v.smOpen = false; stateMachine(nd, v, ops, true); }
}
void Watch::setLeader(int64_t term, const std::string& s, const char* how) {
  auto it = leaders.find(term);
  if (it == leaders.end()) { leaders[term] = {s, now(), false}; return; }
  if (it->second.server != s) violation("two-leaders", fmt("term %lld has two leaders: %s and %s (%s)", (long long)term, it->second.server.c_str(), s.c_str(), how));
}
void Watch::newCommit(int nd, NodeView& v, int64_t from, int64_t to, bool check) {
  for (int64_t i = std::max(from, v.start); i <= to; i++) {
    auto it = v.log.find(i);
    if (it == v.log.end()) violation("commit-missing", fmt("node %d marks entry %lld as committed but does not hold it (log %lld..%lld)", nd, (long long)i, (long long)v.start, (long long)v.size));
    if (i == 0 && limbo(it->second)) continue;
    auto c = committed.find(i);
    if (c != committed.end()) {
      if (c->second.raw != it->second) {
        LogEntry a, b; parseEntry(c->second.raw, a); parseEntry(it->second, b);
        violation("commit-conflict", fmt("entry %lld: node %d committed term %lld %s, but node %d had committed term %lld %s", (long long)i, nd, (long long)b.term, show(b.req).c_str(), c->second.node, (long long)a.term, show(a.req).c_str()));
      }
      continue;
    }
    committed[i] = {it->second, nd, now()};
    LogEntry e;
    if (!parseEntry(it->second, e)) violation("bad-entry", fmt("entry %lld on node %d is not parseable", (long long)i, nd));
    firstAppend[i] = seen.count({i, e.term}) ? seen[{i, e.term}].second : 0;
    if (!check || lossy) continue;
    // held by a majority of the full members?
    auto mem = splitStr(v.meta["RAFT_MEMBERS"], "|");
    auto nodes = splitStr(mem[0], ",");
    auto holders = [&](const std::vector<std::string>& nodes) {
      size_t have = 0;
      for (auto& s : nodes) {
        int x = atoi(s.c_str() + 1);
        auto nv = n.find(x);
        if (nv == n.end()) continue;
        auto h = nv->second.log.find(i);
        if (nv->second.start > i || (h != nv->second.log.end() && h->second == it->second)) have++;
      }
      return have;
    };
    size_t have = holders(nodes);
    if (have * 2 <= nodes.size()) {
      // up to the entry which changes the membership the previous one may still be in force at this moment
      if (i <= be(v.meta["RAFT_MEMBERSHIP_EPOCH"]) && !v.prevMembers.empty()) {
        auto old = splitStr(splitStr(v.prevMembers, "|")[0], ",");
        if (holders(old) * 2 > old.size()) { countProbe("membership entry committed by the previous quorum"); continue; }
      }
    }
    if (have * 2 <= nodes.size()) violation("commit-without-quorum", fmt("entry %lld was marked committed by node %d while only %zu of the full members %s hold it", (long long)i, nd, have, mem[0].c_str()));
  }
}
void Watch::journal(int nd, NodeView& v, const std::vector<rocksdb::BatchOp>& ops, bool init) {
  int64_t oldCommit = v.commit, oldSize = v.size, oldStart = v.start, oldTerm = v.term;
  std::string oldVote = v.meta["RAFT_VOTED_FOR"], oldMembers = v.meta["RAFT_MEMBERS"];
  int64_t oldEpoch = v.meta.count("RAFT_MEMBERSHIP_EPOCH") ? be(v.meta["RAFT_MEMBERSHIP_EPOCH"]) : -1;
  bool wasOpen = v.open;
  bool resetAll = false;
  std::vector<std::pair<int64_t, std::string>> put;
  std::vector<int64_t> del;
  for (auto& o : ops) {
    if (o.key.size() == 9 && o.key[0] == 'E') {
      int64_t i = be(o.key, 1);
      if (o.type == rocksdb::kTypeValue) put.push_back({i, o.value});
      else del.push_back(i);
    } else if (o.key.compare(0, 5, "RAFT_") == 0) {
      if (o.type == rocksdb::kTypeValue) v.meta[o.key] = o.value; else { v.meta.erase(o.key); resetAll = true; }
    }
  }
  auto num = [&](const char* k, int64_t d) { auto it = v.meta.find(k); return it == v.meta.end() || it->second.size() != 8 ? d : be(it->second); };
  v.term = num("RAFT_CURRENT_TERM", 0);
  v.size = num("RAFT_LOG_SIZE", 0);
  v.start = num("RAFT_LOG_START", 0);
  v.commit = num("RAFT_COMMIT_INDEX", 0);
  std::string myself = fmt("n%d", nd) + port;
  // while the journal is being created keys appear one by one
  bool complete = v.meta.count("RAFT_CURRENT_TERM") && v.meta.count("RAFT_LOG_SIZE") && v.meta.count("RAFT_LOG_START") && v.meta.count("RAFT_COMMIT_INDEX") && v.meta.count("RAFT_MEMBERS") && v.meta.count("RAFT_FSYNC_POLICY") && v.meta.count("RAFT_MEMBERSHIP_EPOCH");
  (void)resetAll;
  for (int64_t i : del) {
    if (wasOpen && i <= oldCommit && i >= v.start) violation("committed-removed", fmt("node %d removes entry %lld although it is committed (commit index %lld, log start %lld)", nd, (long long)i, (long long)oldCommit, (long long)v.start));
    if (wasOpen && i >= v.start) {
      auto l = leaders.find(v.term);
      if (l != leaders.end() && l->second.elected && l->second.server == myself) violation("leader-removes-entries", fmt("node %d removes entry %lld from its log although it is the leader elected for its current term %lld", nd, (long long)i, (long long)v.term));
    }
    v.log.erase(i);
    v.memberIdx.erase(i);
  }
  for (auto& pr : put) {
    int64_t i = pr.first;
    LogEntry e;
    if (!parseEntry(pr.second, e)) violation("bad-entry", fmt("node %d stores an unparseable entry at %lld", nd, (long long)i));
    if (wasOpen && !init) {
      auto it = v.log.find(i);
      if (i <= oldCommit && it != v.log.end() && it->second != pr.second) violation("committed-overwritten", fmt("node %d overwrites committed entry %lld", nd, (long long)i));
      if (e.term > v.term) violation("entry-term-ahead", fmt("node %d in term %lld stores entry %lld of term %lld", nd, (long long)v.term, (long long)i, (long long)e.term));
    }
    auto pit = v.log.find(i - 1);
    if (pit != v.log.end() && i - 1 >= v.start) {
      LogEntry pe; parseEntry(pit->second, pe);
      if (pe.term > e.term) violation("term-decreases", fmt("node %d: entry %lld has term %lld after term %lld", nd, (long long)i, (long long)e.term, (long long)pe.term));
    }
    v.log[i] = pr.second;
    if (i == 0 && limbo(pr.second)) { if (e.req[0] == "JOURNAL_UPDATE_MEMBERS" && e.req.size() == 3) v.memberIdx.insert(i); continue; }
    auto key = std::make_pair(i, e.term);
    auto s = seen.find(key);
    if (s == seen.end()) {
      seen[key] = {pr.second, now()};
      if (!init && wasOpen && e.req[0] == "JOURNAL_UPDATE_MEMBERS" && e.req.size() == 3) {
        // a new membership, created by a leader
        membershipChanges++;
        v.prevMembers = oldMembers;
        if (oldEpoch > oldCommit) violation("membership-overlap", fmt("node %d starts membership epoch %lld while epoch %lld is not committed (commit index %lld)", nd, (long long)i, (long long)oldEpoch, (long long)oldCommit));
        auto a = splitStr(splitStr(oldMembers, "|")[0], ","), b = splitStr(splitStr(e.req[1], "|")[0], ",");
        std::set<std::string> x(a.begin(), a.end()), y(b.begin(), b.end());
        int diff = 0;
        for (auto& q : x) diff += !y.count(q);
        for (auto& q : y) diff += !x.count(q);
        if (diff > 1) violation("membership-jump", fmt("membership changes by more than one full member at once: %s -> %s", oldMembers.c_str(), e.req[1].c_str()));
      }
    } else if (s->second.first != pr.second) {
      LogEntry o; parseEntry(s->second.first, o);
      violation("log-mismatch", fmt("two logs hold different entries at index %lld, term %lld: %s and (node %d) %s", (long long)i, (long long)e.term, show(o.req).c_str(), nd, show(e.req).c_str()));
    }
    if (e.req[0] == "JOURNAL_LEADERSHIP_MARKER" && e.req.size() == 3) {
      if (e.req[1] != std::to_string(e.term)) violation("bad-marker", show(e.req));
      setLeader(e.term, e.req[2], "leadership marker");
      if (!leaders[e.term].elected && e.req[2] == myself) {
        leaders[e.term].elected = true;
        leaders[e.term].at = now();
        if (!init) {
          countProbe("leader elected");
          auto full = splitStr(splitStr(v.meta["RAFT_MEMBERS"], "|")[0], ",");
          if (std::find(full.begin(), full.end(), myself) == full.end()) violation("non-member-leads", fmt("%s becomes leader of term %lld although its membership %s does not have it as full member", myself.c_str(), (long long)e.term, v.meta["RAFT_MEMBERS"].c_str()));
          size_t granted = 0;
          for (auto& f : full) {
            if (f == myself) { granted++; continue; }
            auto g = votes.find({splitStr(f, ":")[0], e.term});
            if (g != votes.end() && g->second == myself) granted++;
          }
          if (granted * 2 <= full.size()) violation("elected-without-quorum", fmt("%s becomes leader of term %lld with the votes of %zu of the full members %s", myself.c_str(), (long long)e.term, granted, v.meta["RAFT_MEMBERS"].c_str()));
        }
      }
    }
    if (e.req[0] == "JOURNAL_UPDATE_MEMBERS" && e.req.size() == 3 && e.req[2] == v.meta["RAFT_CLUSTER_ID"]) v.memberIdx.insert(i);
  }
  if (!complete || (!wasOpen && !init && v.log.empty())) return;
  if (v.start > oldStart && wasOpen) trims++;
  for (auto it = v.log.begin(); it != v.log.end() && it->first < v.start;) { v.memberIdx.erase(it->first); it = v.log.erase(it); }
  v.open = true;
  // contiguity
  if ((int64_t)v.log.size() != v.size - v.start || (v.size > v.start && (!v.log.count(v.start) || !v.log.count(v.size - 1))))
    violation("log-gap", fmt("node %d: log should hold %lld..%lld, it holds %zu entries (%lld..%lld)", nd, (long long)v.start, (long long)v.size - 1, v.log.size(), v.log.empty() ? -1 : (long long)v.log.begin()->first, v.log.empty() ? -1 : (long long)v.log.rbegin()->first));
  if (v.size <= v.start) violation("log-gap", fmt("node %d: log is empty (start %lld, size %lld)", nd, (long long)v.start, (long long)v.size));
  if (v.commit >= v.size || (v.commit < v.start)) violation("commit-range", fmt("node %d: commit index %lld outside of the log %lld..%lld", nd, (long long)v.commit, (long long)v.start, (long long)v.size - 1));
  { LogEntry e; parseEntry(v.log[v.size - 1], e); if (e.term > v.term) violation("entry-term-ahead", fmt("node %d in term %lld holds an entry of term %lld", nd, (long long)v.term, (long long)e.term)); }
  // membership must be the one of the latest membership entry in the log
  if (!v.memberIdx.empty()) {
    int64_t i = *v.memberIdx.rbegin();
    LogEntry e; parseEntry(v.log[i], e);
    int64_t ep = be(v.meta["RAFT_MEMBERSHIP_EPOCH"]);
    if (ep != i || v.meta["RAFT_MEMBERS"] != e.req[1])
      violation("membership-mismatch", fmt("node %d uses membership %s of epoch %lld, its log says %s at %lld", nd, v.meta["RAFT_MEMBERS"].c_str(), (long long)ep, e.req[1].c_str(), (long long)i));
  } else if (be(v.meta["RAFT_MEMBERSHIP_EPOCH"]) >= v.start) violation("membership-mismatch", fmt("node %d: membership epoch %lld has no entry in the log", nd, (long long)be(v.meta["RAFT_MEMBERSHIP_EPOCH"])));
  // terms and votes
  if (wasOpen || (init && syncedTerms)) {
    if (wasOpen && v.term < oldTerm) violation("term-backwards", fmt("node %d goes from term %lld to %lld", nd, (long long)oldTerm, (long long)v.term));
    if (wasOpen && v.term == oldTerm && !oldVote.empty() && v.meta["RAFT_VOTED_FOR"] != oldVote) violation("vote-changed", fmt("node %d changes its vote in term %lld from %s to %s", nd, (long long)v.term, oldVote.c_str(), v.meta["RAFT_VOTED_FOR"].c_str()));
  }
  if (syncedTerms) {
    auto& ov = ownVotes[nd];
    if (!ov.empty() && ov.rbegin()->first > v.term) violation("term-backwards", fmt("node %d reached term %lld before and is now in term %lld", nd, (long long)ov.rbegin()->first, (long long)v.term));
    std::string vote = v.meta["RAFT_VOTED_FOR"];
    auto it = ov.find(v.term);
    if (it != ov.end() && !it->second.empty() && it->second != vote && !(leaders.count(v.term) && leaders[v.term].server == vote)) violation("vote-changed", fmt("node %d voted for %s in term %lld before, and now has vote '%s'", nd, it->second.c_str(), (long long)v.term, vote.c_str()));
    ov[v.term] = vote;
  }
  // commit
  if (v.commit < v.maxCommit) violation("commit-backwards", fmt("node %d: commit index goes from %lld to %lld", nd, (long long)v.maxCommit, (long long)v.commit));
  v.maxCommit = std::max(v.maxCommit, v.commit);
  if (init || v.commit > oldCommit) newCommit(nd, v, init ? v.start : oldCommit + 1, v.commit, !init);
  // truncation of something committed elsewhere is caught when this node commits; count for reach
  if (wasOpen && v.size < oldSize) { truncations++; countProbe("log truncated"); if (oldEpoch != be(v.meta["RAFT_MEMBERSHIP_EPOCH"])) { rollbacks++; countProbe("membership rolled back"); } }
}
void Watch::stateMachine(int nd, NodeView& v, const std::vector<rocksdb::BatchOp>& ops, bool init) {
  int64_t old = v.applied;
  uint64_t oldClock = v.clock;
  for (auto& o : ops) {
    if (o.key == "__format" || o.key == "__in-bulkload") continue;
    auto it = v.sm.find(o.key);
    if (it != v.sm.end()) { v.smHash ^= kvHash(it->first, it->second); }
    if (o.type == rocksdb::kTypeValue) { v.smHash ^= kvHash(o.key, o.value); v.sm[o.key] = o.value; }
    else if (it != v.sm.end()) v.sm.erase(it);
    if (o.key == "__last-applied" && o.type == rocksdb::kTypeValue) v.applied = be(o.value);
    if (o.key == "__clock" && o.type == rocksdb::kTypeValue) v.clock = (uint64_t)be(o.value);
  }
  if (!v.sm.count("__last-applied") || !v.sm.count("__clock")) return;
  bool was = v.smOpen;
  v.smOpen = true;
  if (was && !init) {
    if (v.applied != old && v.applied != old + 1) violation("apply-skip", fmt("node %d: last applied goes from %lld to %lld", nd, (long long)old, (long long)v.applied));
    if (v.clock < oldClock) violation("clock-backwards", fmt("node %d: the replicated clock goes from %llu to %llu", nd, (unsigned long long)oldClock, (unsigned long long)v.clock));
    if (v.applied > old && v.open && v.applied > v.commit && v.maxCommit >= 0) violation("apply-uncommitted", fmt("node %d applies entry %lld, its commit index is %lld", nd, (long long)v.applied, (long long)v.commit));
  }
  if (!init && v.applied == old && was) {
    // contents changed without a log entry
    auto s = smAt.find(v.applied);
    if (s != smAt.end() && s->second.first != v.smHash) violation("write-without-entry", fmt("node %d changes its contents without applying a log entry (at %lld)", nd, (long long)v.applied));
    return;
  }
  auto s = smAt.find(v.applied);
  if (s == smAt.end()) { smAt[v.applied] = {v.smHash, nd}; appliedAt[v.applied] = now(); }
  else if (s->second.first != v.smHash) violation("replicas-differ", fmt("after applying %lld entries the contents of node %d differ from those of node %d", (long long)v.applied, nd, s->second.second));
}
void Watch::message(int from, const std::string& host, const Cmd& req, const redisReply* rep) {
  if (req.empty()) return;
  std::string c = req[0];
  for (auto& x : c) x = (char)toupper(x);
  if (c == "RAFT_HEARTBEAT" && req.size() >= 3) { if (rep && rep->type == REDIS_REPLY_ARRAY) setLeader(atoll(req[1].c_str()), req[2], "heartbeat"); }
  else if ((c == "QUARKDB_START_RESILVERING" || c == "QUARKDB_FINISH_RESILVERING" || c == "QUARKDB_RESILVERING_COPY_FILE") && rep)
    countProbe(((c == "QUARKDB_START_RESILVERING" ? "resilvering start" : c == "QUARKDB_FINISH_RESILVERING" ? "resilvering finish" : "resilvering copy") + std::string(rep->type == REDIS_REPLY_ERROR ? " refused" : "")).c_str());
  else if (c == "RAFT_REQUEST_VOTE" && rep && rep->type == REDIS_REPLY_ERROR) countProbe("vote request answered with an error");
  else if (c == "RAFT_REQUEST_VOTE" && rep && rep->type == REDIS_REPLY_ARRAY) {
    Reply r = convert(rep);
    if (r.k.size() == 2 && r.k[1].s == "granted" && req.size() >= 3) {
      int64_t term = atoll(req[1].c_str());
      auto k = std::make_pair(host, term);
      auto it = votes.find(k);
      if (it != votes.end() && it->second != req[2]) violation("double-vote", fmt("%s granted its vote in term %lld to %s and to %s", host.c_str(), (long long)term, it->second.c_str(), req[2].c_str()));
      votes[k] = req[2];
      countProbe("vote granted");
    } else if (r.k.size() == 2 && r.k[1].s == "veto") countProbe("vote vetoed");
  }
}
}
