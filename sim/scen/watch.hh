// Global invariants over the raft journals and state machines of all simulated nodes, fed by the storage shim
// (every batch as it becomes visible) and by the messages between nodes.
#pragma once
#include "scen.hh"
namespace scen {
struct LogEntry { int64_t term = -1; Cmd req; };
bool parseEntry(const std::string& raw, LogEntry& e);
// the requests contained in a log entry; batch: they were executed as one transaction
bool parseTx(const LogEntry& e, std::vector<Cmd>& reqs, bool& phantom);
struct Watch {
  struct NodeView {
    std::map<int64_t, std::string> log;               // raw entries
    std::map<std::string, std::string> meta;
    int64_t term = 0, size = 0, start = 0, commit = 0, maxCommit = -1;
    bool open = false;
    std::set<int64_t> memberIdx;
    std::string prevMembers;
    std::map<std::string, std::string> sm;
    int64_t applied = 0;
    uint64_t smHash = 0, clock = 0;
    bool smOpen = false;
  };
  std::map<int, NodeView> n;
  struct Committed { std::string raw; int node; Time at; };
  std::map<int64_t, Committed> committed;
  std::map<int64_t, Time> firstAppend;                 // of the entry which got committed
  std::map<std::pair<int64_t, int64_t>, std::pair<std::string, Time>> seen;   // (index, term) -> bytes, first time
  std::map<int64_t, std::pair<uint64_t, int>> smAt;    // applied index -> content hash, node
  std::map<int64_t, Time> appliedAt;                   // first time any node had applied it
  struct Lead { std::string server; Time at; bool elected = false; };
  std::map<int64_t, Lead> leaders;                     // term -> leader
  std::map<std::pair<std::string, int64_t>, std::string> votes;  // (voter, term) -> candidate
  std::map<int, std::map<int64_t, std::string>> ownVotes;         // node -> term -> vote recorded on disk
  bool syncedTerms = true;                             // terms and votes survive power loss
  bool lossy = false;                                  // power loss with unsynced entries possible: entries may vanish
  std::string port = ":7777";
  uint64_t truncations = 0, rollbacks = 0, trims = 0, membershipChanges = 0, resilvers = 0;
  void install();
  void write(int node, const std::string& path, const std::vector<rocksdb::BatchOp>& ops);
  void opened(int node, const std::string& path, const std::map<std::string, std::string>& m);
  void message(int from, const std::string& host, const Cmd& req, const redisReply* rep);
  int64_t maxCommitted() const { return committed.empty() ? -1 : committed.rbegin()->first; }
  // highest term with an elected leader at a time
  int64_t topTerm() const { return leaders.empty() ? 0 : leaders.rbegin()->first; }
  void powerLost(int node) { n[node].maxCommit = -1; }
 private:
  void journal(int node, NodeView& v, const std::vector<rocksdb::BatchOp>& ops, bool init);
  void stateMachine(int node, NodeView& v, const std::vector<rocksdb::BatchOp>& ops, bool init);
  void setLeader(int64_t term, const std::string& s, const char* how);
  void newCommit(int node, NodeView& v, int64_t from, int64_t to, bool check);
};
std::vector<std::string> splitStr(const std::string& s, const std::string& sep);
}
