// Raft state (term, vote, leader, status) with its journal: exact model for sequences of calls, set-once and
// monotonicity rules for concurrent calls, and crashes in between.
#include "scen.hh"
#include "raft/RaftJournal.hh"
#include "raft/RaftState.hh"
#include <algorithm>
using namespace scen;
using namespace sim;
using quarkdb::RaftJournal; using quarkdb::RaftState; using quarkdb::RaftServer; using quarkdb::RaftStatus; using quarkdb::RaftStateSnapshotPtr;
namespace {
typedef int64_t I;
RaftServer srv(const std::string& s) { RaftServer r; if (!s.empty()) quarkdb::parseServer(s, r); return r; }
std::string str(const RaftServer& s) { return s.empty() ? "" : s.toString(); }
const char ME[] = "n1:7777";
void genState(Plan& p, Rng& r) {
  p.knob("policy", r.chance(0.5) ? 0 : r.range(1, 2));
  p.knob("crash", r.chance(0.6)); p.knob("power", r.chance(0.4) && p.get("policy", 0) != 2);
  p.knob("member", r.chance(0.85));
  p.knob("sched.mean", r.pick(std::vector<double>{5, 30, 300, 3000}));
  p.knob("wsync", r.chance(0.5) ? 1 : 6);
  int n = (int)r.range(10, 80);
  p.knob("ops", n); n = (int)p.get("ops", n);
  auto S = [&] { return "n" + std::to_string(r.range(1, 4)) + ":7777"; };
  auto T = [&] { return std::to_string(r.chance(0.6) ? 0 : r.range(-1, 2)); };
  for (int i = 0; i < n; i++) {
    double x = r.unit();
    if (x < 0.3) p.add("observed", {T(), r.chance(0.5) ? "" : S()});
    else if (x < 0.5) p.add("grant", {T(), S()});
    else if (x < 0.65) p.add("candidate", {T()});
    else if (x < 0.8) p.add("ascend", {T()});
    else if (x < 0.88) p.add("dropout", {T()});
    else if (x < 0.92) p.add("append", {});
    else if (x < 0.94) p.add("shutdown", {});
    else if (x < 0.97) p.add("wait", {std::to_string(r.range(1, 2000)), std::to_string(r.below(2))});
    else p.add("reopen", {});
    if (r.chance(0.06)) p.add("burst", {std::to_string(r.next() % 1000000), std::to_string(r.range(2, 5))});
    if (p.get("crash", 0) && r.chance(0.06)) p.add("crash", {p.get("power", 0) && r.chance(0.6) ? "power" : "kill", std::to_string(r.range(0, 3))});
  }
}
struct M { I term = 0; int st = 0; std::string leader, vote; I marker = -1; };   // st: 0 follower 1 candidate 2 leader 3 shutdown
int stat(RaftStatus s) { return s == RaftStatus::FOLLOWER ? 0 : s == RaftStatus::CANDIDATE ? 1 : s == RaftStatus::LEADER ? 2 : 3; }
const char* SN[] = {"follower", "candidate", "leader", "shutdown"};
struct Ss {
  const Plan& plan; Rng rng;
  RaftJournal* j = nullptr; RaftState* s = nullptr;
  M m;
  bool member, power = false, armed = false;
  // facts which must outlive everything
  I maxTerm = 0;
  std::map<I, std::string> votes, leaders, winner;   // winner: whom the rest of the cluster elected
  std::vector<std::pair<I, std::string>> pendVotes;
  Ss(const Plan& p) : plan(p), rng(subRng(p, "state")) { member = p.get("member", 1); }
  bool on(std::function<void()> f, const char* nm) { return onNode(1, std::move(f), nm); }
  void vote(I t, const std::string& v) {
    if (v.empty()) return;
    auto it = votes.find(t);
    if (it == votes.end()) votes[t] = v;
    else if (it->second != v) violation("double-vote", fmt("in term %lld the vote was given to %s and later to %s", (long long)t, it->second.c_str(), v.c_str()));
  }
  void lead(I t, const std::string& v) {
    if (v.empty()) return;
    auto it = leaders.find(t);
    if (it == leaders.end()) leaders[t] = v;
    else if (it->second != v) violation("leader-changed", fmt("term %lld has leader %s and later %s", (long long)t, it->second.c_str(), v.c_str()));
  }
  void open() {
    std::string err;
    for (int k = 0; k < 3; k++) {
      if (on([&] { try { j = new RaftJournal("/vfs/n1/j"); s = new RaftState(*j, srv(ME)); } catch (quarkdb::FatalException& e) { err = e.what(); } }, "open")) break;
      armed = false;
    }
    if (!err.empty()) violation("reopen-failed", err.substr(0, 300));
  }
  void adopt() {
    // after a restart: the term and the vote, and nothing else, must have survived
    auto sn = s->getSnapshot();
    if (sn->term < maxTerm) violation("term-backwards", fmt("term %lld was reached before the restart, now it is %lld", (long long)maxTerm, (long long)sn->term));
    if (sn->status != RaftStatus::FOLLOWER) violation("state-differs", "a node does not start as follower");
    if (!sn->leader.empty()) violation("state-differs", "a node starts with a leader");
    std::string v = str(sn->votedFor);
    if (votes.count(sn->term) && v.empty()) violation("vote-lost", fmt("the vote of term %lld for %s is gone after the restart", (long long)sn->term, votes[sn->term].c_str()));
    vote(sn->term, v);
    if (leaders.count(sn->term) && v.empty()) violation("vote-lost", fmt("a leader was recognized in term %lld before the restart, and now the node may vote in it", (long long)sn->term));
    m = M(); m.term = sn->term; m.vote = v; maxTerm = std::max(maxTerm, m.term);
  }
  // memb: what an interrupted operation may have done: {term, vote}
  void afterCrash(I t = -1, const std::string& v = "") {
    armed = false; disarmCrash(1); j = nullptr; s = nullptr;
    sleepFor(rng.range(1, 200) * MS);
    open();
    if (t >= 0) { auto sn = s->getSnapshot(); if (sn->term == t && votes.count(t) && str(sn->votedFor) != votes[t]) violation("vote-lost", fmt("vote of term %lld", (long long)t)); }
    adopt();
    countProbe(power ? "power loss recovered" : "kill recovered");
  }
  void compare(const char* what) {
    auto sn = s->getSnapshot();
    std::string d;
    if (sn->term != m.term) d = fmt("term %lld, expected %lld", (long long)sn->term, (long long)m.term);
    else if (stat(sn->status) != m.st) d = fmt("status %s, expected %s", SN[stat(sn->status)], SN[m.st]);
    else if (str(sn->leader) != m.leader) d = "leader '" + str(sn->leader) + "', expected '" + m.leader + "'";
    else if (str(sn->votedFor) != m.vote && !(m.vote == "?" && !sn->votedFor.empty())) d = "vote '" + str(sn->votedFor) + "', expected '" + m.vote + "'";
    else if (sn->leadershipMarker != m.marker) d = fmt("leadership marker %lld, expected %lld", (long long)sn->leadershipMarker, (long long)m.marker);
    else if (j->getCurrentTerm() != m.term) d = fmt("the journal has term %lld, the state %lld", (long long)j->getCurrentTerm(), (long long)m.term);
    else if (j->getVotedFor() != sn->votedFor) d = "the journal has vote '" + str(j->getVotedFor()) + "', the state '" + str(sn->votedFor) + "'";
    else if (!s->isSnapshotCurrent(sn.get())) d = "the snapshot is not current";
    if (!d.empty()) violation("state-differs", std::string(what) + ": " + d);
    if (m.vote == "?") m.vote = str(sn->votedFor);
    vote(m.term, m.vote); lead(m.term, m.leader);
    maxTerm = std::max(maxTerm, m.term);
    stateSample(m.term * 1000003 + m.st * 101 + strHash(m.leader) * 3 + strHash(m.vote));
  }
  void burst(uint64_t seed, int nth);
  void run() {
    startNode(1); vfs::mkdirs("/vfs/n1", 2);
    std::vector<RaftServer> nodes; for (int i = member ? 1 : 2; i <= 4; i++) nodes.push_back(srv(fmt("n%d:7777", i)));
    int pol = (int)plan.get("policy", 0);
    if (!on([&] { j = new RaftJournal("/vfs/n1/j", "cl", nodes, 0, (quarkdb::FsyncPolicy)pol); s = new RaftState(*j, srv(ME)); }, "create")) harnessError("create");
    vfs::writebackTree("/vfs/n1");
    for (auto& l : plan.lines) {
      const Cmd& a = l.a;
      I t = m.term + (a.empty() ? 0 : atoll(a[0].c_str()));
      bool want = false, got = false, checkRet = true;
      M n = m;
      std::string what = l.kind;
      std::function<bool()> f;
      if (l.kind == "observed") {
        if (t < 0) t = 0;
        if (t == m.term && !a[1].empty()) { if (winner.count(t) && winner[t] != a[1]) continue; winner[t] = a[1]; }
        else if (t > m.term && !a[1].empty()) { if (winner.count(t) && winner[t] != a[1]) continue; winner[t] = a[1]; }
        if (a[1] == ME) continue;     // never: a node does not observe itself through this path
        checkRet = false;
        if (n.st != 3) {
          if (t > n.term) { n.st = 0; n.marker = -1; n.term = t; n.leader = a[1]; n.vote = a[1].empty() ? "" : "?"; }
          else if (t == n.term && n.leader.empty() && !a[1].empty()) { n.leader = a[1]; if (n.vote.empty()) n.vote = "?"; }
        }
        // a candidate or leader is never told about another leader of its own term by a correct cluster
        if (t == m.term && m.st != 0 && m.st != 3 && !a[1].empty() && m.st == 2) n = m;
        f = [&] { return s->observed(t, srv(a[1])); };
      } else if (l.kind == "grant") {
        if (a[1] == ME) continue;
        want = n.st == 0 && t == n.term && n.leader.empty() && n.vote.empty();
        if (want) n.vote = a[1];
        f = [&] { return s->grantVote(t, srv(a[1])); };
      } else if (l.kind == "candidate") {
        want = t == n.term && n.st == 0 && n.leader.empty() && n.vote.empty() && member;
        if (want) { n.vote = ME; n.st = 1; }
        f = [&] { return s->becomeCandidate(t); };
      } else if (l.kind == "ascend") {
        if (winner.count(t) && winner[t] != ME) continue;
        winner[t] = ME;
        want = t == n.term && n.st == 1 && n.leader.empty() && n.vote == ME && member;
        if (want) { n.leader = ME; n.st = 2; n.marker = j->getLogSize(); }
        f = [&] { return s->ascend(t); };
      } else if (l.kind == "dropout") {
        want = n.st == 1 && t == n.term;
        if (want) n.st = 0;
        f = [&] { return s->dropOut(t); };
      } else if (l.kind == "append") {
        on([&] { j->append(j->getLogSize(), quarkdb::RaftEntry(j->getCurrentTerm(), "SET", "a", "b")); }, "append");
        if (!node(1).alive) afterCrash();
        continue;
      } else if (l.kind == "shutdown") {
        checkRet = false; n.st = 3; n.marker = -1;
        f = [&] { s->shutdown(); return true; };
      } else if (l.kind == "wait") {
        // returns on time, and at once when shutting down
        Time t0 = now(), d = atoll(a[0].c_str()) * MS; bool sd = m.st == 3;
        if (!on([&] { if (a[1] == "1") s->wait_until(std::chrono::steady_clock::now() + std::chrono::milliseconds(d / MS)); else s->wait(std::chrono::milliseconds(d / MS)); }, "wait")) { afterCrash(); continue; }
        if (sd && a[1] == "0" && now() - t0 > 100 * MS) violation("wait", "waiting although shut down");
        if (now() - t0 > d + 500 * MS) violation("wait", fmt("wait of %lld ms took %lld ms", (long long)(d / MS), (long long)((now() - t0) / MS)));
        continue;
      } else if (l.kind == "reopen") {
        if (!on([&] { delete s; delete j; s = nullptr; j = nullptr; }, "close")) { afterCrash(); continue; }
        open(); if (!node(1).alive) { afterCrash(); continue; }
        adopt(); compare("after reopening");
        continue;
      } else if (l.kind == "burst") { burst(atoll(a[0].c_str()), atoi(a[1].c_str())); continue; }
      else if (l.kind == "crash") {
        if (armed && atoi(a[1].c_str())) continue;
        power = a[0] == "power";
        countFault(power ? "power loss" : "process kill");
        if (!atoi(a[1].c_str())) { killNode(1, power); afterCrash(); }
        else { armCrash(1, atoi(a[1].c_str()), power); armed = true; }
        continue;
      } else continue;
      std::string ex;
      if (!on([&] { try { got = f(); } catch (quarkdb::FatalException& e) { ex = e.what(); } }, "op")) {
        countProbe("crash during an operation");
        afterCrash();
        continue;
      }
      if (!ex.empty()) violation("state-op", what + " threw " + ex.substr(0, 200));
      if (checkRet && got != want) violation("state-op", fmt("%s %s in term %lld (status %s, leader '%s', vote '%s') %s", what.c_str(), show(a).c_str(), (long long)m.term, SN[m.st], m.leader.c_str(), m.vote.c_str(), got ? "was accepted" : "was refused"));
      if (got && want) countProbe(what + " accepted");
      m = n;
      compare((what + " " + show(a)).c_str());
      if (m.st == 2) { quarkdb::RaftEntry e; if (!on([&] { j->fetch(m.marker, e); }, "marker")) { afterCrash(); continue; } if (e.term != m.term || e.request.size() != 3 || e.request[0] != "JOURNAL_LEADERSHIP_MARKER") violation("no-marker", "the leader has no marker in its log"); }
      if (m.st == 3) { // a new process
        if (!on([&] { delete s; delete j; s = nullptr; j = nullptr; }, "close")) { afterCrash(); continue; }
        open(); if (!node(1).alive) { afterCrash(); continue; }
        adopt();
      }
    }
    disarmCrash(1);
    if (!node(1).alive) afterCrash();
    on([&] { delete s; delete j; }, "close");
  }
};
void Ss::burst(uint64_t seed, int nth) {
  Rng g; g.seed(seed);
  std::vector<Fiber*> fs;
  RaftState* st = s; RaftJournal* jj = j;
  std::map<I, Time> recognized;     // term -> when observed(term, leader) had returned
  std::map<I, std::string> granted; // by return values
  std::map<I, std::string> cand, asc;
  bool done = false; int active = nth;
  for (int k = 0; k < nth; k++) {
    uint64_t sd = g.next();
    fs.push_back(spawn([&, sd, st] {
      Rng r; r.seed(sd);
      I seenTerm = 0;
      for (int i = 0; i < 25; i++) {
        auto sn = st->getSnapshot();
        if (sn->term < seenTerm) violation("term-backwards", fmt("snapshots go from term %lld to %lld", (long long)seenTerm, (long long)sn->term));
        seenTerm = sn->term;
        if (sn->status == RaftStatus::LEADER && (str(sn->leader) != ME || str(sn->votedFor) != ME || sn->leadershipMarker < 0)) violation("snapshot-torn", fmt("leader of term %lld with leader '%s', vote '%s', marker %lld", (long long)sn->term, str(sn->leader).c_str(), str(sn->votedFor).c_str(), (long long)sn->leadershipMarker));
        if (sn->status == RaftStatus::CANDIDATE && str(sn->votedFor) != ME) violation("snapshot-torn", "candidate which did not vote for itself");
        vote(sn->term, str(sn->votedFor)); lead(sn->term, str(sn->leader));
        I t = sn->term + (r.chance(0.75) ? 0 : r.range(-1, 1)); if (t < 0) t = 0;
        int y = r.below(6);
        std::string who = fmt("n%d:7777", (int)r.range(2, 4));
        Time t0 = now();
        if (y == 0) { st->observed(t, RaftServer()); }
        else if (y == 1) {
          // whichever node leads a term is one and the same for everybody
          if (!winner.count(t)) winner[t] = who;
          std::string L = winner[t];
          if (L == ME) continue;
          if (st->observed(t, srv(L))) recognized[t] = now();
        }
        else if (y == 2) { bool ok = st->grantVote(t, srv(who)); if (ok) { if (granted.count(t) && granted[t] != who) violation("double-vote", fmt("term %lld: votes granted to %s and %s", (long long)t, granted[t].c_str(), who.c_str())); granted[t] = who; vote(t, who); if (cand.count(t)) violation("double-vote", fmt("term %lld: vote granted although it is a candidate itself", (long long)t)); if (recognized.count(t) && recognized[t] < t0) violation("double-vote", fmt("term %lld: vote granted after a leader had been recognized", (long long)t)); countProbe("concurrent vote granted"); } }
        else if (y == 3) { if (st->becomeCandidate(t)) { if (!cand.insert({t, ME}).second) violation("double-vote", fmt("twice candidate in term %lld", (long long)t)); if (granted.count(t)) violation("double-vote", fmt("candidate in term %lld after granting a vote", (long long)t)); vote(t, ME); countProbe("concurrent candidacy"); } }
        else if (y == 4) {
          if (!cand.count(t) || (winner.count(t) && winner[t] != ME)) continue;
          winner[t] = ME;
          if (st->ascend(t)) { if (!asc.insert({t, ME}).second) violation("leader-changed", "ascended twice"); lead(t, ME); countProbe("concurrent ascension"); }
        }
        else if (r.chance(0.3)) st->dropOut(t);
        else if (r.chance(0.3)) jj->append(jj->getLogSize(), quarkdb::RaftEntry(jj->getCurrentTerm(), "SET", "x", "y"));
        maxTerm = std::max(maxTerm, st->getSnapshot()->term);
        if (r.chance(0.3)) sleepFor(r.range(1, 2000) * US);
      }
      if (--active == 0) done = true;
    }, "state user", 1));
  }
  Time dl = now() + 120 * SEC;
  for (auto* f : fs) while (!f->done && !f->dead) if (!blockOn((char*)f + 1, std::min(dl, now() + SEC)) && now() >= dl) violation("deadlock", "concurrent use of the raft state does not end");
  countProbe("concurrent burst");
  if (!node(1).alive) { countProbe("crash during a burst"); afterCrash(); return; }
  auto sn = st->getSnapshot();
  m.term = sn->term; m.st = stat(sn->status); m.leader = str(sn->leader); m.vote = str(sn->votedFor); m.marker = sn->leadershipMarker;
  if (!node(1).alive) { afterCrash(); return; }
  compare("after concurrent use");
}
void runState(const Plan& p) { Ss x(p); x.run(); }
Reg reg("state", genState, runState);
}
