#include "scen.hh"
#include "Configuration.hh"
#include "QuarkDBNode.hh"
#include "ShardDirectory.hh"
#include "netio/AsioPoller.hh"
#include "raft/RaftTimeouts.hh"
#include "raft/RaftCommon.hh"
#include "StateMachine.hh"
namespace scen {
using namespace sim;
using namespace quarkdb;
void Server::writeConf() {
  std::string c = "xrd.port " + std::to_string(port) + "\nredis.mode " + mode + "\nredis.database " + dbPath() + "\n";
  if (mode == "raft") c += fmt("redis.myself n%d:%d\n", id, port);
  c += extraConf;
  vfs::mkdirs(fmt("/vfs/n%d", id), id + 1);
  vfs::create(confPath(), c, 0600);
}
bool Server::bootstrap(const std::string& cluster, const std::vector<std::string>& members, long startIndex, int fsync) {
  writeConf();
  bool good = false;
  startNode(id);
  std::string path = dbPath();
  bool fin = onNode(id, [&good, path, cluster, members, startIndex, fsync] {
    std::vector<RaftServer> nodes;
    for (auto& m : members) { RaftServer s; if (m == "LIMBO") { nodes.push_back(RaftServer::Null()); continue; } if (!parseServer(m, s)) return; nodes.push_back(s); }
    Status st;
    std::unique_ptr<ShardDirectory> d;
    if (members.empty()) d.reset(ShardDirectory::create(path, cluster, "default", std::unique_ptr<StateMachine>(), st));
    else d.reset(ShardDirectory::create(path, cluster, "default", nodes, startIndex, (FsyncPolicy)fsync, std::unique_ptr<StateMachine>(), st));
    good = st.ok() && d;
  }, "bootstrap");
  stopNode(id);
  return fin && good;
}
void Server::start() {
  startNode(id);
  up = exited = startFailed = stopReq = false;
  int g = ++gen;
  Server* s = this;
  std::string cp = confPath();
  long lo = tLow, hi = tHigh, hb = tHb;
  int thr = pollerThreads, pt = port;
  spawn([=] {
    Configuration conf;
    if (!Configuration::fromFile(cp, conf)) { s->refusal = "configuration"; s->startFailed = s->exited = true; return; }
    RaftTimeouts t{milliseconds(lo), milliseconds(hi), milliseconds(hb)};
    std::unique_ptr<QuarkDBNode> nd;
    std::unique_ptr<AsioPoller> poller;
    auto boot = [&] { nd.reset(new QuarkDBNode(conf, t)); poller.reset(new AsioPoller(pt, thr, nd.get())); };
    if (!s->throwIsRefusal) boot();
    else try { boot(); } catch (FatalException& e) { s->refusal = e.what(); s->startFailed = s->exited = true; wakeAll(&s->exited); return; }
    if (s->gen == g) { s->up = true; wakeAll(&s->up); }
    while (!s->stopReq) blockOn(&s->stopReq, now() + 10 * SEC);
    poller.reset();
    nd.reset();
    if (s->gen == g) { s->up = false; s->exited = true; wakeAll(&s->exited); }
  }, fmt("server%d", id), id);
}
bool Server::waitUp(Time timeout) {
  Time dl = now() + timeout;
  while (!up) {
    if (exited || !node(id).alive || now() >= dl) return false;
    blockOn(&up, std::min(dl, now() + 50 * MS));
  }
  return true;
}
bool Server::stop(Time timeout) {
  if (!node(id).alive) return false;
  Time dl = now() + timeout;
  if (!exited) {
    if (!up) waitUp(timeout);
    if (!node(id).alive) return false;
    stopReq = true;
    wakeAll(&stopReq);
    while (!exited && node(id).alive) {
      if (now() >= dl) return false;
      blockOn(&exited, std::min(dl, now() + 50 * MS));
    }
  }
  if (!node(id).alive) return false;
  sleepFor(1 * MS);
  if (exited && !startFailed) {
    std::string names;
    int n = liveThreads(id, &names);
    if (n) {
      sleepFor(2 * SEC);
      names.clear();
      n = liveThreads(id, &names);
      if (n) violation("thread-leak", fmt("%d threads still run on node %d after a clean shutdown: %s", n, id, names.c_str()));
    }
  }
  stopNode(id);
  up = false;
  return true;
}
void Server::kill(bool power) { up = false; killNode(id, power); }
}
