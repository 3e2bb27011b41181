// Simulated TCP: ordered byte streams with latency, segmentation, partitions, resets.
#include "net.hh"
#include "vfs.hh"
#include <cerrno>
#include <cstring>
#include <cstdlib>
namespace sim { namespace net {
Config cfg;
std::function<void(int, int, const std::string&)> tap;
static std::map<std::pair<int, int>, AcceptFn>& LS() { static auto* m = new std::map<std::pair<int, int>, AcceptFn>; return *m; }
static std::set<std::pair<int, int>>& blk() { static auto* s = new std::set<std::pair<int, int>>; return *s; }
static std::set<std::pair<int, int>>& noc() { static auto* s = new std::set<std::pair<int, int>>; return *s; }
static std::map<std::pair<int, int>, Time>& slow() { static auto* s = new std::map<std::pair<int, int>, Time>; return *s; }
static std::vector<EpPtr>& eps() { static auto* v = new std::vector<EpPtr>; return *v; }
static uint64_t g_ep = 0, g_delivered = 0;
uint64_t delivered() { return g_delivered; }
bool blocked(int a, int b) { return blk().count({a, b}) > 0; }

static Time latency(int a, int b) {
  Time l = cfg.latMin + (Time)rngNet.below(cfg.latJit + 1);
  auto it = slow().find({a, b});
  if (it != slow().end()) l += (Time)rngNet.below(it->second + 1);
  if (rngNet.chance(cfg.pSlow)) { l += (Time)rngNet.below(cfg.slowMax); countFault("net_delay"); }
  return l;
}
static void readableNow(const EpPtr& e) {
  wakeAll(e.get());
  if (e->onReadable) { auto f = std::move(e->onReadable); e->onReadable = nullptr; f(); }
}
static void deliver(const EpPtr& to, int kind, const std::string& d) {
  if (to->closed) return;
  g_delivered++;
  mixHash(to->id * 31 + kind + d.size());
  if (kind == 0) { to->rx += d; }
  else if (kind == 1) to->eof = true;
  else to->reset = true;
  readableNow(to);
}
static void gc() {
  static size_t lim = 64;
  auto& v = eps();
  if (v.size() < lim) return;
  size_t k = 0;
  for (size_t i = 0; i < v.size(); i++)
    if (v[i].use_count() > 1 || !v[i]->held.empty() || v[i]->goneUnsaid) v[k++] = v[i];
  v.resize(k);
  lim = k * 2 + 64;
}
// Every segment carries its position in the stream; the receiving side puts segments back in order.
// `cut`: the stream was torn down with segments missing, nothing sent on it is delivered any more.
static void cutStream(const EpPtr& f) { f->cut = true; f->held.clear(); f->heldBytes = 0; f->ooo.clear(); f->oooBytes = 0; f->heldSince = 0; }
static void hold(const EpPtr& f, uint64_t seq, int kind, std::string d) {
  if (!f->heldSince) {
    f->heldSince = now();
    after(cfg.rtoReset, [f] {
      if (!f->held.empty() && f->heldSince && now() - f->heldSince >= cfg.rtoReset && !f->closed) { countFault("net_timeout_reset"); cutStream(f); f->reset = true; readableNow(f); }
    });
  }
  f->heldBytes += d.size();
  f->held[seq] = {kind, std::move(d)};
}
static void arrived(const EpPtr& f, const EpPtr& to, uint64_t seq, int kind, std::string d) {
  if (seq != f->rxSeq) { f->oooBytes += d.size(); f->ooo[seq] = {kind, std::move(d)}; countFault("net_reordered_segment"); return; }
  f->rxSeq++;
  deliver(to, kind, d);
  while (!f->cut && !f->ooo.empty() && f->ooo.begin()->first == f->rxSeq) {
    auto x = std::move(f->ooo.begin()->second);
    f->ooo.erase(f->ooo.begin());
    f->oooBytes -= x.second.size();
    f->rxSeq++;
    deliver(to, x.first, x.second);
  }
}
static void segment(const EpPtr& from, uint64_t seq, int kind, std::string d) {
  EpPtr to = from->peer.lock();
  if (!to) return;
  if (blocked(from->node, to->node)) {
    countFault("net_held_by_partition");
    hold(from, seq, kind, std::move(d));
    return;
  }
  Time t = now() + latency(from->node, to->node);
  if (t <= from->lastDelivery) t = from->lastDelivery + 1;
  from->lastDelivery = t;
  from->inFlight += d.size();
  EpPtr f = from;
  at(t, [f, to, seq, kind, d = std::move(d)] {
    f->inFlight -= d.size();
    if (f->cut) return;
    if (blocked(f->node, to->node)) { hold(f, seq, kind, d); countFault("net_held_by_partition"); return; }
    arrived(f, to, seq, kind, d);
  });
}
static void transmit(const EpPtr& from, int kind, std::string d) {
  EpPtr to = from->peer.lock();
  if (!to) return;
  if (from->cut) {  // all the peer can still learn is that the connection is gone
    if (kind == 0) return;
    if (blocked(from->node, to->node)) { from->goneUnsaid = true; return; }  // learnt at the heal (keepalive probe)
    after(latency(from->node, to->node), [from, to] { if (!blocked(from->node, to->node)) deliver(to, 2, ""); });
    return;
  }
  segment(from, from->txSeq++, kind, std::move(d));
}
static void flushHeld(const EpPtr& f) {
  std::map<uint64_t, std::pair<int, std::string>> q;
  q.swap(f->held);
  f->heldSince = 0; f->heldBytes = 0;
  for (auto& p : q) segment(f, p.first, p.second.first, std::move(p.second.second));
}
void block(int a, int b, bool on) {
  NoPreempt np;
  if (on) { blk().insert({a, b}); countFault("partition"); }
  else if (blk().erase({a, b})) {
    countFault("heal");
    auto v = eps();
    for (auto& e : v) {
      if (e->node != a || e->peerNode != b) continue;
      if (!e->held.empty()) flushHeld(e);
      if (e->goneUnsaid) { e->goneUnsaid = false; transmit(e, 2, ""); }
    }
  }
}
void noConnect(int a, int b, bool on) { NoPreempt np; if (on) { noc().insert({a, b}); countFault("connect_block"); } else noc().erase({a, b}); }
void healAll() {
  NoPreempt np;
  auto s = blk();
  for (auto& p : s) block(p.first, p.second, false);
  noc().clear();
  slow().clear();
}
void slowLink(int a, int b, Time x) { NoPreempt np; if (x) { slow()[{a, b}] = x; countFault("slow_link"); } else slow().erase({a, b}); }
void resetAll(int a, int b) {
  NoPreempt np;
  auto v = eps();
  for (auto& e : v)
    if (e->node == a && e->peerNode == b && !e->closed) { countFault("conn_reset"); resetConn(e); }
}
void resetConn(const EpPtr& e) {
  NoPreempt np;
  EpPtr p = e->peer.lock();
  cutStream(e);
  if (p) cutStream(p);
  if (!e->closed) { e->reset = true; readableNow(e); }
  if (p && !p->closed) { p->reset = true; readableNow(p); }
}
int nodeOfHost(const std::string& h) {
  if (h.size() >= 2 && h[0] == 'n') return atoi(h.c_str() + 1);
  return -1;
}
std::string hostOfNode(int n) { return n == 0 ? "client" : "n" + std::to_string(n); }
void listen(int n, int port, AcceptFn fn) { NoPreempt np; LS()[{n, port}] = std::move(fn); }
void unlisten(int n, int port) { NoPreempt np; LS().erase({n, port}); }
EpPtr connect(int from, const std::string& host, int port, const std::string& clientHost, Time timeout, const bool* stop) {
  int to = nodeOfHost(host);
  Time dl = now() + timeout;
  if (to < 0) { sleepFor(10 * MS); return nullptr; }
  // SYN and SYN-ACK must both get through
  while (blocked(from, to) || blocked(to, from) || noc().count({from, to})) {
    if (stop && *stop) return nullptr;
    if (now() >= dl) { countFault("connect_timeout"); return nullptr; }
    sleepFor(100 * MS);
  }
  Time l;
  { NoPreempt np; l = latency(from, to) + latency(to, from); }
  sleepFor(l);
  NoPreempt np;
  if (blocked(from, to)) return nullptr;
  auto it = LS().find({to, port});
  if (it == LS().end() || !node(to).alive) return nullptr;  // refused
  gc();
  EpPtr a = std::make_shared<Endpoint>(), b = std::make_shared<Endpoint>();
  a->id = ++g_ep; b->id = ++g_ep;
  a->node = from; b->node = to; a->inc = node(from).incarnation; b->inc = node(to).incarnation;
  a->peer = b; b->peer = a; a->peerNode = to; b->peerNode = from;
  a->remoteHost = host; b->remoteHost = clientHost;
  eps().push_back(a); eps().push_back(b);
  it->second(b);
  return a;
}
long recv(const EpPtr& e, char* buf, size_t n) {
  NoPreempt np;
  if (e->closed) return -EBADF;
  size_t av = e->rx.size() - e->rxOff;
  if (av) {
    if (n > av) n = av;
    memcpy(buf, e->rx.data() + e->rxOff, n);
    e->rxOff += n;
    if (e->rxOff == e->rx.size()) { e->rx.clear(); e->rxOff = 0; }
    return (long)n;
  }
  if (e->reset) return -ECONNRESET;
  if (e->eof) return 0;
  return -EAGAIN;
}
size_t pending(const EpPtr& e) {
  EpPtr p = e->peer.lock();
  if (!p) return 0;
  return e->inFlight + e->heldBytes + e->oooBytes + (p->rx.size() - p->rxOff);
}
int descriptor(const EpPtr& e) {
  std::weak_ptr<Endpoint> w = e;
  return vfs::newPollable([w] { EpPtr e = w.lock(); return !e || e->closed || e->reset || e->wrShut || pending(e) < cfg.sndBuf; });
}
long send(const EpPtr& e, const char* buf, size_t n) {
  NoPreempt np;
  if (e->closed || e->wrShut) return -EPIPE;
  if (e->reset) return -ECONNRESET;
  EpPtr p = e->peer.lock();
  if (!p) return -EPIPE;
  size_t pend = pending(e);
  if (pend >= cfg.sndBuf) { countFault("send_buffer_full"); return -EAGAIN; }
  if (n > cfg.sndBuf - pend) { n = cfg.sndBuf - pend; countFault("partial_send"); }
  if (p->closed) {  // peer closed: data is answered by a reset later
    if (!blocked(e->node, p->node)) { EpPtr x = e; after(latency(e->node, e->peerNode), [x] { x->reset = true; readableNow(x); }); }
    return (long)n;
  }
  if (tap) tap(e->node, e->peerNode, std::string(buf, n));
  size_t off = 0;
  while (off < n) {
    size_t k = n - off;
    if (rngNet.chance(cfg.pSplit) && k > 1) { k = 1 + rngNet.below(k < 64 || rngNet.chance(0.5) ? k : 64); }
    transmit(e, 0, std::string(buf + off, k));
    off += k;
  }
  return (long)n;
}
void shutdownEp(const EpPtr& e) {
  NoPreempt np;
  if (e->closed || e->wrShut) return;
  e->wrShut = true;
  transmit(e, 1, "");
  e->eof = true;
  readableNow(e);
}
void close(const EpPtr& e) {
  NoPreempt np;
  if (e->closed) return;
  if (!e->wrShut) { e->wrShut = true; transmit(e, 1, ""); }
  e->closed = true;
  e->onReadable = nullptr;
  e->rx.clear(); e->rxOff = 0;
}
void init() {
  onNodeDown([](int n, bool power) {
    for (auto it = LS().begin(); it != LS().end();) { if (it->first.first == n) it = LS().erase(it); else ++it; }
    auto v = eps();
    for (auto& e : v) {
      if (e->node != n || e->closed) continue;
      e->onReadable = nullptr;
      // a killed process resets its connections; after a power loss the peer only notices when the
      // machine is back or a timeout fires
      EpPtr x = e;
      if (power && rngNet.chance(0.5)) {
        after(2 * SEC, [x] { EpPtr p = x->peer.lock(); if (p && !p->closed) { p->reset = true; readableNow(p); } });
      } else transmit(e, 2, "");
      e->closed = true;
    }
  });
}
}}
