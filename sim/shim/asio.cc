#include "asio.hpp"
#include "../core/net.hh"
#include "../core/sim.hh"
#include <cerrno>
using namespace sim;
namespace asio {
static error_code mk(int e) { return error_code(e, std::generic_category()); }
namespace detail {
typedef std::function<void()> Job;
struct Ctx {
  std::deque<Job> q;
  bool stopped = false;
  bool closed = false;
};
struct Sock {
  net::EpPtr ep;
  std::shared_ptr<Ctx> ctx;
  std::function<void(const error_code&)> waiter;
  ~Sock() { if (ep) net::close(ep); }
};
struct Acc {
  std::shared_ptr<Ctx> ctx;
  int node = 0, ver = 4, port = 0;
  bool listening = false, closed = false;
  std::deque<net::EpPtr> backlog;
  ip::tcp::socket* target = nullptr;
  std::function<void(const error_code&)> handler;
};
std::shared_ptr<Ctx> newCtx() { return std::make_shared<Ctx>(); }
static void post(const std::shared_ptr<Ctx>& c, Job j) {
  NoPreempt np;
  if (c->closed) return;
  c->q.push_back(std::move(j));
  wakeOne(c.get());
}
void run(const std::shared_ptr<Ctx>& c) {
  for (;;) {
    if (c->stopped) return;
    if (c->q.empty()) { blockOn(c.get()); continue; }
    Job j;
    { NoPreempt np; j = std::move(c->q.front()); c->q.pop_front(); }
    syncPoint();
    if (c->stopped) { NoPreempt np; c->q.push_front(std::move(j)); return; }
    j();
  }
}
void stop(const std::shared_ptr<Ctx>& c) { NoPreempt np; c->stopped = true; wakeAll(c.get()); }
void closeCtx(const std::shared_ptr<Ctx>& c) {
  std::deque<Job> q;
  { NoPreempt np; c->stopped = c->closed = true; q.swap(c->q); }
}
}
using namespace detail;
namespace ip {
tcp::socket& tcp::socket::operator=(socket&& o) noexcept {
  NoPreempt np;
  SockPtr old = std::move(s);
  s = std::move(o.s); o.s = nullptr; ctx = o.ctx;
  if (old) {
    if (old->waiter) { auto h = std::move(old->waiter); old->waiter = nullptr; post(old->ctx, [h] { h(mk(ECANCELED)); }); }
    net::close(old->ep);
  }
  return *this;
}
tcp::socket::~socket() {
  NoPreempt np;
  if (!s) return;
  if (s->waiter) { auto h = std::move(s->waiter); s->waiter = nullptr; post(s->ctx, [h] { h(mk(ECANCELED)); }); }
  if (s->ep) { s->ep->onReadable = nullptr; net::close(s->ep); }
}
void tcp::socket::non_blocking(bool, error_code& ec) { ec = s && s->ep && !s->ep->reset ? error_code() : mk(EBADF); }
tcp::endpoint tcp::socket::remote_endpoint(error_code& ec) {
  endpoint e;
  if (!s || !s->ep || s->ep->reset) { ec = mk(ENOTCONN); return e; }
  e.host = s->ep->remoteHost;
  ec = error_code();
  return e;
}
void tcp::socket::async_wait(wait_type, std::function<void(const error_code&)> h) {
  NoPreempt np;
  if (!s || !s->ep || s->ep->closed) { post(ctx, [h] { h(mk(EBADF)); }); return; }
  if (s->ep->readable()) { post(ctx, [h] { h(error_code()); }); return; }
  s->waiter = std::move(h);
  std::weak_ptr<Sock> w = s;
  s->ep->onReadable = [w] {
    SockPtr p = w.lock();
    if (!p || !p->waiter) return;
    auto h = std::move(p->waiter);
    p->waiter = nullptr;
    post(p->ctx, [h] { h(error_code()); });
  };
}
size_t tcp::socket::receive(const mutable_buffer& b, int, error_code& ec) {
  if (!s || !s->ep) { ec = mk(EBADF); return 0; }
  syncPoint();
  long n = net::recv(s->ep, (char*)b.data, b.size);
  if (n == 0) { ec = mk(ENODATA); return 0; }   // end of stream is an error in asio (asio::error::eof)
  if (n < 0) { ec = mk((int)-n); return 0; }
  ec = error_code();
  return (size_t)n;
}
int tcp::socket::native_handle() { return s && s->ep ? net::descriptor(s->ep) : -1; }
void tcp::socket::shutdown(shutdown_type, error_code& ec) { ec = error_code(); if (s && s->ep) net::shutdownEp(s->ep); }
void tcp::resolver::async_resolve(const endpoint& ep, std::function<void(const error_code&, iterator)> h) {
  NoPreempt np;
  std::string host = ep.host;
  auto c = ctx;
  // reverse lookups take time and may fail
  Time d = 20 * US + (Time)rngNet.below(200 * US);
  bool fail = host.empty() || rngNet.chance(knob("net.resolvefail", 0.01));
  after(d, [c, h, host, fail] { post(c, [h, host, fail] { if (fail) h(mk(EHOSTUNREACH), iterator()); else h(error_code(), iterator(host)); }); });
}
tcp::acceptor::acceptor(io_context& c) : a(std::make_shared<Acc>()) { a->ctx = c.c; a->node = curNode(); }
tcp::acceptor::~acceptor() { close(); }
void tcp::acceptor::open(tcp p, error_code& ec) {
  a->ver = p.ver;
  // hosts without IPv6 exist
  ec = p.ver == 6 && knob("net.noipv6", 0) > 0 ? mk(EAFNOSUPPORT) : error_code();
}
void tcp::acceptor::bind(const endpoint& e) { a->port = e.port; }
static void tryAccept(const std::shared_ptr<Acc>& a) {
  if (a->closed || !a->handler || a->backlog.empty()) return;
  net::EpPtr e = a->backlog.front();
  a->backlog.pop_front();
  auto h = std::move(a->handler);
  a->handler = nullptr;
  auto sock = std::make_shared<Sock>();
  sock->ep = e; sock->ctx = a->ctx;
  tcp::socket* t = a->target;
  a->target = nullptr;
  t->s = sock;
  post(a->ctx, [h] { h(error_code()); });
}
void tcp::acceptor::listen() {
  a->listening = true;
  if (a->ver != 4) return;   // simulated traffic arrives over IPv4
  std::shared_ptr<Acc> x = a;
  net::listen(a->node, a->port, [x](net::EpPtr e) { x->backlog.push_back(e); tryAccept(x); });
}
void tcp::acceptor::async_accept(socket& s, std::function<void(const error_code&)> h) {
  NoPreempt np;
  if (a->closed) { post(a->ctx, [h] { h(mk(EBADF)); }); return; }
  a->target = &s;
  a->handler = std::move(h);
  tryAccept(a);
}
void tcp::acceptor::close() {
  NoPreempt np;
  if (a->closed) return;
  a->closed = true;
  if (a->listening && a->ver == 4) net::unlisten(a->node, a->port);
  for (auto& e : a->backlog) net::resetConn(e);
  a->backlog.clear();
  if (a->handler) { auto h = std::move(a->handler); a->handler = nullptr; post(a->ctx, [h] { h(mk(ECANCELED)); }); }
}
}
size_t write(ip::tcp::socket& s, const const_buffer& b, error_code& ec) {
  ec = error_code();
  if (!s.s || !s.s->ep) { ec = mk(EBADF); return 0; }
  syncPoint();
  size_t off = 0;
  while (off < b.size) {
    long n = net::send(s.s->ep, (const char*)b.data + off, b.size - off);
    if (n < 0) { ec = mk((int)-n); return off; }
    off += (size_t)n;
  }
  return off;
}
}
