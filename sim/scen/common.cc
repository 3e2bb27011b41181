#include "scen.hh"
#include <cerrno>
namespace scen {
using namespace sim;
std::string show(const Cmd& c, size_t max) {
  std::string o;
  for (auto& a : c) { if (!o.empty()) o += ' '; o += sim::escape(a, max); }
  return o;
}
std::string Reply::str(size_t max) const {
  std::string o;
  switch (t) {
    case '+': o = "+" + escape(s, max); break;
    case '-': o = "-" + escape(s, max); break;
    case ':': o = ":" + std::to_string(i); break;
    case '$': o = "\"" + escape(s, max) + "\""; break;
    case 'n': o = "nil"; break;
    case '*': case '>': {
      o = t == '>' ? ">[" : "[";
      for (size_t x = 0; x < k.size(); x++) { if (x) o += ", "; if (o.size() > 4 * max) { o += "..."; break; } o += k[x].str(max); }
      o += "]"; break;
    }
    default: o = "(none)";
  }
  return o;
}
Reply convert(const redisReply* r) {
  Reply o;
  switch (r->type) {
    case REDIS_REPLY_STRING: o.t = '$'; o.s.assign(r->str, r->len); break;
    case REDIS_REPLY_STATUS: o.t = '+'; o.s.assign(r->str, r->len); break;
    case REDIS_REPLY_ERROR: o.t = '-'; o.s.assign(r->str, r->len); break;
    case REDIS_REPLY_INTEGER: o.t = ':'; o.i = r->integer; break;
    case REDIS_REPLY_NIL: o.t = 'n'; break;
    default: o.t = r->type == REDIS_REPLY_PUSH ? '>' : '*'; for (size_t i = 0; i < r->elements; i++) o.k.push_back(convert(r->element[i]));
  }
  return o;
}
std::string encodeRequest(const Cmd& c) {
  std::string o = "*" + std::to_string(c.size()) + "\r\n";
  for (auto& a : c) { o += "$" + std::to_string(a.size()) + "\r\n"; o += a; o += "\r\n"; }
  return o;
}
bool Conn::open(const std::string& h, int p, Time timeout, const std::string& clientHost) {
  close();
  host = h; port = p; rx.clear(); off = 0; broken = false;
  ep = net::connect(fromNode, h, p, clientHost, timeout);
  return (bool)ep;
}
bool Conn::sendRaw(const std::string& d, Time timeout) {
  if (!ep || broken) return false;
  size_t o = 0; Time dl = now() + timeout;
  while (o < d.size()) {
    long n = net::send(ep, d.data() + o, d.size() - o);
    if (n > 0) { o += n; continue; }
    if (n == -EAGAIN) { if (now() >= dl) return false; sleepFor(5 * MS); continue; }
    broken = true;
    return false;
  }
  return true;
}
int Conn::read(Reply& out, Time deadline) {
  for (;;) {
    if (!ep) return -1;
    {
      NoPreempt np;
      std::unique_ptr<redisReply> r;
      int k = qclient::parseReply(rx, off, r);
      if (k < 0) return -2;
      if (k > 0) {
        r->seal(); out = convert(r.get());
        if (off > 65536 || off == rx.size()) { rx.erase(0, off); off = 0; }
        return 1;
      }
    }
    char buf[8192];
    long n = net::recv(ep, buf, sizeof buf);
    if (n > 0) { NoPreempt np; rx.append(buf, n); continue; }
    if (n == 0 || n == -ECONNRESET || n == -EBADF) { broken = true; return -1; }
    if (now() >= deadline) return 0;
    blockOn(ep.get(), deadline);
  }
}
bool Conn::call(const Cmd& c, Reply& out, Time timeout) {
  if (!sendRaw(encodeRequest(c), timeout)) return false;
  return read(out, now() + timeout) == 1;
}
void Conn::close() { if (ep) { net::close(ep); ep = nullptr; } }
bool onNode(int n, std::function<void()> fn, const std::string& name, Time timeout) {
  if (!node(n).alive) startNode(n);
  Fiber* f = spawn(std::move(fn), name, n);
  Time dl = timeout == NEVER ? NEVER : now() + timeout;
  while (!f->done && !f->dead) {
    if (!blockOn((char*)f + 1, dl)) return false;
  }
  return f->done;
}
Rng subRng(const Plan& p, const char* tag) { Rng r; r.seed(mixSeed(p.seed, tag)); return r; }
Cmd splitWs(const std::string& s) {
  Cmd v; size_t a = 0;
  while (a < s.size()) { size_t b = s.find(' ', a); if (b == std::string::npos) b = s.size(); if (b > a) v.push_back(s.substr(a, b - a)); a = b + 1; }
  return v;
}
}
