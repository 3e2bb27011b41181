#include "qclient/QClient.hh"
#include "../core/net.hh"
#include "../core/sim.hh"
#include <openssl/hmac.h>
#include <openssl/sha.h>
#include <cerrno>
using namespace sim;
namespace qclient {
std::function<void(int, const std::string&, const std::vector<std::string>&, const redisReplyPtr&)> simTap;

static int parseAt(const std::string& b, size_t& p, std::unique_ptr<redisReply>& out, int depth) {
  if (depth > 8) return -1;
  if (p >= b.size()) return 0;
  char t = b[p];
  size_t e = b.find("\r\n", p);
  if (e == std::string::npos) return b.size() - p > (1 << 20) && (t == ':' || t == '$' || t == '*') ? -1 : 0;
  std::string line = b.substr(p + 1, e - p - 1);
  size_t q = e + 2;
  auto r = std::make_unique<redisReply>();
  switch (t) {
    case '+': r->type = REDIS_REPLY_STATUS; r->buf = line; break;
    case '-': r->type = REDIS_REPLY_ERROR; r->buf = line; break;
    case ':': {
      char* end; r->type = REDIS_REPLY_INTEGER; r->integer = strtoll(line.c_str(), &end, 10);
      if (*end || line.empty()) return -1;
      break;
    }
    case '$': {
      char* end; long long n = strtoll(line.c_str(), &end, 10);
      if (*end || line.empty() || n < -1) return -1;
      if (n == -1) { r->type = REDIS_REPLY_NIL; break; }
      if (b.size() < q + n + 2) return 0;
      r->type = REDIS_REPLY_STRING; r->buf = b.substr(q, n);
      if (b[q + n] != '\r' || b[q + n + 1] != '\n') return -1;
      q += n + 2;
      break;
    }
    case '*': case '>': {
      char* end; long long n = strtoll(line.c_str(), &end, 10);
      if (*end || line.empty() || n < -1) return -1;
      if (n == -1) { r->type = REDIS_REPLY_NIL; break; }
      r->type = t == '*' ? REDIS_REPLY_ARRAY : REDIS_REPLY_PUSH;
      for (long long i = 0; i < n; i++) {
        std::unique_ptr<redisReply> k;
        int rc = parseAt(b, q, k, depth + 1);
        if (rc != 1) return rc;
        r->kids.emplace_back(std::move(k));
      }
      break;
    }
    default: return -1;
  }
  p = q;
  out = std::move(r);
  return 1;
}
int parseReply(const std::string& b, size_t& off, std::unique_ptr<redisReply>& out) {
  size_t p = off;
  int rc = parseAt(b, p, out, 0);
  if (rc == 1) { out->seal(); off = p; }
  return rc;
}
std::string describeRedisReply(const redisReply* r, const std::string& pre) {
  if (!r) return "nullptr";
  switch (r->type) {
    case REDIS_REPLY_NIL: return pre + "(nil)";
    case REDIS_REPLY_INTEGER: return pre + "(integer) " + std::to_string(r->integer);
    case REDIS_REPLY_ERROR: return pre + "(error) " + r->buf;
    case REDIS_REPLY_STATUS: return pre + r->buf;
    case REDIS_REPLY_STRING: return pre + "\"" + r->buf + "\"";
    default: {
      std::string s;
      for (size_t i = 0; i < r->elements; i++) s += pre + std::to_string(i + 1) + ") " + describeRedisReply(r->element[i], "") + "\n";
      return s.empty() ? "(empty list or set)" : s;
    }
  }
}
std::string describeRedisReply(const redisReplyPtr& r) { return describeRedisReply(r.get(), ""); }

class HmacHandshake : public Handshake {
public:
  HmacHandshake(const std::string& p) : pw(p) { restart(); }
  std::vector<std::string> provideHandshake() override {
    if (!sent) { sent = true; return {"HMAC_AUTH_GENERATE_CHALLENGE", rnd}; }
    std::string sig(SHA256_DIGEST_LENGTH, '\0');
    unsigned n = SHA256_DIGEST_LENGTH;
    HMAC(EVP_sha256(), pw.data(), (int)pw.size(), (const unsigned char*)challenge.data(), challenge.size(), (unsigned char*)sig.data(), &n);
    return {"HMAC_AUTH_VALIDATE_CHALLENGE", sig};
  }
  Status validateResponse(const redisReplyPtr& r) override {
    if (!r) return Status::INVALID;
    if (challenge.empty()) {
      if (r->type == REDIS_REPLY_ERROR && r->buf.find("no password is set") != std::string::npos) return Status::VALID_COMPLETE;
      if (r->type != REDIS_REPLY_STRING || r->len <= 64 || r->buf.substr(0, 64) != rnd) return Status::INVALID;
      challenge = r->buf;
      return Status::VALID_INCOMPLETE;
    }
    if (r->type != REDIS_REPLY_STATUS || r->buf != "OK") return Status::INVALID;
    return Status::VALID_COMPLETE;
  }
  void restart() override {
    sent = false; challenge.clear(); rnd.clear();
    for (int i = 0; i < 64; i++) rnd += (char)rngMisc.next();
  }
  std::unique_ptr<Handshake> clone() const override { return std::unique_ptr<Handshake>(new HmacHandshake(pw)); }
private:
  std::string pw, rnd, challenge;
  bool sent = false;
};
void Options::chainHmacHandshake(const std::string& p) {
  if (!p.empty()) handshakes.emplace_back(new HmacHandshake(p));
}

struct Pending { std::vector<std::string> req; std::promise<redisReplyPtr> prom; bool sent = false; };
struct QClientImpl {
  std::string host; int port; Options opts; int node;
  bool stop = false;
  Fiber* fiber = nullptr;
  std::deque<std::shared_ptr<Pending>> q;
  net::EpPtr ep;

  void failAll() {
    std::deque<std::shared_ptr<Pending>> x;
    { NoPreempt np; x.swap(q); }
    for (auto& p : x) { if (simTap) simTap(node, host, p->req, nullptr); p->prom.set_value(redisReplyPtr()); }
  }
  static std::string encode(const std::vector<std::string>& r) {
    std::string o = "*" + std::to_string(r.size()) + "\r\n";
    for (auto& s : r) o += "$" + std::to_string(s.size()) + "\r\n" + s + "\r\n";
    return o;
  }
  bool sendAll(const std::string& d) {
    size_t off = 0;
    while (off < d.size() && !stop) {
      long n = net::send(ep, d.data() + off, d.size() - off);
      if (n == -EAGAIN) { blockOn(ep.get(), now() + MS); continue; }
      if (n < 0) return false;
      off += (size_t)n;
    }
    return !stop;
  }
  std::string buf; size_t off = 0;
  // 1 reply, 0 nothing now, -1 connection unusable
  int next(std::unique_ptr<redisReply>& out) {
    for (;;) {
      int rc = parseReply(buf, off, out);
      if (rc == 1) { if (off > 65536) { buf.erase(0, off); off = 0; } return 1; }
      if (rc < 0) { trace("qclient: protocol error from " + host + ": " + escape(buf.substr(off), 60)); return -1; }
      char tmp[65536];
      long n = net::recv(ep, tmp, sizeof tmp);
      if (n == -EAGAIN) return 0;
      if (n <= 0) return -1;
      buf.append(tmp, (size_t)n);
    }
  }
  void run() {
    Time backoff = MS;
    while (!stop) {
      buf.clear(); off = 0;
      net::EpPtr e = net::connect(node, host, port, net::hostOfNode(node), net::cfg.connectTimeout, &stop);
      if (stop) { if (e) net::close(e); break; }
      bool established = false;
      if (e) {
        ep = e;
        bool ok = true;
        for (auto& h : opts.handshakes) {
          h->restart();
          for (;;) {
            if (!sendAll(encode(h->provideHandshake()))) { ok = false; break; }
            std::unique_ptr<redisReply> r;
            int rc;
            while ((rc = next(r)) == 0 && !stop) blockOn(ep.get(), now() + 100 * MS);
            if (rc != 1 || stop) { ok = false; break; }
            auto st = h->validateResponse(redisReplyPtr(r.release()));
            if (st == Handshake::Status::INVALID) { countProbe("qclient_handshake_rejected"); ok = false; break; }
            if (st == Handshake::Status::VALID_COMPLETE) break;
          }
          if (!ok) break;
        }
        established = ok;
        while (ok && !stop) {
          backoff = MS;
          for (size_t i = 0; i < q.size() && ok; i++)
            if (!q[i]->sent) { auto p = q[i]; p->sent = true; ok = sendAll(encode(p->req)); }
          if (!ok || stop) break;
          std::unique_ptr<redisReply> r;
          int rc = next(r);
          if (rc < 0) break;
          if (rc == 1) {
            if (r->type == REDIS_REPLY_PUSH) continue;
            if (q.empty() || !q.front()->sent) { trace("qclient: unsolicited reply"); break; }
            std::shared_ptr<Pending> p;
            { NoPreempt np; p = q.front(); q.pop_front(); }
            redisReplyPtr rp(r.release());
            if (simTap) simTap(node, host, p->req, rp);
            p->prom.set_value(rp);
            continue;
          }
          bool pending = false;
          for (auto& p : q) if (!p->sent) pending = true;
          if (!pending && !stop) blockOn(ep.get());
        }
        net::close(ep);
        ep.reset();
      }
      failAll();
      if (stop) break;
      (void)established;
      Node& n = sim::node(node);
      blockOn(this, n.monoToSim(n.mono() + backoff));
      backoff = backoff * 2 > 500 * MS ? 500 * MS : backoff * 2;
    }
    failAll();
  }
  void kick() { if (ep) wakeAll(ep.get()); }
};
QClient::QClient(const std::string& host, int port, Options&& o) : impl(std::make_shared<QClientImpl>()) {
  impl->host = host; impl->port = port; impl->opts = std::move(o); impl->node = curNode();
  auto i = impl;
  impl->fiber = spawn([i] { i->run(); }, "qclient-" + host, curNode());
}
QClient::~QClient() {
  { NoPreempt np; impl->stop = true; impl->kick(); wakeAll(impl.get()); }
  while (!impl->fiber->done && !impl->fiber->dead) {
    blockOn((char*)impl->fiber + 1, now() + 5 * MS);
    impl->kick();
    if (impl->ep == nullptr) wakeAll(impl.get());
  }
}
std::future<redisReplyPtr> QClient::executeStrings(std::vector<std::string>&& req) {
  std::future<redisReplyPtr> f;
  {
    NoPreempt np;
    auto p = std::make_shared<Pending>();
    p->req = std::move(req);
    f = p->prom.get_future();
    impl->q.push_back(p);
    impl->kick();
  }
  syncPoint();
  return f;
}
}
