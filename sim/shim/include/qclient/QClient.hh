// Simulated qclient: same observable contract as the real library for the parts QuarkDB uses
// (pipelined RESP client on its own thread, handshake chain, NoRetries), over the simulated network.
#pragma once
#include <atomic>
#include <chrono>
#include <functional>
#include <future>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <string_view>
#include <vector>
#include <list>
#include <deque>
#include <iostream>
#include <cstring>
#include <fcntl.h>
#include <unistd.h>
#include <sys/socket.h>
#include "qclient/Logger.hh"
#include "qclient/TlsFilter.hh"

#define REDIS_REPLY_STRING 1
#define REDIS_REPLY_ARRAY 2
#define REDIS_REPLY_INTEGER 3
#define REDIS_REPLY_NIL 4
#define REDIS_REPLY_STATUS 5
#define REDIS_REPLY_ERROR 6
#define REDIS_REPLY_PUSH 7

struct redisReply {
  int type = 0;
  long long integer = 0;
  size_t len = 0;
  char* str = nullptr;
  size_t elements = 0;
  redisReply** element = nullptr;
  std::string buf;
  std::vector<std::unique_ptr<redisReply>> kids;
  std::vector<redisReply*> kidPtrs;
  void seal() {
    str = buf.data(); len = buf.size();
    kidPtrs.clear();
    for (auto& k : kids) { k->seal(); kidPtrs.push_back(k.get()); }
    elements = kidPtrs.size(); element = kidPtrs.data();
  }
};

namespace qclient {
using redisReplyPtr = std::shared_ptr<redisReply>;
std::string describeRedisReply(const redisReply* r, const std::string& prefix = "");
std::string describeRedisReply(const redisReplyPtr& r);
// incremental RESP reader: 1 complete reply, 0 need more data, -1 protocol error
int parseReply(const std::string& buf, size_t& off, std::unique_ptr<redisReply>& out);

class Handshake {
public:
  enum class Status { INVALID = 0, VALID_INCOMPLETE, VALID_COMPLETE };
  virtual ~Handshake() {}
  virtual std::vector<std::string> provideHandshake() = 0;
  virtual Status validateResponse(const redisReplyPtr& reply) = 0;
  virtual void restart() = 0;
  virtual std::unique_ptr<Handshake> clone() const = 0;
};
class SetClientNameHandshake : public Handshake {
public:
  SetClientNameHandshake(const std::string& n) : name(n) {}
  std::vector<std::string> provideHandshake() override { return {"CLIENT", "SETNAME", name}; }
  Status validateResponse(const redisReplyPtr& r) override { (void)r; return Status::VALID_COMPLETE; }
  void restart() override {}
  std::unique_ptr<Handshake> clone() const override { return std::unique_ptr<Handshake>(new SetClientNameHandshake(name)); }
private:
  std::string name;
};
class RetryStrategy {
public:
  static RetryStrategy NoRetries() { return RetryStrategy(); }
  static RetryStrategy InfiniteRetries() { RetryStrategy r; return r; }
};
class BackpressureStrategy {
public:
  static BackpressureStrategy Default() { return BackpressureStrategy(); }
};
class Options {
public:
  bool transparentRedirects = false;
  RetryStrategy retryStrategy;
  BackpressureStrategy backpressureStrategy;
  TlsConfig tlsconfig;
  std::shared_ptr<Logger> logger;
  std::vector<std::unique_ptr<Handshake>> handshakes;
  void chainHandshake(std::unique_ptr<Handshake> h) { handshakes.emplace_back(std::move(h)); }
  void chainHmacHandshake(const std::string& password);
};
struct QClientImpl;
class QClient {
public:
  QClient(const std::string& host, int port, Options&& opts);
  ~QClient();
  QClient(const QClient&) = delete;
  std::future<redisReplyPtr> executeStrings(std::vector<std::string>&& req);
  template <typename C> std::future<redisReplyPtr> execute(const C& c) {
    std::vector<std::string> v;
    for (auto it = c.begin(); it != c.end(); ++it) v.emplace_back(std::string(it->data(), it->size()));
    return executeStrings(std::move(v));
  }
  template <typename... A> std::future<redisReplyPtr> exec(const A&... a) {
    std::vector<std::string> v{std::string(a)...};
    return executeStrings(std::move(v));
  }
private:
  std::shared_ptr<QClientImpl> impl;
};
// harness tap: sees every request/reply pair which completes on a connection made by node `from`
extern std::function<void(int from, const std::string& host, const std::vector<std::string>& req, const redisReplyPtr& rep)> simTap;
}
using qclient::redisReplyPtr;
