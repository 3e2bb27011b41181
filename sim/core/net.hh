#pragma once
#include "sim.hh"
#include <deque>
#include <memory>
namespace sim { namespace net {
struct Endpoint;
typedef std::shared_ptr<Endpoint> EpPtr;
struct Endpoint {
  uint64_t id = 0;
  int node = 0;
  int inc = 0;
  std::string remoteHost;        // host name this endpoint sees for its peer
  std::weak_ptr<Endpoint> peer;
  int peerNode = 0;
  std::string rx;                // delivered, unread bytes
  size_t rxOff = 0;
  bool eof = false, reset = false, closed = false, wrShut = false;
  Time lastDelivery = 0;         // FIFO of the direction this -> peer
  size_t inFlight = 0;           // bytes sent, not yet delivered to the peer's rx
  std::map<uint64_t, std::pair<int, std::string>> held;  // by position; blocked by a partition: (kind 0 data,1 eof,2 rst)
  std::map<uint64_t, std::pair<int, std::string>> ooo;   // arrived early, waiting for an earlier segment
  uint64_t txSeq = 0, rxSeq = 0; size_t heldBytes = 0, oooBytes = 0; bool cut = false, goneUnsaid = false;
  Time heldSince = 0;
  std::function<void()> onReadable;
  bool readable() const { return rxOff < rx.size() || eof || reset; }
};
struct Config {
  Time latMin = 50 * US, latJit = 400 * US;
  double pSlow = 0;              // chance of a slow segment
  Time slowMax = 200 * MS;
  double pSplit = 0.1;           // chance that a send is segmented
  size_t sndBuf = 4 << 20;
  Time rtoReset = 15 * SEC;      // blocked that long with data pending: connection times out
  Time connectTimeout = 5 * SEC;
};
extern Config cfg;
void init();
// listeners
typedef std::function<void(EpPtr)> AcceptFn;
void listen(int node, int port, AcceptFn fn);
void unlisten(int node, int port);
// blocking connect; host is "n<k>"; clientHost: the name the server sees
EpPtr connect(int fromNode, const std::string& host, int port, const std::string& clientHost, Time timeout, const bool* stop = nullptr);
int nodeOfHost(const std::string& host);   // -1 unknown
std::string hostOfNode(int node);
// >0 bytes, 0 eof, -EAGAIN, -ECONNRESET
long recv(const EpPtr& e, char* buf, size_t n);
long send(const EpPtr& e, const char* buf, size_t n);
void close(const EpPtr& e);     // orderly
void shutdownEp(const EpPtr& e);
void resetConn(const EpPtr& e);
// faults
void block(int a, int b, bool on);        // directed
bool blocked(int a, int b);
void noConnect(int a, int b, bool on);
void healAll();
void slowLink(int a, int b, Time extra);  // 0 = normal
void resetAll(int a, int b);              // drop every connection between a and b
uint64_t delivered();
size_t pending(const EpPtr& e);           // bytes sent, not yet read by the peer
int descriptor(const EpPtr& e);           // number usable with poll() (for writing)
extern std::function<void(int from, int to, const std::string&)> tap;
}}
