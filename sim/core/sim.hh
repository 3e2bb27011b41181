// Deterministic simulator core: fibers, virtual time, seeded scheduler.
// One real thread; every std::thread/mutex/condvar/clock/file/socket of the code under test
// is routed here by the interposers.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {

typedef int64_t Time;  // nanoseconds of virtual time
constexpr Time US = 1000, MS = 1000 * US, SEC = 1000 * MS;
constexpr Time NEVER = INT64_MAX;

struct Rng {
  uint64_t s[2];
  void seed(uint64_t x);
  uint64_t next();
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return p > 0 && unit() < p; }
  template <class V> typename V::value_type pick(const V& v) { return v[below(v.size())]; }
};
uint64_t mixSeed(uint64_t a, const char* tag);

// ---- knobs: textual key=value, part of the plan -----------------------------------------
void setKnob(const std::string& k, const std::string& v);
double knob(const char* k, double dflt);
std::string knobStr(const char* k, const std::string& dflt);
const std::map<std::string, std::string>& knobs();

struct HeldLock;
struct Fiber {
  void* sp = nullptr;
  int id = 0, node = 0;
  bool done = false, detached = false, dead = false, inRunnable = false, isMain = false;
  int runIdx = -1;
  const void* waitAddr = nullptr;
  bool timedOut = false;
  bool stalled = false;      // descheduled by the simulator, not waiting
  uint64_t ranAt = 0;        // step count when it last got the processor
  uint64_t timerSeq = 0;
  Time resumeAt = 0;
  std::function<void()> fn;
  void* ret = nullptr;
  char* stack = nullptr;
  size_t stackSize = 0;
  uint64_t prio = 0;
  void* eh[2] = {nullptr, nullptr};
  void* onceCallable = nullptr;
  void (*onceCall)() = nullptr;
  int err = 0;
  std::vector<void*> held;      // mutexes currently owned
  std::vector<void*> guards;    // static-init guards / once flags in progress
  std::string name;
};

extern long g_countdown;
extern Fiber* g_cur;
extern int g_nopreempt;
extern long g_wAtomic, g_wSync;

void slowPoint();
inline void pointW(long w) { if ((g_countdown -= w) <= 0) slowPoint(); }
inline void plainPoint() { if (--g_countdown <= 0) slowPoint(); }
inline void atomicPoint() { pointW(g_wAtomic); }
inline void syncPoint() { pointW(g_wSync); }
void yieldNow();  // give up the processor (stay runnable)

struct NoPreempt {
  NoPreempt() { g_nopreempt++; }
  ~NoPreempt() { g_nopreempt--; }
};

inline Fiber* cur() { return g_cur; }
inline int curNode() { return g_cur ? g_cur->node : 0; }
Time now();

// ---- blocking ---------------------------------------------------------------------------
bool blockOn(const void* addr, Time deadline = NEVER);  // false on timeout
int wakeOne(const void* addr);
int wakeAll(const void* addr);
int waiterCount(const void* addr);
void sleepUntil(Time t);
inline void sleepFor(Time d) { sleepUntil(now() + d); }
bool waitUntil(const std::function<bool()>& pred, Time deadline, Time poll = MS);

Fiber* spawn(std::function<void()> fn, const std::string& name, int node);
void joinFiber(Fiber* f);

void at(Time t, std::function<void()> cb);  // callback on the scheduler, must not block
inline void after(Time d, std::function<void()> cb) { at(now() + d, std::move(cb)); }

// ---- nodes ------------------------------------------------------------------------------
struct Node {
  int id = 0;
  int incarnation = 0;
  bool alive = false;
  double rate = 1.0;           // clock rate relative to simulated time
  Time baseSim = 0, monoBase = 0, realOffset = 0;
  Time stalledUntil = 0;       // node frozen (SIGSTOP-like) until then
  int cores = 4;
  std::string deathReason;
  Time mono() const;
  Time real() const;
  Time monoToSim(Time t) const;
};
Node& node(int id);
std::vector<Node*> allNodes();
void startNode(int id);                       // marks alive, new incarnation
void killNode(int id, bool powerLoss);        // harness initiated crash
void stopNode(int id);                        // orderly end of the process
int liveThreads(int id, std::string* names = nullptr);
// called from code running on the node (exception, signal, exit): never returns
[[noreturn]] void nodeDied(const std::string& reason);
// callbacks: (node, powerLoss) run whenever a node goes down
void onNodeDown(std::function<void(int, bool)> cb);
void onNodeAbort(std::function<void(int, const std::string&)> cb);
void stallNode(int id, Time until);
// a scenario which expects a node to be able to die (disk errors) sets this
extern bool g_abortIsViolation;
extern bool g_abortAllowed[64];
void setTimeRate(int node, double rate);
[[noreturn]] void parkForever();

// ---- fault accounting -------------------------------------------------------------------
void countFault(const char* kind);
void countProbe(const std::string& probe, uint64_t n = 1);
const std::map<std::string, uint64_t>& faultCounts();
const std::map<std::string, uint64_t>& probeCounts();
void stateSample(uint64_t h);

// crash points: every durable-storage operation of a node passes here
void ioPoint(int node, const char* what);
struct CrashTrigger { int node; uint64_t ioCount; bool powerLoss; bool fired; };
void armCrash(int node, uint64_t afterIos, bool powerLoss, std::function<void()> cb = {});
void disarmCrash(int node);
uint64_t ioCount(int node);

// ---- hash / trace -----------------------------------------------------------------------
void mixHash(uint64_t x);
uint64_t runHash();
uint64_t schedHash();
uint64_t strHash(const std::string& s);
void trace(const std::string& line);  // stored in the ring of the last events (no effect on schedule)
void setTraceAll(bool on);
void setHashLog(int fd);

[[noreturn]] void violation(const std::string& cls, const std::string& msg);
[[noreturn]] void harnessError(const std::string& msg);
[[noreturn]] void finishRun(const char* outcome);
void note(const std::string& k, const std::string& v);

uint64_t switches();
uint64_t steps();

// entry
int runMain(uint64_t seed, const std::function<void()>& mainFn);

extern Rng rngSched, rngNet, rngFault, rngWork, rngMisc;
const std::string& logTail();
void appendLog(const char* s, size_t n);

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string escape(const std::string& s, size_t maxLen = 80);
}  // namespace sim

#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) sim::violation(cls, sim::fmt(__VA_ARGS__)); } while (0)
