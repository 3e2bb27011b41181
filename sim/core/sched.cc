#include "sim.hh"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <csignal>
#include <deque>
#include <queue>
#include <mutex>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <sys/mman.h>
#include <unistd.h>
#include <dlfcn.h>
#include "internal.hh"

namespace sim {

// ------------------------------------------------------------------ rng
static uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
void Rng::seed(uint64_t x) { s[0] = splitmix(x); s[1] = splitmix(x); }
uint64_t Rng::next() {
  uint64_t a = s[0], b = s[1];
  s[0] = b;
  a ^= a << 23;
  s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
  return s[1] + b;
}
uint64_t strHash(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return h;
}
uint64_t mixSeed(uint64_t a, const char* tag) {
  uint64_t x = a ^ strHash(tag);
  return splitmix(x);
}
Rng rngSched, rngNet, rngFault, rngWork, rngMisc;

// ------------------------------------------------------------------ knobs
static std::map<std::string, std::string>& K() { static auto* m = new std::map<std::string, std::string>; return *m; }
void setKnob(const std::string& k, const std::string& v) { K()[k] = v; }
double knob(const char* k, double d) {
  auto it = K().find(k);
  return it == K().end() ? d : atof(it->second.c_str());
}
std::string knobStr(const char* k, const std::string& d) {
  auto it = K().find(k);
  return it == K().end() ? d : it->second;
}
const std::map<std::string, std::string>& knobs() { return K(); }

// ------------------------------------------------------------------ state
long g_countdown = 1 << 30;
Fiber* g_cur = nullptr;
int g_nopreempt = 0;
long g_wAtomic = 100, g_wSync = 1000;
bool g_abortIsViolation = true;
bool g_abortAllowed[64] = {};

static Time g_now = 1000000 * SEC;  // arbitrary epoch far from zero
static uint64_t g_switches = 0, g_steps = 0, g_lastProgress = 0;
static long g_quantum = 0, g_mean = 10000;
static int g_strategy = 0;
static double g_nsPerUnit = 2;
static long g_spinLimit = 400000;
static uint64_t g_maxSwitches = 30000000;
static double g_pStall = 0;
static uint64_t g_hash = 1469598103934665603ULL, g_schedHash = 1469598103934665603ULL;
static std::set<uint64_t>* g_states;
static std::vector<Fiber*>* g_fibers;
static std::vector<Fiber*>* g_run;
static std::map<const void*, std::vector<Fiber*>>* g_wait;
static std::vector<char*>* g_freeStacks;
static Fiber* g_main;
static char* g_zombieStack;
static void* g_rootSp;
static int g_nextFiber = 0;
static uint64_t g_seq = 0;
int g_resultFd = 1;
static int g_hashLogFd = -1;

struct Timer {
  Time t; uint64_t seq; Fiber* f; std::function<void()> cb;
};
struct TimerCmp { bool operator()(const Timer* a, const Timer* b) const { return a->t != b->t ? a->t > b->t : a->seq > b->seq; } };
static std::priority_queue<Timer*, std::vector<Timer*>, TimerCmp>* g_timers;

Time now() { return g_now; }
uint64_t switches() { return g_switches; }
uint64_t steps() { return g_steps; }
uint64_t runHash() { return g_hash; }
uint64_t schedHash() { return g_schedHash; }
void mixHash(uint64_t x) {
  g_hash ^= x; g_hash *= 1099511628211ULL; g_hash ^= g_hash >> 29;
}
void setHashLog(int fd) { g_hashLogFd = fd; }
void stateSample(uint64_t h) { if (g_states->size() < 100000) g_states->insert(h); }

// ------------------------------------------------------------------ accounting
static std::map<std::string, uint64_t>& FC() { static auto* m = new std::map<std::string, uint64_t>; return *m; }
static std::map<std::string, uint64_t>& PC() { static auto* m = new std::map<std::string, uint64_t>; return *m; }
void countFault(const char* k) { FC()[k]++; mixHash(strHash(k)); }
void countProbe(const std::string& k, uint64_t n) { PC()[k] += n; }
const std::map<std::string, uint64_t>& faultCounts() { return FC(); }
const std::map<std::string, uint64_t>& probeCounts() { return PC(); }

static std::map<std::string, std::string>& NT() { static auto* m = new std::map<std::string, std::string>; return *m; }
void note(const std::string& k, const std::string& v) { NT()[k] = v; }

std::string fmt(const char* f, ...) {
  char buf[8192];
  va_list ap; va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}
std::string escape(const std::string& s, size_t maxLen) {
  std::string o;
  for (unsigned char c : s) {
    if (o.size() >= maxLen) { o += "...(" + std::to_string(s.size()) + ")"; break; }
    if (c == '\\') o += "\\\\";
    else if (c >= 32 && c < 127) o += (char)c;
    else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
  }
  return o;
}

// log of the code under test (std::cerr) and of the simulator: ring of the last lines
static std::deque<std::string>* g_log;
static bool g_traceAll = false;
static std::string* g_partial;
void setTraceAll(bool on) { g_traceAll = on; }
static size_t g_logMax = 600;
static void addLine(const std::string& l) {
  std::string line = fmt("[%.6f n%d f%d] ", (g_now - 1000000 * SEC) / 1e9, curNode(), g_cur ? g_cur->id : -1) + l;
  if (g_traceAll) { std::string x = line + "\n"; (void)!::write(2, x.data(), x.size()); }
  g_log->push_back(line);
  if (g_log->size() > g_logMax) g_log->pop_front();
}
void trace(const std::string& l) { NoPreempt np; addLine(l); }
void appendLog(const char* s, size_t n) {
  NoPreempt np;
  for (size_t i = 0; i < n; i++) {
    if (s[i] == '\n') { addLine(*g_partial); g_partial->clear(); }
    else if (g_partial->size() < 400) *g_partial += s[i];
  }
}

// ------------------------------------------------------------------ results
static void rwrite(const std::string& s) {
  size_t off = 0;
  while (off < s.size()) {
    ssize_t r = ::write(g_resultFd, s.data() + off, s.size() - off);
    if (r <= 0) break;
    off += r;
  }
}
static std::string oneLine(const std::string& s) {
  std::string o;
  for (char c : s) o += (c == '\n' || c == '\r') ? ' ' : c;
  return o;
}
static void emitStats(std::string& o) {
  o += fmt("hash %016llx\nsched %016llx\nswitches %llu\nsteps %llu\nsimtime %.6f\nstates %zu\nfibers %d\n", (unsigned long long)g_hash,
           (unsigned long long)g_schedHash, (unsigned long long)g_switches, (unsigned long long)g_steps,
           (g_now - 1000000 * SEC) / 1e9, g_states->size(), g_nextFiber);
  int n = 0;
  for (auto h : *g_states) { if (n++ >= 40) break; o += fmt("state %016llx\n", (unsigned long long)h); }
  for (auto& f : FC()) o += "fault " + f.first + " " + std::to_string(f.second) + "\n";
  for (auto& f : PC()) o += "probe " + f.first + " " + std::to_string(f.second) + "\n";
  for (auto& f : NT()) o += "note " + f.first + " " + oneLine(f.second) + "\n";
}
[[noreturn]] static void endProcess(const std::string& head, bool withLog) {
  g_nopreempt++;
  std::string o = head;
  emitStats(o);
  if (withLog) for (auto& l : *g_log) o += "log " + oneLine(l) + "\n";
  o += "END\n";
  rwrite(o);
  realExit(0);
}
static std::string stackOf(Fiber* f) {
  std::string o;
  if (f == g_cur) return "(running)";
  uintptr_t lo = (uintptr_t)f->stack, hi = lo + f->stackSize;
  uintptr_t sp = (uintptr_t)f->sp;
  uintptr_t bp = *(uintptr_t*)(sp + 40), ip = *(uintptr_t*)(sp + 48);
  for (int i = 0; i < 40; i++) {
    Dl_info di;
    if (dladdr((void*)ip, &di) && di.dli_sname) {
      int st = 0;
      char* d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
      std::string n = st == 0 && d ? d : di.dli_sname;
      size_t p = n.find('(');
      if (p != std::string::npos && p > 0) n = n.substr(0, p);
      if (n.compare(0, 5, "sim::") && n.compare(0, 5, "std::") && n.compare(0, 7, "pthread") && n.compare(0, 9, "void std:")) o += (o.empty() ? "" : " < ") + n;
    } else o += fmt(" < %lx", (unsigned long)ip);
    if (bp < lo || bp + 16 > hi) break;
    ip = ((uintptr_t*)bp)[1];
    uintptr_t nb = *(uintptr_t*)bp;
    if (nb <= bp) break;
    bp = nb;
    if (o.size() > 600) break;
  }
  return o;
}
static std::string symbol(uintptr_t ip) {
  Dl_info di;
  if (!dladdr((void*)ip, &di) || !di.dli_sname) return fmt("%lx", (unsigned long)ip);
  int st = 0;
  char* d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
  std::string n = st == 0 && d ? d : di.dli_sname;
  size_t p = n.find('(');
  return p != std::string::npos && p > 0 ? n.substr(0, p) : n;
}
// call chain of the last exception thrown by the code under test, for the report of an uncaught one
static uintptr_t g_throwIp[16];
static int g_throwDepth = 0;
void noteThrow(uintptr_t bp) {
  Fiber* f = g_cur;
  g_throwDepth = 0;
  if (!f) return;
  uintptr_t lo = (uintptr_t)f->stack, hi = lo + f->stackSize;
  while (g_throwDepth < 16 && bp >= lo && bp + 16 <= hi) {
    g_throwIp[g_throwDepth++] = ((uintptr_t*)bp)[1];
    uintptr_t nb = *(uintptr_t*)bp;
    if (nb <= bp) break;
    bp = nb;
  }
}
static std::string throwSite() {
  std::string o;
  for (int i = 0; i < g_throwDepth && o.size() < 300; i++) { std::string n = symbol(g_throwIp[i]); if (n.find("quarkdb") != std::string::npos) o += (o.empty() ? "" : " < ") + n; }
  return o.empty() ? "" : " thrown in " + o;
}
static void describeThreads() {
  std::map<int, int> perNode;
  int shown = 0;
  for (Fiber* f : *g_fibers) {
    if (f->done || f->dead) continue;
    if (shown++ < 60)
      addLine(fmt("fiber %d node %d %s %s wait=%p sp=%p", f->id, f->node, f->name.c_str(), f->runIdx >= 0 ? "RUNNABLE" : "blocked", f->waitAddr, f->sp) + " timer=" + std::to_string(f->timerSeq) + " stack: " + stackOf(f));
  }
}
[[noreturn]] void violation(const std::string& cls, const std::string& msg) {
  g_nopreempt++;
  addLine("VIOLATION " + cls + ": " + msg);
  describeThreads();
  endProcess("outcome violation\nclass " + cls + "\nmsg " + oneLine(msg) + "\n", true);
}
[[noreturn]] void harnessError(const std::string& msg) {
  g_nopreempt++;
  addLine("HARNESS ERROR: " + msg);
  endProcess("outcome error\nclass harness\nmsg " + oneLine(msg) + "\n", true);
}
[[noreturn]] void finishRun(const char* outcome) {
  endProcess(std::string("outcome ") + outcome + "\n", knob("keeplog", 0) > 0);
}

// ------------------------------------------------------------------ context switch
extern "C" void sim_switch(void** save, void* load);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

static void runnableAdd(Fiber* f) {
  if (f->runIdx >= 0 || f->dead || f->done) return;
  f->runIdx = (int)g_run->size();
  g_run->push_back(f);
}
static void runnableDel(Fiber* f) {
  if (f->runIdx < 0) return;
  Fiber* last = g_run->back();
  (*g_run)[f->runIdx] = last;
  last->runIdx = f->runIdx;
  g_run->pop_back();
  f->runIdx = -1;
}
static void waitDel(Fiber* f) {
  if (!f->waitAddr) return;
  auto it = g_wait->find(f->waitAddr);
  if (it != g_wait->end()) {
    auto& v = it->second;
    for (size_t i = 0; i < v.size(); i++)
      if (v[i] == f) { v.erase(v.begin() + i); break; }
    if (v.empty()) g_wait->erase(it);
  }
  f->waitAddr = nullptr;
}
static void addTimer(Time t, Fiber* f, std::function<void()> cb) {
  Timer* tm = new Timer{t, ++g_seq, f, std::move(cb)};
  if (f) f->timerSeq = tm->seq;
  g_timers->push(tm);
}
void at(Time t, std::function<void()> cb) {
  NoPreempt np;
  addTimer(t < g_now ? g_now : t, nullptr, std::move(cb));
}
static void fiberWake(Fiber* f, bool timeout) {
  if (f->dead || f->done) return;
  waitDel(f);
  f->timedOut = timeout;
  f->timerSeq = 0;
  g_lastProgress = g_steps;
  runnableAdd(f);
}
static bool dropStale() {  // returns true if a live timer is on top
  while (!g_timers->empty()) {
    Timer* t = g_timers->top();
    if (t->f && (t->f->timerSeq != t->seq || t->f->dead || t->f->done)) { g_timers->pop(); delete t; continue; }
    return true;
  }
  return false;
}
static void fireTimers() {
  while (dropStale()) {
    Timer* t = g_timers->top();
    if (t->t > g_now) break;
    g_timers->pop();
    if (t->f) { bool st = t->f->stalled; t->f->stalled = false; fiberWake(t->f, st ? t->f->timedOut : true); }
    else { g_lastProgress = g_steps; t->cb(); }
    delete t;
  }
}

static long drawQuantum() {
  double u = rngSched.unit();
  if (u < 1e-9) u = 1e-9;
  double q = -__builtin_log(u) * g_mean;
  if (q < 1) q = 1;
  if (q > 1e8) q = 1e8;
  return (long)q;
}

static Fiber* choose() {
  Fiber* f;
  if (g_strategy == 1) {  // priority based
    f = (*g_run)[0];
    for (Fiber* x : *g_run) if (x->prio > f->prio) f = x;
    if (rngSched.chance(0.02)) f = (*g_run)[rngSched.below(g_run->size())];
  } else if (g_strategy == 2) {  // biased towards recently created/unblocked
    f = rngSched.chance(0.5) ? g_run->back() : (*g_run)[rngSched.below(g_run->size())];
  } else {
    f = (*g_run)[rngSched.below(g_run->size())];
  }
  return f;
}

static void switchTo(Fiber* f) {
  f->ranAt = g_steps;
  g_switches++;
  if (g_switches > g_maxSwitches) finishRun("budget");
  g_quantum = g_countdown = drawQuantum();
  g_hash ^= (uint64_t)f->id * 0x9e3779b97f4a7c15ULL + (uint64_t)g_now; g_hash *= 1099511628211ULL; g_hash ^= g_hash >> 31;
  g_schedHash ^= (uint64_t)f->id; g_schedHash *= 1099511628211ULL;
  if (g_hashLogFd >= 0) { dprintf(g_hashLogFd, "%llu %d %lld %016llx\n", (unsigned long long)g_switches, f->id, (long long)g_now, (unsigned long long)g_hash); }
  if (f == g_cur) { g_nopreempt = 0; return; }
  Fiber* old = g_cur;
  if (old) {
    void** eg = (void**)abi::__cxa_get_globals();
    old->eh[0] = eg[0]; old->eh[1] = eg[1];
    old->onceCallable = std::__once_callable; old->onceCall = std::__once_call;
    old->err = errno;
  }
  {
    void** eg = (void**)abi::__cxa_get_globals();
    eg[0] = f->eh[0]; eg[1] = f->eh[1];
    std::__once_callable = f->onceCallable; std::__once_call = f->onceCall;
  }
  g_cur = f;
  g_nopreempt = 0;
  static void* trash;
  sim_switch(old ? &old->sp : &trash, f->sp);
  if (g_zombieStack) { g_freeStacks->push_back(g_zombieStack); g_zombieStack = nullptr; }
  errno = g_cur->err;
}

static void schedule() {
  // account the consumed part of the quantum
  long used = g_quantum - g_countdown;
  if (used < 0) used = 0;
  if (used > g_quantum + 100000) used = g_quantum + 100000;
  g_steps += used;
  g_now += (Time)(used * g_nsPerUnit) + 50 + (Time)rngSched.below(400);
  g_quantum = g_countdown = 0;
  g_nopreempt = 1;  // timer callbacks run here and must not re-enter the scheduler
  for (;;) {
    Fiber* starved = nullptr;
    fireTimers();
    if (!g_run->empty() && (long)(g_steps - g_lastProgress) > g_spinLimit) {
      // spinning: first everybody runnable gets a turn, then time passes up to the next timer
      for (Fiber* x : *g_run) if (x->ranAt < g_lastProgress && !(x->node != 0 && node(x->node).stalledUntil > g_now)) { starved = x; break; }
      if (starved) {}
      else if (dropStale() && g_timers->top()->t > g_now) { g_now = g_timers->top()->t; g_lastProgress = g_steps; continue; }
      else g_lastProgress = g_steps;
    }
    if (g_run->empty()) {
      if (!dropStale()) violation("deadlock", "no runnable thread and no timer left");
      g_now = g_timers->top()->t;
      continue;
    }
    Fiber* f = starved ? starved : choose();
    Node& nd = node(f->node);
    if (f->node != 0 && nd.stalledUntil > g_now) {
      runnableDel(f);
      f->stalled = true;
      addTimer(nd.stalledUntil, f, {});
      continue;
    }
    if (g_pStall > 0 && !f->isMain && f->node != 0 && rngSched.chance(g_pStall)) {
      // one thread is descheduled for a while
      runnableDel(f);
      Time d = (Time)(rngSched.unit() * rngSched.unit() * 300 * MS) + 10 * US;
      countFault("thread_stall");
      f->stalled = true;
      addTimer(g_now + d, f, {});
      continue;
    }
    runnableDel(f);
    switchTo(f);
    return;
  }
}

void slowPoint() {
  if (!g_cur || g_nopreempt) { g_quantum -= g_countdown; g_countdown = 200; g_quantum += 200; return; }
  if (g_strategy == 1) {
    if (rngSched.chance(0.1)) g_cur->prio = rngSched.next() >> (rngSched.chance(0.7) ? 8 : 0);
  }
  runnableAdd(g_cur);
  schedule();
}
void yieldNow() {
  if (!g_cur || g_nopreempt) return;
  if (g_strategy == 1) g_cur->prio = rngSched.next() >> 16;
  runnableAdd(g_cur);
  schedule();
}

bool blockOn(const void* addr, Time deadline) {
  Fiber* f = g_cur;
  if (!f) { fprintf(stderr, "blockOn outside of the simulation\n"); abort(); }
  if (g_nopreempt) harnessError("blockOn inside a non-preemptible section");
  f->waitAddr = addr;
  f->timedOut = false;
  f->timerSeq = 0;
  { NoPreempt np; (*g_wait)[addr].push_back(f); if (deadline != NEVER) addTimer(deadline < g_now ? g_now : deadline, f, {}); }
  g_lastProgress = g_steps;
  schedule();
  return !f->timedOut;
}
int wakeOne(const void* addr) {
  NoPreempt np;
  auto it = g_wait->find(addr);
  if (it == g_wait->end()) return 0;
  Fiber* f = it->second[rngSched.below(it->second.size())];
  fiberWake(f, false);
  return 1;
}
int wakeAll(const void* addr) {
  NoPreempt np;
  int n = 0;
  for (;;) {
    auto it = g_wait->find(addr);
    if (it == g_wait->end()) break;
    fiberWake(it->second[0], false);
    n++;
  }
  return n;
}
int waiterCount(const void* addr) {
  auto it = g_wait->find(addr);
  return it == g_wait->end() ? 0 : (int)it->second.size();
}
void sleepUntil(Time t) {
  static char sleepAddr[64];
  (void)sleepAddr;
  Fiber* f = g_cur;
  if (!f) return;
  if (t <= g_now) { yieldNow(); return; }
  blockOn(f, t);
}
bool waitUntil(const std::function<bool()>& pred, Time deadline, Time poll) {
  while (true) {
    { NoPreempt np; if (pred()) return true; }
    if (now() >= deadline) return false;
    Time t = now() + poll;
    sleepUntil(t < deadline ? t : deadline);
  }
}

// ------------------------------------------------------------------ fibers
static const uintptr_t STACK_BASE = 0x300000000000ULL;
static uintptr_t g_stackNext = STACK_BASE;
static const size_t STACK_SIZE = 512 * 1024;
static char* newStack(size_t sz) {
  if (sz == STACK_SIZE && !g_freeStacks->empty()) { char* s = g_freeStacks->back(); g_freeStacks->pop_back(); return s; }
  size_t guard = 64 * 1024;
  void* p = mmap((void*)g_stackNext, sz + guard, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap stack"); abort(); }
  mprotect(p, guard, PROT_NONE);
  g_stackNext += sz + guard;
  return (char*)p + guard;
}
[[noreturn]] void parkForever() {
  Fiber* f = g_cur;
  runnableDel(f);
  g_nopreempt = 0;
  g_lastProgress = g_steps;
  schedule();
  abort();
}
static void fiberEntry() {
  Fiber* f = g_cur;
  if (g_zombieStack) { g_freeStacks->push_back(g_zombieStack); g_zombieStack = nullptr; }
  g_nopreempt = 0;
  try {
    f->fn();
  } catch (const std::exception& e) {
    std::string m = std::string("uncaught exception: ") + e.what() + throwSite();
    nodeDied(m);
  } catch (...) {
    nodeDied("uncaught exception of unknown type");
  }
  f->fn = nullptr;
  f->done = true;
  if (!f->held.empty() && f->node) violation("sync-misuse", "thread " + f->name + " finished while holding a mutex");
  wakeAll((char*)f + 1);
  g_zombieStack = f->stack;  // reusable as soon as somebody else runs
  parkForever();
}
Fiber* spawn(std::function<void()> fn, const std::string& name, int nd) {
  NoPreempt np;
  Fiber* f = new Fiber;
  f->id = g_nextFiber++;
  f->node = nd;
  f->name = name;
  f->fn = std::move(fn);
  bool main = f->id == 0;
  f->isMain = main;
  f->stackSize = main ? (8 << 20) : STACK_SIZE;
  f->stack = newStack(f->stackSize);
  f->prio = rngSched.next();
  uintptr_t top = ((uintptr_t)f->stack + f->stackSize) & ~(uintptr_t)15;
  void** sp = (void**)top;
  *--sp = nullptr;               // fake return address keeps the ABI alignment
  *--sp = (void*)fiberEntry;     // ret target
  for (int i = 0; i < 6; i++) *--sp = nullptr;
  f->sp = sp;
  g_fibers->push_back(f);
  g_lastProgress = g_steps;
  runnableAdd(f);
  return f;
}
void joinFiber(Fiber* f) {
  while (!f->done && !f->dead) blockOn((char*)f + 1);
}

// ------------------------------------------------------------------ nodes
static std::map<int, Node*>& NM() { static auto* m = new std::map<int, Node*>; return *m; }
Node& node(int id) {
  Node*& n = NM()[id];
  if (!n) {
    NoPreempt np;
    n = new Node;
    n->id = id;
    n->baseSim = g_now;
    n->monoBase = g_now;
  }
  return *n;
}
std::vector<Node*> allNodes() {
  std::vector<Node*> v;
  for (auto& p : NM()) v.push_back(p.second);
  return v;
}
Time Node::mono() const { return monoBase + (Time)((double)(g_now - baseSim) * rate); }
Time Node::real() const { return mono() + realOffset; }
Time Node::monoToSim(Time t) const {
  Time d = t - mono();
  if (d <= 0) return g_now;
  double x = (double)d / rate;
  if (x > 1e18) return NEVER;
  return g_now + (Time)x + 1;
}
void setTimeRate(int id, double r) {
  Node& n = node(id);
  n.monoBase = n.mono();
  n.baseSim = g_now;
  n.rate = r;
}
static std::vector<std::function<void(int, bool)>>& downCbs() { static auto* v = new std::vector<std::function<void(int, bool)>>; return *v; }
static std::vector<std::function<void(int, const std::string&)>>& abortCbs() { static auto* v = new std::vector<std::function<void(int, const std::string&)>>; return *v; }
void onNodeDown(std::function<void(int, bool)> cb) { downCbs().push_back(std::move(cb)); }
void onNodeAbort(std::function<void(int, const std::string&)> cb) { abortCbs().push_back(std::move(cb)); }
void startNode(int id) {
  Node& n = node(id);
  n.alive = true;
  n.incarnation++;
  n.stalledUntil = 0;
  n.deathReason.clear();
}
void stallNode(int id, Time until) {
  Node& n = node(id);
  if (until > n.stalledUntil) n.stalledUntil = until;
  countFault("node_stall");
}
static void killFibers(int id) {
  for (Fiber* f : *g_fibers) {
    if (f->node != id || f->dead || f->done) continue;
    f->dead = true;
    runnableDel(f);
    waitDel(f);
    f->timerSeq = 0;
    std::vector<void*> held = f->held, guards = f->guards;
    f->held.clear(); f->guards.clear();
    for (void* m : held) forceUnlock(m);
    for (void* g : guards) forceGuardAbort(g);
    wakeAll((char*)f + 1);
    // the stack stays mapped: live objects of the dead process may be referenced by sim structures
  }
}
void killNode(int id, bool powerLoss) {
  bool self = false;
  {
    NoPreempt np;
    Node& n = node(id);
    if (!n.alive) return;
    n.alive = false;
    trace(fmt("node %d %s", id, powerLoss ? "POWER LOSS" : "killed"));
    countFault(powerLoss ? "power_loss" : "crash");
    self = g_cur && g_cur->node == id;
    killFibers(id);
    for (auto& c : downCbs()) c(id, powerLoss);
  }
  if (self) parkForever();
}
void stopNode(int id) {
  NoPreempt np;
  Node& n = node(id);
  if (!n.alive) return;
  n.alive = false;
  trace(fmt("node %d process ended", id));
  killFibers(id);
  for (auto& c : downCbs()) c(id, false);
}
int liveThreads(int id, std::string* names) {
  int k = 0;
  for (Fiber* f : *g_fibers) {
    if (f->node != id || f->dead || f->done) continue;
    k++;
    if (names) *names += f->name + "#" + std::to_string(f->id) + " ";
  }
  return k;
}
[[noreturn]] void nodeDied(const std::string& reason) {
  int id = curNode();
  g_nopreempt++;
  addLine("NODE DIED: " + reason);
  if (id == 0) harnessError("harness thread died: " + reason);
  Node& n = node(id);
  n.deathReason = reason;
  if (g_abortIsViolation && !g_abortAllowed[id & 63]) {
    std::string cls = "node-abort";
    violation(cls, fmt("node %d terminated: %s", id, reason.c_str()));
  }
  countProbe("node_abort_tolerated");
  n.alive = false;
  Fiber* self = g_cur;
  self->dead = false;
  killFibers(id);
  for (auto& c : downCbs()) c(id, false);
  for (auto& c : abortCbs()) c(id, reason);
  parkForever();
}

// ------------------------------------------------------------------ crash points
struct Armed { uint64_t at; bool power; std::function<void()> cb; };
static std::map<int, uint64_t>& ioCounts() { static auto* m = new std::map<int, uint64_t>; return *m; }
static std::map<int, Armed>& armed();
void disarmCrash(int n) { armed().erase(n); }
static std::map<int, Armed>& armed() { static auto* m = new std::map<int, Armed>; return *m; }
uint64_t ioCount(int n) { return ioCounts()[n]; }
void armCrash(int n, uint64_t afterIos, bool power, std::function<void()> cb) {
  NoPreempt np;
  armed()[n] = Armed{ioCounts()[n] + afterIos, power, std::move(cb)};
}
void ioPoint(int n, const char* what) {
  if (n == 0) return;
  bool kill = false, power = false;
  std::function<void()> cb;
  {
    NoPreempt np;
    uint64_t c = ++ioCounts()[n];
    auto it = armed().find(n);
    if (it != armed().end() && c >= it->second.at && node(n).alive) {
      kill = true; power = it->second.power; cb = std::move(it->second.cb);
      armed().erase(it);
      trace(fmt("crash point hit at io %llu (%s)", (unsigned long long)c, what));
      countFault("crash_at_io");
      countProbe(std::string("crash_at_io_") + what);
    }
  }
  if (kill) {
    if (cb) cb();
    killNode(n, power);
  }
}

// ------------------------------------------------------------------ termination of the code under test
static void onTerminate() {
  std::string m = "std::terminate";
  if (std::exception_ptr ep = std::current_exception()) {
    try { std::rethrow_exception(ep); }
    catch (const std::exception& e) { m += std::string(": ") + e.what(); }
    catch (...) { m += ": unknown exception"; }
  }
  if (!g_cur) { fprintf(stderr, "%s outside simulation\n", m.c_str()); realExit(3); }
  nodeDied(m);
}
static void onSignal(int sig, siginfo_t* si, void* uc) {
  (void)uc;
  static int depth = 0;
  if (depth++ > 20) realExit(3);
  if (!g_cur) { fprintf(stderr, "signal %d outside simulation\n", sig); realExit(3); }
  g_nopreempt = 0;
  std::string m = fmt("signal %d (%s)%s", sig, sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : "other",
                      sig == SIGSEGV ? fmt(" at address %p", si->si_addr).c_str() : "");
  nodeDied(m);
}

int runMain(uint64_t seed, const std::function<void()>& mainFn) {
  g_states = new std::set<uint64_t>;
  g_fibers = new std::vector<Fiber*>;
  g_run = new std::vector<Fiber*>;
  g_wait = new std::map<const void*, std::vector<Fiber*>>;
  g_freeStacks = new std::vector<char*>;
  g_timers = new std::priority_queue<Timer*, std::vector<Timer*>, TimerCmp>;
  g_log = new std::deque<std::string>;
  g_partial = new std::string;
  g_logMax = (size_t)knob("logmax", 600);
  rngSched.seed(mixSeed(seed, "sched"));
  rngNet.seed(mixSeed(seed, "net"));
  rngFault.seed(mixSeed(seed, "fault"));
  rngWork.seed(mixSeed(seed, "work"));
  rngMisc.seed(mixSeed(seed, "misc"));
  // schedule knobs: swarm drawn from the seed, unless the plan pins them
  Rng r; r.seed(mixSeed(seed, "schedknobs"));
  static const long means[] = {300, 2000, 10000, 40000, 200000};
  g_mean = (long)knob("sched.mean", (double)means[r.below(5)]);
  static const long wa[] = {1, 30, 300, 3000};
  g_wAtomic = (long)knob("sched.watomic", (double)wa[r.below(4)]);
  static const long ws[] = {10, 300, 3000, 30000};
  g_wSync = (long)knob("sched.wsync", (double)ws[r.below(4)]);
  g_strategy = (int)knob("sched.strategy", (double)r.below(3));
  g_nsPerUnit = knob("sched.nsperunit", r.chance(0.3) ? 10 : 1.5);
  g_pStall = knob("sched.pstall", r.chance(0.2) ? 0.0005 : 0);
  g_maxSwitches = (uint64_t)knob("sched.maxswitches", 20e6);
  g_spinLimit = (long)knob("sched.spinlimit", 400000) + 300 * g_wSync + 300 * g_wAtomic;

  std::set_terminate(onTerminate);
  stack_t ss; memset(&ss, 0, sizeof ss);
  ss.ss_size = 256 * 1024;
  ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = onSignal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
  node(0).alive = true;
  g_main = spawn([&] { mainFn(); finishRun("ok"); }, "main", 0);
  schedule();
  return 0;
}
}  // namespace sim
