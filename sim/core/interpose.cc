// Interposition of threads, synchronisation, time and process control.
// Everything here is compiled uninstrumented and is the only provider of these functions for the
// code under test (and for libstdc++, whose PLT calls resolve to the executable first).
#include "sim.hh"
#include "internal.hh"
#include <pthread.h>
#include <sched.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <ctime>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <dlfcn.h>
#include <atomic>
#include <thread>
#include <future>
#include <chrono>
#include <random>
#include <map>

using namespace sim;
extern "C" { extern char __data_start, _end; }

namespace sim {
[[noreturn]] void realExit(int code) {
  syscall(SYS_exit_group, code);
  __builtin_unreachable();
}
static inline int me() { return g_cur ? g_cur->id + 1 : 1; }
static void heldAdd(void* m) { if (g_cur) g_cur->held.push_back(m); }
static void heldDel(void* m) {
  if (!g_cur) return;
  auto& h = g_cur->held;
  for (size_t i = h.size(); i-- > 0;)
    if (h[i] == m) { h.erase(h.begin() + i); return; }
}
void forceUnlock(void* p) {
  uintptr_t t = (uintptr_t)p;
  if (t & 1) {  // rwlock
    pthread_rwlock_t* l = (pthread_rwlock_t*)(t & ~3ULL);
    if (t & 2) l->__data.__writers = 0;
    else if (l->__data.__readers) l->__data.__readers--;
    wakeAll(l);
    return;
  }
  pthread_mutex_t* m = (pthread_mutex_t*)p;
  m->__data.__lock = 0; m->__data.__owner = 0; m->__data.__count = 0;
  wakeAll(m);
}
void forceGuardAbort(void* g) { *(char*)g = 0; ((char*)g)[1] = 0; wakeAll(g); }
}  // namespace sim

extern "C" {
// ------------------------------------------------------------------ mutex
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  int kind = 0;
  if (a) pthread_mutexattr_gettype(a, &kind);
  memset(m, 0, sizeof *m);
  m->__data.__kind = kind;
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) { (void)m; return 0; }
// Process-wide mutexes (static data) would be one per process in a real deployment: every
// simulated node gets its own.

static pthread_mutex_t* perNode(pthread_mutex_t* m) {
  if ((char*)m < &__data_start || (char*)m >= &_end || !g_cur || !curNode()) return m;
  NoPreempt np;
  static std::map<std::pair<void*, int>, pthread_mutex_t*>* tab = nullptr;
  if (!tab) tab = new std::map<std::pair<void*, int>, pthread_mutex_t*>();
  pthread_mutex_t*& r = (*tab)[std::make_pair((void*)m, curNode())];
  if (!r) { r = (pthread_mutex_t*)calloc(1, sizeof *r); r->__data.__kind = m->__data.__kind; }
  return r;
}
static int lockMutex(pthread_mutex_t* m, Time deadline, bool tryOnly) {
  m = perNode(m);
  if (!g_cur) { m->__data.__lock = 1; m->__data.__owner = me(); return 0; }
  if (!g_nopreempt) syncPoint();
  for (;;) {
    if (!m->__data.__lock) {
      m->__data.__lock = 1; m->__data.__owner = me(); m->__data.__count = 1;
      NoPreempt np; heldAdd(m);
      return 0;
    }
    if (m->__data.__owner == me() && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) { m->__data.__count++; return 0; }
    if (tryOnly) return EBUSY;
    countProbe("mutex_contention");
    if (!blockOn(m, deadline)) return ETIMEDOUT;
  }
}
int pthread_mutex_lock(pthread_mutex_t* m) { return lockMutex(m, NEVER, false); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return lockMutex(m, NEVER, true); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
  Time t = (Time)ts->tv_sec * SEC + ts->tv_nsec;
  Node& n = node(curNode());
  return lockMutex(m, n.monoToSim(t - n.realOffset), false);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) {
  Time t = (Time)ts->tv_sec * SEC + ts->tv_nsec;
  Node& n = node(curNode());
  return lockMutex(m, n.monoToSim(c == CLOCK_MONOTONIC ? t : t - n.realOffset), false);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  m = perNode(m);
  if (!g_cur) { m->__data.__lock = 0; return 0; }
  if (!m->__data.__lock || m->__data.__owner != me()) {
    if (m->__data.__lock == 0 && m->__data.__owner == 0 && curNode() == 0) return 0;
    if (curNode()) violation("sync-misuse", fmt("thread %s unlocks a mutex it does not own (%p, owner %d)", g_cur->name.c_str(), (void*)m, m->__data.__owner));
  }
  if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE && m->__data.__count > 1) { m->__data.__count--; return 0; }
  m->__data.__lock = 0; m->__data.__owner = 0; m->__data.__count = 0;
  { NoPreempt np; heldDel(m); wakeOne(m); }
  if (!g_nopreempt) syncPoint();
  return 0;
}

// ------------------------------------------------------------------ condition variables
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, Time deadline) {
  m = perNode(m);
  if (!g_cur) { fprintf(stderr, "cond wait outside simulation\n"); abort(); }
  if (m->__data.__owner != me()) violation("sync-misuse", "condition wait without holding the mutex");
  int cnt = m->__data.__count;
  static double pSpur = -1;
  static uint64_t inited = 0;
  if (inited != 1) { inited = 1; pSpur = knob("sched.spurious", 0.002); }
  Time dl = deadline;
  bool spur = false;
  if (rngSched.chance(pSpur)) {
    Time t = now() + (Time)rngSched.below(20 * MS);
    if (t < dl) { dl = t; spur = true; }
  }
  syncPoint();  // still holding the mutex, about to go to sleep
  m->__data.__lock = 0; m->__data.__owner = 0; m->__data.__count = 0;
  { NoPreempt np; heldDel(m); wakeOne(m); }
  bool woken = blockOn(c, dl);
  if (!woken && spur) { countFault("spurious_wakeup"); woken = true; }
  for (;;) {
    if (!m->__data.__lock) break;
    blockOn(m);
  }
  m->__data.__lock = 1; m->__data.__owner = me(); m->__data.__count = cnt;
  { NoPreempt np; heldAdd(m); }
  return woken ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return condWait(c, m, NEVER); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  Time t = (Time)ts->tv_sec * SEC + ts->tv_nsec;
  Node& n = node(curNode());
  return condWait(c, m, n.monoToSim(t - n.realOffset));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) {
  Node& n = node(curNode());
  Time t;
  if (ts->tv_sec > 5000000000LL) t = NEVER;
  else t = (Time)ts->tv_sec * SEC + ts->tv_nsec;
  if (t == NEVER) return condWait(c, m, NEVER);
  return condWait(c, m, n.monoToSim(clk == CLOCK_MONOTONIC ? t : t - n.realOffset));
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!g_cur) return 0;
  if (!g_nopreempt) syncPoint();
  wakeOne(c);
  if (!g_nopreempt) syncPoint();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!g_cur) return 0;
  if (!g_nopreempt) syncPoint();
  wakeAll(c);
  if (!g_nopreempt) syncPoint();
  return 0;
}

// ------------------------------------------------------------------ rwlock
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
static int rdlock(pthread_rwlock_t* l, bool tr) {
  if (!g_cur) return 0;
  if (!g_nopreempt) syncPoint();
  while (l->__data.__writers) { if (tr) return EBUSY; blockOn(l); }
  l->__data.__readers++;
  NoPreempt np; heldAdd((void*)((uintptr_t)l | 1));
  return 0;
}
static int wrlock(pthread_rwlock_t* l, bool tr) {
  if (!g_cur) return 0;
  if (!g_nopreempt) syncPoint();
  while (l->__data.__writers || l->__data.__readers) { if (tr) return EBUSY; blockOn(l); }
  l->__data.__writers = me();
  NoPreempt np; heldAdd((void*)((uintptr_t)l | 3));
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return rdlock(l, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return rdlock(l, true); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return wrlock(l, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return wrlock(l, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!g_cur) return 0;
  {
    NoPreempt np;
    if ((int)l->__data.__writers == me()) { l->__data.__writers = 0; heldDel((void*)((uintptr_t)l | 3)); }
    else {
      if (!l->__data.__readers) violation("sync-misuse", "rwlock unlocked while not held");
      l->__data.__readers--; heldDel((void*)((uintptr_t)l | 1));
    }
    wakeAll(l);
  }
  if (!g_nopreempt) syncPoint();
  return 0;
}

// ------------------------------------------------------------------ threads
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
  if (!g_cur) { fprintf(stderr, "pthread_create outside simulation\n"); abort(); }
  Fiber* f = spawn([fn, arg] { g_cur->ret = fn(arg); }, "thread", curNode());
  *t = (pthread_t)f;
  syncPoint();
  return 0;
}
int pthread_join(pthread_t t, void** ret) {
  Fiber* f = (Fiber*)t;
  if (f == g_cur) return EDEADLK;
  joinFiber(f);
  if (ret) *ret = f->ret;
  return 0;
}
int pthread_detach(pthread_t t) { ((Fiber*)t)->detached = true; return 0; }
pthread_t pthread_self(void) { static Fiber boot; return (pthread_t)(g_cur ? g_cur : &boot); }
int pthread_setname_np(pthread_t t, const char* n) { NoPreempt np; ((Fiber*)t)->name = n; return 0; }
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (!g_cur) { if (*o != 2) { fn(); *o = 2; } return 0; }
  for (;;) {
    if (*o == 2) return 0;
    if (*o == 0) break;
    blockOn(o);
  }
  *o = 1;
  try { fn(); } catch (...) { *o = 0; wakeAll(o); throw; }
  *o = 2;
  wakeAll(o);
  return 0;
}
__attribute__((noreturn)) void __cxa_throw(void* ex, void* type, void (*dtor)(void*)) {
  using Throw = void (*)(void*, void*, void (*)(void*));
  static Throw real = (Throw)dlsym(RTLD_NEXT, "__cxa_throw");
  noteThrow((uintptr_t)__builtin_frame_address(0));
  real(ex, type, dtor);
  __builtin_unreachable();
}
int __cxa_guard_acquire(char* g) {
  if (g[0]) return 0;
  if (!g_cur) { if (g[1]) abort(); g[1] = 1; return 1; }
  while (g[1]) {
    blockOn(g);
    if (g[0]) return 0;
  }
  g[1] = 1;
  NoPreempt np; g_cur->guards.push_back(g);
  return 1;
}
static void guardDone(char* g) {
  if (!g_cur) return;
  NoPreempt np;
  auto& v = g_cur->guards;
  for (size_t i = v.size(); i-- > 0;) if (v[i] == g) { v.erase(v.begin() + i); break; }
  wakeAll(g);
}
void __cxa_guard_release(char* g) { g[0] = 1; g[1] = 0; guardDone(g); }
void __cxa_guard_abort(char* g) { g[0] = 0; g[1] = 0; guardDone(g); }

// ------------------------------------------------------------------ time
static Time clockOf(clockid_t c) {
  Node& n = node(curNode());
  switch (c) {
    case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: return n.real();
    default: return n.mono();
  }
}
int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!g_cur) { return (int)syscall(SYS_clock_gettime, c, ts); }
  if (!g_nopreempt) pointW(5);
  Time t = clockOf(c);
  ts->tv_sec = t / SEC; ts->tv_nsec = t % SEC;
  return 0;
}
int gettimeofday(struct timeval* tv, void*) {
  Time t = clockOf(CLOCK_REALTIME);
  tv->tv_sec = t / SEC; tv->tv_usec = (t % SEC) / 1000;
  return 0;
}
time_t time(time_t* p) {
  time_t t = g_cur ? clockOf(CLOCK_REALTIME) / SEC : 0;
  if (p) *p = t;
  return t;
}
static void sleepNode(Time d) {
  Node& n = node(curNode());
  sleepUntil(n.monoToSim(n.mono() + d));
}
int nanosleep(const struct timespec* ts, struct timespec*) { sleepNode((Time)ts->tv_sec * SEC + ts->tv_nsec); return 0; }
int clock_nanosleep(clockid_t c, int flags, const struct timespec* ts, struct timespec*) {
  Time t = (Time)ts->tv_sec * SEC + ts->tv_nsec;
  if (flags & TIMER_ABSTIME) { Time d = t - clockOf(c); sleepNode(d > 0 ? d : 0); }
  else sleepNode(t);
  return 0;
}
int usleep(useconds_t us) { sleepNode((Time)us * US); return 0; }
unsigned sleep(unsigned s) { sleepNode((Time)s * SEC); return 0; }
int sched_yield(void) { yieldNow(); return 0; }
int sched_getcpu(void) {
  if (!g_cur) return 0;
  Node& n = node(curNode());
  // threads migrate between cores: the answer may change from call to call
  static int mode = -1;
  if (mode < 0) mode = (int)knob("cpu.mode", 0);
  if (mode == 1) return (int)(rngSched.below(n.cores));
  if (mode == 2 && rngSched.below(4) == 0) return n.cores + (int)rngSched.below(3);   // container: cpu numbers beyond the cpu count
  return g_cur->id % n.cores;
}
int getpid_sim(void) { return 1000 + curNode(); }
pid_t getpid(void) { return g_cur ? getpid_sim() : (pid_t)syscall(SYS_getpid); }
long sysconf_nproc(void) { return node(curNode()).cores; }

// ------------------------------------------------------------------ process control
void exit(int code) { if (g_cur && curNode()) nodeDied(fmt("exit(%d)", code)); realExit(code); }
void _exit(int code) { if (g_cur && curNode()) nodeDied(fmt("_exit(%d)", code)); realExit(code); }
void quick_exit(int code) { if (g_cur && curNode()) nodeDied(fmt("quick_exit(%d)", code)); realExit(code); }
void abort(void) { if (g_cur && curNode()) nodeDied("abort()"); fprintf(stderr, "abort\n"); realExit(3); }
void __assert_fail(const char* e, const char* f, unsigned l, const char*) { if (g_cur && curNode()) nodeDied(fmt("assert failed: %s", e)); fprintf(stderr, "assert %s %s:%u\n", e, f, l); realExit(3); }

ssize_t getrandom(void* buf, size_t n, unsigned) {
  unsigned char* p = (unsigned char*)buf;
  for (size_t i = 0; i < n; i++) p[i] = (unsigned char)rngMisc.next();
  return (ssize_t)n;
}
void uuid_generate_random(unsigned char* u) { for (int i = 0; i < 16; i++) u[i] = (unsigned char)rngMisc.next(); }
void uuid_generate(unsigned char* u) { uuid_generate_random(u); }
void uuid_generate_time(unsigned char* u) { uuid_generate_random(u); }
void uuid_unparse(const unsigned char* u, char* o) {
  static const char* h = "0123456789abcdef";
  int k = 0;
  for (int i = 0; i < 16; i++) {
    o[k++] = h[u[i] >> 4]; o[k++] = h[u[i] & 15];
    if (i == 3 || i == 5 || i == 7 || i == 9) o[k++] = '-';
  }
  o[k] = 0;
}
void uuid_unparse_lower(const unsigned char* u, char* o) { uuid_unparse(u, o); }
}  // extern "C"

// ------------------------------------------------------------------ libstdc++ internals
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* addr, unsigned val, bool has_timeout, chrono::seconds s, chrono::nanoseconds ns) {
  if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return true;
  Time dl = NEVER;
  if (has_timeout) { Node& n = node(curNode()); dl = n.monoToSim((Time)s.count() * SEC + ns.count() - n.realOffset); }
  return blockOn(addr, dl);
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* addr, unsigned val, bool has_timeout, chrono::seconds s, chrono::nanoseconds ns) {
  if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return true;
  Time dl = NEVER;
  if (has_timeout) { Node& n = node(curNode()); dl = n.monoToSim((Time)s.count() * SEC + ns.count()); }
  return blockOn(addr, dl);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* addr) {
  if (!g_cur) return;
  wakeAll(addr);
  if (!g_nopreempt) syncPoint();
}
unsigned int thread::hardware_concurrency() noexcept { return (unsigned)(g_cur ? node(curNode()).cores : 4); }
namespace this_thread {
void __sleep_for(chrono::seconds s, chrono::nanoseconds ns) { struct timespec ts{(time_t)s.count(), (long)ns.count()}; nanosleep(&ts, nullptr); }
}
inline namespace _V2 {}
namespace chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
  return time_point(duration(chrono::seconds(ts.tv_sec) + chrono::nanoseconds(ts.tv_nsec)));
}
system_clock::time_point system_clock::now() noexcept {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  return time_point(duration(chrono::seconds(ts.tv_sec) + chrono::nanoseconds(ts.tv_nsec)));
}
}
}
// random_device: seeded
void random_device::_M_init(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return (unsigned)rngMisc.next(); }
}  // namespace std
// The cryptographic library is shared by all simulated nodes: nobody may be killed or descheduled inside of it.
extern "C" unsigned char* HMAC(const void* md, const void* key, int klen, const unsigned char* d, size_t n, unsigned char* out, unsigned* outLen) {
  typedef unsigned char* (*Fn)(const void*, const void*, int, const unsigned char*, size_t, unsigned char*, unsigned*);
  sim::NoPreempt np;
  static Fn real = (Fn)dlsym(RTLD_NEXT, "HMAC");
  return real(md, key, klen, d, n, out, outLen);
}
