#include "inst.hh"
using namespace quarkdb;
typedef std::chrono::milliseconds ms;
namespace inst {
InFlightTracker* iftNew(bool a) { return new InFlightTracker(a); }
void iftDelete(InFlightTracker* t) { delete t; }
InFlightRegistration* iftEnter(InFlightTracker* t, bool& ok) { auto* r = new InFlightRegistration(*t); ok = r->ok(); return r; }
void iftLeave(InFlightRegistration* r) { delete r; }
void iftAccept(InFlightTracker* t, bool v) { t->setAcceptingRequests(v); }
bool iftAccepting(InFlightTracker* t) { return t->isAcceptingRequests(); }
void iftSpin(InFlightTracker* t) { t->spinUntilNoRequestsInFlight(); }
long iftCount(InFlightTracker* t) { return t->getInFlight(); }
AssistedThread* atNew() { return new AssistedThread(); }
AssistedThread* atNew(Body b) { return new AssistedThread(std::move(b)); }
AssistedThread* atMove(AssistedThread* t) { return new AssistedThread(std::move(*t)); }
void atReset(AssistedThread* t, Body b) { t->reset(std::move(b)); }
void atDelete(AssistedThread* t) { delete t; }
void atStop(AssistedThread* t) { t->stop(); }
void atJoin(AssistedThread* t) { t->join(); }
void atBlock(AssistedThread* t) { t->blockUntilThreadJoins(); }
void atCallback(AssistedThread* t, std::function<void()> f) { t->registerCallback(std::move(f)); }
void atDropCallbacks(AssistedThread* t) { t->dropCallbacks(); }
bool taRequested(ThreadAssistant& a) { return a.terminationRequested(); }
void taWaitFor(ThreadAssistant& a, long v) { a.wait_for(ms(v)); }
void taWaitUntilSteady(ThreadAssistant& a, long v) { a.wait_until(std::chrono::steady_clock::now() + ms(v)); }
void taWaitUntilSystem(ThreadAssistant& a, long v) { a.wait_until(std::chrono::system_clock::now() + ms(v)); }
void taCallback(ThreadAssistant& a, std::function<void()> f) { a.registerCallback(std::move(f)); }
void taDropCallbacks(ThreadAssistant& a) { a.dropCallbacks(); }
void taPropagate(ThreadAssistant& a, AssistedThread& t) { a.propagateTerminationSignal(t); }
std::chrono::steady_clock::time_point clockNow(SteadyClock& c) { return c.now(); }
void clockAdvance(SteadyClock& c, long v) { c.advance(ms(v)); }
Box* boxNew() { return new Box(); }
void boxSet(Box* b, size_t n, char c) { b->set(n, c); }
std::string boxGet(Box* b) { return b->get(); }
MM* mmNew() { return new MM(); }
void mmDelete(MM* m) { delete m; }
bool mmInsert(MM* m, const KV& kv) { return m->insert(kv.first, kv.second); }
bool mmErase(MM* m, const KV& kv) { return m->erase(kv.first, kv.second); }
size_t mmSize(MM* m) { return m->size(); }
std::vector<std::string> mmKeys(MM* m, size_t stage, size_t limit) { std::vector<std::string> v; for (auto it = m->getKeyIterator(stage); it.valid() && v.size() < limit; it.next()) v.push_back(it.getKey()); return v; }
void mmMatch(MM* m, const std::string& key, size_t stage, Visit f, After a) {
  for (auto it = m->findMatching(key, stage); it.valid(); it.next()) {
    KV kv(it.getKey(), it.getValue());
    if (f(kv) == 1) { bool hit = it.erase(); a(kv, hit); }
  }
}
void mmAll(MM* m, size_t ks, size_t vs, Visit f, After a) {
  for (auto it = m->getFullIterator(ks, vs); it.valid();) {
    KV kv(it.getKey(), it.getValue());
    int r = f(kv);
    if (r == 1) { bool hit = it.erase(); a(kv, hit); }
    if (r == 2) it.skipKey(); else it.next();
  }
}
}
