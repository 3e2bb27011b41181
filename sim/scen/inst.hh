// Header-only parts of the code under test, instantiated in an instrumented object so that the scheduler can
// interrupt them anywhere (harness objects are not instrumented).
#pragma once
#include "pubsub/ThreadSafeMultiMap.hh"
#include "utils/AssistedThread.hh"
#include "utils/ClockWrapper.hh"
#include "utils/InFlightTracker.hh"
#include "utils/Synchronized.hh"
#include <functional>
#include <string>
#include <vector>
namespace inst {
quarkdb::InFlightTracker* iftNew(bool accepting);
void iftDelete(quarkdb::InFlightTracker*);
quarkdb::InFlightRegistration* iftEnter(quarkdb::InFlightTracker*, bool& ok);
void iftLeave(quarkdb::InFlightRegistration*);
void iftAccept(quarkdb::InFlightTracker*, bool);
bool iftAccepting(quarkdb::InFlightTracker*);
void iftSpin(quarkdb::InFlightTracker*);
long iftCount(quarkdb::InFlightTracker*);
typedef std::function<void(quarkdb::ThreadAssistant&)> Body;
quarkdb::AssistedThread* atNew();
quarkdb::AssistedThread* atNew(Body);
quarkdb::AssistedThread* atMove(quarkdb::AssistedThread*);
void atReset(quarkdb::AssistedThread*, Body);
void atDelete(quarkdb::AssistedThread*);
void atStop(quarkdb::AssistedThread*);
void atJoin(quarkdb::AssistedThread*);
void atBlock(quarkdb::AssistedThread*);
void atCallback(quarkdb::AssistedThread*, std::function<void()>);
void atDropCallbacks(quarkdb::AssistedThread*);
bool taRequested(quarkdb::ThreadAssistant&);
void taWaitFor(quarkdb::ThreadAssistant&, long ms);
void taWaitUntilSteady(quarkdb::ThreadAssistant&, long ms);
void taWaitUntilSystem(quarkdb::ThreadAssistant&, long ms);
void taCallback(quarkdb::ThreadAssistant&, std::function<void()>);
void taDropCallbacks(quarkdb::ThreadAssistant&);
void taPropagate(quarkdb::ThreadAssistant&, quarkdb::AssistedThread&);
std::chrono::steady_clock::time_point clockNow(quarkdb::SteadyClock&);
void clockAdvance(quarkdb::SteadyClock&, long ms);
typedef quarkdb::Synchronized<std::string> Box;
Box* boxNew();
void boxSet(Box*, size_t n, char c);
std::string boxGet(Box*);
typedef std::pair<std::string, std::string> KV;
typedef quarkdb::ThreadSafeMultiMap<std::string, std::string> MM;
MM* mmNew();
void mmDelete(MM*);
bool mmInsert(MM*, const KV&);
bool mmErase(MM*, const KV&);
size_t mmSize(MM*);
std::vector<std::string> mmKeys(MM*, size_t stage, size_t limit);
typedef std::function<int(const KV&)> Visit;       // 0: go on, 1: remove it, 2: skip the rest of the key
typedef std::function<void(const KV&, bool)> After;
void mmMatch(MM*, const std::string& key, size_t stage, Visit, After);
void mmAll(MM*, size_t keyStage, size_t valueStage, Visit, After);
}
