#pragma once
#include "sim.hh"
namespace sim {
void forceUnlock(void* mtx);
void forceGuardAbort(void* g);
void noteThrow(uintptr_t framePointer);
[[noreturn]] void realExit(int code);
extern int g_resultFd;
}
