#pragma once
#include <cstdint>
#include <cstddef>
namespace sim {
constexpr uintptr_t ARENA = 0x100000000000ULL;
constexpr uintptr_t ARENA_SIZE = 1ULL << 35;
constexpr uintptr_t SHADOW = 0x200000000000ULL;
extern bool g_checkHeap;
void badAccess(const void* p, size_t n, int write, unsigned s);
// shadow byte per 16-byte granule: 1..16 valid bytes, 0xF0 freed, 0 never allocated / header
inline void checkAccess(const void* p, size_t n, int write) {
  uintptr_t a = (uintptr_t)p - ARENA;
  if (a >= ARENA_SIZE) return;
  uintptr_t e = a + n - 1;
  unsigned char s = ((unsigned char*)SHADOW)[e >> 4];
  if (__builtin_expect(s > (e & 15) && s <= 16, 1)) {
    if (__builtin_expect((a >> 4) == (e >> 4), 1)) return;
    unsigned char s0 = ((unsigned char*)SHADOW)[a >> 4];
    if (s0 == 16) return;
    s = s0;
  }
  badAccess(p, n, write, s);
}
void allocInit();
void allocReset();
size_t heapBytes();
}
