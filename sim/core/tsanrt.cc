// Replacement for the ThreadSanitizer runtime: the compiler's instrumentation is used only as a
// stream of preemption points (every plain access, every atomic) and to check heap accesses
// against the allocator's shadow. No real data race detection takes place.
#include "sim.hh"
#include "alloc.hh"
#include <cstring>
using namespace sim;
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned u32; typedef unsigned long long u64; typedef unsigned __int128 u128;

#define ACC(p, n, w) do { checkAccess(p, n, w); plainPoint(); } while (0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_read1(void* p) { ACC(p, 1, 0); }
void __tsan_read2(void* p) { ACC(p, 2, 0); }
void __tsan_read4(void* p) { ACC(p, 4, 0); }
void __tsan_read8(void* p) { ACC(p, 8, 0); }
void __tsan_read16(void* p) { ACC(p, 16, 0); }
void __tsan_write1(void* p) { ACC(p, 1, 1); }
void __tsan_write2(void* p) { ACC(p, 2, 1); }
void __tsan_write4(void* p) { ACC(p, 4, 1); }
void __tsan_write8(void* p) { ACC(p, 8, 1); }
void __tsan_write16(void* p) { ACC(p, 16, 1); }
void __tsan_unaligned_read2(void* p) { ACC(p, 2, 0); }
void __tsan_unaligned_read4(void* p) { ACC(p, 4, 0); }
void __tsan_unaligned_read8(void* p) { ACC(p, 8, 0); }
void __tsan_unaligned_read16(void* p) { ACC(p, 16, 0); }
void __tsan_unaligned_write2(void* p) { ACC(p, 2, 1); }
void __tsan_unaligned_write4(void* p) { ACC(p, 4, 1); }
void __tsan_unaligned_write8(void* p) { ACC(p, 8, 1); }
void __tsan_unaligned_write16(void* p) { ACC(p, 16, 1); }
void __tsan_read_range(void* p, unsigned long n) { if (n) ACC(p, n, 0); }
void __tsan_write_range(void* p, unsigned long n) { if (n) ACC(p, n, 1); }
void __tsan_vptr_update(void** p, void*) { ACC(p, 8, 1); }
void __tsan_vptr_read(void** p) { ACC(p, 8, 0); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { if (n) { checkAccess(s, n, 0); checkAccess(d, n, 1); } plainPoint(); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { if (n) { checkAccess(s, n, 0); checkAccess(d, n, 1); } plainPoint(); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { if (n) checkAccess(d, n, 1); plainPoint(); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int) { atomicPoint(); }
void __tsan_atomic_signal_fence(int) {}
#define AT(T, N)                                                                                             \
  T __tsan_atomic##N##_load(const volatile T* a, int) { checkAccess((void*)a, sizeof(T), 0); atomicPoint(); return *a; }              \
  void __tsan_atomic##N##_store(volatile T* a, T v, int) { checkAccess((void*)a, sizeof(T), 1); atomicPoint(); *a = v; plainPoint(); }  \
  T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { checkAccess((void*)a, sizeof(T), 1); atomicPoint(); T o = *a; *a = v; return o; }      \
  T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { checkAccess((void*)a, sizeof(T), 1); atomicPoint(); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { checkAccess((void*)a, sizeof(T), 1); atomicPoint(); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { atomicPoint(); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { atomicPoint(); T o = *a; *a = o | v; return o; }  \
  T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { atomicPoint(); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int) { atomicPoint(); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { checkAccess((void*)a, sizeof(T), 1); atomicPoint(); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { checkAccess((void*)a, sizeof(T), 1); atomicPoint(); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int, int) { checkAccess((void*)a, sizeof(T), 1); atomicPoint(); T o = *a; if (o == c) *a = v; return o; }
AT(u8, 8)
AT(u16, 16)
AT(u32, 32)
AT(u64, 64)
}
