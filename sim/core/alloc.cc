// Deterministic heap at a fixed address with quarantine, fill patterns and a validity shadow.
#include "alloc.hh"
#include "sim.hh"
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <sys/mman.h>
#include "internal.hh"
namespace sim {
bool g_checkHeap = true;
struct Hdr { uint32_t magic; uint32_t cls; uint64_t size; };
static_assert(sizeof(Hdr) == 16, "");
struct FreeNode { FreeNode* next; };
static uintptr_t g_next = 0;
struct Class { FreeNode *head, *tail; uint32_t count; };
static Class g_cls[128];
static size_t g_live = 0;
static const uint32_t LIVE = 0xA11C0DE5, FREED = 0xF4EED0F5;
size_t heapBytes() { return g_live; }
void allocInit() {
  if (g_next) return;
  void* p = mmap((void*)ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void* q = mmap((void*)SHADOW, ARENA_SIZE / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p == MAP_FAILED || q == MAP_FAILED) { perror("arena"); realExit(3); }
  g_next = ARENA + 4096;
}
void allocReset() {
  // everything allocated so far stays; what follows starts at the same address in every run
  for (auto& k : g_cls) { k.head = k.tail = nullptr; k.count = 0; }
  g_next = ARENA + (1ULL << 30);
}
static unsigned classOf(size_t n, size_t& cap) {
  if (n <= 1024) { unsigned c = (unsigned)((n + 15) / 16); if (!c) c = 1; cap = c * 16; return c; }
  unsigned c = 65; cap = 1280;
  while (cap < n) { c++; cap = (cap / 4) * 5; cap = (cap + 15) & ~(size_t)15; if (c >= 127) { fprintf(stderr, "huge alloc\n"); realExit(3); } }
  return c;
}
static void* doAlloc(size_t n, bool nothrow) {
  if (!g_next) allocInit();
  if (n > (1ULL << 31)) {
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  size_t cap;
  unsigned c = classOf(n, cap);
  Class& k = g_cls[c];
  Hdr* h;
  // reuse only after a quarantine
  uint32_t q = cap <= 256 ? 256 : cap <= 4096 ? 32 : cap <= 65536 ? 6 : 1;
  if (k.count > q) {
    FreeNode* f = k.head;
    k.head = f->next;
    if (!k.head) k.tail = nullptr;
    k.count--;
    h = (Hdr*)((char*)f - sizeof(Hdr));
    if (h->magic != FREED) violation("heap-corruption", "header of a freed block was overwritten");
    size_t lim = cap < 512 ? cap : 512;
    const unsigned char* b = (const unsigned char*)f;
    for (size_t i = sizeof(FreeNode); i < lim; i++)
      if (b[i] != 0xDD) violation("heap-corruption", fmt("write to freed memory (block of %zu bytes, offset %zu)", cap, i));
  } else {
    if (g_next + cap + 32 > ARENA + ARENA_SIZE) { fprintf(stderr, "arena exhausted\n"); finishRun("budget"); }
    h = (Hdr*)g_next;
    g_next += cap + sizeof(Hdr) + 16;  // trailing red zone
  }
  h->magic = LIVE; h->cls = c; h->size = n;
  char* p = (char*)(h + 1);
  unsigned char* sh = (unsigned char*)(SHADOW + ((uintptr_t)p - ARENA) / 16);
  size_t full = n / 16;
  memset(sh, 16, full);
  if (n & 15) sh[full++] = (unsigned char)(n & 15);
  size_t capg = cap / 16;
  if (full < capg) memset(sh + full, 0, capg - full);
  memset(p, 0xCD, n < 512 ? n : 512);
  g_live += n;
  return p;
}
static void doFree(void* p) {
  if (!p) return;
  uintptr_t a = (uintptr_t)p;
  if (a - ARENA >= ARENA_SIZE) return;  // allocated before/outside (aligned variants)
  Hdr* h = (Hdr*)p - 1;
  if (h->magic == FREED) violation("heap-corruption", "double free");
  if (h->magic != LIVE) violation("heap-corruption", "invalid free or overwritten block header");
  h->magic = FREED;
  g_live -= h->size;
  size_t cap;
  unsigned c = classOf(h->size, cap);
  if (c != h->cls) violation("heap-corruption", "block header overwritten");
  memset((void*)(SHADOW + (a - ARENA) / 16), 0xF0, cap / 16);
  memset(p, 0xDD, cap < 512 ? cap : 512);
  FreeNode* f = (FreeNode*)p;
  f->next = nullptr;
  Class& k = g_cls[c];
  if (k.tail) k.tail->next = f; else k.head = f;
  k.tail = f;
  k.count++;
}
void badAccess(const void* p, size_t n, int write, unsigned s) {
  if (!g_checkHeap || !g_cur || g_cur->node == 0) return;
  g_checkHeap = false;
  violation(s == 0xF0 ? "use-after-free" : "heap-overflow", fmt("%s of %zu bytes at heap address %p (%s) by thread %d of node %d", write ? "write" : "read", n, p,
            s == 0xF0 ? "freed memory" : "outside of any live block", g_cur->id, g_cur->node));
}
}  // namespace sim
using namespace sim;
void* operator new(size_t n) { return doAlloc(n, false); }
void* operator new[](size_t n) { return doAlloc(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return doAlloc(n, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return doAlloc(n, true); }
static void* alignedNew(size_t n, std::align_val_t al) {
  if ((size_t)al <= 16) return doAlloc(n, false);
  // over-allocate; the block is never reused (rare: cache-line aligned arrays)
  size_t a = (size_t)al;
  char* p = (char*)doAlloc(n + a + 16, false);
  uintptr_t q = ((uintptr_t)p + a - 1) & ~(a - 1);
  return (void*)q;
}
void* operator new(size_t n, std::align_val_t a) { return alignedNew(n, a); }
void* operator new[](size_t n, std::align_val_t a) { return alignedNew(n, a); }
void operator delete(void* p) noexcept { doFree(p); }
void operator delete[](void* p) noexcept { doFree(p); }
void operator delete(void* p, size_t) noexcept { doFree(p); }
void operator delete[](void* p, size_t) noexcept { doFree(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { doFree(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { doFree(p); }
void operator delete(void*, std::align_val_t a) noexcept { (void)a; }
void operator delete[](void*, std::align_val_t) noexcept {}
void operator delete(void*, size_t, std::align_val_t) noexcept {}
void operator delete[](void*, size_t, std::align_val_t) noexcept {}
