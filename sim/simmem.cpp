#include "simmem.hpp"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>
#include <sys/types.h>
#include <unistd.h>
#ifndef MAP_FIXED_NOREPLACE
#define MAP_FIXED_NOREPLACE 0x100000
#endif
int g_in_sut = 0;
namespace simmem {
Stats st; uint64_t garbage = 0xA5; int garbage_mode = 0; int reuse = 0;
bool (*fail_hook)(size_t) = nullptr;
static void default_bad(const char* w, void* p) { fprintf(stderr, "simmem: %s %p\n", w, p); abort(); }
void (*bad_free)(const char*, void*) = default_bad;

struct Hdr { uint64_t magic; uint64_t size; uint64_t foot; Hdr* prev; Hdr* next; uint64_t id; uint64_t pad[2]; };   // 64 bytes, before the block
static_assert(sizeof(Hdr) == 64, "");
constexpr uint64_t LIVE = 0xA11CA7EDB10CC5ull, DEAD = 0xDEADB10CDEADB10Cull;
static uintptr_t cur; static Hdr* head; static uint64_t ids;
struct FreeNode { Hdr* h; FreeNode* n; };
constexpr int NB = 4096; static Hdr* bins[NB];   // reuse mode: freed blocks by footprint (chained through next)
static uint64_t gs;
constexpr size_t BIG = 1u << 18; static Hdr* big;   // blocks this large are always reused: page faults cost too much

void init() {
  void* p = mmap((void*)BASE, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void* q = mmap((void*)SHADOW, SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)BASE || q != (void*)SHADOW) { fprintf(stderr, "simmem: cannot map the arena\n"); _exit(77); }
  cur = BASE + 4096; head = nullptr; ids = 0; memset(&st, 0, sizeof st); memset(bins, 0, sizeof bins); big = nullptr;
}
void reset_layout(uint64_t skip) { cur += skip * 16; }
static void fill(void* p, size_t n) {
  if (garbage_mode == 0) { memset(p, (int)garbage, n); return; }
  uint8_t* b = (uint8_t*)p; size_t i = 0; gs = gs * 6364136223846793005ull + garbage;
  uint64_t x = gs;
  for (; i + 8 <= n; i += 8) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; memcpy(b + i, &x, 8); }
  for (; i < n; i++) b[i] = (uint8_t)(x >> (8 * (i & 7)));
}
void shadow_set(uintptr_t a, size_t n, bool ok) {
  uintptr_t o = a - BASE; uint8_t* s = (uint8_t*)SHADOW + (o >> 3);   // a is 8-byte aligned
  memset(s, ok ? 8 : 0, n >> 3);
  if (n & 7) s[n >> 3] = ok ? (n & 7) : 0;
}
static const uint8_t CANARY = 0xC9;
static void die_mem() { fprintf(stderr, "simmem: arena exhausted\n"); _exit(77); }
void* alloc(size_t n, size_t align, bool zero) {
  Host host;
  if (fail_hook && fail_hook(n)) { st.failed++; return nullptr; }
  if (n == 0) n = 1;
  if (align < 16) align = 16;
  if (n > SIZE / 4) return nullptr;
  st.allocs++; st.live++; st.live_bytes += n; st.total_bytes += n;
  size_t foot = (n + 16 + 15) & ~size_t(15);     // block and trailing canary
  Hdr* h = nullptr; bool fresh = true;
  if (reuse && align <= 64 && (foot >> 4) < NB && bins[foot >> 4]) {
    h = bins[foot >> 4]; bins[foot >> 4] = h->next; fresh = false;
    if (((uintptr_t)(h + 1)) & (align - 1)) { h->next = bins[foot >> 4]; bins[foot >> 4] = h; h = nullptr; fresh = true; }
  }
  if (n >= BIG) for (Hdr** q = &big; *q; q = &(*q)->next) if ((*q)->size == n && !((uintptr_t)(*q + 1) & (align - 1))) { h = *q; *q = h->next; fresh = false; break; }
  if (!h) {
    uintptr_t a = (cur + sizeof(Hdr) + align - 1) & ~(uintptr_t)(align - 1);
    if (reuse) a = (cur + sizeof(Hdr) + (align < 64 ? 64 : align) - 1) & ~(uintptr_t)((align < 64 ? 64 : align) - 1);
    cur = a + foot;
    if (cur + (1u << 20) > BASE + SIZE) die_mem();
    h = (Hdr*)a - 1;
  }
  h->magic = LIVE ^ (uintptr_t)h; h->size = n; h->foot = foot; h->id = ++ids; h->prev = nullptr; h->next = head; if (head) head->prev = h; head = h;
  void* p = h + 1;
  if (zero) { if (!(fresh && n >= 4096)) memset(p, 0, n); }       // fresh arena pages are zero
  else if (n < (1u << 20)) fill(p, n);
  memset((char*)p + n, CANARY, foot - n);
  shadow_set((uintptr_t)p, n, true);
  return p;
}
static void check(Hdr* h) {
  if (h->magic != (LIVE ^ (uintptr_t)h)) bad_free(h->magic == DEAD ? "double free of" : "free of an invalid pointer, or its header was overwritten:", h + 1);
  const uint8_t* c = (const uint8_t*)(h + 1);
  for (size_t i = h->size; i < h->foot; i++) if (c[i] != CANARY) bad_free("bytes after the end were overwritten of block", h + 1);
}
void release(void* p) {
  if (!p) return;
  Host host;
  if (!in_arena((uintptr_t)p)) { bad_free("free of a pointer that was not allocated:", p); return; }
  if ((uintptr_t)p & 15) bad_free("free of a pointer into a block:", p);
  Hdr* h = (Hdr*)p - 1; check(h);
  st.frees++; st.live--; st.live_bytes -= h->size;
  if (h->prev) h->prev->next = h->next; else head = h->next;
  if (h->next) h->next->prev = h->prev;
  h->magic = DEAD;
  shadow_set((uintptr_t)p, h->size, false);
  if (h->size < (1u << 20)) fill(p, h->size);
  if (h->size >= BIG) { h->next = big; big = h; }
  else if (reuse && (h->foot >> 4) < NB) { h->next = bins[h->foot >> 4]; bins[h->foot >> 4] = h; }
}
size_t size_of(void* p) { return ((Hdr*)p - 1)->size; }
void check_canaries() { for (Hdr* h = head; h; h = h->next) check(h); }
void describe(uintptr_t a, char* out, size_t n) {
  for (Hdr* h = head; h; h = h->next) { uintptr_t b = (uintptr_t)(h + 1); if (a >= b && a < b + h->foot) { snprintf(out, n, "%ld bytes into a live block of %lu bytes (allocation %lu)", (long)(a - b), h->size, h->id); return; } }
  snprintf(out, n, "freed or never allocated memory");
}
}
using namespace simmem;
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
int __real_posix_memalign(void**, size_t, size_t); void* __real_aligned_alloc(size_t, size_t);
void* __real_mmap(void*, size_t, int, int, int, off_t); int __real_munmap(void*, size_t); int __real_mlock(const void*, size_t);
size_t __real_malloc_usable_size(void*);
void* __wrap_malloc(size_t n) { return g_in_sut ? alloc(n, 16, false) : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { return g_in_sut ? alloc(a * b, 16, true) : __real_calloc(a, b); }
void __wrap_free(void* p) { if (in_arena((uintptr_t)p)) release(p); else if (g_in_sut && p) bad_free("free of a pointer that was not allocated:", p); else __real_free(p); }
void* __wrap_realloc(void* p, size_t n) {
  if (!g_in_sut && !in_arena((uintptr_t)p)) return __real_realloc(p, n);
  void* q = alloc(n, 16, false); if (!q) return nullptr;
  if (p) { Host host; size_t o = size_of(p); memcpy(q, p, o < n ? o : n); release(p); }
  return q;
}
int __wrap_posix_memalign(void** r, size_t al, size_t n) { if (!g_in_sut) return __real_posix_memalign(r, al, n); void* p = alloc(n, al, false); if (!p) return ENOMEM; *r = p; return 0; }
void* __wrap_aligned_alloc(size_t al, size_t n) { return g_in_sut ? alloc(n, al, false) : __real_aligned_alloc(al, n); }
void* __wrap_mmap(void* a, size_t n, int pr, int fl, int fd, off_t o) {
  if (!g_in_sut) return __real_mmap(a, n, pr, fl, fd, o);
  if (fd != -1 && !(fl & MAP_ANONYMOUS)) return __real_mmap(a, n, pr, fl, fd, o);
  void* p = alloc(n, n >= (1u << 21) ? (1u << 21) : 4096, true);
  if (!p) { errno = ENOMEM; return MAP_FAILED; }
  return p;
}
int __wrap_munmap(void* p, size_t n) { if (in_arena((uintptr_t)p)) { release(p); return 0; } return __real_munmap(p, n); }
int __wrap_mlock(const void* p, size_t n) { if (in_arena((uintptr_t)p)) return 0; return __real_mlock(p, n); }
size_t __wrap_malloc_usable_size(void* p) { if (in_arena((uintptr_t)p)) return size_of(p); return __real_malloc_usable_size(p); }
}
static void* cxx_new(size_t n) { if (!g_in_sut) { void* p = __real_malloc(n ? n : 1); if (!p) abort(); return p; } void* p = alloc(n, 16, false); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return cxx_new(n); }
void* operator new[](size_t n) { return cxx_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return g_in_sut ? alloc(n, 16, false) : __real_malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return g_in_sut ? alloc(n, 16, false) : __real_malloc(n ? n : 1); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
