// The simulated process memory: every allocation the code under test makes comes from one arena at
// a fixed address, so addresses repeat from run to run.  The simulator decides what fresh memory
// contains, whether freed memory is reused, and which allocations fail.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
extern int g_in_sut;               // > 0 while code under test runs
}
namespace simmem {
constexpr uintptr_t BASE = 0x100000000000ull, SIZE = 1ull << 34;     // 16 GB of address space
constexpr uintptr_t SHADOW = 0x180000000000ull;                      // one byte per 8 bytes of arena
inline bool in_arena(uintptr_t a) { return a - BASE < SIZE; }
struct Stats { uint64_t allocs, frees, failed, live, live_bytes, total_bytes; };
extern Stats st;
extern uint64_t garbage;           // pattern of fresh and freed memory
extern int garbage_mode;           // 0: constant byte, 1: pseudo-random
extern int reuse;                  // 0: never reuse freed memory, 1: reuse it at once
extern bool (*fail_hook)(size_t);  // true: this allocation fails
extern void (*bad_free)(const char* what, void* p);
void init();
void reset_layout(uint64_t skip);  // move the allocation pointer on: other addresses
void check_canaries();             // of all live blocks
void* alloc(size_t n, size_t align, bool zero);
void release(void* p);
size_t size_of(void* p);
// shadow: 0 = not addressable, 1..8 = that many bytes of the granule are
void shadow_set(uintptr_t a, size_t n, bool ok);
inline bool shadow_ok(uintptr_t a, size_t n) {
  uintptr_t o = a - BASE;
  const uint8_t* s = (const uint8_t*)SHADOW + (o >> 3);
  uintptr_t last = o + n - 1;
  if ((o >> 3) == (last >> 3)) return *s > (last & 7);
  if (*s != 8) return false;
  for (uintptr_t g = (o >> 3) + 1; g < (last >> 3); g++) if (((const uint8_t*)SHADOW)[g] != 8) return false;
  return ((const uint8_t*)SHADOW)[last >> 3] > (last & 7);
}
void describe(uintptr_t a, char* out, size_t n);   // which block an address belongs to
}
struct Sut { Sut() { g_in_sut++; } ~Sut() { g_in_sut--; } };
struct Host { int s; Host() { s = g_in_sut; g_in_sut = 0; } ~Host() { g_in_sut = s; } };
