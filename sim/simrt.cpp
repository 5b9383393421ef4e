#include "simrt.hpp"
#include "simcore.hpp"
#include <unordered_map>
#include <unordered_set>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <link.h>
#include <time.h>
extern "C" { uint32_t diva_sim_hmap_buckets = 4096; uint64_t diva_sim_slab_bytes = 1ul << 21; }
using namespace simmem;
namespace simrt {
Stats st; uint64_t steps, evt; Config cfg; std::vector<std::pair<uint32_t, int>> script; std::vector<Stall> stalls; std::vector<Hold> holds;
bool sched_on = false;
static void dfail(const char* c, const char* m) { fprintf(stderr, "%s %s\n", c, m); abort(); }
void (*fail)(const char*, const char*) = dfail;
void (*on_switch)(uint32_t, int) = nullptr;

// ------------------------------------------------------------------ fibers
extern "C" void simrt_switch(void** save, void* to);
asm(R"(
.text
.global simrt_switch
.type simrt_switch,@function
simrt_switch:
  push %rbp; push %rbx; push %r12; push %r13; push %r14; push %r15
  mov %rsp, (%rdi)
  mov %rsi, %rsp
  pop %r15; pop %r14; pop %r13; pop %r12; pop %rbx; pop %rbp
  ret
.size simrt_switch,.-simrt_switch
)");
struct Fiber { void* sp = nullptr; std::function<void()> f; bool done = false; int in_sut = 0; int in_slab = 0; uint64_t ncas = 0; uint64_t prio = 0; uint64_t stall_until = 0; void* last_atom = nullptr; uint64_t natom = 0, same = 0, nspin = 0, since = 0; void* stack = nullptr; size_t stack_bytes = 0; uint64_t aff = (1ull << NCPU) - 1; char name[16] = "sim"; bool created = false, joined = false; void* ret = nullptr; std::string tls; };
static std::vector<Fiber*> fb; static int cur = -1; static void* main_sp; static int main_in_sut;
static sim::Rng rng(1);
static uint64_t last_switch, next_dec, next_cap, next_stall, fuse;     // absolute step numbers
static size_t script_pos; static std::vector<uint64_t> pct_points; static uint64_t low_prio; static uint64_t atom_left;
static int in_slab_main = 0;
size_t stack_bytes = 256 << 10;
#define STK f->stack_bytes
uint64_t slab_live_count();

int self() { return cur; }
bool others_running() { int n = 0; for (auto f : fb) n += !f->done; return n > 1; }
static bool runnable(int i) { return !fb[i]->done && fb[i]->stall_until <= steps; }
static void set_fuse() { fuse = std::min(std::min(next_dec, next_cap), std::min(next_stall, cfg.budget)); }
static uint64_t cap_now() { return cfg.cap / 2 + sim::mix(cfg.seed, steps) % cfg.cap; }    // no resonance with loops of the code
// thread-local variables of the code under test live in the executable's block; every fiber has its own copy
bool fiber_tls; int stack_fill = -1; Sys sys; std::function<bool(int)> sys_fail;
static char* tls_at; static size_t tls_n; static std::string tls_image, tls_main;
static int tls_cb(dl_phdr_info* i, size_t, void*) {
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) {
    tls_at = (char*)i->dlpi_tls_data; tls_n = i->dlpi_phdr[k].p_memsz; tls_image.assign(tls_n, 0); memcpy(&tls_image[0], (char*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr), i->dlpi_phdr[k].p_filesz); }
  return 1;        // the executable comes first
}
static void tls_switch(int from, int to) {
  if (!tls_at) return;
  std::string& o = from >= 0 ? fb[from]->tls : tls_main; o.assign(tls_at, tls_n);
  std::string& n = to >= 0 ? fb[to]->tls : tls_main; if (n.empty()) n = tls_image; memcpy(tls_at, n.data(), tls_n);
}
static void jump(int to) {
  int from = cur; cur = to;
  next_cap = steps + cap_now(); set_fuse();
  if (from == to) return;
  if (from >= 0) fb[from]->in_sut = g_in_sut; else main_in_sut = g_in_sut;
  g_in_sut = fb[to]->in_sut;
  if (fiber_tls) { int g = g_in_sut; g_in_sut = 0; tls_switch(from, to); g_in_sut = g; }
  simrt_switch(from >= 0 ? &fb[from]->sp : &main_sp, fb[to]->sp);
}
static int rule_next() {        // the next fiber in order; a stalled one only if no other is left
  int n = fb.size();
  for (int k = 1; k <= n; k++) { int i = (cur + k) % n; if (runnable(i)) return i; }
  for (int k = 1; k <= n; k++) { int i = (cur + k + n) % n; if (!fb[i]->done) { fb[i]->stall_until = 0; return i; } }
  return -1;
}
static void draw() {            // when the strategy decides next
  if (cfg.is_explicit) { next_dec = script_pos < script.size() ? last_switch + script[script_pos].first : ~0ull; return; }
  if (cfg.kind == RANDOM) {
    uint64_t m = cfg.mean; uint64_t c = 1;       // geometric
    double u = (rng() >> 11) * (1.0 / 9007199254740992.0); c = 1 + (uint64_t)(-__builtin_log(1 - u) * m);
    next_dec = steps + c;
  } else if (cfg.kind == PCT) { next_dec = ~0ull; for (auto p : pct_points) if (p > steps) { next_dec = p; break; } }
  else { next_dec = ~0ull; double u = (rng() >> 11) * (1.0 / 9007199254740992.0); atom_left = 1 + (uint64_t)(-__builtin_log(1 - u) * cfg.mean); }
}
static int best_prio() { int b = -1; for (int i = 0; i < (int)fb.size(); i++) if (runnable(i) && (b < 0 || fb[i]->prio > fb[b]->prio)) b = i; return b < 0 ? rule_next() : b; }
static int pick_random() { int n = 0; for (int i = 0; i < (int)fb.size(); i++) n += runnable(i); if (!n) return rule_next(); int k = rng.below(n); for (int i = 0; i < (int)fb.size(); i++) if (runnable(i) && k-- == 0) return i; return cur; }
static void record(int to) {
  st.switches++;
  uint32_t after = steps - last_switch; last_switch = steps;
  if (sim::g_sh->nswitch < 200000) sim::g_sh->sw[sim::g_sh->nswitch++] = {after, (uint16_t)to, 0}; else sim::g_sh->sched_overflow = true;
  if (on_switch) on_switch(after, to);
}
static void stall_check() {
  next_stall = ~0ull;
  for (auto& s : stalls) {
    if (s.at == steps && s.fiber < (int)fb.size() && !fb[s.fiber]->done && s.len) { fb[s.fiber]->stall_until = std::max(fb[s.fiber]->stall_until, steps + s.len); st.stalls++; }
    if (s.at > steps && s.at < next_stall) next_stall = s.at;
  }
}
static void slow() {
  if (steps >= cfg.budget) { char m[160]; snprintf(m, sizeof m, "operations did not complete within %lu steps of all threads together, although every thread keeps being scheduled", cfg.budget); fail("HANG", m); }
  int to = cur; bool rec = false;
  if (steps >= next_stall) { stall_check(); if (!runnable(cur)) to = rule_next(); }
  if (steps >= next_dec) {
    if (cfg.is_explicit) { to = script[script_pos].second; script_pos++; last_switch = steps; st.switches++; if (on_switch) on_switch(0, to); if (to >= (int)fb.size() || !runnable(to)) to = runnable(cur) ? cur : rule_next(); draw(); }
    else {
      if (cfg.kind == PCT) { fb[cur]->prio = low_prio--; draw(); to = best_prio(); } else { to = pick_random(); draw(); }
      rec = to != cur;
    }
  } else if (to == cur && steps >= next_cap) {
    int t = rule_next(); if (t != cur) { st.forced++; if (cfg.kind == PCT && !cfg.is_explicit) fb[cur]->prio = low_prio--; } to = t; next_cap = steps + cap_now();
  }
  if (rec) record(to);
  set_fuse();
  if (to != cur) jump(to);
}
static inline void point() { steps++; if (__builtin_expect(steps >= fuse, 0) && sched_on && cur >= 0) slow(); }
void yield() { point(); }
void block() { steps++; if (!sched_on || cur < 0) return; st.blocked++; if (steps >= fuse) { slow(); return; } int t = rule_next(); if (t != cur) jump(t); }
static void entry() {
  Fiber* f = fb[cur]; f->f(); f->done = true; f->in_sut = 0; st.fin_switch++;
  int t = -1; if (cfg.kind == PCT && !cfg.is_explicit) { for (auto x : fb) if (!x->done) { t = best_prio(); break; } } else t = rule_next();
  if (t < 0) { if (fiber_tls) { g_in_sut = 0; tls_switch(cur, -1); } cur = -1; g_in_sut = main_in_sut; sched_on = false; void* d; simrt_switch(&d, main_sp); }
  jump(t);
}
int spawn(std::function<void()> fn) {
  Fiber* f = new Fiber; f->f = fn; f->stack_bytes = simrt::stack_bytes;
  f->stack = mmap(nullptr, STK + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  mprotect(f->stack, 4096, PROT_NONE);
  if (stack_fill >= 0) memset((char*)f->stack + 4096 + STK - std::min<size_t>(STK, 12288), stack_fill, std::min<size_t>(STK, 12288));
  uintptr_t* sp = (uintptr_t*)((char*)f->stack + STK + 4096); 
  *--sp = 0; *--sp = (uintptr_t)entry; for (int i = 0; i < 6; i++) *--sp = 0;
  f->sp = sp; fb.push_back(f);
  if (sched_on) f->prio = ~0ull / 4 + rng.below(1ull << 40);
  return fb.size() - 1;
}
uint64_t affinity() { return fb[cur]->aff; } void set_affinity(uint64_t m) { fb[cur]->aff = m; } std::string name() { return fb[cur]->name; } void set_name(const std::string& n) { snprintf(fb[cur]->name, 16, "%s", n.c_str()); }
uint64_t now_ns() { return 5000000000ull + steps * 10; }
void reset() { fb.clear(); cur = -1; }
void run_all() {
  if (fb.empty()) return;
  rng = sim::Rng(cfg.seed); steps = 0; last_switch = 0; script_pos = 0; low_prio = ~0ull / 8;
  for (auto f : fb) f->prio = ~0ull / 4 + rng.below(1ull << 40);
  pct_points.clear(); if (cfg.kind == PCT) { for (uint32_t i = 0; i < cfg.pct_depth; i++) pct_points.push_back(1 + rng.below(cfg.pct_len)); std::sort(pct_points.begin(), pct_points.end()); }
  next_stall = ~0ull; for (auto& s : stalls) if (s.at && s.at < next_stall) next_stall = s.at;
  if (fiber_tls && !tls_at) dl_iterate_phdr(tls_cb, nullptr);
  draw(); sched_on = true;
  int first = cfg.is_explicit || cfg.kind != PCT ? 0 : best_prio();
  if (cfg.kind == PCT && !cfg.is_explicit && first != 0) { // make the choice of the first fiber visible in the schedule
    sim::g_sh->sw[sim::g_sh->nswitch++] = {0, (uint16_t)first, 0}; }
  if (cfg.is_explicit && script.size() && script[0].first == 0) { first = script[0].second < (int)fb.size() ? script[0].second : 0; script_pos = 1; draw(); }
  jump(first);
  sched_on = false; fuse = ~0ull;
  for (auto f : fb) { munmap(f->stack, STK + 8192); delete f; }
  fb.clear();
}

// ------------------------------------------------------------------ memory accesses
static inline int& inslab() { return cur >= 0 ? fb[cur]->in_slab : in_slab_main; }
[[gnu::noinline]] static void bad_access(uintptr_t a, size_t n, bool w, void* pc) {
  int s = g_in_sut; g_in_sut = 0; char d[200], m[600]; describe(a, d, sizeof d); (void)pc;
  snprintf(m, sizeof m, "%s of %zu bytes outside of what is allocated: %s", w ? "write" : "read", n, d); fail("MEMORY", m); g_in_sut = s;
}
static inline void acc(void* p, size_t n, bool w, void* pc) {
  uintptr_t a = (uintptr_t)p;
  if (!in_arena(a) || !g_in_sut) return;
  point();
  if (cfg.mem_check && __builtin_expect(!shadow_ok(a, n), 0) && !inslab()) bad_access(a, n, w, pc);
}
[[gnu::noinline]] static void new_atom(void* p) {
  Fiber* f = fb[cur]; f->last_atom = p; f->natom++; if (f->same >= 8) { f->nspin++; f->since = 0; } else f->since++; f->same = 0; bool hit = false;
  for (auto& h : holds) if (h.fiber == cur && h.len && (h.spin ? h.spin == f->nspin && h.at == f->since : h.at == f->natom)) { hit = true; f->stall_until = std::max(f->stall_until, steps + h.len); simrt::st.holds++; }
  if (hit && !runnable(cur)) { int t = rule_next(); if (t != cur) jump(t); }
}
static inline void atom(void* p, size_t n, void* pc) {
  if (!g_in_sut) return;
  simrt::st.atomics++;
  point();
  if (sched_on && cur >= 0 && !holds.empty()) { Fiber* f = fb[cur]; if (f->last_atom == p) f->same++; else new_atom(p); }
  if (cfg.kind == ATOMICS && !cfg.is_explicit && sched_on && cur >= 0 && atom_left && --atom_left == 0) { next_dec = steps; set_fuse(); slow(); }
  uintptr_t a = (uintptr_t)p;
  if (in_arena(a) && cfg.mem_check && __builtin_expect(!shadow_ok(a, n), 0) && !inslab()) bad_access(a, n, true, pc);
}
static bool spurious() {
  if (!cfg.spur || cur < 0) return false; uint64_t c = ++fb[cur]->ncas;
  if (sim::mix(cfg.fault_seed * 131 + cur, c) % cfg.spur) return false; simrt::st.spurious++; return true;
}
// ------------------------------------------------------------------ slab objects
struct SlabInfo { uint64_t size; };
static std::unordered_map<void*, uint64_t> slab_size;
static std::unordered_map<void*, void*> slab_obj;      // live object -> slab
uint64_t slab_objects_live() { return slab_obj.size(); }
struct InSlab { InSlab() { inslab()++; } ~InSlab() { inslab()--; } };
static void slab_out(void* slab, void* p) {
  if (!p) return; Host h; uint64_t n = slab_size.count(slab) ? slab_size[slab] : 0;
  if (slab_obj.count(p)) { char m[120]; snprintf(m, sizeof m, "the slab handed out an object (%lu bytes) that is still in use", n); fail("SLAB", m); }
  slab_obj[p] = slab; if (n && in_arena((uintptr_t)p)) shadow_set((uintptr_t)p, n, true);
}
static void slab_in(void* slab, void* p) {
  Host h; uint64_t n = slab_size.count(slab) ? slab_size[slab] : 0;
  auto it = slab_obj.find(p); if (it == slab_obj.end()) { fail("SLAB", "an object was given back to a slab that is not in use (freed twice?)"); return; }
  slab_obj.erase(it); if (n && in_arena((uintptr_t)p)) shadow_set((uintptr_t)p, n, false);
}
static void slab_forget(void* slab) { Host h; for (auto it = slab_obj.begin(); it != slab_obj.end();) if (it->second == slab) it = slab_obj.erase(it); else ++it; }
}
using namespace simrt;
extern "C" {
#define PC __builtin_return_address(0)
#define RW(n) void __tsan_read##n(void* a) { acc(a, n, false, PC); } void __tsan_write##n(void* a) { acc(a, n, true, PC); } \
  void __tsan_unaligned_read##n(void* a) { acc(a, n, false, PC); } void __tsan_unaligned_write##n(void* a) { acc(a, n, true, PC); } \
  void __tsan_volatile_read##n(void* a) { acc(a, n, false, PC); } void __tsan_volatile_write##n(void* a) { acc(a, n, true, PC); } \
  void __tsan_unaligned_volatile_read##n(void* a) { acc(a, n, false, PC); } void __tsan_unaligned_volatile_write##n(void* a) { acc(a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { if (n) acc(a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { if (n) acc(a, n, true, PC); }
void __tsan_vptr_update(void** a, void*) { acc(a, 8, true, PC); }
void __tsan_vptr_read(void** a) { acc(a, 8, false, PC); }
void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_init() {}
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
#define AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T* a, int) { atom((void*)a, sizeof(T), PC); return *a; } \
  void __tsan_atomic##b##_store(volatile T* a, T v, int) { atom((void*)a, sizeof(T), PC); *a = v; } \
  T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { atom((void*)a, sizeof(T), PC); T o = *a; *a = v; return o; } \
  T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { atom((void*)a, sizeof(T), PC); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { atom((void*)a, sizeof(T), PC); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { atom((void*)a, sizeof(T), PC); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { atom((void*)a, sizeof(T), PC); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { atom((void*)a, sizeof(T), PC); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##b##_fetch_nand(volatile T* a, T v, int) { atom((void*)a, sizeof(T), PC); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { atom((void*)a, sizeof(T), PC); simrt::st.cas++; T o = *a; if (o == *c) { *a = v; return 1; } *c = o; simrt::st.contended++; return 0; } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { atom((void*)a, sizeof(T), PC); simrt::st.cas++; T o = *a; if (o == *c && !spurious()) { *a = v; return 1; } *c = o; simrt::st.contended++; return 0; } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int, int) { atom((void*)a, sizeof(T), PC); simrt::st.cas++; T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

// memory functions called by the code under test
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (g_in_sut && n) { acc((void*)s, n, false, PC); acc(d, n, true, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (g_in_sut && n) { acc((void*)s, n, false, PC); acc(d, n, true, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (g_in_sut && n) acc(d, n, true, PC); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { if (g_in_sut && n) { acc((void*)a, n, false, PC); acc((void*)b, n, false, PC); } return __real_memcmp(a, b, n); }

// locks of the operating system's thread library
static int me() { return simrt::self() + 2; }
static void lock_fail(const char* m) { simrt::fail("LOCK", m); }
int __real_pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*); int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_mutex_destroy(pthread_mutex_t*);
#define LK(p) ((volatile int*)(p))
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { if (!g_in_sut) return __real_pthread_mutex_init(m, a); atom(m, 4, PC); *LK(m) = 0; return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (!g_in_sut) return __real_pthread_mutex_lock(m); atom(m, 4, PC); if (*LK(m) == me()) lock_fail("a thread locks a mutex it already holds: it waits for itself"); while (*LK(m)) { simrt::st.contended++; simrt::block(); } *LK(m) = me(); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (!g_in_sut) return __real_pthread_mutex_trylock(m); atom(m, 4, PC); if (*LK(m)) return 16; *LK(m) = me(); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (!g_in_sut) return __real_pthread_mutex_unlock(m); atom(m, 4, PC); if (*LK(m) != me()) lock_fail("a mutex is unlocked by a thread that does not hold it"); *LK(m) = 0; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) { if (!g_in_sut) return __real_pthread_mutex_destroy(m); if (*LK(m)) lock_fail("a mutex is destroyed while it is held"); return 0; }
int __real_pthread_spin_init(pthread_spinlock_t*, int); int __real_pthread_spin_lock(pthread_spinlock_t*); int __real_pthread_spin_trylock(pthread_spinlock_t*); int __real_pthread_spin_unlock(pthread_spinlock_t*);
int __wrap_pthread_spin_init(pthread_spinlock_t* m, int s) { if (!g_in_sut) return __real_pthread_spin_init(m, s); atom((void*)m, 4, PC); *LK(m) = 0; return 0; }
int __wrap_pthread_spin_lock(pthread_spinlock_t* m) { if (!g_in_sut) return __real_pthread_spin_lock(m); atom((void*)m, 4, PC); if (*LK(m) == me()) lock_fail("a thread locks a spinlock it already holds: it waits for itself"); while (*LK(m)) { simrt::st.contended++; simrt::block(); } *LK(m) = me(); return 0; }
int __wrap_pthread_spin_trylock(pthread_spinlock_t* m) { if (!g_in_sut) return __real_pthread_spin_trylock(m); atom((void*)m, 4, PC); if (*LK(m)) return 16; *LK(m) = me(); return 0; }
int __wrap_pthread_spin_unlock(pthread_spinlock_t* m) { if (!g_in_sut) return __real_pthread_spin_unlock(m); atom((void*)m, 4, PC); if (*LK(m) != me()) lock_fail("a spinlock is unlocked by a thread that does not hold it"); *LK(m) = 0; return 0; }
// time: sleeping only moves the simulated clock
unsigned __real_sleep(unsigned); int __real_usleep(useconds_t); int __real_nanosleep(const struct timespec*, struct timespec*);
unsigned __wrap_sleep(unsigned s) { if (!g_in_sut) return __real_sleep(s); simrt::st.slept += s; simrt::block(); return 0; }
int __wrap_usleep(useconds_t s) { if (!g_in_sut) return __real_usleep(s); simrt::st.slept++; simrt::block(); return 0; }
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) { if (!g_in_sut) return __real_nanosleep(a, b); simrt::st.slept++; simrt::block(); return 0; }
int __real_sched_yield(); int __wrap_sched_yield() { if (!g_in_sut) return __real_sched_yield(); simrt::block(); return 0; }
time_t __real_time(time_t*); time_t __wrap_time(time_t* t) { if (!g_in_sut) return __real_time(t); time_t v = 1700000000 + simrt::st.slept; if (t) *t = v; return v; }
int __real_clock_gettime(clockid_t, struct timespec*);
int __wrap_clock_gettime(clockid_t c, struct timespec* t) {
  if (!g_in_sut) return __real_clock_gettime(c, t); uint64_t n = simrt::now_ns();
  if (c != CLOCK_MONOTONIC && c != CLOCK_MONOTONIC_RAW && c != CLOCK_BOOTTIME) { n += sim::mix(simrt::cfg.seed, simrt::steps / 50) % 3000000000ull; simrt::sys.clock_jumps++; }     // other clocks jump
  t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0;
}
// threads and processors
static inline bool simthr() { return g_in_sut && cur >= 0; }
static pthread_t tid_of(int i) { return 0x7f00000000ull + 64 * (i + 1); }
static int of_tid(pthread_t t) { if (t < tid_of(0) || (t - tid_of(0)) % 64) return -1; uint64_t i = (t - tid_of(0)) / 64; return i < fb.size() ? (int)i : -1; }
static bool sysf(int k) { if (!sys_fail) return false; Host h; return sys_fail(k); }
static void thr_fail(const char* m) { simrt::fail("THREAD", m); }
static uint64_t low(const cpu_set_t* s, size_t n) { uint64_t m = 0; for (int i = 0; i < NCPU; i++) if ((size_t)i < n * 8 && CPU_ISSET_S(i, n, s)) m |= 1ull << i; return m; }
struct AttrAff { uint64_t mask; bool set; }; static std::unordered_map<const void*, AttrAff> attrs;
pthread_t __real_pthread_self(); pthread_t __wrap_pthread_self() { return simthr() ? tid_of(cur) : __real_pthread_self(); }
int __real_pthread_attr_init(pthread_attr_t*); int __real_pthread_attr_destroy(pthread_attr_t*); int __real_pthread_attr_setaffinity_np(pthread_attr_t*, size_t, const cpu_set_t*);
int __wrap_pthread_attr_init(pthread_attr_t* a) { if (!simthr()) return __real_pthread_attr_init(a); Host h; attrs[a] = {0, false}; sys.attr_live++; return 0; }
int __wrap_pthread_attr_destroy(pthread_attr_t* a) { if (!simthr()) return __real_pthread_attr_destroy(a); Host h; if (!attrs.erase(a)) thr_fail("thread attributes are destroyed that were never made"); sys.attr_live--; return 0; }
int __wrap_pthread_attr_setaffinity_np(pthread_attr_t* a, size_t n, const cpu_set_t* s) { if (!simthr()) return __real_pthread_attr_setaffinity_np(a, n, s); if (sysf(3)) { sys.aff_failed++; return 12; } Host h; if (!attrs.count(a)) { thr_fail("thread attributes are used that were never made"); return 22; } attrs[a] = {low(s, n), true}; return 0; }
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
  if (!simthr()) return __real_pthread_create(t, a, f, arg);
  point();
  if (sysf(0)) { sys.create_failed++; *t = 0x6b6b6b6b6b6b40ull; return 11; }       // what *t holds then is undefined
  uint64_t m = fb[cur]->aff;
  if (a) { Host h; auto it = attrs.find(a); if (it == attrs.end()) { thr_fail("a thread is created with attributes that were never made"); return 22; } if (it->second.set) { m = it->second.mask; if (!m) return 22; } }
  int id; { Host h; id = simrt::spawn([f, arg]() { void* r; { Sut s; r = f(arg); } fb[cur]->ret = r; }); fb[id]->aff = m; fb[id]->created = true; memcpy(fb[id]->name, fb[cur]->name, 16); }
  sys.created++; *t = tid_of(id); point(); return 0;
}
int __real_pthread_join(pthread_t, void**);
int __wrap_pthread_join(pthread_t t, void** r) {
  if (!simthr()) return __real_pthread_join(t, r);
  point(); int i = of_tid(t);
  if (i < 0 || !fb[i]->created) { thr_fail("a thread is joined that was never created"); return 3; }
  if (i == cur) { thr_fail("a thread joins itself"); return 35; }
  if (fb[i]->joined) { thr_fail("a thread is joined twice"); return 3; }
  fb[i]->joined = true; while (!fb[i]->done) simrt::block();
  sys.joined++; if (r) *r = fb[i]->ret; return 0;
}
int __real_pthread_detach(pthread_t); int __wrap_pthread_detach(pthread_t t) { if (!simthr()) return __real_pthread_detach(t); int i = of_tid(t); if (i < 0 || !fb[i]->created || fb[i]->joined) { thr_fail("a thread is detached that was never created, or joined"); return 3; } fb[i]->joined = true; sys.joined++; return 0; }
int __real_pthread_getname_np(pthread_t, char*, size_t); int __wrap_pthread_getname_np(pthread_t t, char* n, size_t l) { if (!simthr()) return __real_pthread_getname_np(t, n, l); int i = of_tid(t); if (i < 0) return 3; if (l < 16) return 34; memcpy(n, fb[i]->name, 16); return 0; }
int __real_pthread_setname_np(pthread_t, const char*); int __wrap_pthread_setname_np(pthread_t t, const char* n) { if (!simthr()) return __real_pthread_setname_np(t, n); int i = of_tid(t); if (i < 0) return 3; size_t l = strnlen(n, 17); if (l > 15) return 34; memcpy(fb[i]->name, n, l + 1); return 0; }
int __real_sched_getaffinity(pid_t, size_t, cpu_set_t*); int __wrap_sched_getaffinity(pid_t p, size_t n, cpu_set_t* s) { if (!simthr()) return __real_sched_getaffinity(p, n, s); if (sysf(1)) { sys.aff_failed++; __real_memset(s, 0x24, n); errno = 22;   /* what it holds then is undefined */ return -1; } __real_memset(s, 0, n); for (int i = 0; i < NCPU; i++) if (fb[cur]->aff >> i & 1) CPU_SET_S(i, n, s); return 0; }
int __real_sched_setaffinity(pid_t, size_t, const cpu_set_t*); int __wrap_sched_setaffinity(pid_t p, size_t n, const cpu_set_t* s) { if (!simthr()) return __real_sched_setaffinity(p, n, s); point(); if (sysf(2)) { sys.aff_failed++; errno = 1; return -1; } uint64_t m = low(s, n); if (!m) { errno = 22; return -1; } fb[cur]->aff = m; return 0; }
long __real_sysconf(int); long __wrap_sysconf(int n) { return n == _SC_NPROCESSORS_CONF || n == _SC_NPROCESSORS_ONLN ? NCPU : __real_sysconf(n); }
// slabs
#define WEAK __attribute__((weak))
void* __real_slab_create(uint64_t, uint64_t) WEAK; void* __real_slab_alloc_safe(void*) WEAK; void* __real_slab_alloc_unsafe(void*) WEAK; void __real_slab_free_safe(void*, void*) WEAK; void __real_slab_free_unsafe(void*, void*) WEAK; void __real_slab_free_all(void*) WEAK; void __real_slab_destroy(void*) WEAK; bool __real_slab_reserve_unsafe(void*, uint64_t) WEAK; uint64_t __real_slab_get_nalloc(void*) WEAK;
void* __wrap_slab_create(uint64_t o, uint64_t b) { void* s = __real_slab_create(o, b); if (s) { Host h; slab_size[s] = o; } return s; }
void* __wrap_slab_alloc_safe(void* s) { void* p; { InSlab i; p = __real_slab_alloc_safe(s); } slab_out(s, p); return p; }
void* __wrap_slab_alloc_unsafe(void* s) { void* p; { InSlab i; p = __real_slab_alloc_unsafe(s); } slab_out(s, p); return p; }
void __wrap_slab_free_safe(void* s, void* p) { slab_in(s, p); InSlab i; __real_slab_free_safe(s, p); }
void __wrap_slab_free_unsafe(void* s, void* p) { slab_in(s, p); InSlab i; __real_slab_free_unsafe(s, p); }
void __wrap_slab_free_all(void* s) { slab_forget(s); InSlab i; __real_slab_free_all(s); }
void __wrap_slab_destroy(void* s) { slab_forget(s); { Host h; slab_size.erase(s); } InSlab i; __real_slab_destroy(s); }
bool __wrap_slab_reserve_unsafe(void* s, uint64_t n) { InSlab i; return __real_slab_reserve_unsafe(s, n); }
uint64_t __wrap_slab_get_nalloc(void* s) { InSlab i; return __real_slab_get_nalloc(s); }
}
