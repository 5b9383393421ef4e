// Simulator of the ordered maps (string and integer Wormhole), their locks, memory reclamation and
// slab allocator, and of threads querying one shared Diva filter.  All threads are fibers of
// simrt; all code under test is real.
#include "simcore.hpp"
#include "simrt.hpp"
#include <memory>
extern "C" {
#include "wormhole/lib.h"
#include "wormhole/kv.h"
#include "wormhole/wh.h"
}
// wh_int.h and wh.h both declare the kvmap_api tables; take the integer tree's functions by hand
#include "wormhole/wh_int.h"
extern "C" { extern const struct kvmap_api kvmap_api_whsafe_int; extern const struct kvmap_api kvmap_api_wormhole_int;
// exported by wh_int.c without a declaration
struct kv* whunsafe_int_get(struct wormhole_int*, const struct kref*, struct kv*); bool whunsafe_int_probe(struct wormhole_int*, const struct kref*);
bool whunsafe_int_put(struct wormhole_int*, struct kv*); bool whunsafe_int_del(struct wormhole_int*, const struct kref*);
uint64_t whunsafe_int_delr(struct wormhole_int*, const struct kref*, const struct kref*); }
#include "divaglue.hpp"
using namespace sim;
namespace sim {
Shared* g_sh;
enum { C_NT, C_OPS, C_SW, C_FORCED, C_BLOCK, C_SPUR, C_STALL, C_AFAIL, C_CONT, C_PUT, C_GET, C_DEL, C_RMW, C_DELR, C_SCAN, C_SCANRES, C_REREF, C_OVERLAP, C_SMOMAX, C_LINKEYS, C_LINSKIP, C_OPFAIL, C_SLEPT, C_RACYWIN, C_LOCKOPS, C_QWAIT, C_SLABOPS, C_QUERIES, C_RUNS1, C_ATOM, C_HOLD, C_UNSAFE, C_MIXED, C_TABLE, C_FJ, C_FJRUN, C_FJNEST, C_FJMISS, C_THREADS, C_THRFAIL, C_AFFFAIL, C_COSW };
const char* g_cnt_names[NCNT] = {"nontrivial", "operations", "switches", "fairness_switches", "blocked_switches", "spurious_cas_failures", "stalls", "allocation_failures", "lock_contention", "puts", "gets", "deletes", "rmw", "range_deletes", "scans", "scan_results", "ref_changes", "overlapping_pairs", "slab_objects_max", "keys_checked", "keys_unchecked", "failed_operations", "sleeps", "overlaps_same_key", "lock_operations", "grace_periods", "slab_operations", "queries", "single_thread_runs", "atomic_operations", "holds_before_atomics", "unsafe_operations", "unsafe_mixed_with_safe", "table_operations", "fork_joins", "functions_run", "nested_fork_joins", "functions_not_run", "threads_created", "thread_creations_failed", "affinity_calls_failed", "coroutine_transfers"};
}
static void rt_fail(const char* cls, const char* msg) { Host h; violation(cls, "%s (at step %lu, thread %d)", msg, simrt::steps, simrt::self()); }
static void on_bad_free(const char* w, void* p) { Host h; violation("HEAP", "%s %p (at step %lu, thread %d)", w, p, simrt::steps, simrt::self()); }
// ---------------------------------------------------------------------------------- allocation faults
struct FaultWin { int64_t left = -1, cnt = 0; };
static std::map<int, FaultWin> g_fw;
static bool alloc_fails(size_t) {
  auto it = g_fw.find(simrt::self()); if (it == g_fw.end()) return false;
  FaultWin& w = it->second; if (w.left < 0) return false;
  if (w.left > 0) { w.left--; return false; }
  if (w.cnt > 0) { w.cnt--; note(0xFA11); return true; }
  w.left = -1; return false;
}
static bool fail_hook_fn(size_t n) { int s = g_in_sut; g_in_sut = 0; bool r = alloc_fails(n); g_in_sut = s; return r; }

// ---------------------------------------------------------------------------------- values
static uint64_t val_id(uint64_t line, uint64_t salt) { return ((line + 1) << 5) | (mix(line, salt) & 31); }
static uint8_t pat(uint64_t id, size_t i) { return (uint8_t)((id * 0x9E3779B97F4A7C15ull) >> (8 * (i & 7))) ^ (uint8_t)i; }
static bool g_int;
static size_t val_len(uint64_t id) { return g_int ? 16 : 8 + (id & 31); }
static void val_make(uint64_t id, uint8_t* o) {
  if (g_int) { uint64_t m = mix(id, 77); memcpy(o, &id, 8); memcpy(o + 8, &m, 8); return; }
  memcpy(o, &id, 8); for (size_t i = 8; i < val_len(id); i++) o[i] = pat(id, i);
}
static uint64_t val_read(const uint8_t* p, size_t n, const char* what) {    // 0 is never a value
  uint64_t id = 0; uint8_t t[64];
  if (n >= 8) memcpy(&id, p, 8);
  if (n < 8 || id == 0 || n != val_len(id)) { Host h; violation("TORN", "%s returned a value of %zu bytes that was never stored (id %lx)", what, n, id); }
  val_make(id, t);
  if (memcmp(t, p, n)) { Host h; violation("TORN", "%s returned a value that mixes several stored values (id %lx)", what, id); }
  return id;
}
// ---------------------------------------------------------------------------------- history
enum K { PUT, READ, PROBE, DEL, DELU, RMW };
struct Ev { int key; uint8_t kind; uint64_t arg, res, inv, ret; int fiber, line; };
static std::vector<Ev> H; static std::vector<std::string> KEYS; static std::vector<std::string> OPTXT;
static uint64_t tick() { return ++simrt::evt; }
static const char* kname(int k) { static const char* n[] = {"put", "read", "probe", "del", "range-delete", "read-modify-write"}; return n[k]; }
static bool step_ok(const Ev& e, uint64_t s, uint64_t& o) {
  o = s;
  switch (e.kind) {
    case PUT: o = e.arg; return true;
    case READ: return e.res == s;
    case PROBE: return e.res == (s != 0);
    case DEL: if (e.res != (s != 0)) return false; o = 0; return true;
    case DELU: o = 0; return true;
    case RMW: if (e.res != s) return false; if (e.arg) o = e.arg; return true;
  }
  return false;
}
// Wing & Gong search for one key; ops are independent per key
static int lin_key(std::vector<Ev>& e) {
  std::sort(e.begin(), e.end(), [](const Ev& a, const Ev& b) { return a.inv < b.inv; });
  if (e.size() > 62) {        // leaving out pure reads keeps the check sound
    std::vector<Ev> r; size_t must = 0; for (auto& x : e) must += !(x.kind == READ || x.kind == PROBE);
    if (must > 62) return -1;
    size_t room = 62 - must, seen = 0, tot = e.size() - must;
    for (auto& x : e) { bool rd = x.kind == READ || x.kind == PROBE; if (!rd) r.push_back(x); else { if (seen * room / tot != (seen + 1) * room / tot) r.push_back(x); seen++; } }
    e = r;
  }
  const int n = e.size(); std::set<std::pair<uint64_t, uint64_t>> memo; uint64_t nodes = 0;
  std::function<int(uint64_t, uint64_t)> go = [&](uint64_t mask, uint64_t s) -> int {
    if (mask == (n == 64 ? ~0ull : (1ull << n) - 1)) return 1;
    if (!memo.insert({mask, s}).second) return 0;
    if (++nodes > 400000) return -1;
    uint64_t minret = ~0ull; for (int i = 0; i < n; i++) if (!(mask >> i & 1)) minret = std::min(minret, e[i].ret);
    for (int i = 0; i < n; i++) { if (mask >> i & 1) continue; if (e[i].inv > minret) break;
      uint64_t o; if (step_ok(e[i], s, o)) { int r = go(mask | 1ull << i, o); if (r) return r; } }
    return 0;
  };
  return go(0, 0);
}
static std::string ev_txt(const Ev& e) { char b[160]; snprintf(b, sizeof b, "[%lu..%lu] t%d %s arg=%lx res=%lx", e.inv, e.ret, e.fiber, kname(e.kind), e.arg, e.res); return b; }
static void check_linearizable(const char* what) {
  std::map<int, std::vector<Ev>> by; for (auto& x : H) by[x.key].push_back(x);
  for (auto& kv : by) {
    auto& v = kv.second;
    for (size_t i = 0; i < v.size() && i < 40; i++) for (size_t j = 0; j < i; j++) if (v[i].fiber != v[j].fiber && v[i].inv < v[j].ret && v[j].inv < v[i].ret) g_sh->cnt[C_RACYWIN]++;
    int r = lin_key(v);
    if (r == 1) { g_sh->cnt[C_LINKEYS]++; continue; }
    if (r < 0) { g_sh->cnt[C_LINSKIP]++; continue; }
    // shorten the story: drop reads while it still fails
    for (size_t i = 0; i < v.size();) { if (v[i].kind == READ || v[i].kind == PROBE) { auto w = v; w.erase(w.begin() + i); if (lin_key(w) == 0) { v = w; continue; } } i++; }
    std::string t; for (auto& x : v) { t += ev_txt(x); t += "; "; if (t.size() > 1000) { t += "..."; break; } }
    violation("LINEARIZABILITY", "%s: key %s: no order of the operations explains their results: %s", what, hex(KEYS[kv.first]).c_str(), t.c_str());
  }
}
// ---------------------------------------------------------------------------------- the two trees behind one face
struct Res { bool ok; uint64_t id; };
static int g_api;             // 0 wh_ (buffers), 1 whsafe_ (kv), 2 wormhole_ (plain: the thread reports quiescent states), 3 whunsafe_ (one thread, no references)
static int g_via;             // 0 the functions themselves, 1 the kvmap_api tables with the kvmap_kv_ helpers, 2 with the kvmap_raw_ helpers
static int g_umk;             // api 3: the map was made by 0 whunsafe_create, 1 wormhole_create
static void* g_sref;          // api 3: a reference for the safe functions mixed in between
static bool g_dup;            // the map copies what is put (kvmap_mm_dup), or takes it over
static const struct kvmap_api* tab() {
  if (g_int) return g_api == 2 ? &kvmap_api_wormhole_int : &kvmap_api_whsafe_int;
  return g_api == 3 ? &kvmap_api_whunsafe : g_api == 2 ? &kvmap_api_wormhole : &kvmap_api_whsafe;
}
struct KBuf { uint8_t b[8]; };      // integer keys are read 8 bytes at a time
static const uint8_t* kptr(const std::string& k, KBuf& kb) { if (!g_int) return (const uint8_t*)k.data(); memset(kb.b, 0, 8); memcpy(kb.b, k.data(), k.size()); return kb.b; }
static struct kref mkref(const std::string& k, KBuf& kb) { struct kref r; kref_ref_hash32(&r, kptr(k, kb), k.size()); return r; }
struct KvKey { alignas(16) uint8_t b[480]; struct kv* kv; KvKey(const std::string& k) { KBuf kb; const uint8_t* p = kptr(k, kb); uint8_t z[8] = {0}; kv = (struct kv*)b; kv_refill(kv, p, k.size(), z, 8); } };
static void* m_create() {
  if (g_api == 3) {
    if (g_int) return g_umk ? (void*)wormhole_int_create(nullptr) : (void*)whunsafe_int_create(nullptr);
    if (!g_via || g_umk) return g_umk ? (void*)wormhole_create(g_dup ? nullptr : &kvmap_mm_ndf) : (void*)whunsafe_create(g_dup ? nullptr : &kvmap_mm_ndf);
  }
  if (g_via && !g_int) {
    const struct kvmap_api* api = nullptr; void* m = nullptr; char n0[] = "api", n1[16]; strcpy(n1, g_api == 3 ? "whunsafe" : g_api == 2 ? "wormhole" : "whsafe"); char* av[] = {n0, n1};
    int n = kvmap_api_helper(2, av, g_dup ? nullptr : &kvmap_mm_ndf, &api, &m);
    if (n == 2 && api == tab()) return m;
    if (n != 2 && simmem::st.failed) return nullptr;
    if (n == 2 && api != &kvmap_api_wormhole_int && api != &kvmap_api_whsafe_int) { Host h; violation("CREATE", "the map type %s is registered with another type's functions", n1); }
    // both trees register the same names, and which one is found depends on the order of linking
    if (n == 2) api->destroy(m);
    return (void*)wormhole_create(g_dup ? nullptr : &kvmap_mm_ndf);
  }
  if (g_int) return g_api == 0 ? (void*)wh_int_create() : (void*)wormhole_int_create(g_dup ? nullptr : &kvmap_mm_ndf);
  return g_api == 0 ? (void*)wh_create() : (void*)wormhole_create(g_dup ? nullptr : &kvmap_mm_ndf);
}
static void m_destroy(void* m) { if (g_via) tab()->destroy(m); else if (g_int) wh_int_destroy((wormhole_int*)m); else wh_destroy((wormhole*)m); }
static void m_clean(void* m) { if (g_via) tab()->clean(m); else if (g_int) wh_int_clean((wormhole_int*)m); else wh_clean((wormhole*)m); }
static void* safe_ref(void* m) { return g_int ? (void*)wh_int_ref((wormhole_int*)m) : (void*)wh_ref((wormhole*)m); }
static void safe_unref(void* r) { if (g_int) wormhole_int_unref((wormref_int*)r); else wh_unref((wormref*)r); }
static void* m_ref(void* m) {
  if (g_api == 3) return m;
  if (g_via) return kvmap_ref(tab(), m);
  if (g_int) return g_api == 2 ? (void*)wormhole_int_ref((wormhole_int*)m) : (void*)wh_int_ref((wormhole_int*)m);
  return g_api == 2 ? (void*)wormhole_ref((wormhole*)m) : (void*)wh_ref((wormhole*)m);
}
static void m_unref(void* r) {
  if (g_api == 3) return;
  if (g_via) { void* m = kvmap_unref(tab(), r); if (m != (void*)nullptr) return; Host h; violation("REF", "dropping a reference did not return the map"); }
  if (g_int) wormhole_int_unref((wormref_int*)r); else if (g_api == 0) wh_unref((wormref*)r); else wormhole_unref((wormref*)r);
}
static void m_park(void* r) { if (g_via) { tab()->park(r); return; } if (g_int) wormhole_int_park((wormref_int*)r); else wormhole_park((wormref*)r); }
static void m_resume(void* r) { if (g_via) { tab()->resume(r); return; } if (g_int) wormhole_int_resume((wormref_int*)r); else wormhole_resume((wormref*)r); }
static void m_refresh(void* r) { if (g_int) wormhole_int_refresh_qstate((wormref_int*)r); else wormhole_refresh_qstate((wormref*)r); }
static bool put_kv(void* r, struct kv* kv) {
  if (g_via) return kvmap_kv_put(tab(), r, kv);
  if (g_int) return g_api == 3 ? whunsafe_int_put((wormhole_int*)r, kv) : g_api == 1 ? whsafe_int_put((wormref_int*)r, kv) : wormhole_int_put((wormref_int*)r, kv);
  return g_api == 3 ? whunsafe_put((wormhole*)r, kv) : g_api == 1 ? whsafe_put((wormref*)r, kv) : wormhole_put((wormref*)r, kv);
}
static bool m_put(void* r, const std::string& k, uint64_t id) {
  uint8_t v[64]; val_make(id, v); KBuf kb; const uint8_t* kp = kptr(k, kb); size_t vl = val_len(id);
  if (g_api == 0) return g_int ? wh_int_put((wormref_int*)r, kp, k.size(), v, vl) : wh_put((wormref*)r, kp, k.size(), v, vl);
  if (g_int || g_dup) {      // the map copies it: a buffer of ours
    alignas(16) uint8_t buf[600]; struct kv* kv = (struct kv*)buf; kv_refill(kv, kp, k.size(), v, vl); return put_kv(r, kv);
  }
  struct kv* kv = kv_create(kp, k.size(), v, vl); if (!kv) return false;
  return put_kv(r, kv);
}
static uint64_t from_kv(struct kv* kv, const std::string& k, const char* what) {
  if (!kv) return 0;
  if (kv->klen != k.size() || memcmp(kv->kv, k.data(), k.size())) { Host h; violation("WRONGKEY", "%s of key %s returned key %s", what, hex(k).c_str(), hex(std::string((char*)kv->kv, kv->klen < 64 ? kv->klen : 64)).c_str()); }
  return val_read(kv->kv + kv->klen, kv->vlen, what);
}
// a value cut down to the caller's buffer: the start of a stored value, its full length, and nothing behind the buffer
static uint64_t val_read_cut(const uint8_t* p, size_t room, size_t cap, size_t n, const char* what) {
  for (size_t i = room; i < cap; i++) if (p[i] != 0xC7) { Host h; violation("OVERRUN", "%s wrote behind the caller's buffer of %zu bytes", what, room); }
  uint64_t id; memcpy(&id, p, 8); uint8_t t[64];
  if (!id || n != val_len(id)) { Host h; violation("TORN", "%s returned a value of %zu bytes that was never stored (id %lx)", what, n, id); }
  val_make(id, t); if (memcmp(t, p, std::min(room, n))) { Host h; violation("TORN", "%s returned a value that mixes several stored values (id %lx)", what, id); }
  return id;
}
static uint64_t m_get(void* r, const std::string& k) {
  KBuf kb; const uint8_t* kp = kptr(k, kb);
  if (g_api == 0) {
    uint8_t out[80]; memset(out, 0xC7, sizeof out); const uint32_t room = simrt::evt % 4 ? sizeof out : 8 + simrt::evt / 4 % 40;
    uint32_t n = 0xFFFF; bool f = g_int ? wh_int_get((wormref_int*)r, kp, k.size(), out, room, &n) : wh_get((wormref*)r, kp, k.size(), out, room, &n);
    return !f ? 0 : room < n ? val_read_cut(out, room, sizeof out, n, "get") : val_read(out, n, "get");
  }
  alignas(16) uint8_t buf[600]; struct kref q = mkref(k, kb); struct kv* o;
  if (g_via == 1) { KvKey kk(k); o = kvmap_kv_get(tab(), r, kk.kv, (struct kv*)buf); }
  else if (g_via) o = kvmap_raw_get(tab(), r, k.size(), kp, (struct kv*)buf);
  else if (g_int) o = g_api == 3 ? whunsafe_int_get((wormhole_int*)r, &q, (struct kv*)buf) : g_api == 1 ? whsafe_int_get((wormref_int*)r, &q, (struct kv*)buf) : wormhole_int_get((wormref_int*)r, &q, (struct kv*)buf);
  else o = g_api == 3 ? whunsafe_get((wormhole*)r, &q, (struct kv*)buf) : g_api == 1 ? whsafe_get((wormref*)r, &q, (struct kv*)buf) : wormhole_get((wormref*)r, &q, (struct kv*)buf);
  return from_kv(o, k, "get");
}
static bool m_probe(void* r, const std::string& k) {
  KBuf kb; struct kref q = mkref(k, kb);
  if (g_via == 1) { KvKey kk(k); return kvmap_kv_probe(tab(), r, kk.kv); }
  if (g_via) return kvmap_raw_probe(tab(), r, q.len, q.ptr);
  if (g_api == 0) return g_int ? wh_int_probe((wormref_int*)r, q.ptr, q.len) : wh_probe((wormref*)r, q.ptr, q.len);
  if (g_int) return g_api == 3 ? whunsafe_int_probe((wormhole_int*)r, &q) : g_api == 1 ? whsafe_int_probe((wormref_int*)r, &q) : wormhole_int_probe((wormref_int*)r, &q);
  return g_api == 3 ? whunsafe_probe((wormhole*)r, &q) : g_api == 1 ? whsafe_probe((wormref*)r, &q) : wormhole_probe((wormref*)r, &q);
}
static bool m_del(void* r, const std::string& k) {
  KBuf kb; struct kref q = mkref(k, kb);
  if (g_via == 1) { KvKey kk(k); return kvmap_kv_del(tab(), r, kk.kv); }
  if (g_via) return kvmap_raw_del(tab(), r, q.len, q.ptr);
  if (g_api == 0) return g_int ? wh_int_del((wormref_int*)r, q.ptr, q.len) : wh_del((wormref*)r, q.ptr, q.len);
  if (g_int) return g_api == 3 ? whunsafe_int_del((wormhole_int*)r, &q) : g_api == 1 ? whsafe_int_del((wormref_int*)r, &q) : wormhole_int_del((wormref_int*)r, &q);
  return g_api == 3 ? whunsafe_del((wormhole*)r, &q) : g_api == 1 ? whsafe_del((wormref*)r, &q) : wormhole_del((wormref*)r, &q);
}
static uint64_t m_delr(void* r, const std::string& a, const std::string* b) {
  KBuf ka, kb; struct kref p = mkref(a, ka), q; if (b) q = mkref(*b, kb);
  if (g_via) { KvKey x(a), y(b ? *b : a); return kvmap_kv_delr(tab(), r, x.kv, b ? y.kv : nullptr); }
  if (g_api == 0 && b) return g_int ? wh_int_delr((wormref_int*)r, p.ptr, p.len, q.ptr, q.len) : wh_delr((wormref*)r, p.ptr, p.len, q.ptr, q.len);
  if (g_api == 3) return g_int ? whunsafe_int_delr((wormhole_int*)r, &p, b ? &q : nullptr) : whunsafe_delr((wormhole*)r, &p, b ? &q : nullptr);
  if (g_int) return g_api < 2 ? whsafe_int_delr((wormref_int*)r, &p, b ? &q : nullptr) : wormhole_int_delr((wormref_int*)r, &p, b ? &q : nullptr);
  return g_api < 2 ? whsafe_delr((wormref*)r, &p, b ? &q : nullptr) : wormhole_delr((wormref*)r, &p, b ? &q : nullptr);
}
// callbacks run inside the map, with the leaf locked; they give other threads every chance
struct Rmw { const std::string* k; int mode; uint64_t newid, seen; int calls; struct kv* mine; bool given; };
static uint64_t cb_read(struct kv* c, const std::string& k, const char* what) {
  if (!c) return 0;
  simrt::yield();
  uint8_t t[80]; size_t n = c->vlen; if (n > 64) { Host h; violation("TORN", "%s: a value of %zu bytes", what, n); }
  for (size_t i = 0; i < n; i++) { if ((i & 7) == 3) simrt::yield(); t[i] = kv_vptr(c) ? ((uint8_t*)kv_vptr(c))[i] : 0; }
  if (c->klen != k.size() || memcmp(c->kv, k.data(), k.size())) { Host h; violation("WRONGKEY", "%s of key %s was given another key", what, hex(k).c_str()); }
  return val_read(t, n, what);
}
static struct kv* cb_merge(struct kv* kv0, void* p) {
  Rmw* m = (Rmw*)p; m->calls++; m->seen = cb_read(kv0, *m->k, "merge");
  if ((m->mode == 1 && !kv0) || (m->mode == 2 && kv0)) return nullptr;
  if (m->mode == 3 && kv0) return kv0;
  m->given = true; simrt::yield(); return m->mine;
}
static void cb_inpr(struct kv* c, void* p) { Rmw* m = (Rmw*)p; m->calls++; m->seen = cb_read(c, *m->k, "inpr"); }
static void cb_inpw(struct kv* c, void* p) {
  Rmw* m = (Rmw*)p; m->calls++; m->seen = cb_read(c, *m->k, "inpw"); if (!c) return;
  m->newid = (m->newid & ~31ull) | (m->seen & 31); uint8_t t[64]; val_make(m->newid, t); uint8_t* v = (uint8_t*)kv_vptr(c);
  for (size_t i = 0; i < val_len(m->newid); i++) { v[i] = t[i]; if ((i & 7) == 3) simrt::yield(); }
}
static bool m_inp(void* r, const std::string& k, bool w, Rmw* m) {
  KBuf kb; struct kref q = mkref(k, kb); kv_inp_func f = w ? cb_inpw : cb_inpr; wormref* R = (wormref*)r;
  if (g_via == 1) { KvKey kk(k); return w ? kvmap_kv_inpw(tab(), r, kk.kv, f, m) : kvmap_kv_inpr(tab(), r, kk.kv, f, m); }
  if (g_via) return w ? kvmap_raw_inpw(tab(), r, q.len, q.ptr, f, m) : kvmap_raw_inpr(tab(), r, q.len, q.ptr, f, m);
  if (g_api == 3) return whunsafe_inp((wormhole*)r, &q, f, m);
  if (g_api == 0) return w ? wh_inpw(R, q.ptr, q.len, f, m) : wh_inpr(R, q.ptr, q.len, f, m);
  if (g_api == 1) return w ? whsafe_inpw(R, &q, f, m) : whsafe_inpr(R, &q, f, m);
  return w ? wormhole_inpw(R, &q, f, m) : wormhole_inpr(R, &q, f, m);
}
static bool m_merge(void* r, const std::string& k, Rmw* m) {
  KBuf kb; struct kref q = mkref(k, kb); wormref* R = (wormref*)r;
  if (g_via) { KvKey kk(k); return kvmap_kv_merge(tab(), r, kk.kv, cb_merge, m); }
  if (g_api == 3) return whunsafe_merge((wormhole*)r, &q, cb_merge, m);
  if (g_api == 0) return wh_merge(R, q.ptr, q.len, cb_merge, m);
  return g_api == 1 ? whsafe_merge(R, &q, cb_merge, m) : wormhole_merge(R, &q, cb_merge, m);
}
// iterators
static void* i_create(void* r) { if (g_via) return tab()->iter_create(r); if (g_api == 3) return whunsafe_iter_create((wormhole*)r); return g_int ? (void*)wh_int_iter_create((wormref_int*)r) : (void*)wh_iter_create((wormref*)r); }
static void i_seek(void* it, const std::string& k) {
  KBuf kb; struct kref q = mkref(k, kb);
  if (g_via == 1) { KvKey kk(k); kvmap_kv_iter_seek(tab(), it, kk.kv); return; }
  if (g_via) { kvmap_raw_iter_seek(tab(), it, q.len, q.ptr); return; }
  if (g_int) { if (g_api == 2) wormhole_int_iter_seek((wormhole_int_iter*)it, &q); else wh_int_iter_seek((wormhole_int_iter*)it, q.ptr, q.len); }
  else { if (g_api == 3) whunsafe_iter_seek((wormhole_iter*)it, &q); else if (g_api == 2) wormhole_iter_seek((wormhole_iter*)it, &q); else wh_iter_seek((wormhole_iter*)it, q.ptr, q.len); }
}
static bool i_valid(void* it) { if (g_via) return tab()->iter_valid(it); return g_int ? wh_int_iter_valid((wormhole_int_iter*)it) : wh_iter_valid((wormhole_iter*)it); }
static void i_skip1(void* it) { if (g_via) tab()->iter_skip1(it); else if (g_int) wh_int_iter_skip1((wormhole_int_iter*)it); else if (g_api == 3) whunsafe_iter_skip1((wormhole_iter*)it); else wh_iter_skip1((wormhole_iter*)it); }
static void i_rev(void* it) { if (g_via) tab()->iter_skip1_rev(it); else if (g_int) wh_int_iter_skip1_rev((wormhole_int_iter*)it); else wh_iter_skip1_rev((wormhole_iter*)it); }
static void i_skip(void* it, uint32_t n) { if (g_via) tab()->iter_skip(it, n); else if (g_int) wh_int_iter_skip((wormhole_int_iter*)it, n); else if (g_api == 3) whunsafe_iter_skip((wormhole_iter*)it, n); else wh_iter_skip((wormhole_iter*)it, n); }
static void i_park(void* it) { if (g_api == 3) return; if (g_via) { tab()->iter_park(it); return; } if (g_int) { if (g_api == 2) wormhole_int_iter_park((wormhole_int_iter*)it); else wh_int_iter_park((wormhole_int_iter*)it); } else { if (g_api == 2) wormhole_iter_park((wormhole_iter*)it); else wh_iter_park((wormhole_iter*)it); } }
static void i_destroy(void* it) { if (g_via) { tab()->iter_destroy(it); return; } if (g_api == 3) { whunsafe_iter_destroy((wormhole_iter*)it); return; } if (g_int) { if (g_api == 2) wormhole_int_iter_destroy((wormhole_int_iter*)it); else wh_int_iter_destroy((wormhole_int_iter*)it); } else { if (g_api == 2) wormhole_iter_destroy((wormhole_iter*)it); else wh_iter_destroy((wormhole_iter*)it); } }
struct IterSeen { int calls = 0; bool any = false; uint32_t kl = 0, vl = 0; uint8_t k[512], v[80]; };
static void cb_iter(struct kv* c, void* p) {
  IterSeen* s = (IterSeen*)p; s->calls++; if (!c) return; s->any = true; s->kl = c->klen; s->vl = c->vlen; simrt::yield();
  memcpy(s->k, kv_kptr(c), std::min<uint32_t>(c->klen, 400)); memcpy(s->v, kv_vptr(c), std::min<uint32_t>(c->vlen, 64)); simrt::yield();
}
static bool i_peek(void* it, int how, std::string& k, uint64_t& id) {
  if (how != 0 && how < 4 && !i_valid(it)) return false;
  wormhole_iter* wi = (wormhole_iter*)it; wormhole_int_iter* ii = (wormhole_int_iter*)it;
  if (how == 4) {             // by reference through the general interface
    struct kref kr; struct kvref vr; bool a, b;
    if (g_via) { a = tab()->iter_kref(it, &kr); for (int i = 0; i < 2; i++) simrt::yield(); b = tab()->iter_kvref(it, &vr); }
    else if (g_int) { a = wormhole_int_iter_kref(ii, &kr); b = wormhole_int_iter_kvref(ii, &vr); } else { a = wormhole_iter_kref(wi, &kr); for (int i = 0; i < 2; i++) simrt::yield(); b = wormhole_iter_kvref(wi, &vr); }
    if (a != b) { Host h; violation("ITERATOR", "an iterator has a current key for kref (%d) but not for kvref (%d)", a, b); }
    if (!a) return false;
    if (g_int ? kr.len > 8 : kr.len > 400) { Host h; violation("WRONGKEY", "the iterator returned a key of %u bytes", kr.len); }
    if (kr.len != vr.hdr.klen || memcmp(kr.ptr, vr.kptr, kr.len)) { Host h; violation("ITERATOR", "kref and kvref of one iterator name different keys"); }
    Host h; k.assign((const char*)kr.ptr, kr.len); id = val_read((const uint8_t*)vr.vptr, vr.hdr.vlen, "iterator"); return true;
  }
  if (how == 5) {             // by callback
    IterSeen s; bool f = g_via ? tab()->iter_inp(it, cb_iter, &s) : g_int ? wormhole_int_iter_inp(ii, cb_iter, &s) : g_api == 3 || g_api == 2 ? wormhole_iter_inp(wi, cb_iter, &s) : wh_iter_inp(wi, cb_iter, &s);
    if (s.calls != 1 || f != s.any) { Host h; violation("CALLBACK", "iter_inp called its function %d times, with %s, and returned %d", s.calls, s.any ? "a key" : "no key", f); }
    if (!f) return false; Host h; if (s.kl > 400) violation("WRONGKEY", "the iterator returned a key of %u bytes", s.kl); k.assign((char*)s.k, s.kl); id = val_read(s.v, s.vl, "iterator"); return true;
  }
  if (how == 6 || how == 7) { // and moves on at once: 6 forwards, 7 backwards
    alignas(16) uint8_t buf[600]; struct kv* ob = (struct kv*)buf; struct kv* o;
    if (how == 7) o = g_int ? wormhole_int_iter_prev(ii, ob) : wormhole_iter_prev(wi, ob);
    else if (g_via) o = tab()->iter_next(it, ob);
    else o = g_int ? wormhole_int_iter_next(ii, ob) : g_api == 3 ? whunsafe_iter_next(wi, ob) : wormhole_iter_next(wi, ob);
    if (!o) return false; Host h; if (o->klen > 400) violation("WRONGKEY", "the iterator returned a key of %u bytes", o->klen); k.assign((char*)o->kv, o->klen); id = val_read(o->kv + o->klen, o->vlen, "iterator"); return true;
  }
  if (how == 0 && g_api == 3 && !i_valid(it)) return false;
  if (how == 0 && simrt::evt % 5 == 0) {     // small buffers, and only one of the two
    uint8_t kb[512], vb[80]; uint32_t kl = 0, vl = 0; const uint32_t room = 8 + simrt::evt / 5 % 40; memset(vb, 0xC7, sizeof vb);
    const bool konly = simrt::evt & 1;
    bool f = g_int ? wh_int_iter_peek(ii, kb, sizeof kb, &kl, konly ? nullptr : vb, room, konly ? nullptr : &vl) : wh_iter_peek(wi, kb, sizeof kb, &kl, konly ? nullptr : vb, room, konly ? nullptr : &vl);
    if (!f) return false;
    if (konly) { uint8_t nk[8]; bool f2 = g_int ? wh_int_iter_peek(ii, nullptr, 0, nullptr, vb, room, &vl) : wh_iter_peek(wi, nullptr, 0, nullptr, vb, room, &vl); (void)nk; if (!f2) { Host h; violation("ITERATOR", "an iterator lost its current key between two looks at it"); } }
    Host h; if (kl > 400) violation("WRONGKEY", "the iterator returned a key of %u bytes", kl); k.assign((char*)kb, kl); id = room < vl ? val_read_cut(vb, room, sizeof vb, vl, "iterator") : val_read(vb, vl, "iterator"); return true;
  }
  if (how == 0) {
    uint8_t kb[512], vb[80]; uint32_t kl = 0, vl = 0;
    bool f = g_int ? wh_int_iter_peek((wormhole_int_iter*)it, kb, sizeof kb, &kl, vb, sizeof vb, &vl) : wh_iter_peek((wormhole_iter*)it, kb, sizeof kb, &kl, vb, sizeof vb, &vl);
    if (!f) return false; Host h; if (kl > 400) violation("WRONGKEY", "the iterator returned a key of %u bytes", kl); k.assign((char*)kb, kl); id = val_read(vb, vl, "iterator"); return true;
  }
  if (how == 1) {
    const void* kp; void* vp; uint32_t kl, vl; if (g_int) wh_int_iter_peek_ref((wormhole_int_iter*)it, &kp, &kl, &vp, &vl); else wh_iter_peek_ref((wormhole_iter*)it, &kp, &kl, &vp, &vl);
    // the references stay good as long as the iterator stays on the key
    for (int i = 0; i < 3; i++) simrt::yield();
    if (g_int ? kl > 8 : kl > 400) { Host h; violation("WRONGKEY", "the iterator returned a key of %u bytes", kl); }
    for (auto pn : {std::make_pair((uintptr_t)kp, kl), std::make_pair((uintptr_t)vp, vl)}) if (simmem::in_arena(pn.first) && pn.second && !simmem::shadow_ok(pn.first, pn.second)) { Host h; violation("MEMORY", "the memory under the iterator's current key was freed while the iterator was on it"); }
    Host h; k.assign((const char*)kp, kl); id = val_read((const uint8_t*)vp, vl, "iterator"); return true;
  }
  alignas(16) uint8_t buf[600]; struct kv* o = g_int ? wormhole_int_iter_peek((wormhole_int_iter*)it, (struct kv*)buf) : wormhole_iter_peek((wormhole_iter*)it, (struct kv*)buf);
  if (!o) return false; Host h; if (o->klen > 400) violation("WRONGKEY", "the iterator returned a key of %u bytes", o->klen); k.assign((char*)o->kv, o->klen); id = val_read(o->kv + o->klen, o->vlen, "iterator"); return true;
}

// ---------------------------------------------------------------------------------- keys
static std::vector<std::string> make_keys(int kind, uint64_t n, uint64_t seed, bool is_int) {
  Rng r(seed * 7919 + kind); std::set<std::string> s; uint64_t tries = 0;
  std::string pre; for (int i = 0; i < 40; i++) pre += (char)('a' + r.below(3));
  while (s.size() < n && tries++ < n * 50) {
    std::string k;
    if (is_int) {
      uint64_t v = 0; int len = 8; uint64_t i = s.size();
      switch (kind) {
        case 0: v = i + 1; break;                                       // dense
        case 1: case 6: v = r(); break;                                         // anywhere
        case 2: v = (r.below(4) << 56) | (r.below(3) << 32) | r.below(n * 2); break;
        case 3: v = (0xAAull << 56) | (r.below(n * 4) << (8 * r.below(5))); break;
        case 4: v = r() & 0x0101010101010101ull * r.below(4); len = 1 + r.below(8); break;   // cut-down keys that are prefixes of others
        case 5: v = r.below(n) << 40; len = 3 + r.below(6); break;
      }
      for (int b = 0; b < 8; b++) k += (char)(v >> (56 - 8 * b));
      k.resize(len);
    } else switch (kind) {
      case 0: { char b[32]; snprintf(b, sizeof b, "%06lu", s.size()); k = b; break; }
      case 1: { size_t l = 1 + r.below(12); for (size_t i = 0; i < l; i++) k += (char)r(); break; }
      case 2: { k = pre.substr(0, r.below(40)); size_t l = r.below(4); for (size_t i = 0; i < l; i++) k += (char)('a' + r.below(3)); break; }   // nested prefixes
      case 3: { size_t l = 1 + r.below(9); for (size_t i = 0; i < l; i++) k += (char)("\x00\x01\xff"[r.below(3)]); break; }
      case 4: { k = pre + pre; char b[32]; snprintf(b, sizeof b, "%lx", r.below(n * 3)); k += b; break; }                                    // long shared prefix
      case 6: { uint64_t g = r.below(3); Rng q(seed * 31 + g); size_t l = 40 + q.below(80); for (size_t i = 0; i < l; i++) k += (char)('a' + q.below(3)); char b[32]; snprintf(b, sizeof b, "%03lu", r.below(n)); k += b; break; }   // a few groups, each with its own long prefix
      case 5: { size_t l = r.below(8); for (size_t i = 0; i < l; i++) k += 'z'; k += (char)('a' + r.below(26)); k += (char)r.below(4); break; }
    }
    s.insert(k);
  }
  return std::vector<std::string>(s.begin(), s.end());
}
static int key_index(const std::string& k) { auto it = std::lower_bound(KEYS.begin(), KEYS.end(), k); return it != KEYS.end() && *it == k ? (int)(it - KEYS.begin()) : -1; }

// ---------------------------------------------------------------------------------- one run on a map
static const Plan* P; static void* g_map; static bool g_ro, g_single; static std::map<int, uint64_t> g_model;
static std::vector<void*> g_left;      // references still registered when their thread is done
static void ev(int key, int kind, uint64_t arg, uint64_t res, uint64_t inv, uint64_t ret, int line) { H.push_back({key, (uint8_t)kind, arg, res, inv, ret, simrt::self(), line}); }
static void scan(void* ref, int from, int want, int mode, int line, uint64_t after_line) {
  // mode: 1 jump by iter_skip, 2 park and seek again half way, 4.. how to read (0..2), 16 backwards (only where nothing is written)
  int how = (mode >> 2) & 3; bool rev = mode & 16; if (mode & 32) how = 4 + how; if (g_int && how == 4) how = 0; if (how == 7 && !rev) how = 6; if (how == 6 && rev) how = 7;
  if (g_api == 3) { rev = false; if (how == 7) how = 6; } const bool moves = how >= 6;
  if (g_api == 3 && g_int) {     // the integer tree has no iterators of this kind
    if (!g_sref) return; g_api = 1; scan(g_sref, from, want, mode, line, after_line); g_api = 3; return;
  }
  void* it; { Sut s; it = i_create(ref); } if (!it) { g_sh->cnt[C_OPFAIL]++; return; }
  g_sh->cnt[C_SCAN]++;
  std::string at = KEYS[from]; int lo = from; bool full = true; int got = 0; uint64_t inv = tick();
  { Sut s; i_seek(it, at); }
  int dir = 1; Rng jr(line * 31 + 7); int last = -1; bool reseek = true;
  while (true) {
    std::string k; uint64_t id = 0; bool f; const uint64_t pinv = tick(); { Sut s; f = i_peek(it, how == 3 ? 0 : how, k, id); }
    uint64_t ret = tick();
    int ki = f ? key_index(k) : (dir > 0 ? (int)KEYS.size() : -1);
    if (f && ki < 0) violation("PHANTOM", "an iterator returned key %s, which was never stored", hex(k).c_str());
    if (f) { note(ki); note(id); g_sh->cnt[C_SCANRES]++; }
    if (dir > 0) {
      if (f && ki < lo) violation("ORDER", "an iterator moved from key %s (%s) to %s: the order is not strictly ascending", hex(KEYS[reseek ? lo : last]).c_str(), reseek ? "seek" : "current", hex(k).c_str());
      if (full) for (int j = lo; j < ki; j++) ev(j, READ, 0, 0, inv, ret, line);
    } else {
      if (f && ki > lo) violation("ORDER", "an iterator going backwards moved from key %s to %s", hex(KEYS[last]).c_str(), hex(k).c_str());
      if (full) for (int j = lo; j > ki; j--) ev(j, READ, 0, 0, inv, ret, line);
    }
    if (!f) break;
    ev(ki, READ, 0, id, inv, ret, line); last = ki; reseek = false;
    if (++got >= want) break;
    if ((mode & 2) && got == want / 2) { { Sut s; i_park(it); } for (int i = 0; i < 4; i++) simrt::yield(); inv = tick(); lo = ki; full = true; reseek = true; dir = 1; Sut s; i_seek(it, k); continue; }
    if (moves) { lo = rev ? ki - 1 : ki + 1; dir = rev ? -1 : 1; full = true; inv = pinv; continue; }
    inv = tick();
    if (rev) { lo = ki - 1; dir = -1; full = true; Sut s; i_rev(it); }
    else if ((mode & 1) && jr.chance(1, 3)) {
      // iter_skip passes over n keys; which ones is only known when nothing is written
      uint32_t n = jr.below(6); int tgt = -1; if (g_single || g_ro) { int c = n, j = ki; auto pres = [&](int x) { return g_model.count(x) && g_model[x]; }; while (c > 0 && j < (int)KEYS.size()) { j++; if (j < (int)KEYS.size() && pres(j)) c--; } tgt = j; }
      lo = ki + (n ? 1 : 0); full = false; { Sut s; i_skip(it, n); }
      if (tgt >= 0) { std::string k2; uint64_t id2; bool f2; { Sut s; f2 = i_peek(it, 0, k2, id2); } int x = f2 ? key_index(k2) : (int)KEYS.size(); if (x != tgt) violation("SKIP", "skipping %u keys from %s ended at %s instead of %s", n, hex(KEYS[ki]).c_str(), f2 ? hex(k2).c_str() : "the end", tgt < (int)KEYS.size() ? hex(KEYS[tgt]).c_str() : "the end"); }
    }
    else { lo = ki + 1; dir = 1; full = true; Sut s; i_skip1(it); }
  }
  { Sut s; i_destroy(it); }
  if (g_api != 2) return;
}
static void run_op1(void*& ref, const Line& l, int line);
static void run_op(void*& ref, const Line& l, int line) {
  if (g_api == 3) g_sh->cnt[C_UNSAFE]++; if (g_via) g_sh->cnt[C_TABLE]++;
  if (g_api == 3 && g_sref && l.a.size() > 2 && l.a.back() == "@s") {      // the same map through its safe functions
    Line m = l; m.a.pop_back(); const int v = g_via; g_api = 1; g_via = 0; g_sh->cnt[C_MIXED]++; run_op1(g_sref, m, line); g_api = 3; g_via = v; return;
  }
  run_op1(ref, l, line);
}
static void run_op1(void*& ref, const Line& l, int line) {
  const std::string& o = l.a[1];
  auto ki = [&](size_t i) -> int { return i < l.a.size() ? (int)(strtoul(l.a[i].c_str(), nullptr, 0) % KEYS.size()) : 0; };
  const int f = simrt::self();
  FaultWin w; for (auto& x : l.a) if (x[0] == '!') { long n = 0, c = 1; sscanf(x.c_str() + 1, "%ld,%ld", &n, &c); w.left = n; w.cnt = c; }
  auto arm = [&]() { g_fw[f] = w; }; auto disarm = [&]() { g_fw[f] = FaultWin(); };
  g_sh->cnt[C_OPS]++;
  context("thread %d runs operation %d (%s %s)", f, line, o.c_str(), l.a.size() > 2 ? l.a[2].c_str() : "");
  if (o == "put") {
    int k = ki(2); uint64_t id = val_id(line, 5); uint64_t i = tick(); bool ok; arm(); { Sut s; ok = m_put(ref, KEYS[k], id); } disarm(); uint64_t r = tick(); note(ok);
    if (ok) { ev(k, PUT, id, 0, i, r, line); g_model[k] = id; g_sh->cnt[C_PUT]++; }
    else { g_sh->cnt[C_OPFAIL]++; if (w.left < 0) violation("PUTFAIL", "put of key %s failed although memory was available", hex(KEYS[k]).c_str()); }
  } else if (o == "get") {
    int k = ki(2); uint64_t i = tick(), id; { Sut s; id = m_get(ref, KEYS[k]); } uint64_t r = tick(); note(id); ev(k, READ, 0, id, i, r, line); g_sh->cnt[C_GET]++;
  } else if (o == "probe") {
    int k = ki(2); uint64_t i = tick(); bool b; { Sut s; b = m_probe(ref, KEYS[k]); } uint64_t r = tick(); note(b); ev(k, PROBE, 0, b, i, r, line); g_sh->cnt[C_GET]++;
  } else if (o == "del") {
    int k = ki(2); uint64_t i = tick(); bool b; arm(); { Sut s; b = m_del(ref, KEYS[k]); } disarm(); uint64_t r = tick(); note(b); ev(k, DEL, 0, b, i, r, line); g_model.erase(k); g_sh->cnt[C_DEL]++;
  } else if (o == "delr") {
    int a = ki(2), b = ki(3); bool open = l.a.size() > 4 && l.a[4] == "open"; if (a > b) std::swap(a, b);
    if (l.a.size() > 4 && l.a[4] == "empty") std::swap(a, b);
    uint64_t exp = 0; int end = open ? (int)KEYS.size() : b; for (int j = a; j < end; j++) exp += g_model.count(j);
    uint64_t i = tick(), n; arm(); { Sut s; n = m_delr(ref, KEYS[a], open ? nullptr : &KEYS[b]); } disarm(); uint64_t r = tick(); note(n);
    for (int j = a; j < end; j++) { ev(j, DELU, 0, 0, i, r, line); g_model.erase(j); }
    if (g_single && n != exp) violation("DELR", "a range delete over [%s, %s) reported %lu keys, %lu were there", hex(KEYS[a]).c_str(), open ? "end" : hex(KEYS[b]).c_str(), n, exp);
    g_sh->cnt[C_DELR]++;
  } else if (o == "inpr" || o == "inpw") {
    int k = ki(2); bool wr = o == "inpw"; Rmw m{&KEYS[k], 0, val_id(line, 5), 0, 0, nullptr, false}; uint64_t i = tick(); bool b; { Sut s; b = m_inp(ref, KEYS[k], wr, &m); } uint64_t r = tick(); note(m.seen); note(b);
    if (m.calls != 1) violation("CALLBACK", "%s called its function %d times", o.c_str(), m.calls);
    if (b != (m.seen != 0)) violation("CALLBACK", "%s returned %d but its function saw %s", o.c_str(), b, m.seen ? "the key" : "no key");
    ev(k, RMW, wr && m.seen ? m.newid : 0, m.seen, i, r, line); if (wr && m.seen) g_model[k] = m.newid; g_sh->cnt[C_RMW]++;
  } else if (o == "merge") {
    int k = ki(2); Rmw m{&KEYS[k], l.a.size() > 3 ? atoi(l.a[3].c_str()) : 0, val_id(line, 5), 0, 0, nullptr, false}; uint8_t v[64]; val_make(m.newid, v);
    alignas(16) uint8_t buf[600]; 
    if (g_dup) { m.mine = (struct kv*)buf; kv_refill(m.mine, KEYS[k].data(), KEYS[k].size(), v, val_len(m.newid)); } else { Sut s; m.mine = kv_create(KEYS[k].data(), KEYS[k].size(), v, val_len(m.newid)); }
    uint64_t i = tick(); bool b; arm(); { Sut s; b = m_merge(ref, KEYS[k], &m); } disarm(); uint64_t r = tick(); note(m.seen); note(b);
    if (m.calls != 1) violation("CALLBACK", "merge called its function %d times", m.calls);
    if (!b && w.left < 0) violation("PUTFAIL", "merge of key %s failed although memory was available", hex(KEYS[k]).c_str());
    ev(k, RMW, b && m.given ? m.newid : 0, m.seen, i, r, line); if (b && m.given) g_model[k] = m.newid; g_sh->cnt[C_RMW]++; if (!b) g_sh->cnt[C_OPFAIL]++;
    if (!g_dup && !m.given) { Sut s; free(m.mine); }
  } else if (o == "scan") {
    int k = ki(2), n = l.a.size() > 3 ? atoi(l.a[3].c_str()) : 5, mode = l.a.size() > 4 ? atoi(l.a[4].c_str()) : 0; if ((mode & 16) && !g_ro && !g_single) mode &= ~16;
    scan(ref, k, n, mode, line, 0);
  } else if (o == "reref") {
    Sut s; m_unref(ref); ref = m_ref(g_map); if (!ref) { Host h; violation("REF", "no reference to the map could be made"); } g_sh->cnt[C_REREF]++;
  } else if (o == "refresh") { Sut s; if (g_api == 2) m_refresh(ref); }
  else if (o == "idle") { int n = l.a.size() > 2 ? atoi(l.a[2].c_str()) : 10; if (g_api == 2) { Sut s; m_park(ref); } for (int i = 0; i < n; i++) simrt::block(); if (g_api == 2) { Sut s; m_resume(ref); } g_sh->cnt[C_REREF]++; }
  uint64_t so = simrt::slab_objects_live(); if (so > g_sh->cnt[C_SMOMAX]) g_sh->cnt[C_SMOMAX] = so;
}
static void sched_cfg(const Plan& p) {
  auto& c = simrt::cfg; c.kind = p.geti("sched_kind"); c.mean = p.geti("sched_mean", 50); c.seed = p.getu("sched_seed", 1); c.pct_depth = p.geti("pct_depth", 3); c.pct_len = p.getu("pct_len", 20000);
  c.budget = p.getu("budget", 40000000); c.is_explicit = p.geti("explicit"); c.spur = p.geti("spur"); c.fault_seed = p.getu("fault_seed", 1); c.mem_check = p.geti("mem_check", 1); c.cap = p.geti("cap", 3000);
  simrt::script.clear(); simrt::stalls.clear(); simrt::holds.clear();
  for (auto& l : p.ops) { if (l.op == "sw") simrt::script.push_back({(uint32_t)strtoul(l.a[0].c_str(), nullptr, 0), atoi(l.a[1].c_str())}); if (l.op == "hold") simrt::holds.push_back({atoi(l.a[0].c_str()), strtoull(l.a[1].c_str(), nullptr, 0), strtoull(l.a[2].c_str(), nullptr, 0), strtoull(l.a[3].c_str(), nullptr, 0)}); if (l.op == "stall") simrt::stalls.push_back({atoi(l.a[0].c_str()), strtoull(l.a[1].c_str(), nullptr, 0), strtoull(l.a[2].c_str(), nullptr, 0)}); }
}
static void account() {
  auto& s = simrt::st; auto* c = g_sh->cnt; c[C_SW] = s.switches; c[C_FORCED] = s.forced; c[C_BLOCK] = s.blocked; c[C_SPUR] = s.spurious; c[C_STALL] = s.stalls; c[C_HOLD] = s.holds; c[C_CONT] = s.contended; c[C_AFAIL] = simmem::st.failed; c[C_SLEPT] = s.slept; c[C_ATOM] = s.atomics;
  g_sh->steps = simrt::steps;
}
static void exec_map(const Plan& p) {
  P = &p; g_int = p.gets("tree") == "int"; g_api = p.geti("api"); g_via = g_api ? p.geti("via") : 0; g_umk = p.geti("umk"); g_dup = p.geti("dup") && g_api; if (g_int) g_dup = g_api != 0; if (g_int && g_api == 3) g_via = 0;
  const int T = g_api == 3 ? 1 : std::max<int64_t>(1, p.geti("threads", 2)); g_ro = p.geti("ro"); g_single = T == 1;
  diva_sim_hmap_buckets = p.geti("hmap", 4096); diva_sim_slab_bytes = p.getu("slab", 1 << 21);
  KEYS = make_keys(p.geti("kkind"), p.geti("keys", 40), p.getu("kseed", 1), g_int); if (KEYS.empty()) return;
  // the heap before anything exists
  const uint64_t live0 = simmem::st.live;
  { Sut s; g_map = m_create(); }
  if (!g_map) violation("CREATE", "the map could not be created");
  void* r0; { Sut s; r0 = m_ref(g_map); if (g_api == 3 && g_umk && p.geti("mix")) { g_sref = safe_ref(g_map); if (g_int) wormhole_int_park((wormref_int*)g_sref); else wormhole_park((wormref*)g_sref); } }
  int line = 0; std::vector<std::vector<std::pair<const Line*, int>>> todo(T); OPTXT.clear();
  for (auto& l : p.ops) { line++;
    if (l.op == "pre" && r0) run_op(r0, Line{"op", {"0", "put", l.a[0]}}, line);
    else if (l.op == "predel" && r0) run_op(r0, Line{"op", {"0", "del", l.a[0]}}, line);
    else if (l.op == "op") todo[atoi(l.a[0].c_str()) % T].push_back({&l, line}); }
  { Sut s; m_unref(r0); }
  sched_cfg(p);
  const bool early = p.geti("early"); const int endm = p.geti("endm"); std::vector<void*> refs(T, nullptr);
  if (early) for (int t = 0; t < T; t++) { Sut s; refs[t] = m_ref(g_map); if (g_api == 2) m_park(refs[t]); }
  for (int t = 0; t < T; t++) simrt::spawn([&, t]() {
    void* ref = refs[t];
    if (!ref) { Sut s; ref = m_ref(g_map); if (!ref) { Host h; violation("REF", "no reference to the map could be made"); } } else if (g_api == 2) { Sut s; m_resume(ref); }
    for (auto& o : todo[t]) run_op(ref, *o.first, o.second);
    context("thread %d is done", t);
    if (endm == 1) { if (g_api == 2) { Sut s; m_park(ref); } g_left.push_back(ref); } else { Sut s; m_unref(ref); }
  });
  simrt::run_all();
  account();
  context("after the run");
  for (auto r : g_left) { Sut s; m_unref(r); } g_left.clear();
  // afterwards, alone: every key, then a full scan in both directions
  { Sut s; r0 = m_ref(g_map); }
  for (size_t k = 0; k < KEYS.size(); k++) { uint64_t i = tick(), id; bool b; { Sut s; id = m_get(r0, KEYS[k]); b = m_probe(r0, KEYS[k]); } uint64_t r = tick(); ev(k, READ, 0, id, i, r, -1); if (b != (id != 0)) violation("LINEARIZABILITY", "afterwards, get and probe of key %s disagree", hex(KEYS[k]).c_str()); if (g_model.size() || 1) g_model[k] = id; note(id); }
  for (auto it = g_model.begin(); it != g_model.end();) if (!it->second) it = g_model.erase(it); else ++it;
  g_ro = true; scan(r0, 0, 1 << 30, 8, 1000001, 0); scan(r0, 0, 1 << 30, 5, 1000002, 0);
  if (g_model.size()) { // backwards from the last key
    int last = g_model.rbegin()->first; scan(r0, last, 1 << 30, 16, 1000003, 0); }
  if (g_via && !g_int) { int fd = open("/dev/null", O_WRONLY); uint64_t n; { Sut s; n = kvmap_dump_keys(tab(), g_map, fd); } close(fd); if (n != g_model.size()) violation("DUMP", "listing the map's keys reported %lu, it holds %zu", n, g_model.size()); }
  check_linearizable(g_int ? "integer map" : "string map");
  { Sut s; m_unref(r0); }
  if (p.geti("clean")) {
    { Sut s; if (g_sref) safe_unref(g_sref); g_sref = nullptr; m_clean(g_map); r0 = m_ref(g_map); }
    H.clear(); for (size_t k = 0; k < KEYS.size(); k++) { bool b; { Sut s; b = m_probe(r0, KEYS[k]); } if (b) violation("CLEAN", "key %s is still in the map after it was cleaned", hex(KEYS[k]).c_str()); }
    g_model.clear(); for (size_t k = 0; k < KEYS.size(); k++) { run_op(r0, Line{"op", {"0", "put", std::to_string(k)}}, 2000000 + k); }
    for (size_t k = 0; k < KEYS.size(); k++) run_op(r0, Line{"op", {"0", "get", std::to_string(k)}}, 3000000 + k);
    check_linearizable("a cleaned map"); { Sut s; m_unref(r0); }
  }
  if (p.geti("cycles")) {       // filling and emptying it again and again must not take more and more memory
    std::vector<uint64_t> use; { Sut s; r0 = m_ref(g_map); }
    for (int c = 0; c < p.geti("cycles"); c++) {
      for (size_t k = 0; k < KEYS.size(); k++) { bool b; { Sut s; b = m_put(r0, KEYS[k], val_id(k, c)); } if (!b) violation("PUTFAIL", "put of key %s failed although memory was available", hex(KEYS[k]).c_str()); }
      for (size_t k = 0; k < KEYS.size(); k++) { bool b; { Sut s; b = m_del(r0, KEYS[k]); } if (!b) violation("LINEARIZABILITY", "a single thread deletes key %s, which it just put, and it is not there", hex(KEYS[k]).c_str()); }
      use.push_back(simrt::slab_objects_live()); note(use.back());
    }
    { Sut s; m_unref(r0); } bool grows = true; for (size_t i = 1; i < use.size(); i++) grows = grows && use[i] > use[i - 1];
    if (grows) violation("LEAK", "every time the map was filled and emptied again it kept more of its internal objects: %lu after the first time, %lu after the last", use[0], use.back());
  }
  { Sut s; if (g_sref) safe_unref(g_sref); g_sref = nullptr; m_destroy(g_map); }
  simmem::check_canaries();
  if (p.geti("leak") && simmem::st.live != live0) violation("LEAK", "%ld blocks the map allocated were not given back when it was destroyed", (long)(simmem::st.live - live0));
  g_sh->cnt[C_NT] = T > 1 ? simrt::st.switches > 2 && g_sh->cnt[C_OPS] > 3 : g_sh->cnt[C_OPS] > 3; g_sh->cnt[C_RUNS1] = T == 1;
}
#include "whthr.inc"
#include "whprim.inc"
// ---------------------------------------------------------------------------------- plans
namespace sim {
void child_init() {
  int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 2); close(fd); }
  simmem::init(); simmem::bad_free = on_bad_free; simmem::fail_hook = fail_hook_fn; simrt::fail = rt_fail; simrt::on_switch = [](uint32_t a, int f) { note((uint64_t)f << 32 | (uint32_t)simrt::steps); };
}
void exec(const Plan& p) {
  simmem::garbage = p.getu("garbage", 0xA5); simmem::garbage_mode = p.geti("garbage_mode"); simmem::reuse = p.geti("reuse"); simmem::reset_layout(p.getu("skip"));
  std::string k = p.gets("kind", "map");
  if (k == "map") exec_map(p); else exec_other(k, p);
}
bool is_schedule_line(const Line& l) { return l.op == "sw"; }
Plan with_recorded_schedule(const Plan& p, const Shared& s) { Plan q = p; q.set("explicit", 1); for (uint32_t i = 0; i < s.nswitch; i++) q.add("sw", {std::to_string(s.sw[i].after), std::to_string(s.sw[i].fiber)}); return q; }
Plan reseeded(const Plan& p, uint64_t k) { if (!k) return p; Plan q = p; q.cfg["sched_seed"] = std::to_string(mix(p.getu("sched_seed"), k) >> 1); return q; }
static void gen_sched(Rng& r, Plan& p, uint64_t est) {
  int k = r.below(8); p.set("sched_kind", k < 4 ? 0 : k < 6 ? 1 : 2);
  static const int means[] = {1, 2, 4, 8, 15, 30, 60, 150, 400, 1500};
  p.set("sched_mean", p.geti("sched_kind") == 2 ? means[r.below(6)] : means[r.below(10)]);
  p.set("sched_seed", r() >> 1); p.set("pct_depth", 1 + r.below(6)); p.set("pct_len", est ? est : 20000);
  if (r.chance(1, 3)) { p.set("spur", 2 + r.below(20)); p.set("fault_seed", r() >> 1); }
  p.set("garbage", r.chance(1, 3) ? 0 : r.below(256)); p.set("garbage_mode", r.below(2)); p.set("reuse", r.chance(2, 3)); p.set("skip", r.below(1024));
}
static std::string S(uint64_t x) { return std::to_string(x); }
static void gen_holds(Rng& r, Plan& p, int T, uint64_t len, uint64_t small, uint64_t big) {
  if (!r.chance(1, 2)) return; int c = 1 + r.below(4); const bool mix_ = r.chance(1, 3), spins = r.chance(1, 2);
  for (int i = 0; i < c; i++) { const bool sp = mix_ ? r.chance(1, 2) : spins; uint64_t t = r.below(T), j = sp ? 1 + r.below(r.chance(1, 2) ? 3 : 12) : 0, k = sp ? r.below(6) : 1 + r.below(1 + len);
    for (;;) { p.add("hold", {S(t), S(j), S(k), S(r.chance(1, 2) ? small / 30 + r.below(small) : small + r.below(big))}); if (!r.chance(2, 5)) break; k += 1 + r.below(6); } }   // sometimes again a few steps later
}
static void gen_map(const std::string& prop, bool thorough, Rng& r, Plan& p) {
  p.set("kind", "map"); const bool is_int = prop == "C11" ? true : prop == "C10" ? false : r.chance(1, 3); p.set("tree", is_int ? "int" : "str"); g_int = is_int;
  const bool one = prop == "C19"; p.set("api", r.below(3)); if (one) { p.set("api", 3); if (r.chance(1, 2)) { p.set("umk", 1); if (r.chance(2, 3)) p.set("mix", 1); } } p.set("dup", r.below(2));
  const bool mix_ = one && p.geti("mix"); if (r.chance(1, 4)) p.set("via", 1 + r.below(2));
  int T = one ? 1 : prop == "C15" ? 1 + r.below(3) : r.chance(1, 12) ? 1 : 2 + (r.chance(1, 2) ? 0 : r.below(thorough ? 6 : 4)); p.set("threads", T);
  static const int ns[] = {3, 8, 20, 34, 40, 50, 70, 100, 160, 300}; uint64_t n = ns[r.below(thorough ? 10 : 9)] + r.below(4);
  const bool dance = r.chance(1, prop == "C12" || prop == "C14" ? 3 : 5);   // a full map that is emptied leaf by leaf while others look on
  if (dance) n = 60 + r.below(120);
  const bool grow = !dance && (prop == "C15" ? r.chance(1, 2) : one && r.chance(1, 3));   // the map is filled while memory fails
  if (grow) n = 40 + r.below(150);
  p.set("keys", n); { int kk = r.below(is_int ? 6 : 7); if (kk == 6) p.set("keys", n = 80 + r.below(100)); p.set("kkind", kk); } p.set("kseed", r() >> 40); n = make_keys(p.geti("kkind"), n, p.getu("kseed"), is_int).size();
  // preload: exact leaf boundaries are the interesting places
  int pm = dance ? 1 : grow && r.chance(2, 3) ? 0 : r.below(6); std::vector<uint64_t> order; for (uint64_t i = 0; i < n; i++) order.push_back(i);
  if (r.chance(2, 3)) for (uint64_t i = n; i > 1; i--) std::swap(order[i - 1], order[r.below(i)]); else if (r.chance(1, 2)) std::reverse(order.begin(), order.end());
  uint64_t want = pm == 0 ? 0 : pm == 1 ? n : pm == 2 ? std::min<uint64_t>(n, 30 + r.below(4)) : pm == 3 ? n * 3 / 4 : r.below(n + 1);
  for (uint64_t i = 0; i < want; i++) p.add("pre", {S(order[i])});
  if (!dance && !grow && r.chance(1, 6)) {      // waves: parts of the map come and go before the threads start
    int waves = 2 + r.below(4); const bool ordered = r.chance(1, 2);
    for (int v = 0; v < waves; v++) { const bool del = v ? (v & 1) != 0 : want == 0 ? false : r.chance(1, 2); uint64_t at = r.below(n), c = 1 + r.below(n); if (r.chance(1, 2)) c = n - r.below(1 + n / 3);
      for (uint64_t i = 0; i < c; i++) p.add(del ? "predel" : "pre", {S(ordered ? (at + i) % n : order[(at + i) % n])}); }
  }
  if (pm == 1 && r.chance(1, dance ? 8 : 2)) { uint64_t d = r.below(n); for (uint64_t i = 0; i < d; i++) p.add("predel", {S(order[i])}); }
  // operation mix
  int w[10]; for (int& x : w) x = r.chance(1, 2) ? r.below(10) : 0;   // put get probe del merge inpr inpw delr scan reref
  if (prop == "C16") w[8] = 15; else if (r.chance(1, 2)) w[8] = 0;
  if (w[7] > 2 && r.chance(2, 3)) w[7] = 1;
  if (dance) { w[3] = r.below(4); w[7] = 2 + r.below(5); w[0] = r.below(6); w[1] = r.below(8); }
  if (grow) { w[0] = 20; w[3] = r.below(3); w[7] = 0; }
  w[9] = r.chance(1, 3); if (is_int) w[4] = w[5] = w[6] = 0;
  const bool ro = r.chance(1, prop == "C16" ? 8 : 25); if (ro) { w[0] = w[3] = w[4] = w[6] = w[7] = 0; p.set("ro", 1); }
  else { if (!w[0] && !w[4]) w[0] = 5; if (!w[3] && !w[7] && r.chance(2, 3)) w[3] = 5; }
  if (!w[1] && !w[2] && !w[8]) w[1] = 5;
  int tot = 0; for (int x : w) tot += x;
  uint64_t hot0 = r.below(n), hotn = 1 + r.below(r.chance(1, 2) ? 4 : n); int hotp = 50 + r.below(50); const bool seq = r.chance(1, grow ? 1 : 4); uint64_t sq = r.below(n);
  const int per = grow ? n / T + r.below(1 + n / T) : 1 + r.below(one ? 200 : T == 1 ? 80 : r.chance(1, 3) ? 60 : 14); const int phase = r.below(3);
  const bool faults = prop == "C15" || (one && grow) || ((prop == "C12" || prop == "C14" || one) && r.chance(1, 3)); int frate = 1 + r.below(4);
  const int roles = r.below(3);   // sometimes each thread has its own speciality
  std::vector<std::pair<int, Line>> all;
  for (int t = 0; t < T; t++) { int special = r.below(10); for (int i = 0; i < per; i++) {
    auto key = [&]() -> uint64_t { if (seq && r.chance(3, 4)) { sq = (sq + 1) % n; return grow ? order[sq] : sq; } return (int)r.below(100) < hotp ? (hot0 + r.below(hotn)) % n : r.below(n); };
    int x = r.below(tot), o = 0; while (x >= w[o]) x -= w[o++];
    if (roles == 1 && w[special] && r.chance(3, 4)) o = special;
    if (phase == 1 && !ro) { if (o == 0 && i > per / 2 && w[3]) o = 3; else if (o == 3 && i <= per / 2 && w[0]) o = 0; }
    std::vector<std::string> a = {S(t)}; std::string k = S(key());
    switch (o) {
      case 0: a.push_back("put"); a.push_back(k); break; case 1: a.push_back("get"); a.push_back(k); break; case 2: a.push_back("probe"); a.push_back(k); break; case 3: a.push_back("del"); a.push_back(k); break;
      case 4: a.push_back("merge"); a.push_back(k); a.push_back(S(r.below(4))); break; case 5: a.push_back("inpr"); a.push_back(k); break; case 6: a.push_back("inpw"); a.push_back(k); break;
      case 7: { uint64_t b = key(); if (r.chance(1, 2)) b = std::min(n - 1, strtoul(k.c_str(), 0, 0) + r.below(r.chance(1, 2) ? 4 : 50)); a.push_back("delr"); a.push_back(k); a.push_back(S(b)); if (r.chance(1, 8)) a.push_back("open"); else if (r.chance(1, 10)) a.push_back("empty"); break; }
      case 8: a.push_back("scan"); a.push_back(k); a.push_back(S(r.chance(1, 3) ? n : 1 + r.below(12))); a.push_back(S((r.chance(1, 4) ? 1 : 0) | (r.chance(1, 4) ? 2 : 0) | r.below(3) << 2 | (r.chance(1, 3) ? 16 : 0) | (r.chance(1, 3) ? 32 : 0))); break;
      case 9: a.push_back(r.chance(1, 2) ? "reref" : r.chance(1, 2) ? "refresh" : "idle"); if (a.back() == "idle") a.push_back(S(1 + r.below(40))); break;
    }
    if (faults && (o == 0 || o == 3 || o == 4 || o == 7) && (!grow || r.chance(1, 2)) && r.below(4) < (unsigned)frate) a.push_back("!" + S(r.below(o == 0 ? 8 : 4) + (one && o == 0 && r.chance(1, 3))) + "," + S(r.chance(1, 3) ? 1 : r.chance(2, 3) ? 1 + r.below(6) : 50));
    else if (mix_ && grow && r.chance(1, 3)) a.push_back("@s");
    if (mix_ && !grow && r.chance(1, 4)) a.push_back("@s");
    p.add("op", a);
  } }
  gen_sched(r, p, T * per * (100 + r.below(400)));
  if (r.chance(1, prop == "C14" ? 1 : 3)) { int c = 1 + r.below(3); for (int i = 0; i < c; i++) p.add("stall", {S(r.below(T)), S(1 + r.below(T * per * 300)), S(r.chance(1, 2) ? 100 + r.below(3000) : 20000 + r.below(100000))}); }
  gen_holds(r, p, T, per * (3 + r.below(20)), 3000, 60000);
  static const int hm[] = {8, 16, 32, 64, 256, 4096}; p.set("hmap", hm[r.below(6)]); p.set("slab", r.chance(1, 20) ? 1 << 21 : r.chance(1, 2) ? 4096 : 16384);
  p.set("early", r.below(2)); p.set("endm", r.below(2)); p.set("clean", r.chance(1, 8)); if (prop == "C12" && r.chance(1, 6)) p.set("cycles", 6); if (one && r.chance(1, 6)) p.set("cycles", 5); p.set("leak", prop == "C12" || prop == "C15" || one); p.set("budget", prop == "C14" ? 6000000 : 40000000);
}
void gen(const std::string& prop, const std::string& tier, uint64_t seed, Plan& p) {
  uint64_t h = 1469598103934665603ull; for (char c : prop) h = (h ^ c) * 0x100000001B3ull;
  Rng r(mix(seed, h)); p = Plan(); p.prop = prop; const bool th = tier == "thorough";
  if (!gen_other(prop, th, r, p)) gen_map(prop, th, r, p);
  // C12 also runs the primitives' plans? no: its own
}
}
int main(int argc, char** argv) { return sim_main(argc, argv); }
