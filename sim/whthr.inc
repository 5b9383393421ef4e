// Threads and processors (fork-join, placement) and coroutines.  Included by whsim.cpp.
// ---------------------------------------------------------------------------------- fork-join
extern "C" { uint64_t thread_fork_join(uint32_t, void* (*)(void*), bool, void*); int thread_create_at(uint32_t, pthread_t*, void* (*)(void*), void*); }
struct FJ { uint64_t nr = 0; bool args = false, over = false, affault = false; std::vector<uint8_t> started; uint64_t nstart = 0, nfin = 0, t0 = ~0ull, t1 = 0; uint64_t allowed = 0; std::vector<int> cores; int hold = 0, line = 0; int64_t nest = -1; int depth = 0; void** argn = nullptr; };
static std::vector<std::unique_ptr<FJ>> g_fj; static uint64_t g_missing; static std::map<int, std::vector<std::pair<uint64_t, uint64_t>>> g_sysf; static uint64_t g_sysn[4]; static std::map<int, std::vector<bool>> g_get;     // per thread: which of its calls that ask for its processors failed
static bool sys_fails0(int k) { uint64_t n = g_sysn[k]++; auto it = g_sysf.find(k); if (it != g_sysf.end()) for (auto& w : it->second) if (n >= w.first && n < w.first + w.second) { note(0x5F00 + k); return true; } return false; }
static bool sys_fails(int k) { bool b = sys_fails0(k); if (k == 1) g_get[simrt::self()].push_back(b); return b; }
static const uint64_t FJ_BIT = 0x4000000000000000ull;
static void* fj_do(int64_t nr, bool args, int hold, int64_t nest, int depth, int line);
static int popc(uint64_t m) { return __builtin_popcountll(m); }
static void* fj_fn(void* a) {
  Host h; uint64_t v = (uint64_t)a; const int me = simrt::self(); uint64_t id = v >> 24 & 0xffffffffff, i = v & 0xffffff;
  id &= ~(FJ_BIT >> 24);
  if (!(v & FJ_BIT) || id >= g_fj.size()) violation("FORKJOIN", "thread %d runs the function with an argument (%lx) nobody gave", me, v);
  FJ& f = *g_fj[id]; context("line %d: function of a fork-join on thread %d", f.line, me);
  if (f.over) violation("FORKJOIN", "a function of the fork-join of line %d starts after it returned", f.line);
  if (f.args ? i >= f.started.size() : i != 0xffffff) violation("FORKJOIN", "a function of the fork-join of line %d got the argument of another (%lu)", f.line, i);
  if (f.args && f.started[i]++) violation("FORKJOIN", "function %lu of the fork-join of line %d runs twice", i, f.line);
  f.nstart++; if (f.nr && f.nstart > f.nr) violation("FORKJOIN", "the fork-join of line %d runs more than %lu functions", f.line, f.nr);
  f.t0 = std::min(f.t0, simrt::now_ns()); uint64_t aff = simrt::affinity(); note(v * 31 + aff);
  if (!f.affault && !(simrt::sys.aff_failed)) {
    if (aff & ~f.allowed || popc(aff) != 1) violation("PLACEMENT", "line %d: a function runs on a thread placed on processors %lx, the caller may use %lx", f.line, aff, f.allowed);
    if (f.args && aff != 1ull << f.cores[i % f.cores.size()]) violation("PLACEMENT", "line %d: function %lu runs on processors %lx, it should on %d", f.line, i, aff, f.cores[i % f.cores.size()]);
  }
  for (int k = 0; k < f.hold; k++) simrt::yield();
  if (f.nest >= 0 && f.depth < 2 && (f.args ? i % 3 == 0 : f.nstart % 3 == 1)) { int l = f.line; fj_do(f.nest, f.args, f.hold / 2, f.nest > 4 ? -1 : f.nest, f.depth + 1, l); }
  simrt::yield();
  FJ& g = *g_fj[id]; if (g.over) violation("FORKJOIN", "the fork-join of line %d returned while function %lu was still running", g.line, i);
  g.nfin++; g.t1 = std::max(g.t1, simrt::now_ns()); g_sh->cnt[C_FJRUN]++; return a;
}
static void* fj_do(int64_t nr, bool args, int hold, int64_t nest, int depth, int line) {
  const uint64_t id = g_fj.size(); g_fj.push_back(std::make_unique<FJ>()); FJ* f = g_fj.back().get();
  f->args = args; f->hold = hold; f->nest = nest; f->depth = depth; f->line = line; f->allowed = simrt::affinity(); for (int c = 0; c < simrt::NCPU; c++) if (f->allowed >> c & 1) f->cores.push_back(c);
  f->affault = g_sysf.count(1) || g_sysf.count(2) || g_sysf.count(3); f->nr = nr ? nr : g_sysf.count(1) ? 0 : f->cores.size();
  const uint64_t cap = nr ? nr : g_sysf.count(1) ? simrt::NCPU : f->nr; f->started.assign(cap, 0);
  void* ax = (void*)(FJ_BIT | id << 24 | 0xffffff);
  if (args) { { Sut s; f->argn = (void**)malloc(cap * 8); } for (uint64_t i = 0; i < cap; i++) f->argn[i] = (void*)(FJ_BIT | id << 24 | i); ax = f->argn; }
  std::string name = simrt::name(); uint64_t aff = simrt::affinity(), af2 = simrt::sys.aff_failed, c0 = simrt::now_ns(), cf = simrt::sys.create_failed, dt; (void)af2;
  g_sh->cnt[C_FJ]++; if (depth) g_sh->cnt[C_FJNEST]++;
  const size_t get0 = g_get[simrt::self()].size();
  { Sut s; dt = thread_fork_join(nr, fj_fn, args, ax); }
  uint64_t c1 = simrt::now_ns(); f->over = true; context("line %d: fork-join of %ld returned to thread %d", line, (long)nr, simrt::self());
  if (f->nstart != f->nfin) violation("FORKJOIN", "the fork-join of line %d returned while %lu of its functions were still running", line, f->nstart - f->nfin);
  auto& gets = g_get[simrt::self()]; if (!f->nr) f->nr = gets.size() > get0 && gets[get0] ? simrt::NCPU : f->cores.size();
  if (f->nstart < f->nr) { bool fail = simrt::sys.create_failed != cf; if (!fail) violation("FORKJOIN", "the fork-join of line %d ran %lu of %lu functions although every thread could be made", line, f->nstart, f->nr); if (fail) g_missing += f->nr - f->nstart; }
  if (!f->nstart) violation("FORKJOIN", "the fork-join of line %d ran no function", line);
  if (simrt::name() != name) violation("RESTORE", "after the fork-join of line %d the caller is named %s, before %s", line, simrt::name().c_str(), name.c_str());
  if (simrt::affinity() != aff && !g_sysf.count(2)) violation("RESTORE", "after the fork-join of line %d the caller may use processors %lx, before %lx", line, simrt::affinity(), aff);
  if (dt > c1 - c0 || dt < f->t1 - f->t0) violation("DURATION", "the fork-join of line %d took %lu ns, it reports %lu; its functions were at work for %lu", line, c1 - c0, dt, f->t1 - f->t0);
  if (f->argn) { Sut s; free(f->argn); }
  note(f->nstart); return nullptr;
}
struct AtRun { int n = 0; uint64_t aff = 0; }; static std::vector<AtRun> g_at;
static void* at_fn(void* a) { Host h; uint64_t v = (uint64_t)a; if (v >> 20 != 0xA7 || (v & 0xfffff) >= g_at.size()) violation("FORKJOIN", "a thread runs with an argument (%lx) nobody gave", v); AtRun& r = g_at[v & 0xfffff]; r.n++; r.aff = simrt::affinity(); simrt::yield(); return (void*)(v ^ 0x5555); }
extern "C" { uint32_t process_affinity_count(void); uint32_t process_getaffinity_list(uint32_t, uint32_t*); void thread_setaffinity_list(uint32_t, const uint32_t*); void thread_pin(uint32_t); void thread_set_name(pthread_t, const char*); void thread_get_name(pthread_t, char*, size_t); pthread_t __wrap_pthread_self(); int __wrap_pthread_join(pthread_t, void**); }
static void exec_fork(const Plan& p, int T) {
  simrt::fiber_tls = true; simrt::stack_fill = 0x5a; simrt::stack_bytes = 96 << 10; simrt::sys_fail = sys_fails; g_fj.clear(); g_sysf.clear(); g_get.clear(); g_missing = 0; for (auto& n : g_sysn) n = 0;
  int fd = memfd_create("stderr", 0); if (fd < 0) _exit(77); dup2(fd, 2);
  const uint64_t live0 = simmem::st.live; int line = 0; std::vector<std::vector<std::pair<const Line*, int>>> todo(T);
  for (auto& l : p.ops) { line++; if (l.op == "op") todo[atoi(l.a[0].c_str()) % T].push_back({&l, line}); else if (l.op == "sysfail") g_sysf[atoi(l.a[0].c_str()) & 3].push_back({strtoull(l.a[1].c_str(), nullptr, 0), strtoull(l.a[2].c_str(), nullptr, 0)}); }
  const bool anyaff = g_sysf.count(1) || g_sysf.count(2) || g_sysf.count(3); const uint64_t ALL = (1ull << simrt::NCPU) - 1;
  for (int t = 0; t < T; t++) simrt::spawn([&, t]() { for (auto& o : todo[t]) {
    const Line& l = *o.first; auto A = [&](size_t i, int64_t d) { return l.a.size() > i ? strtoll(l.a[i].c_str(), nullptr, 0) : d; }; const std::string& k = l.a[1]; context("line %d: thread %d %s", o.second, t, k.c_str()); g_sh->cnt[C_OPS]++;
    if (k == "fj") fj_do(A(2, 1), A(3, 0), A(4, 0), A(5, -1), 0, o.second);
    else if (k == "aff") { uint64_t m = A(2, 1) & ALL; simrt::set_affinity(m ? m : 1); }
    else if (k == "name") { std::string n; for (int i = 0; i < A(2, 4); i++) n += 'a' + i % 26; n = n.substr(0, 15); { Sut s; thread_set_name(__wrap_pthread_self(), n.c_str()); } char b[16]; { Sut s; thread_get_name(__wrap_pthread_self(), b, 16); } if (n != b) violation("RESTORE", "a thread named %s says it is %s", n.c_str(), b); }
    else if (k == "at") { uint32_t cpu = A(2, 0); size_t id = g_at.size(); g_at.push_back({}); pthread_t th; uint64_t cf = simrt::sys.create_failed; int r; { Sut s; r = thread_create_at(cpu, &th, at_fn, (void*)(0xA7ull << 20 | id)); }
      if (r) { if (simrt::sys.create_failed == cf || g_at[id].n) violation("FORKJOIN", "a thread to run on processor %u was not made (%d)", cpu, r); }
      else { void* rv = nullptr; { Sut s; __wrap_pthread_join(th, &rv); } if (g_at[id].n != 1 || rv != (void*)((0xA7ull << 20 | id) ^ 0x5555)) violation("FORKJOIN", "the function of a thread for processor %u ran %d times or lost its result", cpu, g_at[id].n); if (!anyaff && g_at[id].aff != 1ull << cpu % simrt::NCPU) violation("PLACEMENT", "a thread for processor %u may run on %lx", cpu, g_at[id].aff); g_sh->cnt[C_FJRUN]++; } }
    else if (k == "pin") { uint32_t c = A(2, 0); uint64_t b = simrt::affinity(), f = simrt::sys.aff_failed; { Sut s; thread_pin(c); } if (simrt::affinity() != (simrt::sys.aff_failed != f && g_sysf.count(2) ? simrt::affinity() : 1ull << c % simrt::NCPU)) violation("PLACEMENT", "pinned to processor %u a thread may run on %lx (before: %lx)", c, simrt::affinity(), b); }
    else if (k == "list") { std::vector<uint32_t> v; uint64_t m = 0, b = simrt::affinity(); for (size_t i = 2; i < l.a.size(); i++) { v.push_back(A(i, 0)); if (v.back() < (uint32_t)simrt::NCPU) m |= 1ull << v.back(); } uint32_t* q; { Sut s; q = (uint32_t*)malloc(v.size() * 4); if (v.size()) memcpy(q, v.data(), v.size() * 4); thread_setaffinity_list(v.size(), q); free(q); } if (!g_sysf.count(2) && simrt::affinity() != (m ? m : b)) violation("PLACEMENT", "a thread that asked for processors %lx may run on %lx", m, simrt::affinity()); }
    else if (k == "count") { uint32_t n; { Sut s; n = process_affinity_count(); } if (n != popc(simrt::affinity()) && !(g_sysf.count(1) && n == simrt::NCPU)) violation("PLACEMENT", "a thread that may use processors %lx is told they are %u", simrt::affinity(), n); }
    else if (k == "cores") { uint32_t mx = A(2, 0), n, *q; uint64_t f = g_sysn[1]; { Sut s; q = (uint32_t*)malloc(mx * 4); memset(q, 0x77, mx * 4); n = process_getaffinity_list(mx, q); } (void)f; std::vector<uint32_t> w; for (int c = 0; c < simrt::NCPU; c++) if (simrt::affinity() >> c & 1 && w.size() < mx) w.push_back(c); const uint32_t wn = w.size(); w.resize(mx, 0);
      bool ok = n == wn && !memcmp(q, w.data(), mx * 4); if (!ok && g_sysf.count(1) && n == 0) ok = true; if (!ok) violation("PLACEMENT", "a thread that may use processors %lx is told of %u when it asks for up to %u", simrt::affinity(), n, mx); Sut s; free(q); }
    else if (k == "y") for (int i = 0; i < A(2, 1); i++) simrt::yield();
  } });
  simrt::run_all(); account(); context("after the run");
  std::string out; { char b[4096]; ssize_t n; lseek(fd, 0, SEEK_SET); while ((n = read(fd, b, sizeof b)) > 0) out.append(b, n); }
  uint64_t rep = 0, jr = 0; bool parsed = false; for (size_t at = 0; (at = out.find("fork ", at)) != std::string::npos; at += 5) { unsigned a, b; if (sscanf(out.c_str() + at, "fork %u join %u", &a, &b) == 2) { rep += a; jr += b; parsed = true; } }
  if (g_missing && out.empty()) violation("REPORT", "%lu functions did not run because threads could not be made, and nothing was reported", g_missing);
  if (parsed && rep != g_missing) violation("REPORT", "%lu functions did not run, %lu were reported", g_missing, rep);
  if (jr || (!g_missing && out.find("error") != std::string::npos)) violation("REPORT", "errors are reported that did not happen: %s", out.substr(0, 100).c_str());
  if (simrt::sys.created != simrt::sys.joined) violation("LEAK", "%lu threads were made, %lu were joined", simrt::sys.created, simrt::sys.joined);
  if (simrt::sys.attr_live) violation("LEAK", "%lu sets of thread attributes were not given back", simrt::sys.attr_live);
  simmem::check_canaries(); if (simmem::st.live != live0) violation("LEAK", "%ld blocks were not given back", (long)(simmem::st.live - live0));
  auto* c = g_sh->cnt; c[C_THREADS] = simrt::sys.created; c[C_THRFAIL] = simrt::sys.create_failed; c[C_AFFFAIL] = simrt::sys.aff_failed; c[C_FJMISS] = g_missing; c[C_NT] = c[C_OPS] > 0 && (c[C_THREADS] > 1 || c[C_OPS] > 3);
}
// ---------------------------------------------------------------------------------- coroutines
struct CoM { void* h = nullptr; int st = 0; bool rr = false; int next = -1, prev = -1; uint64_t tag = 0; };     // st: 0 new, 1 suspended, 2 has ended, 3 running, 4 destroyed
struct CoW { int t = 0; uint64_t* host = nullptr; std::vector<CoM> co; int cur = -1; uint64_t val = 0; std::vector<std::pair<const Line*, int>> ops; size_t pos = 0; };
static std::vector<std::unique_ptr<CoW>> g_cw;
static void co_steps(CoW& w, int me); static void co_main(); static void corr_main();
static void co_arrive(CoW& w, int me, uint64_t got, bool first) {
  g_in_sut = 0; if (w.cur != me) violation("TRANSFER", "thread %d: control came to coroutine %d, it was handed to %d", w.t, me, w.cur);
  if (!first && got != w.val) violation("TRANSFER", "thread %d: coroutine %d (-1: the host) received %lx, it was handed %lx", w.t, me, got, w.val);
  if (me >= 0) w.co[me].st = 3; note(me * 1000003 + w.val); g_sh->cnt[C_COSW]++; simrt::yield();
}
static void co_ident(CoW& w, int me) {
  struct co* s; void* pr; g_in_sut = 1; s = co_self(); pr = co_priv(); g_in_sut = 0;
  if (s != (me < 0 ? nullptr : (struct co*)w.co[me].h) || pr != (me < 0 ? nullptr : (void*)w.co[me].tag)) violation("TRANSFER", "thread %d: coroutine %d (-1: the host) takes itself for another (%p, %p)", w.t, me, s, pr);
}
static int co_begin(bool rr) {
  g_in_sut = 0; CoW& w = *g_cw[simrt::self()]; if (((uintptr_t)__builtin_frame_address(0) & 15)) violation("TRANSFER", "the stack of a new coroutine is not aligned");
  int me = w.cur; if (me < 0 || w.co[me].st != 0 || w.co[me].rr != rr) violation("TRANSFER", "thread %d: a coroutine starts although control was handed to %d", w.t, me);
  co_arrive(w, me, 0, true); co_ident(w, me); co_steps(w, me); return me;
}
static void corr_unlink_m(CoW& w, int me) { CoM& m = w.co[me]; w.co[m.next].prev = m.prev; w.co[m.prev].next = m.next; m.next = m.prev = -1; }
// what ending does to the model: who is next
static void co_end_m(CoW& w, int me, uint64_t v) { CoM& m = w.co[me]; m.st = 2; if (m.rr && m.next != me) { int n = m.next; corr_unlink_m(w, me); w.cur = n; w.val = 0; } else { m.next = m.prev = -1; w.cur = -1; w.val = m.rr ? 0 : v; } }
static void co_main() { int me = co_begin(false); co_end_m(*g_cw[simrt::self()], me, 0); g_in_sut = 1; }
static void corr_main() { int me = co_begin(true); co_end_m(*g_cw[simrt::self()], me, 0); g_in_sut = 1; }
[[gnu::noinline]] static void co_steps(CoW& w, int me) {
  volatile uint64_t loc[24]; for (int i = 0; i < 24; i++) loc[i] = mix(me + 7, i); uint64_t a = mix(me, 101), b = mix(me, 102), c = mix(me, 103), d = mix(me, 104), e = mix(me, 105);
#define KEEP asm volatile("" : "+r"(a), "+r"(b), "+r"(c), "+r"(d), "+r"(e))
  while (w.pos < w.ops.size()) {
    const Line& l = *w.ops[w.pos].first; const int line = w.ops[w.pos].second; w.pos++; auto A = [&](size_t i) { return l.a.size() > i && l.a[i][0] != '!' ? strtoull(l.a[i].c_str(), nullptr, 0) : 0; };
    const std::string k = l.a[1]; context("line %d: thread %d, coroutine %d: %s", line, w.t, me, k.c_str()); simrt::yield();
    FaultWin& fw = g_fw[w.t]; bool flt = false; for (auto& x : l.a) if (x[0] == '!') { flt = true; sscanf(x.c_str(), "!%ld,%ld", &fw.left, &fw.cnt); }
    KEEP;
    std::vector<int> val, ended, free_; for (size_t i = 0; i < w.co.size(); i++) { if ((int)i != me && w.co[i].st < 2) val.push_back(i); if (w.co[i].st == 2) ended.push_back(i); if ((int)i != me && (w.co[i].st == 2 || (w.co[i].st < 2 && (!w.co[i].rr || w.co[i].next == (int)i)))) free_.push_back(i); }
    auto pick = [&](std::vector<int>& v) { return v[A(2) % v.size()]; };
    auto made = [&](void* h, bool rr, int after) { if (!h) { if (!flt) violation("COFAIL", "a coroutine could not be made although memory was available"); return; }
      CoM m; m.h = h; m.rr = rr; int i = w.co.size(); if (rr) { if (after < 0) m.next = m.prev = i; else { m.next = w.co[after].next; m.prev = after; } } m.tag = 0xC000000 + w.t * 1000 + i; w.co.push_back(m); if (rr && after >= 0) { w.co[m.next].prev = i; w.co[after].next = i; } };
    const uint64_t tag = 0xC000000 + w.t * 1000 + w.co.size(), sz = 49152 + A(3) % 9000; g_sh->cnt[C_OPS]++;
    std::vector<int> rrs; for (size_t i = 0; i < w.co.size(); i++) if (w.co[i].rr && (w.co[i].st < 2 || w.co[i].st == 3)) rrs.push_back(i);
    if (k == "create") { void* h; g_in_sut = 1; h = co_create(sz, (void*)co_main, (void*)tag, w.host); g_in_sut = 0; fw.left = -1; made(h, false, -1); }
    else if (k == "fork") { void* h; g_in_sut = 1; h = co_fork((void*)co_main, (void*)tag); g_in_sut = 0; fw.left = -1; if (me < 0) { if (h) violation("TRANSFER", "the host forked a coroutine"); } else made(h, false, -1); }
    else if (k == "rcreate") { void* h; g_in_sut = 1; h = corr_create(sz, (void*)corr_main, (void*)tag, w.host); g_in_sut = 0; fw.left = -1; made(h, true, -1); }
    else if (k == "rlink" && rrs.size()) { int pv = pick(rrs); void* h; g_in_sut = 1; h = corr_link(sz, (void*)corr_main, (void*)tag, (struct corr*)w.co[pv].h); g_in_sut = 0; fw.left = -1; made(h, true, pv); }
    else if (k == "reuse" && ended.size()) { int i = pick(ended); CoM& m = w.co[i]; m.st = 0; int pv = -1; if (m.rr) { for (int x : rrs) if (A(3) % 3 && x != i) pv = x; }
      g_in_sut = 1; if (!m.rr) co_reuse((struct co*)m.h, (void*)co_main, (void*)m.tag, w.host); else if (pv < 0) corr_reuse((struct corr*)m.h, (void*)corr_main, (void*)m.tag, w.host); else corr_relink((struct corr*)m.h, (void*)corr_main, (void*)m.tag, (struct corr*)w.co[pv].h); g_in_sut = 0;
      if (m.rr) { if (pv < 0) m.next = m.prev = i; else { m.next = w.co[pv].next; m.prev = pv; w.co[m.next].prev = i; w.co[pv].next = i; } } }
    else if (k == "destroy" && free_.size()) { int i = pick(free_); g_in_sut = 1; if (w.co[i].rr) corr_destroy((struct corr*)w.co[i].h); else co_destroy((struct co*)w.co[i].h); g_in_sut = 0; w.co[i].st = 4; }
    else if (k == "valid") { for (size_t i = 0; i < w.co.size(); i++) if (w.co[i].st != 4) { bool v; g_in_sut = 1; v = co_valid((struct co*)w.co[i].h); g_in_sut = 0; if (v != (w.co[i].st != 2)) violation("TRANSFER", "coroutine %zu, which %s, is said to be %s", i, w.co[i].st == 2 ? "has ended" : "has not ended", v ? "valid" : "over"); } }
    else if (k == "go" && val.size()) {                 // to another coroutine; into one, from the host
      int i = pick(val); uint64_t v = mix(A(3), 9), got = 0; if (me >= 0) w.co[me].st = 1; w.cur = i; w.val = v; const bool rr = w.co[i].rr && A(3) % 2;
      if (me < 0) { if (rr) { w.val = 0; g_in_sut = 1; corr_enter((struct corr*)w.co[i].h); got = w.val; } else { g_in_sut = 1; got = co_enter((struct co*)w.co[i].h, v); } } else { g_in_sut = 1; got = co_switch_to((struct co*)w.co[i].h, v); }
      co_arrive(w, me, got, false); }
    else if (k == "back" && me >= 0) { uint64_t got; w.co[me].st = 1; w.cur = -1; w.val = mix(A(3), 9); g_in_sut = 1; got = co_back(w.val); co_arrive(w, me, got, false); }
    else if (k == "yield" && (me < 0 || w.co[me].rr)) { bool stay = me < 0 || w.co[me].next == me; if (!stay) { w.co[me].st = 1; w.cur = w.co[me].next; w.val = 0; } g_in_sut = 1; corr_yield(); if (stay) g_in_sut = 0; else co_arrive(w, me, w.val, false); }
    else if (k == "exit" && me >= 0) { bool rr = w.co[me].rr; uint64_t v = mix(A(3), 9); if (A(3) % 3 == 0) return; co_end_m(w, me, v); g_in_sut = 1; if (rr) corr_exit(); else co_exit(v); }
    KEEP; fw.left = -1; fw.cnt = 0; co_ident(w, me);
    bool ok = a == mix(me, 101) && b == mix(me, 102) && c == mix(me, 103) && d == mix(me, 104) && e == mix(me, 105); for (int i = 0; i < 24; i++) ok = ok && loc[i] == mix(me + 7, i);
    if (!ok) violation("TRANSFER", "thread %d: the local variables of coroutine %d (-1: the host) changed while it was away", w.t, me);
  }
  if (me >= 0) { w.co[me].st = 1; w.cur = -1; w.val = 0xE0D; g_in_sut = 1; co_back(0xE0D); violation("TRANSFER", "a coroutine goes on that nobody called"); }
}
static void exec_co(const Plan& p, int T) {
  simrt::fiber_tls = true; simrt::stack_bytes = 256 << 10; g_cw.clear(); const uint64_t live0 = simmem::st.live; int line = 0;
  for (int t = 0; t < T; t++) { g_cw.push_back(std::make_unique<CoW>()); g_cw[t]->t = t; g_cw[t]->co.reserve(4096); Sut s; g_cw[t]->host = (uint64_t*)malloc(8); *g_cw[t]->host = 0x1dead; }
  for (auto& l : p.ops) { line++; if (l.op == "op") g_cw[atoi(l.a[0].c_str()) % T]->ops.push_back({&l, line}); }
  for (int t = 0; t < T; t++) simrt::spawn([&, t]() { CoW& w = *g_cw[t]; co_steps(w, -1); });
  simrt::run_all(); account(); context("after the run");
  for (auto& w : g_cw) { for (auto& m : w->co) if (m.st != 4) { Sut s; if (m.rr) corr_destroy((struct corr*)m.h); else co_destroy((struct co*)m.h); } Sut s; free(w->host); }
  simmem::check_canaries(); if (simmem::st.live != live0) violation("LEAK", "%ld blocks of coroutines were not given back", (long)(simmem::st.live - live0));
  g_sh->cnt[C_NT] = g_sh->cnt[C_COSW] > 1;
}
