// The building blocks: locks, quiescent-state reclamation, the slab allocator, and threads that
// share a Diva filter.  Included by whsim.cpp.
// ---------------------------------------------------------------------------------- locks
struct LockS { char type; uint8_t* mem; uint64_t* data; int readers = 0, writer = -1, down = 0; uint64_t writes = 0; };
static std::vector<LockS> LK_;
static bool lk_try_kind(const std::string& k) { return k == "Rt" || k == "Rlp" || k == "Rnr" || k == "Wt" || k == "Wnr" || k == "Wht" || k == "Whnr" || k == "Mt" || k == "St"; }
static bool lk_is_read(const std::string& k) { return k[0] == 'R'; }
static bool lk_acquire(LockS& l, const std::string& k, int n) {
  Sut s; rwlock* r = (rwlock*)l.mem;
  if (l.type == 'm') { if (k == "Mt") return mutex_trylock((mutex*)l.mem); mutex_lock((mutex*)l.mem); return true; }
  if (l.type == 's') { if (k == "St") return spinlock_trylock((spinlock*)l.mem); spinlock_lock((spinlock*)l.mem); return true; }
  if (k == "R") { rwlock_lock_read(r); return true; }
  if (k == "Rt") return rwlock_trylock_read(r);
  if (k == "Rlp") return rwlock_trylock_read_lp(r);
  if (k == "Rnr") return rwlock_trylock_read_nr(r, n);
  if (k == "Wt") return rwlock_trylock_write(r);
  if (k == "Wnr") return rwlock_trylock_write_nr(r, n);
  if (k == "Wh") { rwlock_lock_write_hp(r); return true; }
  if (k == "Wht") return rwlock_trylock_write_hp(r);
  if (k == "Whnr") return rwlock_trylock_write_hp_nr(r, n);
  rwlock_lock_write(r); return true;
}
static void lk_release(LockS& l, bool read) {
  Sut s; if (l.type == 'm') mutex_unlock((mutex*)l.mem); else if (l.type == 's') spinlock_unlock((spinlock*)l.mem); else if (read) rwlock_unlock_read((rwlock*)l.mem); else rwlock_unlock_write((rwlock*)l.mem);
}
static const char* lk_name(char t) { return t == 'm' ? "mutex" : t == 's' ? "spinlock" : "reader-writer lock"; }
static void lk_read_hold(LockS& l, int me, int hold) {
  uint64_t a0 = l.data[0];
  for (int i = 0; i <= hold; i++) {
    if (l.writer != -1) { Host h; violation("EXCLUSION", "thread %d holds a %s for reading while thread %d holds it for writing", me, lk_name(l.type), l.writer); }
    uint64_t a = l.data[0]; simrt::yield(); uint64_t b = l.data[1];
    if (a != b || a != a0) { Host h; violation("EXCLUSION", "data changed while thread %d held the %s for reading", me, lk_name(l.type)); }
  }
}
static void lk_write_hold(LockS& l, int me, int hold) {
  for (int i = 0; i <= hold; i++) {
    if (l.writer != me || l.readers || l.down) { Host h; violation("EXCLUSION", "thread %d holds a %s for writing together with %d readers, writer %d", me, lk_name(l.type), l.readers, l.writer); }
    uint64_t a = l.data[0]; simrt::yield(); l.data[0] = a + 1; simrt::yield(); l.data[1] = a + 1; l.writes++;
  }
}
static void lk_op(const Line& ln, int line, size_t at);
static void lk_one(const Line& ln, int line, size_t at) {     // arguments: LOCK KIND N HOLD [nested LOCK KIND N HOLD]
  if (at + 3 >= ln.a.size()) return;
  LockS& l = LK_[atoi(ln.a[at].c_str()) % LK_.size()]; std::string k = ln.a[at + 1]; const int n = atoi(ln.a[at + 2].c_str()), hold = atoi(ln.a[at + 3].c_str()), me = simrt::self();
  if (l.type == 'm') k = k.size() > 1 ? "Mt" : "M"; else if (l.type == 's') k = k.size() > 1 ? "St" : "S";
  g_sh->cnt[C_LOCKOPS]++; context("line %d: thread %d takes a %s (%s)", line, me, lk_name(l.type), k.c_str());
  const bool rd = lk_is_read(k) && l.type == 'r';
  const bool free_now = rd ? l.writer == -1 : l.writer == -1 && !l.readers && !l.down;
  bool got = lk_acquire(l, k, n); note(got);
  if (!got) {
    if (!lk_try_kind(k)) { violation("EXCLUSION", "a blocking acquisition of a %s gave up", lk_name(l.type)); }
    if (g_single && free_now && !simrt::cfg.spur) violation("TRYLOCK", "a %s nobody uses could not be taken (%s)", lk_name(l.type), k.c_str());
    return;
  }
  if (rd) {
    if (l.writer != -1) violation("EXCLUSION", "thread %d took a %s for reading (%s) while thread %d holds it for writing", me, lk_name(l.type), k.c_str(), l.writer);
    l.readers++; lk_read_hold(l, me, hold); lk_one(ln, line, at + 4); lk_read_hold(l, me, 0); l.readers--; lk_release(l, true);
  } else {
    if (l.writer != -1 || l.readers || l.down) violation("EXCLUSION", "thread %d took a %s for writing (%s) while %d readers and writer %d hold it", me, lk_name(l.type), k.c_str(), l.readers, l.writer);
    l.writer = me; lk_write_hold(l, me, hold); lk_one(ln, line, at + 4);
    if (l.type == 'r' && (mix(line, at) & 3) == 0) {      // downgrade: no writer may come in between
      lk_write_hold(l, me, 0); uint64_t a = l.data[0]; l.writer = -1; l.down++; { Sut s; rwlock_write_to_read((rwlock*)l.mem); } l.readers++; l.down--;
      if (l.data[0] != a || l.data[1] != a) violation("EXCLUSION", "another writer came in while thread %d turned its write lock into a read lock", me);
      lk_read_hold(l, me, hold); l.readers--; lk_release(l, true);
    } else { lk_write_hold(l, me, 0); l.writer = -1; lk_release(l, false); }
  }
}
// ---------------------------------------------------------------------------------- reclamation
struct QNode { uint64_t ver, a, b; };
static struct qsbr* g_q; static QNode* volatile g_cur; static bool g_qlock; static std::vector<QNode*> g_qnodes;
static QNode* q_node(uint64_t v) { QNode* n; { Sut s; n = (QNode*)malloc(sizeof(QNode)); } n->ver = v; n->a = mix(v, 3); n->b = mix(v, 5); return n; }
static void q_use(QNode* n, uint64_t v, int hold, int me) {
  for (int i = 0; i <= hold; i++) {
    simrt::yield();
    if (!simmem::shadow_ok((uintptr_t)n, sizeof *n)) { Host h; violation("RECLAIM", "thread %d uses version %lu, announced as its own, but it was already reclaimed", me, v); }
    if (n->ver != v || n->a != mix(v, 3) || n->b != mix(v, 5)) { Host h; violation("RECLAIM", "thread %d uses version %lu but its contents are gone", me, v); }
  }
}
static uint64_t g_qlive, g_qtotal;
struct QReader { std::vector<struct qsbr_ref*> refs; std::vector<char> on; };
static void q_reg(QReader& r) { r.on.assign(r.refs.size(), 0); for (size_t i = 0; i < r.refs.size(); i++) { bool few = g_qtotal <= 20; g_qlive++; bool b; simmem::shadow_set((uintptr_t)r.refs[i], sizeof(struct qsbr_ref), true); { Sut s; b = qsbr_register(g_q, r.refs[i]); } if (!b) g_qlive--; if (!b && few) violation("REGISTER", "a reader could not register although there are only %lu", g_qtotal); r.on[i] = b; } }
static void q_unreg(QReader& r) { for (size_t i = 0; i < r.refs.size(); i++) if (r.on[i]) { { Sut s; qsbr_unregister(g_q, r.refs[i]); } g_qlive--; r.on[i] = 0; simmem::shadow_set((uintptr_t)r.refs[i], sizeof(struct qsbr_ref), false); } }   // from here on its memory may be gone
static void q_read(QReader& r, int hold, int me) {
  for (char c : r.on) if (!c) return;            // not registered: hands off
  simrt::yield(); QNode* n = g_cur; simrt::yield();
  if (!simmem::shadow_ok((uintptr_t)n, sizeof *n)) violation("RECLAIM", "thread %d: the published version is reclaimed before all readers left it", me);
  uint64_t v = n->ver; for (auto f : r.refs) { Sut s; qsbr_update(f, v); }
  q_use(n, v, hold, me); note(v);
}
static void q_op(QReader& r, const Line& l, int line) {
  const std::string& o = l.a[1]; const int h = l.a.size() > 2 ? atoi(l.a[2].c_str()) : 0, me = simrt::self(); g_sh->cnt[C_OPS]++;
  context("line %d: thread %d %s", line, me, o.c_str());
  if (o == "read") { q_read(r, h, me); g_sh->cnt[C_GET]++; }
  else if (o == "park") { for (size_t i = 0; i < r.refs.size(); i++) if (r.on[i]) { Sut s; qsbr_park(r.refs[i]); } for (int i = 0; i < h; i++) simrt::block(); for (size_t i = 0; i < r.refs.size(); i++) if (r.on[i]) { Sut s; qsbr_resume(r.refs[i]); } q_read(r, 1, me); }
  else if (o == "rereg") { q_unreg(r); for (int i = 0; i < h; i++) simrt::yield(); q_reg(r); q_read(r, 1, me); g_sh->cnt[C_REREF]++; }
  else if (o == "write") {
    q_unreg(r);                                  // a writer must not wait for itself
    while (g_qlock) simrt::block(); g_qlock = true;
    QNode* old = g_cur; QNode* n = q_node(old->ver + 1); simrt::yield(); g_cur = n; simrt::yield();
    { Sut s; qsbr_wait(g_q, n->ver); } g_sh->cnt[C_QWAIT]++;
    { Sut s; free(old); } note(n->ver); g_qlock = false; g_sh->cnt[C_PUT]++;
    q_reg(r); q_read(r, h, me);
  }
}
// ---------------------------------------------------------------------------------- slab
struct SObj { uint8_t* p; uint64_t tag; };
static struct slab* g_slab; static uint64_t g_osz, g_bsz; static std::map<uintptr_t, uint64_t> g_sl; static std::vector<std::vector<SObj>> g_mine; static uint64_t g_stag;
static void sl_fill(const SObj& o) { for (uint64_t i = 0; i + 8 <= g_osz; i += 8) { uint64_t v = mix(o.tag, i); memcpy(o.p + i, &v, 8); if ((i & 63) == 24) simrt::yield(); } }
static void sl_verify(const SObj& o, const char* when) { for (uint64_t i = 0; i + 8 <= g_osz; i += 8) { uint64_t v; memcpy(&v, o.p + i, 8); if (v != mix(o.tag, i)) { Host h; violation("OVERLAP", "%s: the contents of an object in use changed (offset %lu of %lu)", when, i, g_osz); } } }
static void sl_take(int t, bool safe, bool mayfail) {
  void* p; { Sut s; p = safe ? slab_alloc_safe(g_slab) : slab_alloc_unsafe(g_slab); } g_sh->cnt[C_SLABOPS]++; note(p != nullptr);
  if (!p) { if (!mayfail) violation("SLABFULL", "no object although memory was available"); g_sh->cnt[C_OPFAIL]++; return; }
  const uint64_t al = (g_osz & (g_osz - 1)) ? 8 : std::min<uint64_t>(g_osz, 4096);
  if ((uintptr_t)p & (al - 1)) violation("ALIGN", "an object of %lu bytes is not aligned to %lu", g_osz, al);
  if (!simmem::shadow_ok((uintptr_t)p, g_osz)) violation("MEMORY", "an object reaches outside of the slab's memory");
  auto it = g_sl.upper_bound((uintptr_t)p);
  if (it != g_sl.end() && it->first < (uintptr_t)p + g_osz) violation("OVERLAP", "two objects in use overlap");
  if (it != g_sl.begin() && std::prev(it)->first + g_osz > (uintptr_t)p) violation("OVERLAP", "two objects in use overlap");
  SObj o{(uint8_t*)p, ++g_stag}; g_sl[(uintptr_t)p] = o.tag; sl_fill(o); g_mine[t].push_back(o);
}
static void sl_give(int t, size_t i, bool safe) {
  auto& m = g_mine[t]; if (m.empty()) return; i %= m.size(); SObj o = m[i]; m[i] = m.back(); m.pop_back(); sl_verify(o, "before it is freed"); g_sl.erase((uintptr_t)o.p);
  Sut s; if (safe) slab_free_safe(g_slab, o.p); else slab_free_unsafe(g_slab, o.p); g_sh->cnt[C_SLABOPS]++;
}
static void sl_quiet(const char* when) {
  uint64_t n; { Sut s; n = slab_get_nalloc(g_slab); } if (n != g_sl.size()) violation("NALLOC", "%s: the slab counts %lu objects in use, there are %zu", when, n, g_sl.size());
  for (auto& m : g_mine) for (auto& o : m) sl_verify(o, when);
}
static void exec_slab(const Plan& p, int T) {
  g_osz = p.getu("osz", 64); g_bsz = p.getu("bsz", 4096); const bool safe = p.geti("safe", 1);
  const uint64_t live0 = simmem::st.live; { Sut s; g_slab = slab_create(g_osz, g_bsz); }
  const uint64_t off = (g_osz & (g_osz - 1)) ? 64 : g_osz; const bool good = g_osz && g_osz % 8 == 0 && g_bsz >= 4096 && !(g_bsz & (g_bsz - 1)) && off < g_bsz && g_bsz - off >= g_osz;
  if (!good) { if (g_slab) violation("SLABARGS", "a slab of %lu byte objects in %lu byte blocks was made", g_osz, g_bsz); return; }
  if (!g_slab) violation("SLABARGS", "no slab of %lu byte objects in %lu byte blocks could be made", g_osz, g_bsz);
  g_mine.assign(T, {}); int line = 0; std::vector<std::vector<std::pair<const Line*, int>>> todo(T);
  for (auto& l : p.ops) { line++; if (l.op == "op") todo[atoi(l.a[0].c_str()) % T].push_back({&l, line}); }
  for (int t = 0; t < T; t++) simrt::spawn([&, t]() { for (auto& ol : todo[t]) {
    const Line& l = *ol.first; const std::string& o = l.a[1]; uint64_t n = l.a.size() > 2 ? strtoull(l.a[2].c_str(), nullptr, 0) : 0; context("line %d: thread %d %s", ol.second, t, o.c_str()); g_sh->cnt[C_OPS]++;
    FaultWin& w = g_fw[t]; bool f = false; for (auto& a : l.a) if (a[0] == '!') { f = true; sscanf(a.c_str(), "!%ld,%ld", &w.left, &w.cnt); }
    if (o == "alloc") sl_take(t, safe, f);
    else if (o == "free") sl_give(t, n, safe);
    else if (o == "reserve" && !safe) { bool b; { Sut s; b = slab_reserve_unsafe(g_slab, n); } if (!b && !f) violation("SLABFULL", "could not reserve although memory was available"); w.left = -1;
      if (b) { w.left = 0; w.cnt = 1 << 30; for (uint64_t i = 0; i < n; i++) sl_take(t, safe, false); } }
    else if (o == "freeall" && !safe) { for (auto& m : g_mine) { for (auto& x : m) sl_verify(x, "before all are freed"); m.clear(); } g_sl.clear(); Sut s; slab_free_all(g_slab); }
    else if (o == "check" && g_single) sl_quiet("during the run");
    w.left = -1; w.cnt = 0;
  } });
  simrt::run_all(); account(); context("after the run");
  sl_quiet("after the run"); for (auto& m : g_mine) while (m.size()) { SObj o = m.back(); m.pop_back(); g_sl.erase((uintptr_t)o.p); Sut s; if (safe) slab_free_safe(g_slab, o.p); else slab_free_unsafe(g_slab, o.p); }
  sl_quiet("when all objects are back");
  // objects that came back can be had again: no new memory is needed
  { uint64_t a0 = simmem::st.allocs; size_t most = std::min<uint64_t>(g_stag, 1); (void)most; g_mine.assign(T, {}); if (g_stag) { sl_take(0, safe, false); if (simmem::st.allocs != a0 && !simmem::st.failed && p.geti("threads", 1) == 1) violation("SLABLOST", "the slab took new memory although an object was free"); }
    while (g_mine[0].size()) sl_give(0, 0, safe); }
  { Sut s; slab_destroy(g_slab); } simmem::check_canaries();
  if (simmem::st.live != live0) violation("LEAK", "%ld blocks of a destroyed slab were not given back", (long)(simmem::st.live - live0));
  g_sh->cnt[C_NT] = g_sh->cnt[C_SLABOPS] > 3 && (T == 1 || simrt::st.switches > 2);
}
// ---------------------------------------------------------------------------------- threads and filters
static std::map<int, int> g_coin_of;
int dg_coin_now() { auto it = g_coin_of.find(simrt::self()); return it == g_coin_of.end() ? 0 : it->second; }
static std::string dg_bytes(void* f) { uint32_t n, w; { Sut s; n = dg_size(f); } std::string b(n + 8, '\x5a'); { Sut s; w = dg_serialize(f, &b[0]); } if (w != n || b.substr(n) != std::string(8, '\x5a')) violation("SIZE-MISMATCH", "Serialize wrote %u bytes, Size is %u", w, n); b.resize(n); return b; }
static uint64_t be(const std::string& k) { uint64_t b = 0; memcpy(&b, k.data(), std::min<size_t>(8, k.size())); return __builtin_bswap64(b); }
static std::string bek(uint64_t x) { uint64_t b = __builtin_bswap64(x); return std::string((char*)&b, 8); }
struct FOp { int kind; std::string a, b; int ov, coin, line; };     // 0 point, 1 range, 2 insert, 3 delete, 4 restart
struct FRun { std::vector<char> ans; std::string bytes; };
static std::string f_key(Rng& r, bool I, int style, int len) {
  if (I) { uint64_t x = style == 0 ? r() : style == 1 ? (r() & 0xFFFFFFFFFFull) | 1ull << 50 : (r.below(8) << 58) + (r() & 0xFFFFFF); if (!x) x = 1; if (!~x) x--; return bek(x); }
  std::string s; if (style) s = std::string(1 + r.below(3), 'a' + r.below(style == 1 ? 2 : 20)); while ((int)s.size() < len) s += (char)(1 + r.below(style == 2 ? 30 : 250)); return s;
}
static void f_do(void*& f, const FOp& o, std::vector<char>& ans, bool I) {
  int t = simrt::self();
  if (o.kind == 0) { bool b; { Sut s; b = dg_point(f, o.a, o.ov); } ans.push_back(b); g_sh->cnt[C_QUERIES]++; }
  else if (o.kind == 1) { bool b; { Sut s; b = dg_range(f, o.a, o.b, o.ov); } ans.push_back(b); g_sh->cnt[C_QUERIES]++; }
  else if (o.kind == 2) { g_coin_of[t] = o.coin; Sut s; dg_insert(f, o.a, o.ov); }
  else if (o.kind == 3) { Sut s; dg_delete(f, o.a, o.ov); }
  else if (o.kind == 4) { std::string b = dg_bytes(f); Sut s; dg_destroy(f); f = dg_load(I, &b[0]); }
  g_coin_of.erase(t);
}
static void exec_diva(const Plan& p, int T) {
  const bool I = p.geti("int"), shared = p.geti("shared", 1); Rng r(p.getu("kseed", 1)); const int n = std::max<int64_t>(2, p.geti("keys", 100)), style = p.geti("kstyle"), len = std::max<int64_t>(9, p.geti("klen", 9));
  simrt::stack_bytes = 4 << 20; diva_sim_hmap_buckets = p.geti("hmap", 4096); diva_sim_slab_bytes = p.getu("slab", 1 << 21);
  const uint64_t live0 = simmem::st.live;
  auto mkkeys = [&](Rng& q, int m) { std::set<std::string> s; for (int i = 0; i < m; i++) s.insert(f_key(q, I, style, len)); return std::vector<std::string>(s.begin(), s.end()); };
  const int F = shared ? 1 : T; std::vector<void*> fs; std::vector<std::vector<std::string>> ks;
  auto build = [&](int i) { Rng q(mix(p.getu("kseed", 1), i)); auto k = mkkeys(q, n); Sut s; void* f = dg_build(I, p.geti("infix", 8), (uint32_t)p.getu("rng", 1) + i, p.geti("load"), k); Host h; if ((int)ks.size() == i) ks.push_back(k); return f; };
  for (int i = 0; i < F; i++) fs.push_back(build(i));
  // what each thread does
  std::vector<std::vector<FOp>> todo(T); int line = 0;
  std::vector<std::multiset<std::string>> live(F); for (int i = 0; i < F; i++) live[i].insert(ks[i].begin(), ks[i].end());
  std::vector<std::string> pre;
  for (auto& l : p.ops) { line++; if (l.op != "op" && l.op != "pre") continue;
    const int t = l.op == "pre" ? 0 : atoi(l.a[0].c_str()) % T, f = shared ? 0 : t; Rng q(mix(strtoull(l.a[1].c_str(), nullptr, 0), 9)); std::string o = l.a[2]; FOp x; x.line = line; x.ov = q.below(3); x.coin = q.below(3) == 0 ? 1 : 2;
    auto any = [&]() { if (q.below(2) && live[f].size()) { auto it = live[f].begin(); std::advance(it, q.below(live[f].size())); std::string k = *it; if (q.below(3) == 0) { if (I) { uint64_t y = be(k) + q.below(1000); k = bek(~y ? y : y - 1); } else k[k.size() - 1] = 1 + q.below(250); } return k; } return f_key(q, I, style, len); };
    if (o == "q") { x.kind = q.below(2); x.a = any(); x.b = any(); if (x.b < x.a) std::swap(x.a, x.b); }
    else if (shared && l.op != "pre") continue;
    else if (o == "i") { x.kind = 2; x.a = f_key(q, I, style, len); live[f].insert(x.a); }
    else if (o == "d") { std::vector<std::string> c; for (auto& k : live[f]) c.push_back(k); if (c.size() < 3) continue; x.kind = 3; x.a = c[1 + q.below(c.size() - 2)]; live[f].erase(live[f].find(x.a)); }
    else if (o == "r") { if (shared) continue; x.kind = 4; } else continue;
    if (l.op == "pre") { std::vector<char> a; f_do(fs[0], x, a, I); } else todo[t].push_back(x); }
  // alone, first: the answers and images to compare with
  std::vector<FRun> want(T); std::vector<std::string> img0;
  for (int i = 0; i < F; i++) img0.push_back(dg_bytes(fs[i]));
  if (shared) for (int t = 0; t < T; t++) for (auto& o : todo[t]) f_do(fs[0], o, want[t].ans, I);
  else for (int t = 0; t < T; t++) { void* f = build(t); for (auto& o : todo[t]) f_do(f, o, want[t].ans, I); want[t].bytes = dg_bytes(f); Sut s; dg_destroy(f); }
  sched_cfg(p); std::vector<FRun> got(T);
  for (int t = 0; t < T; t++) simrt::spawn([&, t]() { void*& f = fs[shared ? 0 : t];
    for (auto& o : todo[t]) { context("line %d: thread %d, operation %d of a filter", o.line, t, o.kind); g_sh->cnt[C_OPS]++; size_t k = got[t].ans.size(); f_do(f, o, got[t].ans, I);
      if (got[t].ans.size() > k) { note(got[t].ans[k]);
        if (got[t].ans[k] != want[t].ans[k]) violation("ANSWER", "thread %d: %s query [%s, %s] answers %d; alone it answers %d (%s)", t, o.kind ? "range" : "point", hex(o.a).c_str(), hex(o.b).c_str(), got[t].ans[k], want[t].ans[k], shared ? "other threads only query the same filter" : "other threads only use filters of their own"); } } });
  simrt::run_all(); account(); context("after the run");
  for (int i = 0; i < F; i++) { std::string b = dg_bytes(fs[i]); if (b != (shared ? img0[0] : want[i].bytes)) violation("IMAGE", shared ? "queries of several threads changed the filter" : "a filter used by one thread came out different because other threads used theirs"); note_bytes(b.data(), b.size()); }
  for (auto& k : live[0]) { bool b; { Sut s; b = dg_point(fs[0], k, 0); } if (!b) violation("FALSE-NEGATIVE", "key %s is gone after several threads used the filter", hex(k).c_str()); }
  for (auto f : fs) { Sut s; dg_destroy(f); }
  simmem::check_canaries();
  if (simmem::st.live != live0) violation("LEAK", "%ld blocks of destroyed filters were not given back", (long)(simmem::st.live - live0));
  g_sh->cnt[C_NT] = T > 1 && simrt::st.switches > 2;
}
// ---------------------------------------------------------------------------------- dispatch
static void exec_other(const std::string& k, const Plan& p) {
  const int T = std::max<int64_t>(1, p.geti("threads", 2)); g_single = T == 1; sched_cfg(p);
  if (k == "slab") { exec_slab(p, T); return; }
  if (k == "diva") { exec_diva(p, T); return; }
  if (k == "fork") { exec_fork(p, T); return; }
  if (k == "co") { exec_co(p, T); return; }
  int line = 0; std::vector<std::vector<std::pair<const Line*, int>>> todo(T);
  for (auto& l : p.ops) { line++; if (l.op == "op") todo[atoi(l.a[0].c_str()) % T].push_back({&l, line}); }
  if (k == "lock") {
    LK_.clear(); std::string types = p.gets("types", "r");
    for (char c : types) { LockS l; l.type = c; { Sut s; l.mem = (uint8_t*)malloc(sizeof(mutex) > 64 ? sizeof(mutex) : 64); if (c == 'm') mutex_init((mutex*)l.mem); else if (c == 's') spinlock_init((spinlock*)l.mem); else rwlock_init((rwlock*)l.mem); } l.data = (uint64_t*)calloc(2, 8); LK_.push_back(l); }
    for (int t = 0; t < T; t++) simrt::spawn([&, t]() { for (auto& o : todo[t]) { g_sh->cnt[C_OPS]++; lk_one(*o.first, o.second, 1); } });
    simrt::run_all(); account(); context("after the run");
    for (auto& l : LK_) { if (l.data[0] != l.writes || l.data[1] != l.writes) violation("EXCLUSION", "%lu writes under a %s, %lu of them took effect", l.writes, lk_name(l.type), l.data[0]);
      Sut s; bool b = l.type == 'm' ? mutex_trylock((mutex*)l.mem) : l.type == 's' ? spinlock_trylock((spinlock*)l.mem) : false;
      if (l.type == 'r') for (int i = 0; i < 50 && !b; i++) b = rwlock_trylock_write((rwlock*)l.mem);
      if (!b) { Host h; violation("TRYLOCK", "a %s cannot be taken although everyone has released it", lk_name(l.type)); } }
    g_sh->cnt[C_NT] = g_sh->cnt[C_LOCKOPS] > 1 && simrt::st.switches > 1;
  } else if (k == "qsbr") {
    { Sut s; g_q = qsbr_create(); } if (!g_q) return; g_qlive = 0; g_qtotal = T * std::max<int64_t>(1, p.geti("refs", 1)); g_qlock = false; g_cur = q_node(1);
    std::vector<QReader> rd(T); const int per = std::max<int64_t>(1, p.geti("refs", 1)), same = p.geti("same"); std::vector<uint8_t*> blocks;
    for (int t = 0; t < T; t++) for (int i = 0; i < per; i++) { uint8_t* b; int tries = 0;
      do { Sut s; b = (uint8_t*)malloc(sizeof(struct qsbr_ref)); blocks.push_back(b); } while (same && tries++ < 400 && (crc32c_u64(0, (u64)b) & 31) != 5); memset(b, 0xcc, sizeof(struct qsbr_ref)); rd[t].refs.push_back((struct qsbr_ref*)b); }
    for (int t = 0; t < T; t++) simrt::spawn([&, t]() { q_reg(rd[t]); q_read(rd[t], 1, t); for (auto& o : todo[t]) q_op(rd[t], *o.first, o.second); context("thread %d leaves", t); q_unreg(rd[t]);
      for (auto& f : rd[t].refs) memset((void*)f, 0x77, sizeof *f); });      // a reader that has left may reuse its memory at once
    simrt::run_all(); account(); context("after the run");
    { Sut s; qsbr_wait(g_q, 1u << 30); qsbr_destroy(g_q); free(g_cur); for (auto b : blocks) free(b); }
    g_sh->cnt[C_NT] = g_sh->cnt[C_QWAIT] > 0 && simrt::st.switches > 2;
  }
}
namespace sim {
static void gen_sched(Rng& r, Plan& p, uint64_t est); static void gen_holds(Rng& r, Plan& p, int T, uint64_t len, uint64_t small, uint64_t big); static std::string S(uint64_t x);
static bool gen_other(const std::string& prop, bool th, Rng& r, Plan& p) {
  auto stall = [&](int T, uint64_t len) { if (r.chance(1, 3)) { int c = 1 + r.below(3); for (int i = 0; i < c; i++) p.add("stall", {S(r.below(T)), S(1 + r.below(len)), S(r.chance(1, 2) ? 20 + r.below(500) : 3000 + r.below(20000))}); }
    gen_holds(r, p, T, len / T / 8, 500, 20000); };
  if (prop == "C17") {
    const bool lock = r.chance(1, 2); p.set("kind", lock ? "lock" : "qsbr"); p.set("budget", 8000000);
    int T = lock && r.chance(1, 10) ? 1 : 2 + r.below(r.chance(1, 2) ? 3 : th ? 12 : 6); p.set("threads", T); int per = 1 + r.below(r.chance(1, 3) ? 40 : 10);
    if (lock) {
      std::string ty; int nl = 1 + r.below(3); for (int i = 0; i < nl; i++) ty += "rrrrms"[r.below(6)]; p.set("types", ty);
      static const char* K[] = {"R", "Rt", "Rlp", "Rnr", "W", "Wt", "Wnr", "Wh", "Wht", "Whnr"}; bool on[10]; int c = 0; for (bool& b : on) c += b = r.chance(1, 2); if (!c) on[4] = true;
      auto kind = [&]() { int k; do k = r.below(10); while (!on[k]); return k; };
      for (int t = 0; t < T; t++) for (int i = 0; i < per; i++) { int l = r.below(nl); std::vector<std::string> a = {S(t), S(l), K[kind()], S(r.below(6)), S(r.below(4))}; if (r.chance(1, 5) && l + 1 < nl) { for (auto& x : {S(l + 1 + r.below(nl - l - 1)), std::string(K[kind()]), S(r.below(6)), S(r.below(3))}) a.push_back(x); } p.add("op", a); }
    } else {
      p.set("refs", r.chance(2, 3) ? 1 : 1 + r.below(12)); p.set("same", r.chance(1, 2)); int w[4]; for (int& x : w) x = 1 + r.below(6); if (r.chance(1, 3)) w[1] = 0; if (r.chance(1, 3)) w[2] = 0;
      static const char* O[] = {"read", "park", "rereg", "write"}; const int writers = 1 + r.below(2);
      for (int t = 0; t < T; t++) for (int i = 0; i < per; i++) { int k, tot = w[0] + w[1] + w[2] + (t < writers ? w[3] : 0), x = r.below(tot); for (k = 0; x >= w[k]; k++) x -= w[k]; p.add("op", {S(t), O[k], S(r.below(k == 1 ? 20 : 5))}); }
    }
    gen_sched(r, p, T * per * 30); stall(T, T * per * 30); return true;
  }
  if (prop == "C20") {
    p.set("kind", "fork"); p.set("budget", 8000000); int T = r.chance(1, 2) ? 1 : 2 + r.below(3); p.set("threads", T); int per = 1 + r.below(5); bool big = false;
    static const int NR[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257};
    for (int t = 0; t < T; t++) for (int i = 0; i < per; i++) {
      if (r.chance(1, 3)) p.add("op", {S(t), "aff", S(1 + r.below(63))});
      if (r.chance(1, 6)) p.add("op", {S(t), "name", S(r.below(16))});
      if (r.chance(3, 5)) { uint64_t nr = NR[r.below(r.chance(2, 3) ? 15 : 28)]; if (r.chance(1, 4)) nr = r.below(40); if (th && !big && r.chance(1, 40)) { nr = 1000 + r.below(2000); big = true; } int64_t nest = r.chance(1, 4) && nr < 20 ? (int64_t)r.below(7) : -1; p.add("op", {S(t), "fj", S(nr), S(r.chance(2, 3)), S(r.chance(1, 2) ? r.below(4) : r.below(60)), std::to_string(nest)}); }
      else { int k = r.below(5); std::vector<std::string> a = {S(t)}; if (k == 0) { a.push_back("at"); a.push_back(S(r.chance(1, 2) ? r.below(20) : r.below(100000))); } else if (k == 1) { a.push_back("pin"); a.push_back(S(r.below(20))); } else if (k == 2) { a.push_back("list"); int c = r.below(6); for (int x = 0; x < c; x++) a.push_back(S(r.below(8))); } else if (k == 3) a.push_back("count"); else { a.push_back("cores"); a.push_back(S(r.below(9))); } p.add("op", a); }
    }
    if (r.chance(1, 3)) { int c = 1 + r.below(3); for (int i = 0; i < c; i++) p.add("sysfail", {r.chance(3, 5) ? "0" : S(1 + r.below(3)), S(r.below(r.chance(1, 2) ? 8 : 60)), S(r.chance(2, 3) ? 1 : 1 + r.below(6))}); }
    gen_sched(r, p, T * per * 400); stall(T, T * per * 400); return true;
  }
  if (prop == "C21") {
    p.set("kind", "co"); p.set("budget", 8000000); int T = r.chance(1, 2) ? 1 : 2 + r.below(3); p.set("threads", T); int per = 1 + r.below(r.chance(1, 3) ? 200 : 50); const bool faults = r.chance(1, 4);
    static const char* O[] = {"create", "fork", "rcreate", "rlink", "reuse", "destroy", "valid", "go", "back", "yield", "exit"}; static const int W0[] = {3, 2, 2, 4, 2, 2, 1, 8, 3, 8, 3}; int w[11]; for (int i = 0; i < 11; i++) w[i] = r.chance(1, 5) && i != 7 ? 0 : W0[i] * (1 + r.below(4)); int kind = r.below(3); if (kind == 0) w[2] = w[3] = w[9] = 0; if (kind == 1) w[0] = w[1] = 0;
    for (int t = 0; t < T; t++) for (int i = 0; i < per; i++) { int tot = 0, k; for (int x : w) tot += x; int x = r.below(tot); for (k = 0; x >= w[k]; k++) x -= w[k]; if (i < 2 && kind < 2) k = kind ? 2 + i : 0; std::vector<std::string> a = {S(t), O[k], S(r.below(64)), S(r() >> 34)}; if (faults && k < 4 && r.chance(1, 3)) a.push_back("!0," + S(1 + r.below(2))); p.add("op", a); }
    gen_sched(r, p, T * per * 20); stall(T, T * per * 20); return true;
  }
  if (prop == "C18") {
    p.set("kind", "slab"); const bool safe = r.chance(3, 4); p.set("safe", safe); int T = safe && r.chance(7, 8) ? 2 + r.below(th ? 7 : 4) : 1; p.set("threads", T);
    static const int os[] = {8, 16, 24, 32, 56, 64, 128, 192, 256, 1000, 1024, 2048, 4032}; p.set("osz", r.chance(1, 30) ? r.below(5000) : os[r.below(13)]); p.set("bsz", r.chance(1, 2) ? 4096 : r.chance(1, 30) ? 1 + r.below(20000) : 4096 << r.below(4));
    int per = 1 + r.below(r.chance(1, 3) ? 150 : 30), bias = 2 + r.below(7); const bool faults = r.chance(1, 3), phases = r.chance(1, 3);
    for (int t = 0; t < T; t++) for (int i = 0; i < per; i++) { std::vector<std::string> a = {S(t)}; bool al = phases ? (i / 12) % 2 == 0 : (int)r.below(10) < bias;
      if (!safe && r.chance(1, 12)) { a.push_back("reserve"); a.push_back(S(r.below(100))); } else if (!safe && r.chance(1, 25)) a.push_back("freeall"); else if (T == 1 && r.chance(1, 20)) a.push_back("check"); else { a.push_back(al ? "alloc" : "free"); a.push_back(S(r.below(1000))); }
      if (faults && r.chance(1, 5)) a.push_back("!" + S(0) + "," + S(1 + r.below(3))); p.add("op", a); }
    gen_sched(r, p, T * per * 20); stall(T, T * per * 20); return true;
  }
  if (prop == "C09") {
    p.set("kind", "diva"); p.set("int", r.chance(1, 2)); const bool shared = r.chance(2, 3); p.set("shared", shared); int T = 2 + r.below(th ? 5 : 3); p.set("threads", T);
    p.set("keys", r.chance(1, 2) ? 10 + r.below(200) : 1000 + r.below(th ? 9000 : 3000)); p.set("kseed", r() >> 20); p.set("kstyle", r.below(3)); p.set("klen", 9 + r.below(8)); p.set("infix", 3 + r.below(10)); p.set("rng", r() & 0xffff); p.set("load", r.below(2));
    if (shared) { int c = r.below(th ? 300 : 120), dp = r.below(60); for (int i = 0; i < c; i++) p.add("pre", {"0", S(r() >> 20), (int)r.below(100) < dp ? "d" : "i"}); }
    int per = 1 + r.below(40), up = r.below(100), dp = r.below(60);
    for (int t = 0; t < T; t++) for (int i = 0; i < per; i++) p.add("op", {S(t), S(r() >> 20), shared || (int)r.below(100) >= up ? "q" : r.chance(1, 25) ? "r" : (int)r.below(100) < dp ? "d" : "i"});
    gen_sched(r, p, T * per * 300); stall(T, T * per * 300); p.set("hmap", 8 << r.below(10)); p.set("slab", r.chance(1, 2) ? 16384 : 1 << 21); return true;
  }
  return false;
}
}
