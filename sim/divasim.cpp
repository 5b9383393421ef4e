// Histories of the Diva filter at operation granularity: the simulator owns the split coin, the
// process memory (contents of fresh memory, reuse, addresses), the storage images live on, and the
// restarts.  One plan = one exactly repeatable history; a std::map is the reference model.
#include <random>
#include <array>
#include "simcore.hpp"
#include "simmem.hpp"
#ifdef SIM_SAN
#include "simrt.hpp"
#endif

// ---- seam: the coin.  Diva draws from std::mt19937 whether an insert splits.
static int g_coin = 0;            // 0: Diva's own generator, 1: split, 2: no split
static uint64_t g_draws = 0;
namespace std {
struct sim_mt { std::mt19937 r; typedef uint32_t result_type; static constexpr uint32_t min() { return 0; } static constexpr uint32_t max() { return 0xffffffffu; }
  sim_mt() {} explicit sim_mt(uint32_t s) : r(s) {}
  void seed(uint32_t s) { r.seed(s); } uint32_t operator()() { uint32_t v = r(); g_draws++; return g_coin == 1 ? 0 : g_coin == 2 ? 1 : v; } };
}
#define mt19937 sim_mt
#include "diva.hpp"
#undef mt19937

using std::string; using std::vector;
namespace sim {
Shared* g_sh;
enum { C_NT, C_LOADS, C_INS, C_DEL, C_SPLIT, C_NOSPLIT, C_RESTART, C_CRASH, C_SNAP, C_SHRINK, C_STREAM, C_FIXED, C_DUP, C_TRAILZ, C_GARB, C_REUSE, C_PQ, C_RQ, C_BYTES, C_TWIN, C_NOISE, C_CYCLES, C_FPSAMP, C_INTRUNS, C_STRRUNS, C_LONGKEY, C_SHIFT };
const char* g_cnt_names[NCNT] = {"nontrivial_runs", "bulk_loads", "inserts", "deletes", "coin_forced_split", "coin_forced_nosplit", "restarts_from_image", "crashes_to_older_image", "snapshots", "shrinks", "streaming_loads", "fixed_length_loads", "duplicate_inserts", "keys_with_trailing_zero_bytes", "runs_with_garbage_memory", "runs_with_memory_reuse", "point_queries", "range_queries", "image_bytes", "twin_comparisons", "noise_filter_ops", "insert_delete_cycles", "false_positive_samples", "int_filter_runs", "string_filter_runs", "keys_longer_than_8", "runs_with_shifted_addresses"};
#define CNT(c) (g_sh->cnt[c]++)

static string K(uint64_t x) { uint64_t b = __builtin_bswap64(x); return string((char*)&b, 8); }
static uint64_t U(const string& s) { uint64_t b = 0; memcpy(&b, s.data(), 8); return __builtin_bswap64(b); }
static int pcmp(const string& a, const string& b) {   // order of keys as the filter defines it: padded with zero bytes
  size_t n = std::max(a.size(), b.size());
  for (size_t i = 0; i < n; i++) { uint8_t x = i < a.size() ? a[i] : 0, y = i < b.size() ? b[i] : 0; if (x != y) return x < y ? -1 : 1; }
  return 0;
}

static bool le(const string& a, const string& b) { return pcmp(a, b) <= 0 && a <= b; }   // both orders agree
// ------------------------------------------------------------------------------------ key generator
struct KeyGen {
  bool isint; int nbase; uint64_t base[8]; int shift; int maxlen, minlen; int alpha; int uni; int cut; int mode = 0; string anchor;
  vector<string> sb;
  void init(Rng& r, bool I, int style) {   // style 0: mixed, 1: uniform
    isint = I; nbase = 1 + r.below(8); shift = 5 + r.below(50); cut = r.below(3) ? 6 : 0;
    for (auto& b : base) { b = r(); if (r.below(3) == 0) b >>= r.below(40); }
    maxlen = I ? 8 : (r.below(3) == 0 ? 8 : 1 + (int)r.below(r.below(8) == 0 ? 300 : 40)); if (maxlen < 2) maxlen = 2;
    minlen = 1; alpha = r.below(2) ? 0 : 2 + r.below(20); uni = style;
    // 1: both sides of a point where a carry runs through many bits, 2: distances from a few points at every scale
    mode = style == 1 ? 0 : r.below(4); if (mode == 3) mode = 0;
    if (mode) { nbase = 1 + r.below(3); if (!I && maxlen < 4) maxlen = 4 + r.below(20);
      for (auto& b : base) if (mode == 1) { int z = r.below(60); b = b >> z << z; if (!b) b = 1ull << 40; }
      int n = I ? 0 : r.below(2) ? 0 : r.below(maxlen); for (int i = 0; i < n; i++) anchor += (char)(alpha ? 1 + r.below(alpha) : r()); }
    if (style == 1) { maxlen = I ? 8 : 8 + r.below(24); minlen = I ? 8 : 8; alpha = 0; cut = 0; }
  }
  string operator()(Rng& r) {
    if (isint) {
      uint64_t x; if (uni) x = r();
      else if (mode && r.below(12)) {
        uint64_t d = r() >> r.below(64); x = base[r.below(nbase)]; x = r.below(2) ? x + d : x - d;
      } else {
        int t = r.below(10);
        if (t < 6) x = base[r.below(nbase)] + ((r() >> 7 >> shift) << (r.below(4) == 0 ? 3 : 0));
        else if (t < 8) x = r();
        else x = base[r.below(nbase)] + r.below(64);
        if (cut && r.below(cut) == 0) x &= ~0ull << (8 * r.below(7));
      }
      if (x == 0) x = 1; if (x == ~0ull) x = ~0ull - 1;
      return K(x);
    }
    int l = minlen + r.below(maxlen - minlen + 1); string s;
    if (mode && r.below(12)) {   // anchor + (base +- a distance at some scale) + more bytes
      uint64_t d = r() >> r.below(64); uint64_t x = base[r.below(nbase)]; x = r.below(2) ? x + d : x - d;
      s = anchor.substr(0, std::min<size_t>(anchor.size(), maxlen > 6 ? maxlen - 6 : 0)); size_t an = s.size(); int m = r.below(5);   // the carry may run on through the bytes that follow
      s += K(x); if (m < 2) { bool up = r.below(2); size_t keep = an + r.below(8); s.resize(keep + 1); s += string(r.below(10), up ? '\0' : '\xff'); s += (char)r(); }
      else if (m == 2) s += (char)r(); else if (m == 3) { s += (char)r(); s += (char)r(); s += (char)r(); }
      if ((int)s.size() > maxlen) s.resize(maxlen); if ((int)s.size() < minlen) s.resize(minlen, '\0');
      if (s.find_first_not_of('\0') == string::npos) s = "\x01";
      return s;
    }
    if (!uni && r.below(3)) { s = K(base[r.below(nbase)]).substr(0, r.below(9)); if (maxlen > 40 && r.below(2)) s += string(r.below(maxlen - 10), 'q'); }
    while ((int)s.size() < l) s += (char)(alpha ? 1 + r.below(alpha) : r());
    if (!uni) { if (cut && r.below(cut) == 0) s += string(r.below(3), '\0'); if (r.below(6) == 0) s = s.substr(0, 1 + r.below(4)); }
    if ((int)s.size() > maxlen) s.resize(maxlen);
    if (s.find_first_not_of('\0') == string::npos) s = "\x01";
    return s;
  }
};

// ------------------------------------------------------------------------------------ generation
static string S(uint64_t x) { return std::to_string(x); }
static string coin_of(Rng& r, int pm) { return (int)r.below(1000) < pm ? "s" : "n"; }

void gen(const string& prop, const string& tier, uint64_t seed, Plan& p) {
  Rng r(mix(seed, 0xD17A)); for (char c : prop) r.s = mix(r.s, c);
  p.prop = prop;
  const bool deep = tier == "thorough";
  const bool I = r.below(2);
  const bool calib = prop == "C03" || prop == "C13";
  KeyGen kg; kg.init(r, I, calib ? 1 : (prop == "C04" ? r.below(2) : r.below(5) == 0));
  const bool c04u = prop == "C04" && kg.uni == 1 && r.below(2);   // uniform keys, with splits
  p.set("int", I); uint32_t infix = c04u ? 7 + r.below(6) : prop == "C13" ? 8 + r.below(8) : calib ? 5 + r.below(9) : r.below(10) == 0 ? 14 + r.below(33) : 2 + r.below(12);
  p.set("infix", infix);
  p.set("rng", r() & 0xffffffff);
  static const char* LF[] = {"0.95", "0.95", "0.9", "0.8"}; p.set("lf", LF[r.below(4)]);
  p.set("vseed", r() >> 1);
  p.set("garbage", r.below(256)); p.set("gmode", r.below(3) == 0); p.set("reuse", r.below(3) == 0); p.set("skip", r.below(4) ? 0 : r.below(5000));
  int lm = r.below(prop == "C08" ? 2 : 3);   // 0: streaming, 1/2: constructor
  p.set("load", lm == 0 ? "stream" : (I || r.below(4) == 0) ? "fixed" : "var");
  const bool fixed = p.gets("load") == "fixed";
  if (fixed && !I) { kg.minlen = kg.maxlen = vector<int>{2, 4, 8, 12, 16}[r.below(calib ? 3 : 5) + (calib ? 2 : 0)]; p.set("keylen", kg.maxlen); kg.cut = 0; }
  auto norm = [&](string k) { if (fixed && !I) k.resize(kg.maxlen, '\0'); return k; };
  int nb = c04u ? 1500 + r.below(3000) : calib ? 1500 + r.below(deep ? 12000 : prop == "C13" ? 9000 : 6000) : 1 + r.below(r.below(2) ? 50 : (r.below(4) == 0 ? 9000 : 3500));
  std::map<string, int> live;
  auto ok = [&](const string& k) { return I ? (U(k) != 0 && U(k) != ~0ull) : k.find_first_not_of('\0') != string::npos && k > string(8, '\0'); };
  for (int i = 0; i < nb; i++) { string k = norm(kg(r)); if (ok(k)) live[k] = 1; }
  { // at least one key, and sometimes a count at the edge of a bulk-load batch
    while (live.empty()) { string k = norm(kg(r)); if (ok(k)) live[k] = 1; }
    if (r.below(6) == 0) { int w = r.below(3); while (live.size() > 1 && (int)(live.size() % 1024) != w) live.erase(std::prev(live.end())); }
  }
  size_t maxlen = 0; for (auto& k : live) maxlen = std::max(maxlen, k.first.size());
  // FF..FF of the longest length is the upper boundary; keep below it
  for (auto it = live.begin(); it != live.end();) if (pcmp(it->first, string(maxlen, '\xff')) >= 0) it = live.erase(it); else ++it;
  if (live.empty()) live[I ? K(1 + r.below(1000)) : norm(string(1, (char)(1 + r.below(200))))] = 1;
  if (!I && !fixed && !calib && r.below(prop == "C08" ? 3 : 12) == 0) {   // the longest key stands in one place: at the edge of a batch, or first, or last
    size_t at = std::vector<size_t>{0, live.size() - 1, 1024, 1023, 2048}[r.below(5)]; if (at < live.size()) {
      auto it = live.begin(); std::advance(it, at); string k = it->first; k.resize(std::max(maxlen, k.size()), '\0'); k += (char)(1 + r.below(255));
      auto nx = std::next(it); if (nx == live.end() || (k < nx->first && pcmp(k, nx->first) < 0)) { live.erase(it); live[k] = 1; } }
  }
  for (auto& k : live) p.add("k", {hex(k.first)});
  p.add("build");
  p.add("v", {S(r() >> 1)});
  vector<string> pool; for (auto& k : live) pool.push_back(k.first);
  auto addkey = [&](const char* o, const string& k, const string& c) { p.add(o, {hex(k), c, S(r.below(3))}); };
  int nops = 50 + r.below(deep ? 3000 : 900); if (prop == "C06" || prop == "C07") nops = 20 + r.below(deep ? 1500 : 500);
  int splitp = r.below(3) == 0 ? 0 : r.below(100), delp = r.below(55), rst = r.below(3) ? 97 : 30, shr = r.below(3) ? 151 : 1000000, crash = r.below(2) ? 120 : 1000000;
  if (prop == "C05") shr = 20 + r.below(100);
  if (prop == "C06") rst = 15 + r.below(60);
  if (prop == "C08") nops = r.below(100);
  int every = nops / 8 + 1;
  if (calib) {   // natural coin; histories that grow, shrink, restart
    if (prop == "C03" && r.below(3) == 0) shr = 400; else shr = 1000000;
    rst = 300; crash = 1000000;
    nops = 200 + r.below(deep ? 9000 : 4000); every = nops / 3 + 1; delp = r.below(3) == 0 ? 0 : r.below(prop == "C13" ? 95 : 50);
  }
  if (prop == "C04") {
    // cycles: insert a batch, delete it again in another order
    bool nosplit = !c04u; int cyc = 1 + r.below(deep ? 8 : 4);
    std::set<string> stripped; auto strip = [](string k) { while (k.size() && !k.back()) k.pop_back(); return k; };
    for (auto& k : live) stripped.insert(strip(k.first));
    p.set("uniform", c04u);
    int sp = nosplit ? 0 : r.below(20);
    for (int c = 0; c < cyc; c++) {
      int m = 1 + r.below(r.below(3) ? 60 : 1500); vector<string> b;
      p.add("mark", {S(r() >> 1)});
      for (int i = 0; i < m; i++) {
        string k = norm(r.below(12) || b.empty() ? kg(r) : b[r.below(b.size())]); if (!ok(k) || stripped.count(strip(k))) continue;
        addkey("i", k, coin_of(r, sp)); b.push_back(k);
        if (r.below(40) == 0) p.add("restart");
        if (r.below(5) == 0 && b.size()) { size_t j = r.below(b.size()); addkey("d", b[j], "n"); b[j] = b.back(); b.pop_back(); }
      }
      while (b.size()) { size_t j = r.below(b.size()); addkey("d", b[j], "n"); b[j] = b.back(); b.pop_back(); if (r.below(60) == 0) p.add("restart"); }
      p.add("check", {S(r() >> 1)});
    }
    return;
  }
  // many boundary keys: the trees get several leaves, which deletions merge again
  const bool manyb = !calib && prop != "C08" && r.below(5) == 0;
  int phase = 0, plen = 0;
  if (manyb) { p.set("maxsize", 300000); nops = 500 + r.below(deep ? 3000 : 1200); every = nops / 5 + 1; rst = r.below(2) ? 1000000 : 300; }
  for (int i = 0; i < nops; i++) {
    if (manyb && plen-- == 0) { phase ^= 1; plen = 50 + r.below(500); splitp = phase ? 700 + r.below(301) : r.below(1000); delp = phase ? r.below(20) : 50 + r.below(50); }
    if (r.below(rst) == 0) p.add("restart");
    if (r.below(crash) == 0) p.add("snap");
    if (r.below(crash) == 0) p.add("crash");
    if (infix > (calib ? 4u : 2u) && r.below(shr) == 0) { infix -= 1 + r.below(infix - (calib ? 4 : 2)); p.add("shrink", {S(infix), S(r() >> 1)}); }
    if ((int)r.below(100) < delp && pool.size() > 2) {
      size_t j = r.below(pool.size()); addkey("d", pool[j], "n"); pool[j] = pool.back(); pool.pop_back();
    } else {
      string k = (!calib && r.below(20) == 0) ? pool[r.below(pool.size())] : norm(kg(r));
      if (!ok(k)) continue;
      addkey("i", k, calib ? "r" : prop == "C07" && r.below(2) ? "r" : coin_of(r, splitp)); pool.push_back(k);
    }
    if (i % every == every - 1) p.add("v", {S(r() >> 1)});
    if (prop == "C07" && r.below(50) == 0) p.add("noise", {S(r() >> 1)});
  }
  if (prop == "C13" && r.below(2)) {   // drain
    while (pool.size() > 300) { size_t j = r.below(pool.size()); addkey("d", pool[j], "n"); pool[j] = pool.back(); pool.pop_back(); }
  }
  p.add("v", {S(r() >> 1)});
}

// ------------------------------------------------------------------------------------ storage
// An image on storage: exactly as long as what was written, ending at an inaccessible page.
struct Image {
  char* map = nullptr; size_t maplen = 0; char* p = nullptr; size_t n = 0;
  void make(size_t len, int fill) {
    n = len; maplen = (len + 4095) / 4096 * 4096 + 4096; if (maplen == 4096) maplen = 8192;
    map = (char*)mmap(nullptr, maplen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(map + maplen - 4096, 4096, PROT_NONE);
    memset(map, fill, maplen - 4096);
    p = map + maplen - 4096 - len;
  }
  void drop() { if (map) munmap(map, maplen); map = nullptr; }
};

template <bool I> struct Filter {
  Diva<I>* d = nullptr;
  // every key is handed over in a buffer of exactly its length that is gone after the call
  struct Tmp { uint8_t* p; size_t n; Tmp(const string& k) { n = k.size(); p = (uint8_t*)simmem::alloc(n, 16, false); memcpy(p, k.data(), n); } ~Tmp() { simmem::release(p); } };
  bool P(const string& k, int ov = 0) const {
    CNT(C_PQ);
#ifdef SIM_SAN
    if (ov == 0) { Tmp t(k); Sut s; return d->PointQuery(t.p, t.n); }
#endif
    Sut s;
    if (I && ov == 1 && k.size() == 8) return d->PointQuery(U(k));
    if (ov == 2) return d->PointQuery(std::string_view(k));
    return d->PointQuery((const uint8_t*)k.data(), k.size());
  }
  bool R(const string& a, const string& b, int ov = 0) const {
    CNT(C_RQ);
#ifdef SIM_SAN
    if (ov == 0) { Tmp t(a), u(b); Sut s; return d->RangeQuery(t.p, t.n, u.p, u.n); }
#endif
    Sut s;
    if (I && ov == 1 && a.size() == 8 && b.size() == 8) return d->RangeQuery(U(a), U(b));
    if (ov == 2) return d->RangeQuery(std::string_view(a), std::string_view(b));
    return d->RangeQuery((const uint8_t*)a.data(), a.size(), (const uint8_t*)b.data(), b.size());
  }
  void Ins(const string& k, int ov, int coin) {
    Tmp t(k); g_coin = coin; { Sut s;
      if (I && ov == 1 && k.size() == 8) d->Insert(U(k)); else if (ov == 2) d->Insert(std::string_view((char*)t.p, t.n)); else d->Insert(t.p, t.n); }
    g_coin = 0;
  }
  void Del(const string& k, int ov) {
    Tmp t(k); Sut s;
    if (I && ov == 1 && k.size() == 8) d->Delete(U(k)); else if (ov == 2) d->Delete(std::string_view((char*)t.p, t.n)); else d->Delete(t.p, t.n);
  }
  uint32_t Size() const { Sut s; return d->Size(); }
  void Destroy() { if (d) { Sut s; delete d; } d = nullptr; }
  string Bytes(int fill) const {   // Serialize into storage of exactly Size() bytes
    uint32_t n = Size(); Image im; im.make(n, fill);
    uint32_t w; { Sut s; w = d->Serialize(im.p); }
    if (w != n) violation("SIZE-MISMATCH", "Size() says %u bytes but Serialize() wrote %u", n, w);
    if (memcmp(im.map, string(im.p - im.map, (char)fill).data(), im.p - im.map) != 0) violation("IMAGE-UNDERRUN", "Serialize() wrote before the start of its buffer");
    string out(im.p, n); im.drop(); g_sh->cnt[C_BYTES] += n; return out;
  }
  static Diva<I>* Load(const string& bytes, int poison) {
    Image im; im.make(bytes.size(), poison); memcpy(im.p, bytes.data(), bytes.size());
    Diva<I>* n; { Sut s; n = new Diva<I>(im.p); }
    if (memcmp(im.p, bytes.data(), bytes.size()) != 0) violation("IMAGE-MODIFIED", "loading an image changed the image");
    memset(im.p, poison, bytes.size()); im.drop();
    return n;
  }
};

template <size_t N> struct Fix { uint8_t b[N]; };
template <size_t N, bool I> static Diva<I>* fixed_load(const vector<string>& ks, uint32_t infix, uint32_t seed, float lf) {
  vector<Fix<N>> v(ks.size()); for (size_t i = 0; i < ks.size(); i++) memcpy(v[i].b, ks[i].data(), N);
  Sut s; return new Diva<I>(infix, v.begin(), v.end(), (uint32_t)N, seed, lf);
}

static string neighbour(Rng& r, const string& k, bool I) {   // a key near k
  if (I) { uint64_t x = U(k), d = r() >> (r.below(62) + 1); x = r.below(2) ? x + d : x - d; if (x == 0) x = 1; if (x == ~0ull) x--; return K(x); }
  string s = k; int t = r.below(4);
  if (t == 0 && s.size() > 1) s.resize(1 + r.below(s.size() - 1));
  else if (t == 1) s += (char)r();
  else if (t == 2) { size_t i = r.below(s.size()); s[i] = (char)(s[i] ^ (1 << r.below(8))); }
  else { s[s.size() - 1] = (char)(s[s.size() - 1] + (r.below(2) ? 1 : -1)); }
  if (s.find_first_not_of('\0') == string::npos) s = k;
  return s;
}

template <bool I> struct Exec {
  const Plan& p; Filter<I> f, twin; std::map<string, int> live; size_t maxlen = 0; string upper;
  KeyGen probe; string snap; std::map<string, int> snap_live; uint32_t infix, snap_infix = 0; float lf; uint32_t rs; uint64_t size0 = 0, mem0 = 0;
  size_t n0 = 0, nkeys = 0, peak = 0; int opno = 0; string lastop; bool nosplit_history = true;
  vector<char> mark_ans; vector<std::pair<string, string>> mark_q; uint32_t mark_size = 0; bool marked = false, snap_nosplit = true; std::map<string, int> mark_live; std::set<string> batch;
  vector<string>* images = nullptr;   // C07: images at the checkpoints
  Exec(const Plan& pl) : p(pl) { infix = p.geti("infix"); lf = (float)p.getf("lf", 0.95); rs = (uint32_t)p.getu("rng"); }
  bool is(const char* q) const { return p.prop == q; }
  bool valid(const string& k) const {
    if (I) return k.size() == 8 && U(k) != 0 && U(k) != ~0ull;
    return !k.empty() && k.find_first_not_of('\0') != string::npos && pcmp(k, upper) < 0;
  }
  void build(vector<string> ks) {
    CNT(C_LOADS); (I ? CNT(C_INTRUNS) : CNT(C_STRRUNS));
    string mode = p.gets("load");
    if (I && mode == "var") mode = "fixed";
    f.d = load(mode, ks);
    maxlen = 0; for (auto& k : ks) { live[k]++; maxlen = std::max(maxlen, k.size()); if (k.size() > 8) CNT(C_LONGKEY); }
    upper = string(maxlen, '\xff');
    size0 = f.Size(); n0 = nkeys = peak = ks.size();
  }
  Diva<I>* load(const string& mode, const vector<string>& ks) {
    if (mode == "stream") {
      CNT(C_STREAM);
      Diva<I>* d; { Sut s; d = new Diva<I>(infix, rs, lf); }
      int n = 0;
      for (auto& k : ks) { typename Filter<I>::Tmp t(k); Sut s; n++;
        if (I && n % 3 == 1) d->BulkLoadStreaming(U(k)); else if (n % 3 == 2) d->BulkLoadStreaming(std::string_view((char*)t.p, t.n)); else d->BulkLoadStreaming(t.p, t.n); }
      { Sut s; d->BulkLoadStreamingFinish(); }
      return d;
    }
    if (mode == "fixed") {
      CNT(C_FIXED);
      if constexpr (I) { vector<uint64_t> v; for (auto& k : ks) v.push_back(U(k)); Sut s; return new Diva<I>(infix, v.begin(), v.end(), (uint32_t)8, rs, lf); }
      else { int n = p.geti("keylen", 8);
        switch (n) { case 2: return fixed_load<2, I>(ks, infix, rs, lf); case 4: return fixed_load<4, I>(ks, infix, rs, lf); case 8: return fixed_load<8, I>(ks, infix, rs, lf);
          case 12: return fixed_load<12, I>(ks, infix, rs, lf); default: return fixed_load<16, I>(ks, infix, rs, lf); } }
    }
    if constexpr (!I) { vector<string> v = ks; Sut s; return new Diva<I>(infix, v.begin(), v.end(), rs, lf); }
    return nullptr;
  }
  string anykey(Rng& r) {
    for (int i = 0; i < 20; i++) { string k; int t = r.below(3);
      if (!I && r.below(24) == 0) { k = string(r.below(maxlen + 1), '\xff'); if (k.size() < maxlen) k += (char)r(); if (k.size() < maxlen && r.below(2)) k += (char)r(); if (valid(k)) return k; }
      if (t == 0 || live.empty()) k = probe(r); else { auto it = live.lower_bound(probe(r)); if (it == live.end()) it = live.begin(); k = neighbour(r, it->first, I); }
      if (valid(k)) return k; }
    return live.empty() ? string(1, 'a') : live.begin()->first;
  }
  void points(const char* when) {
    int i = 0;
    for (auto& kv : live) { bool a = f.P(kv.first, i++ % 3); note(a); if (!a) violation("FALSE-NEGATIVE-POINT", "%s: point query for live key %s answers false (operation %d: %s)", when, hex(kv.first).c_str(), opno, lastop.c_str()); }
  }
  void ranges(Rng& r, const char* when) {
    int i = 0;
    for (auto it = live.begin(); it != live.end(); ++it, ++i) {
      const string& k = it->first; string a = k, b = k; int t = r.below(8);
      if (t == 0) {}
      else if (I && t < 5) { uint64_t x = U(k), d1 = r.below(3) ? r() >> (1 + r.below(62)) : 0, d2 = r.below(3) ? r() >> (1 + r.below(62)) : 0; uint64_t l = x > d1 ? x - d1 : 1, h = x + d2; if (h < x || h == ~0ull) h = ~0ull - 1; if (h < x) h = x; a = K(l); b = K(h); }
      else {
        string o = anykey(r), q = anykey(r);
        if (t & 1) { auto jt = it; for (int n = r.below(4); n-- && jt != live.begin();) --jt; o = r.below(2) ? jt->first : neighbour(r, jt->first, I); }
        if (t & 2) { auto jt = it; for (int n = r.below(4); n-- && std::next(jt) != live.end();) ++jt; q = r.below(2) ? jt->first : neighbour(r, jt->first, I); }
        if (valid(o) && le(o, k)) a = o;
        if (valid(q) && le(k, q)) b = q;
      }
      bool ans = f.R(a, b, i % 3); note(ans);
      if (!ans) violation("FALSE-NEGATIVE-RANGE", "%s: range query [%s, %s] answers false, but key %s is live (operation %d: %s)", when, hex(a).c_str(), hex(b).c_str(), hex(k).c_str(), opno, lastop.c_str());
    }
    // ranges that hold many keys
    for (int n = 0; n < 20 && live.size() > 1; n++) {
      string a = anykey(r), b = anykey(r); if (!le(a, b)) std::swap(a, b); if (!le(a, b)) continue;
      auto it = live.lower_bound(a); bool any = it != live.end() && le(it->first, b);
      bool ans = f.R(a, b, n % 3); note(ans);
      if (any && !ans) violation("FALSE-NEGATIVE-RANGE", "%s: range query [%s, %s] answers false, but key %s is live (operation %d: %s)", when, hex(a).c_str(), hex(b).c_str(), hex(it->first).c_str(), opno, lastop.c_str());
    }
  }
  // a set of queries and its answers; point queries have an empty second bound
  vector<std::pair<string, string>> queries(uint64_t seed, size_t n) {
    Rng r(seed); vector<std::pair<string, string>> q; size_t step = std::max<size_t>(1, live.size() / n), i = 0;
    for (auto& kv : live) if (i++ % step == 0) { q.push_back({kv.first, ""}); string o = neighbour(r, kv.first, I); if (valid(o)) q.push_back({o, ""}); if (valid(o)) { if (le(kv.first, o)) q.push_back({kv.first, o}); else if (le(o, kv.first)) q.push_back({o, kv.first}); } }
    for (size_t j = 0; j < n; j++) { string a = anykey(r); q.push_back({a, ""}); string b = anykey(r); if (!le(a, b)) std::swap(a, b); if (!le(a, b)) continue; q.push_back({a, b});
      string c = neighbour(r, a, I); if (valid(c)) { if (!le(a, c)) std::swap(a, c); if (le(a, c)) q.push_back({a, c}); } }
    return q;
  }
  static vector<char> answers(const Filter<I>& f, const vector<std::pair<string, string>>& q) {
    vector<char> v; v.reserve(q.size()); int i = 0; for (auto& x : q) v.push_back(x.second.empty() ? f.P(x.first, i++ % 3) : f.R(x.first, x.second, i++ % 3)); return v;
  }
  void note_answers(const vector<char>& v) { note_bytes(v.data(), v.size()); }
  static void show(char* o, size_t n, const std::pair<string, string>& q) { if (q.second.empty()) snprintf(o, n, "point query %s", hex(q.first).c_str()); else snprintf(o, n, "range query [%s, %s]", hex(q.first).c_str(), hex(q.second).c_str()); }

  // false-positive rate: absent keys drawn like the live ones
  double fp_bound(double& slack, int samples) const {
    // calibrated: measured at most 2.0 per unit of load (times 2^-(infix-1)) without deletes; deletes merge stores
    const bool del = g_sh->cnt[C_DEL] > 0;
    double b = (del ? 9.0 : 2.6) * growth() * std::pow(2.0, -(double)(infix - 1)); b += 0.002;
    slack = 6 * std::sqrt(b * (1 - std::min(b, 0.999)) / samples) + 6.0 / samples; return b;
  }
  void fpr(uint64_t seed) {
    if (live.size() < 200) return;
    Rng r(seed); int N = 6000, fp = 0, fr = 0, m = 0;
    for (int i = 0; i < N; i++) { string k = probe(r); if (!valid(k) || live.count(k)) continue; m++; bool a = f.P(k, i % 3); fp += a; }
    g_sh->cnt[C_FPSAMP] += m;
    double sl, b = fp_bound(sl, m); note(fp);
    if (getenv("SIM_CALIB")) fprintf(stderr, "calib point I=%d infix=%u n=%zu g=%.2f del=%lu ins=%lu rate=%.5f norm=%.3f bound=%.4f\n", I, infix, live.size(), growth(), g_sh->cnt[C_DEL], g_sh->cnt[C_INS], (double)fp / m, (double)fp / m * std::pow(2.0, infix - 1), b + sl);
    if ((double)fp / m > b + sl) violation("FALSE-POSITIVE-RATE", "%d of %d point queries for absent keys answer true (%.4f; bound for infix size %u: %.4f) with %zu live keys, operation %d", fp, m, (double)fp / m, infix, b + sl, live.size(), opno);
    m = 0;
    for (int i = 0; i < N; i++) {
      string k = probe(r), e = k;
      if (I) { uint64_t w = ~0ull / (live.size() * 400); if (U(k) > ~0ull - w - 2) continue; e = K(U(k) + 1 + r.below(w)); }
      else { e += string(1 + r.below(3), (char)r()); if (e.size() > 9 && r.below(2)) { e = k; e[k.size() - 1] = (char)0xff; } }
      if (pcmp(k, e) > 0) std::swap(k, e);
      if (!valid(k) || !valid(e)) continue;
      auto it = live.lower_bound(k); if (it != live.end() && pcmp(it->first, e) <= 0) continue;
      m++; bool a = f.R(k, e, i % 3); fr += a;
    }
    if (m < 100) return;
    g_sh->cnt[C_FPSAMP] += m; note(fr);
    if (getenv("SIM_CALIB")) fprintf(stderr, "calib range I=%d infix=%u n=%zu g=%.2f del=%lu ins=%lu rate=%.5f norm=%.3f bound=%.4f\n", I, infix, live.size(), growth(), g_sh->cnt[C_DEL], g_sh->cnt[C_INS], (double)fr / m, (double)fr / m * std::pow(2.0, infix - 1), b + sl);
    b = fp_bound(sl, m);
    if ((double)fr / m > b + sl) violation("FALSE-POSITIVE-RATE", "%d of %d short empty ranges answer true (%.4f; bound for infix size %u: %.4f) with %zu live keys, operation %d", fr, m, (double)fr / m, infix, b + sl, live.size(), opno);
  }
  double growth() const { return std::max(1.0, (double)peak / std::max<size_t>(1, n0)); }
  size_t nlive() const { size_t n = 0; for (auto& kv : live) n += kv.second; return n; }
  void space() {
    double n = nlive(), sz = f.Size(), bits = 8.0 * sz;
    note((uint64_t)sz);
    // one word-rounded store per boundary key, and slots for the live keys at the load factor
    double nb = n0 / 1024.0 + 5 + 2.0 * g_sh->cnt[C_INS] / 1024.0 + g_sh->cnt[C_SPLIT];
    double bound = 8 * 600 + 3 * 1100 * (infix + 1.5) / lf + 8 * nb * (150 + 8 * (infix + 1) + maxlen) + n * (infix + 2.0) / lf * 1.6;
    if (getenv("SIM_CALIB")) fprintf(stderr, "calib space I=%d infix=%u lf=%.2f n=%.0f peak=%zu bits/key=%.2f size=%.0f ratio=%.3f maxlen=%zu\n", I, infix, lf, n, peak, bits / n, sz, bits / bound, maxlen);
    if (bits > bound) violation("SPACE", "the filter takes %.0f bytes for %.0f live keys with infix size %u and load factor %.2f (bound %.0f), operation %d", sz, n, infix, lf, bound / 8, opno);
  }

  void compare_images(const string& a, const string& b, const char* what) {
    CNT(C_TWIN);
    if (a != b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; violation("IMAGE-DIFFERS", "%s: images differ (%zu and %zu bytes, first at byte %zu), operation %d", what, a.size(), b.size(), i, opno); }
  }
  void restart(uint64_t seed) {
    CNT(C_RESTART);
    string im = f.Bytes(0x5a); note_bytes(im.data(), im.size());
    Filter<I> n; n.d = Filter<I>::Load(im, 0xee);
    if (is("C06")) {
      compare_images(im, f.Bytes(0xc3), "serializing twice (into storage with other contents)");
      auto q = queries(seed, 60); auto a = answers(f, q), b = answers(n, q); note_answers(a);
      for (size_t i = 0; i < q.size(); i++) if (a[i] != b[i]) { char t[900]; show(t, sizeof t, q[i]); violation("RESTART-ANSWER", "%s: %d before the restart, %d after it (operation %d)", t, a[i], b[i], opno); }
      compare_images(im, n.Bytes(0x11), "serializing, loading and serializing again");
      if (twin.d) { compare_images(im, twin.Bytes(0), "a restarted filter and the one it was made from, after the same operations"); twin.Destroy(); }
      twin = f; f = n;      // from here on the two get the same operations and the same coins
    } else { f.Destroy(); f = n; }
  }
  void op(const Line& l) {
    const string& o = l.op; opno++; g_sh->steps++;
    if (l.a.size()) context("during operation %d: %s %.200s", opno, o.c_str(), l.a[0].c_str()); else context("during operation %d: %s", opno, o.c_str());
    if (o == "i") {
      string k = unhex(l.a[0]); if (!valid(k)) return;
      int coin = l.a[1] == "s" ? 1 : l.a[1] == "n" ? 2 : 0; int ov = atoi(l.a[2].c_str());
      if (coin == 1 && f.Size() > 2 * size0 + 20000 && f.Size() > p.getu("maxsize")) coin = 2;     // forced splits only while the filter is small
      if (f.Size() > 6 * size0 + 1000000) return;
      if (live.count(k)) CNT(C_DUP); if (!I && k.back() == 0) CNT(C_TRAILZ);
      f.Ins(k, ov, coin); if (twin.d) twin.Ins(k, ov, coin); live[k]++; nkeys++; peak = std::max(peak, nkeys); CNT(C_INS); if (coin == 1) CNT(C_SPLIT); if (coin == 2) CNT(C_NOSPLIT); if (coin != 2) nosplit_history = false;
      lastop = "insert " + l.a[0] + " coin " + l.a[1];
    } else if (o == "d") {
      string k = unhex(l.a[0]); auto it = live.find(k); if (it == live.end()) return;
      int ov = atoi(l.a[2].c_str());
      f.Del(k, ov); if (twin.d) twin.Del(k, ov); if (--it->second == 0) live.erase(it); nkeys--; CNT(C_DEL); if (marked) batch.insert(k); lastop = "delete " + l.a[0];
    } else if (o == "restart") { restart(mix(p.getu("vseed"), opno)); lastop = "restart"; }
    else if (o == "snap") { CNT(C_SNAP); snap = f.Bytes(0x33); snap_live = live; snap_infix = infix; snap_nosplit = nosplit_history; }
    else if (o == "crash") {     // the process dies; what was stored by the last snapshot survives
      if (snap.empty()) return; CNT(C_CRASH); f.Destroy(); twin.Destroy(); f.d = Filter<I>::Load(snap, 0x77); live = snap_live; nkeys = nlive(); infix = snap_infix; nosplit_history = snap_nosplit; lastop = "crash and restore"; marked = false;
    }
    else if (o == "shrink") {
      uint32_t ni = atoi(l.a[0].c_str()); if (ni >= infix || ni < 2) return;
      CNT(C_SHRINK); uint32_t before = f.Size();
      vector<std::pair<string, string>> q; vector<char> a;
      if (is("C05")) { q = queries(strtoull(l.a[1].c_str(), 0, 0), 150); a = answers(f, q); }
      Filter<I> two;
      if (is("C05") && infix - ni >= 2) two.d = Filter<I>::Load(f.Bytes(0), 0xee);
      { Sut s; f.d->ShrinkInfixSize(ni); if (twin.d) twin.d->ShrinkInfixSize(ni); }
      lastop = "shrink to " + l.a[0];
      if (is("C05")) {
        uint32_t after = f.Size();
        if (after > before) violation("SHRINK-GREW", "shrinking infixes from %u to %u bits took the size from %u to %u", infix, ni, before, after);
        auto b = answers(f, q); note_answers(b);
        for (size_t i = 0; i < q.size(); i++) if (a[i] && !b[i]) { char t[900]; show(t, sizeof t, q[i]); violation("SHRINK-LOST", "%s answers true before shrinking from %u to %u bits and false after it (operation %d)", t, infix, ni, opno); }
        if (two.d) {   // one step and several steps give the same filter
          Rng r(opno); for (uint32_t x = infix; x > ni;) { x -= 1 + r.below(x - ni); Sut s; two.d->ShrinkInfixSize(x); }
          auto c = answers(two, q); for (size_t i = 0; i < q.size(); i++) if (b[i] != c[i]) { char t[900]; show(t, sizeof t, q[i]); violation("SHRINK-STEPS", "%s answers %d after shrinking from %u to %u bits at once and %d after doing so in steps", t, b[i], infix, ni, c[i]); }
          two.Destroy(); CNT(C_TWIN);
        }
        infix = ni; points("after shrinking"); Rng r(strtoull(l.a[1].c_str(), 0, 0)); ranges(r, "after shrinking");
        // the size is what a filter with the new infix size needs
      }
      infix = ni;
    }
    else if (o == "noise") {      // another filter lives its own life in between
      CNT(C_NOISE); Host h; noise(strtoull(l.a[0].c_str(), 0, 0));
    }
    else if (o == "v") verify(strtoull(l.a[0].c_str(), 0, 0));
    else if (o == "mark") { marked = true; mark_live = live; batch.clear(); nosplit_mark = nosplit_history; mark_q = queries(strtoull(l.a[0].c_str(), 0, 0), 300); mark_size = f.Size(); mark_ans = answers(f, mark_q); }
    else if (o == "check") after_cycle(strtoull(l.a[0].c_str(), 0, 0));
    note(opno);
  }
  bool nosplit_mark = true;
  // inserts and deletes have cancelled out: nothing of the batch is left
  void after_cycle(uint64_t seed) {
    if (!marked) return; CNT(C_CYCLES);
    for (auto& kv : mark_live) { auto it = live.find(kv.first); if (it == live.end() || it->second != kv.second) { marked = false; return; } }
    if (live.size() != mark_live.size()) { marked = false; return; }   // (minimised plans: not balanced)
    points("after inserting and deleting a batch");
    auto b = answers(f, mark_q); note_answers(b);
    uint32_t sz = f.Size();
    if (nosplit_history) {
      for (size_t i = 0; i < mark_q.size(); i++) if (mark_ans[i] != b[i]) { char t[900]; show(t, sizeof t, mark_q[i]); violation("DELETE-RESIDUE", "%s answers %d before a batch of keys was inserted and deleted again, %d after it", t, mark_ans[i], b[i]); }
      if (sz > mark_size * 1.35 + 3000) violation("DELETE-SPACE", "the filter takes %u bytes after a batch of keys was inserted and deleted again, %u before", sz, mark_size);
    } else if (p.geti("uniform")) {
      int up = 0, n = 0; for (auto& k : batch) if (!live.count(k)) { n++; up += f.P(k, n % 3); }
      double sl, bd = n ? 1.2 * fp_bound(sl, n) : 0; note(up);
      if (getenv("SIM_CALIB") && n > 100) fprintf(stderr, "calib residue infix=%u n=%d rate=%.4f norm=%.3f bound=%.4f\n", infix, n, (double)up / n, (double)up / n * std::pow(2.0, infix - 1), bd + sl);
      if (n > 100 && (double)up / n > bd + sl) violation("DELETE-RESIDUE", "%d of %d keys still answer true after they were deleted (bound for infix size %u: %.4f)", up, n, infix, bd + sl);
    }
    batch.clear();
    marked = false;
  }
  void noise(uint64_t seed);
  void verify(uint64_t seed) {
    Rng r(seed);
    if (is("C01")) points("check");
    else if (is("C02")) ranges(r, "check");
    else if (is("C03")) fpr(seed);
    else if (is("C13")) space();
    else if (is("C04")) points("check");
    else if (is("C05")) { points("check"); ranges(r, "check"); }
    else if (is("C06")) { if (twin.d) compare_images(f.Bytes(0x22), twin.Bytes(0x44), "a restarted filter and the one it was made from, after the same operations"); points("check"); }
    else if (is("C07")) { if (images) images->push_back(f.Bytes((int)(seed & 255))); auto a = answers(f, queries(seed, 40)); if (images) images->push_back(string(a.begin(), a.end())); }
    else if (is("C08")) { points("check"); ranges(r, "check"); }
    else if (is("C12")) { points("check"); ranges(r, "check"); f.Bytes((int)(seed & 255)); }
    simmem::check_canaries();
  }
  void load_equivalence(const vector<string>& ks) {   // C08
    string mode = p.gets("load"); string other = mode == "stream" ? (I || p.geti("keylen") ? "fixed" : "var") : "stream";
    Filter<I> g; g.d = load(other, ks);
    auto q = queries(p.getu("vseed"), 300);
    auto a = answers(f, q), b = answers(g, q); note_answers(a); CNT(C_TWIN);
    for (size_t i = 0; i < q.size(); i++) if (a[i] != b[i]) { char t[900]; show(t, sizeof t, q[i]); violation("LOAD-ANSWER", "%s answers %d after a %s load of %zu keys and %d after a %s load of the same keys", t, a[i], mode.c_str(), ks.size(), b[i], other.c_str()); }
    g.Destroy();
  }
  void run() {
    Rng pr(p.getu("vseed")); probe.init(pr, I, is("C03") || is("C13") ? 1 : pr.below(3) == 0);
    vector<string> ks; bool built = false;
    size_t live0 = simmem::st.live;
    for (auto& l : p.ops) {
      if (l.op == "k") { if (!built) ks.push_back(unhex(l.a[0])); }
      else if (l.op == "build") {
        if (ks.empty()) return;
        context("bulk load of %zu keys", ks.size());
        build(ks); built = true;
        if (!I) { string kl = p.gets("keylen"); if (kl.size()) { probe.minlen = probe.maxlen = atoi(kl.c_str()); } }
        if (is("C08")) load_equivalence(ks);
      } else if (built) op(l);
    }
    if (!built) return;
    context("end of run");
    simmem::check_canaries();
    uint32_t sz = f.Size(); note(sz);
    f.Destroy(); twin.Destroy();
    simmem::check_canaries();
    note(simmem::st.live - live0);
    if (is("C12") && simmem::st.live != live0) violation("LEAK", "%lu blocks (%lu bytes) are still allocated after the filter was destroyed", simmem::st.live - live0, simmem::st.live_bytes);
    g_sh->cnt[C_NT] = g_sh->cnt[C_INS] + g_sh->cnt[C_DEL] + g_sh->cnt[C_RESTART] > 0 || is("C08");
  }
};

template <bool I> void Exec<I>::noise(uint64_t seed) {
  Rng r(seed); KeyGen kg; kg.init(r, I, 0); std::set<string> ks; for (int i = 0; i < 200; i++) ks.insert(kg(r));
  int c = g_coin; g_coin = 0;
  { Sut s; Diva<I> d(4, (uint32_t)seed, 0.95f);
    for (auto& k : ks) if (k > string(8, '\0')) d.BulkLoadStreaming((const uint8_t*)k.data(), k.size());
    d.BulkLoadStreamingFinish();
    for (auto& k : ks) if (k > string(8, '\0') && k[0] != '\xff') { d.Insert((const uint8_t*)k.data(), k.size()); d.PointQuery((const uint8_t*)k.data(), k.size()); } }
  g_coin = c;
}

static void bad(const char* what, void* ptr) { (void)ptr; violation("MEMORY", "%s (a block of the filter); %s", what, g_sh->msg); }
#ifdef SIM_SAN
static void san_fail(const char* cls, const char* m) { Host h; violation(cls, "%s; %s", m, g_sh->msg); }
void child_init() { simmem::init(); simmem::bad_free = bad; simrt::fail = san_fail; simrt::cfg.mem_check = true; }
#else
void child_init() { simmem::init(); simmem::bad_free = bad; }
#endif
bool is_schedule_line(const Line&) { return false; }
Plan with_recorded_schedule(const Plan& p, const Shared&) { return p; }
Plan reseeded(const Plan& p, uint64_t) { return p; }

static void mem_regime(const Plan& p, int variant) {
  simmem::garbage = p.getu("garbage"); simmem::garbage_mode = p.geti("gmode"); simmem::reuse = p.geti("reuse");
  if (variant == 1) { simmem::garbage = 0xff; simmem::garbage_mode = 0; simmem::reuse = 0; }
  if (variant == 2) { simmem::garbage = p.getu("garbage") * 77 + 1; simmem::garbage_mode = 1; simmem::reuse = 1; }
  if (simmem::garbage_mode || simmem::garbage) CNT(C_GARB);
  if (simmem::reuse) CNT(C_REUSE);
  if (p.getu("skip") || variant) { CNT(C_SHIFT); simmem::reset_layout(p.getu("skip") + variant * 1237); }
}
template <bool I> static void execI(const Plan& p) {
  if (p.prop == "C07") {   // the same history in three processes with other memory: same bytes, same answers
    vector<string> ref;
    for (int v = 0; v < 3; v++) {
      mem_regime(p, v);
      vector<string> im; Plan q = p;
      if (v != 2) { q.ops.clear(); for (auto& l : p.ops) if (l.op != "noise") q.ops.push_back(l); }
      Exec<I> e(q); e.images = &im; e.run();
      if (v == 0) { ref = im; for (auto& s : im) note_bytes(s.data(), s.size()); }
      else for (size_t i = 0; i < std::min(im.size(), ref.size()); i++) { CNT(C_TWIN); if (im[i] != ref[i]) { size_t j = 0; while (j < im[i].size() && j < ref[i].size() && im[i][j] == ref[i][j]) j++; violation("NOT-DETERMINISTIC", "the same history gives another %s at checkpoint %zu when %s (first difference at byte %zu of %zu)", i % 2 ? "set of answers" : "image", i / 2, v == 1 ? "fresh memory has other contents" : "memory is reused and another filter is in use", j, ref[i].size()); } }
    }
    return;
  }
  mem_regime(p, 0);
  Exec<I> e(p); e.run();
}
void exec(const Plan& p) { if (p.geti("int")) execI<true>(p); else execI<false>(p); }
}
int main(int c, char** v) { return sim::sim_main(c, v); }
