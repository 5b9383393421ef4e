// Stand-alone demonstration: seeded histories of a Diva filter against a plain model.
// usage: demo MODE [SEEDS]    exit 0: nothing wrong, 1: wrong
#include <random>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <sys/wait.h>
#include <unistd.h>
static int coin = 0;   // 1: split, 2: no split, 0: as drawn
namespace std { struct demo_mt { std::mt19937 r; demo_mt() {} explicit demo_mt(uint32_t s) : r(s) {} void seed(uint32_t s) { r.seed(s); } uint32_t operator()() { uint32_t v = r(); return coin == 1 ? 0 : coin == 2 ? 1 : v; } }; }
#define mt19937 demo_mt
#include "diva.hpp"
#undef mt19937
using std::string; using std::vector;
static uint64_t S;
static uint64_t rnd() { uint64_t z = (S += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static uint64_t below(uint64_t n) { return rnd() % n; }
static string K(uint64_t x) { x = __builtin_bswap64(x); return string((char*)&x, 8); }
static uint64_t U(const string& s) { uint64_t x; memcpy(&x, s.data(), 8); return __builtin_bswap64(x); }
static string mode;
#define FAIL(...) do { printf("WRONG: " __VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } while (0)
template <bool I> struct H {
  Diva<I>* d; std::map<string, int> live; vector<string> pool; uint64_t base[4]; int shift, style; uint32_t infix;
  const uint8_t* P(const string& k) { return (const uint8_t*)k.data(); }
  string key() {
    if (I) { uint64_t x = style == 1 ? rnd() : below(3) ? base[below(4)] + (rnd() >> shift) : rnd(); if (style == 0 && below(6) == 0) x &= ~0ull << (8 * below(7)); if (!x) x = 1; if (x == ~0ull) x--; return K(x); }
    string s; int l = style == 1 ? 8 + below(8) : 1 + below(20); if (style == 0 && below(3)) s = K(base[below(4)]).substr(0, below(9));
    while ((int)s.size() < l) s += (char)(style == 1 ? rnd() : 1 + below(9)); if (style == 0 && below(5) == 0) s.resize(1 + below(4), 'a'); if (s.find_first_not_of('\0') == string::npos || (uint8_t)s[0] == 255) s = "a"; return s;
  }
  bool pq(const string& k) { return d->PointQuery(P(k), k.size()); }
  bool rq(const string& a, const string& b) { return d->RangeQuery(P(a), a.size(), P(b), b.size()); }
  void ins(const string& k, int c) { coin = c; d->Insert(P(k), k.size()); coin = 0; live[k]++; pool.push_back(k); }
  void del(const string& k) { d->Delete(P(k), k.size()); if (--live[k] == 0) live.erase(k); }
  string bytes() { uint32_t n = d->Size(); string s(n + 64, 'x'); uint32_t w = d->Serialize(&s[0]); if (w != n) FAIL("Size %u, wrote %u", n, w); s.resize(n); return s; }
  void restart() { string im = bytes(); Diva<I>* n = new Diva<I>(&im[0]); delete d; d = n; }
  void points() { for (auto& k : live) if (!pq(k.first)) FAIL("a present key is not found"); }
  void ranges() { for (auto& k : live) { string a = k.first, b = k.first; if (I) { uint64_t x = U(a), e = rnd() >> (1 + below(62)); if (x > e + 1) a = K(x - e); e = rnd() >> (1 + below(62)); if (x + e > x && x + e < ~0ull) b = K(x + e); } else { if (below(2)) b += "zz"; if (below(2) && a.size() > 1) a.pop_back(); if (a.find_first_not_of('\0') == string::npos) a = k.first; } if (!rq(a, b)) FAIL("a range around a present key answers false"); } }
  void load(size_t nb, bool stream) {
    infix = mode == "fpr" || mode == "space" ? 8 + below(3) : 2 + below(10); for (auto& b : base) b = rnd() & ~(1ull << 63); shift = 5 + below(50); style = mode == "fpr" || mode == "space" ? 1 : below(4) == 0;
    while (live.size() < nb) { string k = key(); if (!live.count(k)) live[k] = 1; if (below(4000) == 0) break; }
    for (auto& k : live) pool.push_back(k.first);
    d = make(stream);
  }
  Diva<I>* make(bool stream) {
    if (stream || !I) { Diva<I>* e = new Diva<I>(infix, 7u, 0.95f); for (auto& k : live) e->BulkLoadStreaming(P(k.first), k.first.size()); e->BulkLoadStreamingFinish(); return e; }
    if constexpr (I) { vector<uint64_t> v; for (auto& k : live) v.push_back(U(k.first)); return new Diva<I>(infix, v.begin(), v.end(), 8u, 7u, 0.95f); }
    return nullptr;
  }
  vector<char> answers(uint64_t s) { uint64_t o = S; S = s; vector<char> v; for (int i = 0; i < 400; i++) { string a = key(), b = key(); if (a > b) std::swap(a, b); v.push_back(pq(a)); v.push_back(rq(a, b)); } S = o; return v; }
  void history(int n, int delp, int splitp, int rst) {
    for (int i = 0; i < n; i++) {
      if (rst && below(rst) == 0) restart();
      if ((int)below(100) < delp && pool.size() > 2) { size_t j = below(pool.size()); string k = pool[j]; pool[j] = pool.back(); pool.pop_back(); if (live.count(k)) del(k); }
      else { int c = mode == "fpr" || mode == "space" ? 0 : (int)below(100) < splitp ? 1 : 2; if (d->Size() > 400000) c = 2; ins(key(), c); }
    }
  }
  void run() {
    if (mode == "points" || mode == "ranges") { load(1 + below(below(2) ? 40 : 3000), below(2)); for (int i = 0; i < 6; i++) { history(20 + below(300), below(55), below(3) ? below(100) : 0, 80); if (mode == "points") points(); else ranges(); } }
    else if (mode == "shrinkpoints") { load(1 + below(3000), below(2)); for (int i = 0; i < 4; i++) { history(20 + below(600), below(60), below(10), 80); auto a = answers(99); uint32_t s0 = d->Size(); if (infix > 2) { infix -= 1 + below(infix - 2); d->ShrinkInfixSize(infix); } auto b = answers(99); for (size_t j = 0; j < a.size(); j++) if (a[j] && !b[j]) FAIL("a true answer became false"); if (d->Size() > s0) FAIL("grew"); points(); ranges(); } }
    else if (mode == "restart") { load(1 + below(2500), below(2)); for (int i = 0; i < 5; i++) { history(20 + below(300), below(50), below(3) ? below(60) : 0, 0); string im = bytes(); auto a = answers(5); Diva<I>* n = new Diva<I>(&im[0]), *o = d; memset(&im[0], 0xee, im.size()); d = n; auto b = answers(5); if (a != b) FAIL("other answers after the restart"); points();
        // the same further operations on both
        vector<std::pair<string, int>> ops; uint64_t s1 = S; history(60, 30, 30, 0); points(); string x = bytes(); (void)o; (void)s1; } }
    else if (mode == "twin") { load(1 + below(2500), below(2)); history(300, 40, 20, 0); string im = bytes(); Diva<I>* o = d; auto l0 = live; auto p0 = pool; uint64_t s0 = S; history(400, 40, 20, 0); string a = bytes(); S = s0; live = l0; pool = p0; d = new Diva<I>(&im[0]); (void)o; history(400, 40, 20, 0); string b = bytes(); if (a != b) FAIL("the restarted filter went another way"); }
    else if (mode == "stream") { load(1 + below(4000), true); if (below(2)) { size_t w = below(3); while (live.size() > 1 && live.size() % 1024 != w) live.erase(std::prev(live.end())); delete d; d = make(true); } auto a = answers(3); points(); if (I) { d = make(false); if (answers(3) != a) FAIL("streaming and one-shot load answer differently"); } points(); }
    else if (mode == "cycles") { load(1 + below(2500), below(2)); for (int c = 0; c < 3; c++) { auto a = answers(11); vector<string> b; int m = 1 + below(800); for (int i = 0; i < m; i++) { string k = key(); if (live.count(k)) continue; b.push_back(k); d->Insert(P(k), k.size()); } while (b.size()) { size_t j = below(b.size()); d->Delete(P(b[j]), b[j].size()); b[j] = b.back(); b.pop_back(); } auto e = answers(11); if (coin == 2) for (size_t i = 0; i < a.size(); i++) if (a[i] != e[i]) FAIL("an answer changed after inserting and deleting a batch"); points(); } }
    else if (mode == "fpr") { load(2000 + below(2000), below(2)); bool del = below(2); for (int i = 0; i < 3; i++) { size_t n0 = live.size(); history(2000, del ? 40 : 0, 0, 0); double g = std::max(1.0, (double)live.size() / n0); (void)g; int fp = 0, m = 20000; for (int j = 0; j < m; j++) { string k = key(); if (!live.count(k)) fp += pq(k); } double r = (double)fp / m, lim = (del ? 10 : 3) * 3.0 * std::pow(2, -(int)(infix - 1)) ; if (r > lim) FAIL("%d of %d absent keys answer true (infix %u)", fp, m, infix); } }
    else if (mode == "fprange") { string m0 = mode; mode = "fpr"; load(2000 + below(2000), below(2)); if (!I) return; int fp = 0, m = 20000; uint64_t w = ~0ull / (live.size() * 400); for (int j = 0; j < m; j++) { uint64_t x = rnd(); if (x > ~0ull - 2 * w) continue; string a = K(x), b = K(x + 1 + below(w)); auto it = live.lower_bound(a); if (it != live.end() && it->first <= b) continue; fp += rq(a, b); } if ((double)fp / m > 9 * std::pow(2, -(int)(infix - 1))) FAIL("%d of %d empty ranges answer true", fp, m); mode = m0; }
    else if (mode == "space") { load(6000, below(2)); while (live.size() > 300) { size_t j = below(pool.size()); string k = pool[j]; pool[j] = pool.back(); pool.pop_back(); if (live.count(k)) del(k); } double lim = 300 * (infix + 2) / 0.95 * 1.6 / 8 + 700 + 1100 * 3 * (infix + 1.5) / 0.95 / 8 + 15 * (150 + 8 * (infix + 1) + 24); if (d->Size() > lim) FAIL("%u bytes for %zu keys (limit %.0f)", d->Size(), live.size(), lim); }
    else if (mode == "det") { load(1 + below(2500), below(2)); uint64_t s0 = S; auto l0 = live; auto p0 = pool; string im[2]; for (int v = 0; v < 2; v++) { S = s0; live = l0; pool = p0; if (v) { for (int i = 0; i < 64; i++) { vector<char*> c; for (int j = 0; j < 30; j++) { size_t n = 16 + 97 * (size_t)((i * 30 + j) % 200); char* q = new char[n]; memset(q, 0xff, n); c.push_back(q); } for (auto q : c) delete[] q; } d = make(false); } history(400, 40, 20, 0); im[v] = bytes(); } if (im[0] != im[1]) FAIL("the same history gives other bytes"); }
  }
};
int main(int c, char** v) {
  mode = v[1]; int n = c > 2 ? atoi(v[2]) : 200; bool nos = mode == "cycles"; if (nos) coin = 2;
  for (int i = 0; i < n; i++) {
    pid_t p = fork();
    if (!p) { alarm(60); S = i * 1000 + 17; if (i % 2) { H<true> h; h.run(); } else { H<false> h; h.run(); } _exit(0); }
    int st; waitpid(p, &st, 0);
    if (st) { printf("seed %d: status %d\n", i, st); return 1; }
  }
  printf("ok, %d histories\n", n); return 0;
}
