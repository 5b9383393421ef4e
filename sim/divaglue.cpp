#include <random>
#include <array>
#include <cstring>
#include "divaglue.hpp"
namespace std {
struct sim_mt { std::mt19937 r; typedef uint32_t result_type; static constexpr uint32_t min() { return 0; } static constexpr uint32_t max() { return 0xffffffffu; }
  sim_mt() {} explicit sim_mt(uint32_t s) : r(s) {}
  void seed(uint32_t s) { r.seed(s); } uint32_t operator()() { uint32_t v = r(); int c = dg_coin_now(); return c == 1 ? 0 : c == 2 ? 1 : v; } };
}
#define mt19937 sim_mt
#include "diva.hpp"
#undef mt19937
struct DG { bool isint; void* d; };
template <bool I> static Diva<I>* D(void* f) { return (Diva<I>*)((DG*)f)->d; }
static uint64_t U(const std::string& s) { uint64_t b = 0; memcpy(&b, s.data(), 8); return __builtin_bswap64(b); }
template <bool I> static void* build(uint32_t infix, uint32_t seed, int load, const std::vector<std::string>& keys) {
  if (load) { auto* d = new Diva<I>(infix, seed, 0.95f); for (auto& k : keys) d->BulkLoadStreaming((const uint8_t*)k.data(), k.size()); d->BulkLoadStreamingFinish(); return d; }
  if constexpr (I) { std::vector<uint64_t> v; for (auto& k : keys) v.push_back(U(k)); return new Diva<I>(infix, v.begin(), v.end(), (uint32_t)8, seed, 0.95f); }
  else { std::vector<std::string> v = keys; return new Diva<I>(infix, v.begin(), v.end(), seed, 0.95f); }
}
void* dg_build(bool i, uint32_t infix, uint32_t seed, int load, const std::vector<std::string>& keys) { DG* g = new DG; g->isint = i; g->d = i ? build<true>(infix, seed, load, keys) : build<false>(infix, seed, load, keys); return g; }
void* dg_load(bool i, char* image) { DG* g = new DG; g->isint = i; if (i) g->d = new Diva<true>(image); else g->d = new Diva<false>(image); return g; }
void dg_destroy(void* f) { if (((DG*)f)->isint) delete D<true>(f); else delete D<false>(f); delete (DG*)f; }
template <bool I> static bool point(void* f, const std::string& k, int ov) { if (I && ov == 1) return D<I>(f)->PointQuery(U(k)); if (ov == 2) return D<I>(f)->PointQuery(std::string_view(k)); return D<I>(f)->PointQuery((const uint8_t*)k.data(), k.size()); }
template <bool I> static bool range(void* f, const std::string& a, const std::string& b, int ov) { if (I && ov == 1) return D<I>(f)->RangeQuery(U(a), U(b)); if (ov == 2) return D<I>(f)->RangeQuery(std::string_view(a), std::string_view(b)); return D<I>(f)->RangeQuery((const uint8_t*)a.data(), a.size(), (const uint8_t*)b.data(), b.size()); }
template <bool I> static void ins(void* f, const std::string& k, int ov) { if (I && ov == 1) D<I>(f)->Insert(U(k)); else if (ov == 2) D<I>(f)->Insert(std::string_view(k)); else D<I>(f)->Insert((const uint8_t*)k.data(), k.size()); }
template <bool I> static void del(void* f, const std::string& k, int ov) { if (I && ov == 1) D<I>(f)->Delete(U(k)); else if (ov == 2) D<I>(f)->Delete(std::string_view(k)); else D<I>(f)->Delete((const uint8_t*)k.data(), k.size()); }
bool dg_point(void* f, const std::string& k, int ov) { return ((DG*)f)->isint ? point<true>(f, k, ov) : point<false>(f, k, ov); }
bool dg_range(void* f, const std::string& a, const std::string& b, int ov) { return ((DG*)f)->isint ? range<true>(f, a, b, ov) : range<false>(f, a, b, ov); }
void dg_insert(void* f, const std::string& k, int ov) { if (((DG*)f)->isint) ins<true>(f, k, ov); else ins<false>(f, k, ov); }
void dg_delete(void* f, const std::string& k, int ov) { if (((DG*)f)->isint) del<true>(f, k, ov); else del<false>(f, k, ov); }
uint32_t dg_size(void* f) { return ((DG*)f)->isint ? D<true>(f)->Size() : D<false>(f)->Size(); }
uint32_t dg_serialize(void* f, char* out) { return ((DG*)f)->isint ? D<true>(f)->Serialize(out) : D<false>(f)->Serialize(out); }
