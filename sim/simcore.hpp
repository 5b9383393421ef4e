// Common frame of the simulators: plans, one-run-per-forked-process execution, batches of
// seeds, minimisation.  A run is a pure function of its plan (text) and the code under test;
// a plan is a pure function of (property, tier, seed).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <csignal>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <iostream>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>

namespace sim {

// ---------------------------------------------------------------- PRNG (splitmix/xorshift)
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) { s = seed; }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t operator()() { return next(); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); } // inclusive
  bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x2545F4914F6CDD1Dull ^ (b + 0x9E3779B97F4A7C15ull)); r.next(); return r.next(); }

// ---------------------------------------------------------------- plans
// A line of a plan: a word and its arguments.  Minimisation removes lines whose word is not "cfg".
struct Line { std::string op; std::vector<std::string> a; };
struct Plan {
  std::string prop;
  std::map<std::string, std::string> cfg;
  std::vector<Line> ops;
  int64_t geti(const std::string& k, int64_t d = 0) const { auto it = cfg.find(k); return it == cfg.end() ? d : strtoll(it->second.c_str(), nullptr, 0); }
  uint64_t getu(const std::string& k, uint64_t d = 0) const { auto it = cfg.find(k); return it == cfg.end() ? d : strtoull(it->second.c_str(), nullptr, 0); }
  std::string gets(const std::string& k, const std::string& d = "") const { auto it = cfg.find(k); return it == cfg.end() ? d : it->second; }
  double getf(const std::string& k, double d = 0) const { auto it = cfg.find(k); return it == cfg.end() ? d : strtod(it->second.c_str(), nullptr); }
  void set(const std::string& k, int64_t v) { cfg[k] = std::to_string(v); }
  void set(const std::string& k, const std::string& v) { cfg[k] = v; }
  void add(const std::string& op, std::vector<std::string> a = {}) { ops.push_back({op, std::move(a)}); }
  std::string text() const {
    std::string s = "prop " + prop + "\n";
    for (auto& c : cfg) s += "cfg " + c.first + " " + c.second + "\n";
    for (auto& l : ops) { s += l.op; for (auto& x : l.a) { s += ' '; s += x; } s += '\n'; }
    return s;
  }
  static Plan parse(const std::string& t) {
    Plan p; std::istringstream in(t); std::string line;
    while (std::getline(in, line)) {
      if (line.empty() || line[0] == '#') continue;
      std::istringstream ls(line); std::string w; ls >> w;
      if (w == "prop") ls >> p.prop;
      else if (w == "cfg") { std::string k, v; ls >> k >> v; p.cfg[k] = v; }
      else { Line l; l.op = w; std::string x; while (ls >> x) l.a.push_back(x); p.ops.push_back(l); }
    }
    return p;
  }
};
inline std::string hex(const std::string& s) {
  static const char* d = "0123456789abcdef"; std::string o;
  for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
  return o.empty() ? "-" : o;
}
inline std::string unhex(const std::string& h) {
  if (h == "-") return "";
  auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
  std::string o; for (size_t i = 0; i + 1 < h.size(); i += 2) o += (char)(v(h[i]) * 16 + v(h[i + 1])); return o;
}

// ---------------------------------------------------------------- result of a run (shared memory)
enum { NCNT = 48 };
struct Shared {
  volatile int status;             // 0 running, 1 finished, 2 violation
  uint64_t hash;
  uint64_t cnt[NCNT];
  uint64_t steps;                  // simulated steps (whsim) or operations (divasim)
  char cls[64];
  char msg[1600];
  uint32_t nswitch;                // recorded schedule (whsim)
  bool sched_overflow;
  struct Sw { uint32_t after; uint16_t fiber; uint16_t pad; } sw[200000];
};
extern Shared* g_sh;
extern const char* g_cnt_names[NCNT];

inline void note(uint64_t x) { g_sh->hash = (g_sh->hash ^ x) * 0x100000001B3ull; g_sh->hash ^= g_sh->hash >> 29; }
inline void note_bytes(const void* p, size_t n) { const uint8_t* b = (const uint8_t*)p; uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001B3ull; note(h); }

[[noreturn]] inline void violation(const char* cls, const char* fmt, ...) {
  va_list ap; va_start(ap, fmt);
  vsnprintf(g_sh->msg, sizeof g_sh->msg, fmt, ap); va_end(ap);
  snprintf(g_sh->cls, sizeof g_sh->cls, "%s", cls);
  g_sh->status = 2;
  _exit(3);
}

// supplied by the simulator
void gen(const std::string& prop, const std::string& tier, uint64_t seed, Plan& out);
void exec(const Plan& p);          // runs in the child
void child_init();                 // set-up in the child before exec
bool is_schedule_line(const Line& l);   // minimised separately
Plan with_recorded_schedule(const Plan& p, const Shared& s);   // make the schedule of a run explicit
Plan reseeded(const Plan& p, uint64_t k);   // other schedule for the same plan (k = 0: the same)

struct Res { int status = 0; uint64_t hash = 0; std::string cls, msg; uint64_t steps = 0; };

inline Res run_plan(const Plan& p, double cpu_limit_s) {
  memset((void*)g_sh, 0, offsetof(Shared, sw));
  g_sh->hash = 1469598103934665603ull;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(7); }
  if (pid == 0) {
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP, SIGALRM, SIGPROF, SIGVTALRM}) signal(s, SIG_DFL);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    struct itimerval it; memset(&it, 0, sizeof it);
    it.it_value.tv_sec = (long)cpu_limit_s; it.it_value.tv_usec = (long)((cpu_limit_s - (long)cpu_limit_s) * 1e6);
    setitimer(ITIMER_PROF, &it, nullptr);
    child_init();
    exec(p);
    g_sh->status = 1;
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) {}
  Res r;
  r.hash = g_sh->hash; r.steps = g_sh->steps;
  if (g_sh->status == 2) { r.status = 2; r.cls = g_sh->cls; r.msg = g_sh->msg; }
  else if (WIFSIGNALED(st)) {
    int sg = WTERMSIG(st);
    if (sg == SIGKILL || sg == SIGTERM || sg == SIGINT) { r.status = 9; r.msg = "killed"; }
    else {
      r.status = 2;
      r.cls = sg == SIGPROF ? "HANG" : std::string("CRASH-") + (sg == SIGSEGV ? "SEGV" : sg == SIGABRT ? "ABRT" : sg == SIGBUS ? "BUS" : sg == SIGFPE ? "FPE" : sg == SIGILL ? "ILL" : std::to_string(sg));
      r.msg = sg == SIGPROF ? "an operation did not return (CPU limit)" : "the process died on signal " + std::to_string(sg);
      if (g_sh->msg[0]) { r.msg += "; "; r.msg += (const char*)g_sh->msg; }   // context left by the executor
    }
  }
  else if (g_sh->status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) r.status = 1;
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { r.status = 9; r.msg = "harness error"; }
  else { r.status = 2; r.cls = "EXIT"; r.msg = "the process ended by itself, status " + std::to_string(WEXITSTATUS(st)) + "; " + (const char*)g_sh->msg; }
  return r;
}
// what the run is doing right now, shown if it dies
inline void context(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(g_sh->msg, sizeof g_sh->msg, fmt, ap); va_end(ap); }

inline double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
inline void spit(const std::string& f, const std::string& t) { std::ofstream o(f, std::ios::binary); o << t; }

inline std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }

// ---------------------------------------------------------------- minimisation (ddmin over lines)
inline Plan minimise(Plan p, const std::string& cls, double budget_s, double cpu, uint64_t& tries) {
  const double t0 = now_s();
  tries = 0;
  Plan last_ok = p;
  auto fails = [&](const Plan& q, Plan* out) -> bool {
    const int K = q.geti("explicit") ? 1 : 6;   // with a seeded schedule, try some other seeds
    for (int k = 0; k < K; k++) {
      if (now_s() - t0 > budget_s) return false;
      Plan r = reseeded(q, k); tries++;
      Res x = run_plan(r, cpu);
      if (x.status == 2 && x.cls == cls) { if (out) *out = r; return true; }
      if (!q.cfg.count("sched_seed")) break;
    }
    return false;
  };
  auto ddmin = [&](bool schedule) {
    size_t chunk = std::max<size_t>(1, p.ops.size() / 2);
    while (true) {
      bool any = false;
      for (size_t i = 0; i < p.ops.size();) {
        if (now_s() - t0 > budget_s) return;
        Plan q = p; q.ops.clear();
        size_t removed = 0, j = 0;
        for (auto& l : p.ops) {
          if (j >= i && j < i + chunk && is_schedule_line(l) == schedule) removed++; else q.ops.push_back(l);
          j++;
        }
        Plan got;
        if (removed && fails(q, &got)) { p = got; any = true; } else i += chunk;
      }
      if (chunk == 1 && !any) return;
      if (!any || chunk > p.ops.size()) chunk = std::max<size_t>(1, chunk / 2);
    }
  };
  ddmin(false);
  // make the schedule explicit, then drop context switches
  if (p.cfg.count("sched_seed") && !p.geti("explicit")) {
    Res x = run_plan(p, cpu);
    if (x.status == 2 && !g_sh->sched_overflow) {
      Plan q = with_recorded_schedule(p, *g_sh);
      Res y = run_plan(q, cpu);
      if (y.status == 2 && y.cls == cls) { p = q; ddmin(true); ddmin(false); }
    }
  }
  return p;
}

inline int sim_main(int argc, char** argv) {
  g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::string cmd = argc > 1 ? argv[1] : "";
  double cpu = getenv("SIM_CPU") ? atof(getenv("SIM_CPU")) : 20;
  if (cmd == "gen") { Plan p; gen(argv[2], argv[3], strtoull(argv[4], nullptr, 0), p); fputs(p.text().c_str(), stdout); return 0; }
  if (cmd == "run") {   // run PLAN: exit 0 held, 1 violated
    Plan p = Plan::parse(slurp(argv[2]));
    Res r = run_plan(p, cpu);
    printf("RESULT status=%d class=%s hash=%016lx steps=%lu msg=%s\n", r.status, r.cls.c_str(), r.hash, r.steps, r.msg.c_str());
    if (argc > 3) for (int i = 0; i < NCNT; i++) if (g_cnt_names[i] && g_sh->cnt[i]) printf("  %s=%lu\n", g_cnt_names[i], g_sh->cnt[i]);
    return r.status == 1 ? 0 : r.status == 2 ? 1 : 7;
  }
  if (cmd == "hash") {  // hash PROP TIER SEED N STRIDE: event-log hash of every run, for the determinism proof
    uint64_t s = strtoull(argv[4], nullptr, 0), n = strtoull(argv[5], nullptr, 0), st = strtoull(argv[6], nullptr, 0);
    for (uint64_t i = 0; i < n; i++) { Plan p; gen(argv[2], argv[3], s + i * st, p); Res r = run_plan(p, cpu); printf("%lu %d %s %016lx %lu\n", s + i * st, r.status, r.cls.c_str(), r.hash, r.steps); }
    return 0;
  }
  if (cmd == "batch") {  // batch PROP TIER SEED0 N STRIDE TIMECAP: JSON on stdout; stops at the first violation
    std::string prop = argv[2], tier = argv[3];
    uint64_t s0 = strtoull(argv[4], nullptr, 0), n = strtoull(argv[5], nullptr, 0), stride = strtoull(argv[6], nullptr, 0);
    double cap = atof(argv[7]), t0 = now_s();
    uint64_t tot[NCNT] = {0}, steps = 0, runs = 0; std::unordered_set<uint64_t> distinct; uint64_t ranks = 0;
    uint64_t nontriv = 0;
    std::string viol;
    for (uint64_t i = 0; i < n; i++) {
      if (now_s() - t0 > cap) break;
      uint64_t seed = s0 + i * stride;
      Plan p; gen(prop, tier, seed, p);
      Res r = run_plan(p, cpu);
      if (r.status == 9) { fprintf(stderr, "run of seed %lu: %s\n", seed, r.msg.c_str()); return 7; }
      runs++; steps += r.steps;
      bool nt = g_sh->cnt[0] > 0;      // counter 0: the run exercised what the property is about
      for (int k = 0; k < NCNT; k++) tot[k] += g_sh->cnt[k];
      if (distinct.insert(r.hash).second && nt) nontriv++;
      (void)ranks;
      if (r.status == 2) {
        viol = "{\"seed\":" + std::to_string(seed) + ",\"class\":\"" + jesc(r.cls) + "\",\"msg\":\"" + jesc(r.msg) + "\",\"hash\":\"" + std::to_string(r.hash) + "\"}";
        break;
      }
    }
    printf("{\"runs\":%lu,\"steps\":%lu,\"distinct\":%zu,\"nontrivial\":%lu,\"wall\":%.2f,\"counters\":{", runs, steps, distinct.size(), nontriv, now_s() - t0);
    bool first = true;
    for (int k = 0; k < NCNT; k++) if (g_cnt_names[k]) { printf("%s\"%s\":%lu", first ? "" : ",", g_cnt_names[k], tot[k]); first = false; }
    printf("},\"violation\":%s}\n", viol.empty() ? "null" : viol.c_str());
    return 0;
  }
  if (cmd == "min") {   // min PLAN OUT BUDGET
    Plan p = Plan::parse(slurp(argv[2]));
    Res r = run_plan(p, cpu);
    if (r.status != 2) { printf("no violation\n"); return 7; }
    double c2 = r.cls == "HANG" ? std::min(cpu, 3.0) : cpu;
    uint64_t tries = 0; Plan q = minimise(p, r.cls, atof(argv[4]), c2, tries);
    Res r2 = run_plan(q, cpu);
    if (r2.status != 2 || r2.cls != r.cls) { q = p; r2 = run_plan(p, cpu); }
    spit(argv[3], "# " + r2.cls + ": " + r2.msg + "\n" + q.text());
    printf("minimised %zu -> %zu lines in %lu runs; class=%s hash=%016lx msg=%s\n", p.ops.size(), q.ops.size(), tries, r2.cls.c_str(), r2.hash, r2.msg.c_str());
    return 0;
  }
  fprintf(stderr, "usage: gen|run|hash|batch|min\n");
  return 7;
}
} // namespace sim
