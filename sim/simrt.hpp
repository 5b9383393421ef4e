// Simulated threads.  The code under test is compiled with the compiler's memory-access
// instrumentation (-fsanitize=thread) but linked against this runtime instead of libtsan: every
// access to the simulated memory and every atomic operation is a point where the seeded scheduler
// may switch to another simulated thread, and is checked against the shadow of the memory.
#pragma once
#include "simmem.hpp"
#include <functional>
#include <string>
#include <vector>
extern "C" { extern uint32_t diva_sim_hmap_buckets; extern uint64_t diva_sim_slab_bytes; }     // hooks: initial sizes of the trees
namespace simrt {
enum Kind { RANDOM = 0, PCT = 1, ATOMICS = 2 };
struct Config {
  int kind = RANDOM; uint32_t mean = 50; uint64_t seed = 1; uint32_t pct_depth = 3; uint64_t pct_len = 20000;
  uint32_t cap = 3000;              // fairness: at most this many steps without a switch
  uint64_t budget = 40000000;       // steps in which everything must finish
  bool is_explicit = false;
  uint32_t spur = 0;                // one in `spur` weak compare-and-swap operations fails without cause (0: none)
  uint64_t fault_seed = 1;
  bool mem_check = true;
};
struct Stall { int fiber; uint64_t at, len; };
// stall a thread before its at-th change of the atomic variable it works on; with `spin`, count only from the spin-th time it has stopped spinning on one
struct Hold { int fiber; uint64_t spin, at, len; };
struct Stats { uint64_t switches, forced, blocked, spurious, stalls, holds, cas, atomics, slept, fin_switch, contended; };
extern Stats st;
extern uint64_t steps, evt;
extern Config cfg;
extern std::vector<std::pair<uint32_t, int>> script;      // explicit schedule: (after steps, fiber)
extern std::vector<Stall> stalls;
extern std::vector<Hold> holds;
extern std::function<bool(size_t)> alloc_fail;            // decided per simulated thread by the harness
extern bool sched_on;
extern size_t stack_bytes;           // of fibers spawned from now on
int spawn(std::function<void()> f);
void run_all();                     // runs every spawned fiber to its end
int self();                         // -1 outside fibers
void yield();                       // an explicit decision point of the harness
void block();                       // nothing to do now: let another fiber run
bool others_running();
void reset();
// every violation the runtime itself finds goes here
extern void (*fail)(const char* cls, const char* msg);
extern void (*on_switch)(uint32_t after, int fiber);
extern uint64_t slab_objects_live();
// the threads the code under test creates: each is one more fiber with a name and a set of processors of its own
constexpr int NCPU = 6;             // the machine has this many processors
struct Sys { uint64_t created, create_failed, joined, aff_failed, attr_live, clock_jumps; };
extern Sys sys;
extern std::function<bool(int)> sys_fail;     // 0: pthread_create, 1: sched_getaffinity, 2: sched_setaffinity, 3: pthread_attr_setaffinity_np
extern bool fiber_tls;              // every fiber has its own thread-local variables
extern int stack_fill;              // what the stacks of new fibers contain
uint64_t affinity(); void set_affinity(uint64_t m); std::string name(); void set_name(const std::string& n);
uint64_t now_ns();                  // the simulated clock
}
