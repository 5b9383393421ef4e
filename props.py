# What each property's check runs.  quick / thorough: (runs, wall-clock cap in seconds) per stage.
DIVA_REAL = ["include/diva.hpp", "include/util.hpp", "include/wormhole/{wh,wh_int,kv,lib}.c (all code of the filter and its trees)"]
DIVA_STUB = ["std::mt19937 behind Diva's split coin (the simulator can force either outcome)", "heap and mmap (arena at a fixed address)", "storage for images (guarded buffers)"]
DIVA_ASSUME = [
    "keys lie strictly between the filter's two outermost boundary keys, as the constructors require; only keys present are deleted",
    "keys that differ only in trailing zero bytes are one key (the filter pads keys with zero bytes)",
    "sampled, not exhaustive: the history space is searched by seed",
]
DIVA_RULE = "a case is a seeded history: bulk load (constructor, fixed-length or streaming), then inserts with forced or free split coin, deletes, restarts from a serialized image, crashes back to an older image, infix shrinking, under garbage-filled / reused / shifted memory; swarm-sampled sizes, key distributions and rates; non-trivial if it went past the load; distinct by event-log hash"
def diva(q=(7000, 60), t=(60000, 700), rule=DIVA_RULE, extra=None):
    return {"stages": [{"sim": "divasim", "quick": q, "thorough": t}] + (extra or []), "rule": rule, "real": DIVA_REAL, "stub": DIVA_STUB, "assumptions": DIVA_ASSUME}
WH_REAL = ["include/wormhole/{wh,wh_int,kv,lib}.c (maps, leaf and meta locks, QSBR, slab allocator, iterators), every access to shared memory and every atomic operation instrumented"]
WH_STUB = ["threads (fibers under the seeded scheduler)", "pthread mutexes and spinlocks, sleep, sched_yield, time (simulated)", "heap and mmap (arena at a fixed address with shadow memory)", "initial sizes of hash table and slabs (DIVA_SIM hook: smaller, so that growth is reached)"]
WH_ASSUME = [
    "sequentially consistent memory: accesses take effect in the order the instrumented code performs them (no store buffering, no compiler reordering beyond gcc -O1)",
    "threads use their own references, and park, leave or report quiescent states while idle, as wh.h asks",
    "reverse iteration is exercised without concurrent writers only (wh.h: deadlock otherwise); sampled by seed, not exhaustive",
]
WH_RULE = "a case is a seeded plan: map (string or integer), calling convention, preload around leaf boundaries, per-thread operations, scheduler (random walk of given mean, PCT, switches at atomics), stalls, spurious CAS failures, allocation failures where the property speaks of them, memory contents and reuse; non-trivial if threads really interleaved over several operations; distinct by event-log hash including every context switch"
def wh(q=(1000000, 45), t=(20000000, 600), rule=WH_RULE, extra=None, real=WH_REAL, stub=WH_STUB, assume=WH_ASSUME):
    return {"stages": [{"sim": "whsim", "quick": q, "thorough": t}] + (extra or []), "rule": rule, "real": real, "stub": stub, "assumptions": assume,
            "step": "one access to shared memory or atomic operation of any thread", "measure": "different hashes of the run's event log (every context switch with its step, every operation's result)"}
PROPS = {
    "C01": diva(), "C02": diva(), "C03": diva(), "C04": diva(), "C05": diva(), "C06": diva(), "C07": diva(), "C08": diva(), "C13": diva(),
    "C09": wh(q=(100000, 45), rule="a case is a seeded plan: a filter (loaded, then changed by a history) queried by several threads at once, or several threads each with a filter of its own; scheduler, stalls and memory as for the maps; distinct by event-log hash including every context switch",
              real=DIVA_REAL + ["every access to shared memory instrumented"], assume=WH_ASSUME[:1] + DIVA_ASSUME[:2] + ["threads only query a filter they share"]),
    "C10": wh(), "C11": wh(), "C14": wh(), "C15": wh(), "C16": wh(),
    "C12": {**wh(extra=[{"sim": "divasan", "quick": (100000, 30), "thorough": (1000000, 200)}]), "assumptions": WH_ASSUME + DIVA_ASSUME[:2] + ["heap accesses are checked, stack and static memory are not"]},
    "C17": wh(rule="a case is a seeded plan of lock operations (all kinds of read, write, high-priority, try and bounded-try acquisitions, nesting in order, downgrades) or of reader registration, announcements, parking and grace periods; scheduler, stalls and spurious CAS failures as for the maps"),
    "C18": wh(rule="a case is a seeded plan of slab allocations and frees by several threads (or the unsafe calls by one), with failing page allocations; object and block sizes sampled, including invalid ones"),
    "C19": wh(rule="a case is a seeded history of one thread: map (string or integer, made by whunsafe_create or wormhole_create), unsafe calls, direct or through the tables and helpers, mixed or not with safe calls on the same map; allocation failures, memory contents and reuse", assume=WH_ASSUME[2:] + ["one thread at a time, as wh.h asks for the unsafe calls"]),
    "C20": wh(q=(120000, 45), rule="a case is a seeded plan of fork-joins (0 to 257 functions, in the thorough tier to 3000; common or own arguments; nested), placed threads and placement calls by one to four threads; scheduler and stalls as for the maps; failing system calls",
              stub=WH_STUB[:1] + ["pthread_create, join, attributes and names, processor sets, number of processors, clock (simulated)"] + WH_STUB[2:3], assume=["the machine has 6 processors; nobody else changes a thread's processors or name during a call", "threads switch at system calls, atomic operations and inside the functions; the fork-join record itself lives on a stack, whose accesses are no switch points"], real=["thread_fork_join, thread_create_at, thread_pin, thread_setaffinity_list, process_* of include/wormhole/lib.c"]),
    "C21": wh(q=(150000, 45), rule="a case is a seeded sequence, for one to four threads, of creations, forks, ring links, transfers, ends, reuses and destructions of coroutines, carried out by whichever has control; scheduler and stalls as for the maps; failing allocations",
              assume=["one host variable per thread; only coroutines that have not ended are entered, only ended or unlinked ones are destroyed", "x86-64"], real=["co_*, corr_* of include/wormhole/lib.c, including the stack switch in assembly"]),
}
