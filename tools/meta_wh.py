WT = "deterministic simulation: seeded search over schedules of the real code run as fibers (a decision at every shared access and atomic operation), with stalls at chosen steps, threads held back before chosen atomic operations, spurious CAS failures, forced memory reuse and, where stated, failing allocations, "
WN = "Exploration by seed of simulated schedules of the real code under sequentially consistent memory; nothing is proved for schedules not sampled."
LH, KH, WHH, WIH = "include/wormhole/lib.h", "include/wormhole/kv.h", "include/wormhole/wh.h", "include/wormhole/wh_int.h"
prop("C09", "Threads may share a filter for queries and use separate filters freely",
     "Any number of threads querying one filter at the same time get the answers a single thread would get, and leave the filter unchanged. Threads that each use a filter of their own (loading, inserting, deleting, restarting, querying) do not influence each other: answers and serialized bytes are those of the same operations done alone.",
     ["schedules", "inputs", "histories"], "all filters, all sets of concurrent queries, all interleavings of the threads at the level of single memory accesses",
     "The tests are single-threaded; the queries walk trees that lock and re-sort leaves under the hood.",
     [D, WH, WI, LIB], [("PointQuery / RangeQuery iterators on the shared tree reference", D), ("leaf locks, lazy sorting in iterator seek", WH + ", " + WI), ("static and shared state", D + ", " + LIB)],
     WT + "answers and images of a run without concurrency as oracle", WN, ["Diva::PointQuery", "Diva::RangeQuery", "Diva::Serialize"])
prop("C10", "The concurrent string map is linearizable",
     "Put, get, probe, delete, merge, in-place read and write of the string map (wh_, whsafe_ and wormhole_ calls) by any number of threads behave as if each took effect at one instant between its call and its return: every result is explained by such an order, get returns whole values that were put under that key, and when all threads are done the map holds exactly what that order leaves. Splits and merges of leaves and growth of the hash table are never visible.",
     ["schedules", "inputs", "histories"], "all key sets (shared prefixes, lengths from 0), operation mixes, numbers of threads and interleavings",
     "The tests use the maps from one thread and only through the filter; a lost or stale answer needs a switch inside a few instructions.",
     [WH, KV, LIB], [("wormhole_put / get / del / merge and the leaf version checks", WH), ("wormhole_split_insert, wormhole_meta_merge, wormhmap double buffering", WH), ("leaf rwlocks and QSBR", LIB)],
     WT + "a per-key linearizability checker (Wing & Gong search) over the recorded history, final state by get, probe and scans", WN, ["wh_get", "wh_put", "wh_del", "wh_merge", "wh_probe", "wh_inpr", "wh_inpw"])
prop("C11", "The concurrent integer map is linearizable",
     "Put, get, probe and delete of the integer map (wh_int_, whsafe_int_ and wormhole_int_ calls) with keys of up to 8 bytes, by any number of threads, behave as if each took effect at one instant between its call and its return, and the map finally holds exactly what that order leaves. Splits and merges of leaves and growth of the hash table are never visible.",
     ["schedules", "inputs", "histories"], "all integer key sets, operation mixes, numbers of threads and interleavings",
     "The tests use the map from one thread and only through the filter; a lost or stale answer needs a switch inside a few instructions.",
     [WI, KV, LIB], [("wormhole_int_put / get / del, lazily sorted leaves", WI), ("splits, merges and double-buffered hash table", WI), ("leaf rwlocks and QSBR", LIB)],
     WT + "a per-key linearizability checker over the recorded history, final state by get, probe and scans", WN, ["wh_int_get", "wh_int_put", "wh_int_del", "wh_int_probe"])
prop("C12", "No access to memory that is not allocated, and none is lost",
     "No operation of the maps or the filter, in any interleaving, reads or writes heap memory outside live allocations (freed leaves, keys, hash tables, trie nodes, slab objects, infix stores, key and image buffers); nothing is freed twice; after the map or filter is destroyed every block it allocated has been given back, also when allocations failed on the way.",
     ["schedules", "histories", "fault_sequences", "inputs"], "all interleavings, histories, sizes and allocation failures; including reads past the ends of buffers that happen to be harmless",
     "A stray read or a leak changes no answer in a test, and use after reclamation needs a thread stopped between loading a pointer and using it.",
     [D, WH, WI, LIB, KV], [("QSBR-protected hash tables and trie nodes", WH + ", " + WI), ("infix stores and their slot accessors", D), ("slab allocator", LIB)],
     WT + "shadow memory of the whole simulated heap checked at every instrumented access, and allocation accounting at the end", WN + " Stack and static memory are not covered.", ["any call"])
prop("C14", "Operations finish while threads are scheduled fairly",
     "When every thread keeps getting scheduled, every operation of every thread on the maps completes within a bounded number of steps, whatever stalls (of any thread, at any point, for any time) came before: no deadlock, no livelock, no thread waiting for a lock nobody holds. A thread that parks its reference or leaves holds up nobody.",
     ["schedules", "fault_sequences"], "all interleavings and stalls of finite plans of operations",
     "Deadlocks need particular interleavings of leaf locks, the meta lock and grace periods.",
     [WH, WI, LIB], [("leaf locking order, metalock, lock ordering in splits and merges", WH + ", " + WI), ("qsbr_wait and registration", LIB), ("rwlock and spinlock", LIB)],
     WT + "progress within a step bound once faults stop, as invariant; locks released by nobody or by the wrong thread", WN, ["any call"])
prop("C15", "A failed allocation fails one operation and nothing else",
     "When memory cannot be had, put, merge and delete either complete or report failure and change nothing: no key is lost, duplicated or altered, other threads are not disturbed, no lock stays taken, nothing leaks, and everything works again once memory is there.",
     ["fault_sequences", "schedules", "histories"], "all allocations an operation makes, failing one or several times in a row, in all interleavings",
     "No test makes an allocation fail.",
     [WH, WI, LIB, KV], [("undo paths of wormhole_split_insert / split_meta, slab reservation", WH + ", " + WI), ("slab_alloc_safe / slab_reserve_unsafe", LIB), ("kv_dup and the kvmap_mm callbacks", KV)],
     WT + "failing allocations at seeded points of single operations; the linearizability checker with failed operations as no-ops, shadow memory and leak accounting", WN, ["wh_put", "wh_merge", "wh_del", "wh_int_put", "wh_int_del"])
prop("C16", "Scans return the keys in order, each once, and miss none",
     "Iterating from any key of the maps returns keys in strictly ascending order with their own values, never below the start, each at most once; every key present during the whole scan is returned and no key absent during the whole scan. Skipping several entries equals skipping one by one; iterating backwards (without concurrent writers) is the mirror image; deleting a range removes exactly the keys in it.",
     ["schedules", "inputs", "histories"], "all key sets and start keys, leaves in any state of sorting, concurrent splits, merges, inserts and deletes",
     "Missing or repeated keys need a leaf boundary to move between two steps of an iterator.",
     [WH, WI], [("wormhole_iter_seek / skip / skip1 / skip1_rev / peek", WH + ", " + WI), ("lazy sorting of leaves", WH + ", " + WI), ("wormhole_delr", WH + ", " + WI)],
     WT + "order and value checks at every step; returned and skipped keys enter the linearizability check as reads; with one thread, equality with an ordered map", WN, ["wh_iter_seek", "wh_iter_skip1", "wh_iter_skip", "wh_iter_skip1_rev", "wh_iter_peek", "wh_delr"])
prop("C17", "Locks exclude and grace periods protect",
     "A read-write lock held for writing is held by nobody else; turning a write lock into a read lock lets no writer in between; mutexes and spinlocks exclude; a lock everyone has released can be taken; blocking acquisitions return once the lock is free. After qsbr_wait(v) returns, every reader that was registered and not parked when it began has announced v or left, so what only older versions reach can be freed; it returns as soon as they have, and a reader that has left may reuse its memory at once.",
     ["schedules", "fault_sequences"], "all interleavings of all kinds of acquisitions, tries, bounded tries, releases, downgrades, registrations, parkings and announcements, with stalls and spurious CAS failures",
     "No test uses two threads.",
     [LIB, LH], [("rwlock_*", LIB), ("spinlock_*, mutex_*", LIB), ("qsbr_register / unregister / update / park / resume / wait", LIB)],
     WT + "ownership tracked beside each lock, data that only excluded access keeps consistent, and versions whose reclamation too early is visible in the shadow memory", WN + " pthread mutexes and spinlocks underneath are simulated.", ["rwlock_lock_write", "rwlock_trylock_read", "qsbr_wait", "qsbr_update"])
prop("C18", "The slab allocator hands out each object once",
     "Objects of a slab that are in use never overlap, lie inside the slab's memory, are aligned to their size if it is a power of two (up to a page) and to 8 bytes otherwise, and keep their contents, whichever threads allocate and free them in whichever order; freed objects are handed out again; after slab_reserve_unsafe(n), n allocations succeed without further memory; a failed allocation returns NULL and disturbs nothing; slab_get_nalloc counts the objects in use; destroying the slab gives all memory back; invalid sizes are refused.",
     ["schedules", "inputs", "fault_sequences"], "all object and block sizes, interleavings of allocations and frees, and failures of the underlying page allocation",
     "The free list is lock-free: a double hand-out needs an exact interleaving of two threads.",
     [LIB], [("slab_alloc_safe / free_safe, astk_push_safe / pop_safe", LIB), ("slab_expand, slab_reserve_unsafe, slab_free_all", LIB)],
     WT + "an interval map of live objects with content patterns as reference model", WN, ["slab_alloc_safe", "slab_free_safe", "slab_get_nalloc"])
prop("C19", "The single-threaded calls and the generic tables behave as a sorted map",
     "The calls for maps without concurrency (whunsafe_ and whunsafe_int_) on a map made by whunsafe_create, or by wormhole_create while nobody else uses it, behave as a sorted map: get, probe, put, merge, delete, range delete and iteration in both directions give what an ordered table of the stored pairs gives, also when they alternate with the thread-safe calls on the same map. The kvmap_api tables and helpers (kvmap_kv_*, kvmap_raw_*, kvmap_dump_keys) reach the same behaviour. A failed allocation fails one call and changes nothing; nothing is lost at the end.",
     ["histories", "inputs", "fault_sequences"], "all histories of one thread, key sets, ways of making the map, mixtures with the safe calls, and allocation failures",
     "The tests use only the wh_ calls through the filter; leaves merge, split and empty in long histories only, and no test makes an allocation fail.",
     [WH, WI, KV], [("whunsafe_* (get, put, merge, del, delr, iterators, split and merge without versions)", WH), ("whunsafe_int_*", WI), ("kvmap_api tables and kvmap_kv_ / kvmap_raw_ helpers", KV)],
     "deterministic simulation: seeded histories of the real code under one simulated thread, with failing allocations, reused and garbage-filled memory and shadow-checked accesses, against an ordered map as reference model", "Exploration by seed of simulated histories with memory and allocation faults; one thread, so no schedules. Nothing is proved for histories not sampled.", ["whunsafe_get", "whunsafe_put", "whunsafe_del", "whunsafe_delr", "whunsafe_iter_seek", "whunsafe_int_put"])
prop("C20", "Fork-join runs each function once, waits for all, restores the caller",
     "thread_fork_join(n, f) runs exactly n functions (with n = 0 one for each processor the caller may use), each once with its own argument (args[i], or the common one), function i on the (i mod k)-th of the k processors the caller may use, and returns when all have finished and every thread it made is joined; the caller keeps its name and its processors; the reported duration covers the functions and does not exceed the call. Fork-joins may be nested and run on several threads at once. If threads cannot be made, the functions that do not run are counted and reported, and everything else holds. thread_create_at, thread_pin, thread_setaffinity_list, process_affinity_count and process_getaffinity_list place threads and report processors as asked.",
     ["schedules", "fault_sequences", "inputs"], "all numbers of functions, sets of allowed processors, nestings, interleavings of the threads, and failures of thread creation and of the calls that read and set processors",
     "No test forks; a thread missed, joined early or misplaced shows only for particular counts, schedules or failing system calls.",
     [LIB], [("thread_fork_join, thread_do_fork_join_worker", LIB), ("thread_create_at, thread_pin, thread_setaffinity_list", LIB), ("process_affinity_count, process_getaffinity_list", LIB)],
     "deterministic simulation: the real fork-join code with every created thread a fiber of the seeded scheduler, on a simulated machine of 6 processors with simulated thread names, processor sets and clock; injected failures of pthread_create, sched_getaffinity, sched_setaffinity and pthread_attr_setaffinity_np, stalls of threads; counting and placement checked in every function and after every call", "Exploration by seed of simulated schedules and failures; up to 257 functions in the quick tier, 3000 in the thorough one. Threads switch at system calls, atomic operations and inside the functions.", ["thread_fork_join", "thread_create_at", "thread_pin", "thread_setaffinity_list", "process_getaffinity_list"])
prop("C21", "Coroutines hand over control and values exactly as told",
     "Entering, switching between, going back from, ending and reusing coroutines (co_*) and rings of them (corr_*) hands control exactly to the named one (co_enter, co_switch_to), the host (co_back, co_exit, the last of a ring to end) or the next in the ring (corr_yield, corr_exit), with exactly the value handed over; each keeps its stack and registers while it is away, and finds itself and its private pointer; co_valid tells whether it has ended; a ring stays whole when coroutines join and leave it. Threads have coroutines of their own. A coroutine that cannot be allocated is refused and nothing else changes; destroying them gives all memory back.",
     ["schedules", "histories", "fault_sequences"], "all sequences of creations, forks, links, transfers, ends, reuses and destructions, on several threads at once, with failing allocations",
     "No test uses coroutines; a wrong link or value shows only after particular sequences of joins, ends and yields.",
     [LIB], [("co_create / reuse / fork / enter / switch_to / back / exit", LIB), ("corr_create / link / reuse / relink / yield / exit", LIB), ("co_switch_stack", LIB)],
     "deterministic simulation: seeded histories of the real coroutine code on fibers with thread-local variables of their own, decided by the seeded scheduler, with failing allocations and shadow-checked stacks, against a reference model of who has control and what was handed over", "Exploration by seed of simulated histories, up to 200 steps per thread.", ["co_create", "co_enter", "co_switch_to", "co_back", "co_exit", "corr_link", "corr_yield", "corr_exit"])
prop("C22", "Byte encodings, comparisons and conversions follow their definitions",
     "vi128 encodings decode to what was encoded, kv and kref comparisons order keys as byte strings and agree with matching and with the order of the integer keys written big-endian, prefix helpers agree with byte comparison, the crc32c functions agree however the input is cut, and string conversions denote the number given.",
     ["inputs"], "all arguments",
     "Their domains are too large to sample with a handful of values.",
     [LIB, KV, LH, KH], [("vi128_encode / decode, bits_*, memlcp, crc32c_*, str*", LIB), ("kv_compare, kref_compare, kv_match, k128 helpers", KV)],
     None, "pure functions of their arguments: no schedule, clock, I/O, allocation or crash can change what they return, so there is nothing to simulate (their use by the maps is exercised by C10-C12, C16 and C19)", ["vi128_encode_u64", "kv_compare", "crc32c_inc"])
