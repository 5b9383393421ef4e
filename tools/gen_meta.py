#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the two stay in step because both come from here)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []   # (property record, technique, level note) ; technique None: not applicable, note = reason
def prop(id, title, statement, over, qtext, why, files, mech, tech, note, observe=None):
    r = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe: r["anchors"]["observe_at"] = observe
    P.append((r, tech, note))
D, U, WH, WI, LIB, KV = "include/diva.hpp", "include/util.hpp", "include/wormhole/wh.c", "include/wormhole/wh_int.c", "include/wormhole/lib.c", "include/wormhole/kv.c"
DT = "deterministic simulation: seeded search over histories of the real filter (inserts, deletes, forced split-coin outcomes, shrinks, restarts and crashes to stored images, memory contents and reuse as faults), "
DN = "Exploration by seed of simulated histories of the real code; nothing is proved for histories not sampled."

prop("C01", "No false negatives for point queries",
     "After any history of bulk load, Insert, Delete of present keys, ShrinkInfixSize, Serialize and restart from an image, PointQuery answers true for every key that is present (inserted or loaded more often than deleted). This holds for Diva<true> and Diva<false>, through every overload, whichever way the internal split coin falls and whatever the memory it runs in held before. Every operation of such a history returns.",
     ["inputs", "histories", "fault_sequences", "configurations"], "all key sets, key lengths, infix sizes, load factors and operation histories, all outcomes of the split coin, all restart and crash points",
     "The tests sample a few uniform key sets; losses need a particular layout of clusters, runs, splits and merges reached by a multi-step history.",
     [D, U, WH, WI], [("Diva::Insert / InsertSimple / InsertSplit", D), ("Diva::Delete / DeleteMerge", D), ("Diva::PointQuery", D), ("infix stores (quotient filters)", D), ("boundary-key trees", WH + ", " + WI)],
     DT + "a multiset of live keys as reference model, checked as invariant during the run", DN, ["Diva::PointQuery"])
prop("C02", "No false negatives for range queries",
     "After any history of bulk load, Insert, Delete of present keys, ShrinkInfixSize, Serialize and restart from an image, RangeQuery(l, r) answers true whenever some present key k satisfies l <= k <= r. This holds for Diva<true> and Diva<false>, through every overload, for ranges from a single key to the whole key space, with bounds that are keys, neighbours of keys, prefixes or boundary keys.",
     ["inputs", "histories", "fault_sequences", "configurations"], "all key sets and histories as in C01, all pairs of bounds around, between and across stores",
     "Range queries take different paths for bounds in one store, in adjacent stores and far apart, on top of every layout a history can reach; tests sample a handful.",
     [D, U, WH, WI], [("Diva::RangeQuery", D), ("RangeQueryInfixStore", D), ("iterator seek in the trees", WH + ", " + WI)],
     DT + "an ordered set of live keys as reference model", DN, ["Diva::RangeQuery"])
prop("C03", "False positive rate stays within its bound",
     "For keys and absent queries drawn from the same uniform distribution, the share of point queries and of short empty range queries (much shorter than the distance between keys) that answer true stays within a small constant factor (3, and 10 once keys were deleted) of 2^-(infix_size-1) times the growth of the filter since its load. This holds after every history of inserts, deletes, restarts and shrinks, with the infix size then current.",
     ["inputs", "histories", "configurations"], "all uniform key sets of at least a few hundred keys, infix sizes, load factors and histories with natural split-coin outcomes",
     "The tests never measure answers for absent keys after a history; an answer of true is always legal for one query, so only the rate over many queries and histories decides.",
     [D, U], [("implicit and explicit infixes, scale factors", D), ("PointQueryInfixStore / RangeQueryInfixStore", D), ("splits and merges (InsertSplit, DeleteMerge)", D)],
     DT + "a statistical bound (six sigma above a calibrated constant) as invariant", DN + " Rates are measured on up to 6000 seeded probes each.", ["Diva::PointQuery", "Diva::RangeQuery"])
prop("C04", "Deleting keys takes them out of the filter",
     "When a batch of keys is inserted and then deleted again, in any order, interleaved and with restarts, the filter answers every query as it did before the batch, as long as no boundary keys were added in between; with boundary keys added, deleted uniform keys answer true no more often than the false positive bound allows. The other keys stay present and the size returns to near what it was.",
     ["inputs", "histories", "fault_sequences"], "all batches, orders of deletion, restarts in between and filters they are applied to",
     "A test deletes keys and looks for the remaining ones; it cannot tell residue of deleted keys from false positives.",
     [D], [("Diva::Delete", D), ("DeleteRawFromInfixStore, GetLongestMatchingInfixSize", D), ("DeleteMerge", D)],
     DT + "the filter's own answers before the batch as oracle (and the statistical bound where boundaries changed)", DN, ["Diva::PointQuery", "Diva::RangeQuery", "Diva::Size"])
prop("C05", "Shrinking infixes keeps every true answer and never grows the filter",
     "ShrinkInfixSize(n) for any smaller n leaves every query that answered true answering true, never increases Size(), and gives a filter that answers like one shrunk in several steps to the same n. All operations keep working on the shrunk filter.",
     ["inputs", "histories", "configurations"], "all filters reached by any history (including stores of every size grade), all sequences of shrinks",
     "The tests shrink one uniform filter; stores of non-default grades, partial keys and stores after merges need long histories first.",
     [D], [("Diva::ShrinkInfixSize", D), ("ShrinkInfixStoreInfixSize", D)],
     DT + "the filter's own answers before the shrink, and a stepwise-shrunk twin, as oracles", DN, ["Diva::PointQuery", "Diva::RangeQuery", "Diva::Size"])
prop("C06", "Serialized images restore the same filter",
     "At any point of any history Serialize writes exactly Size() bytes, inside the given buffer, and a filter made from these bytes answers every query like the original, keeps doing so when both undergo the same further operations (with the same outcomes of the split coin, which restarts from its seed on loading), and serializes to the same bytes again. It keeps no reference to the image buffer, does not modify it and reads nothing past its end.",
     ["histories", "crash_points", "inputs", "configurations"], "all histories and all points in them at which the process stores its image, dies and restarts with only the image",
     "Tests restore one freshly loaded filter and query it; images of filters with cut-down boundary keys, resized stores or earlier restarts, and life after the restart, are not sampled.",
     [D], [("Diva::Serialize / Size / SerializeMetadata", D), ("Diva(char*) / DeserializeMetadata / DeserializeInfixStore", D)],
     DT + "the surviving process as a twin: answers and images of both compared after every restart and after further common operations; images end at an inaccessible page and are destroyed after loading", DN, ["Diva::Serialize", "Diva::Size", "Diva::Diva(char*)"])
prop("C07", "A filter is a function of its history and its seed alone",
     "Two filters with the same constructor arguments (including rng_seed) that undergo the same operations have the same serialized bytes and give the same answers, whatever uninitialised, freed or reused memory contains, wherever allocations land and whatever other filters in the process do.",
     ["histories", "fault_sequences", "configurations"], "all histories, all contents and addresses of fresh memory, all interleavings with operations on other filters",
     "Tests run once in one process with mostly zeroed memory; uninitialised reads and hidden shared state only show when memory differs.",
     [D, WH, WI, LIB, KV], [("rng_ and its seeding", D), ("stack and heap buffers of infix lists", D), ("tree nodes and keys", WH + ", " + WI)],
     DT + "three executions of each history in different simulated memory (and one with another filter interleaved) compared byte by byte", DN, ["Diva::Serialize", "Diva::PointQuery"])
prop("C08", "Streaming and one-shot bulk loads are equivalent and complete",
     "For any sorted set of keys, of any number and lengths, loading it key by key with BulkLoadStreaming and BulkLoadStreamingFinish gives a filter that answers every query like the one the constructor builds from the same keys, and both hold every key. Keys may be passed in buffers that are reused right after each call.",
     ["inputs", "configurations"], "all sorted key sets (sizes around multiples of the batch size, lengths, shared prefixes, trailing zero bytes), infix sizes and load factors",
     "Batch ends, last keys that become boundary keys and keys that share long prefixes are met by few of the many sizes; tests use one or two.",
     [D], [("BulkLoad / BulkLoadFixedLength", D), ("BulkLoadStreaming / BulkLoadStreamingFinish", D), ("LoadListToInfixStore, AllocateInfixStoreWithList", D)],
     DT + "the other load path and the key set as oracles", DN, ["Diva::PointQuery", "Diva::RangeQuery"])
prop("C13", "Space stays proportional to the live keys",
     "For uniform keys and infix sizes of at least 8, Size() stays within a constant factor (about 1.6) of live keys times (infix_size + 2) / load_factor bits plus a fixed cost per boundary key, after any history of inserts, deletes, restarts and drains. In particular deleting keys gives their space back.",
     ["histories", "configurations"], "all histories of growth and shrinkage with natural split-coin outcomes, infix sizes from 8 and load factors",
     "No test looks at the size after a history; loss of space needs long sequences of growth and shrinkage.",
     [D], [("ResizeInfixStore, size grades", D), ("InsertSplit / DeleteMerge", D), ("Diva::Size", D)],
     DT + "a calibrated space bound as invariant", DN, ["Diva::Size"])

exec(open(os.path.join(V, "tools", "meta_wh.py")).read()) if os.path.exists(os.path.join(V, "tools", "meta_wh.py")) else None

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for r, t, n in sorted(P, key=lambda x: x[0]["id"]): f.write(json.dumps(r) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "DIVA_SIM", "enable": "-DDIVA_SIM, given by sim/build.sh to the whsim and divasan targets (initial sizes of the trees' hash tables and slabs); all other seams are link-time wrappers, compiler instrumentation and macro substitution in /verif/sim", "source_commits": ["530491a"]},
     "checks": [], "not_applicable": [],
     "notes": "python3 check.py PROP [--tier quick|thorough] rebuilds the simulators from /repo's working tree in a scratch folder under /verif and removes it. VERIF_SEED selects the seeds. bash replay.sh FILE replays a violation."}
for r, t, n in sorted(P, key=lambda x: x[0]["id"]):
    if t is None: m["not_applicable"].append({"property": r["id"], "reason": n}); continue
    m["checks"].append({"property": r["id"], "quick_cmd": f"python3 check.py {r['id']} --tier quick", "thorough_cmd": f"python3 check.py {r['id']} --tier thorough",
                        "technique": t, "level": "exploration", "level_note": n})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
try:
    import jsonschema
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json")); ms = json.load(open("/root/.vp/MANIFEST.schema.json"))
    for r, _, _ in P: jsonschema.validate(r, ps)
    jsonschema.validate(m, ms); print("valid:", len(P), "properties")
except ImportError: pass
