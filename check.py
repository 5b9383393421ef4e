#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property by seeded simulation of the code in /repo's working tree:
builds the simulators, explores many seeds on all cores, gates, minimises and reports violations,
and writes evidence/<property>.json.  Exit 0: held on everything explored; 1: VIOLATION; 2: error.
Everything random derives from VERIF_SEED."""
import json, os, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
sys.path.insert(0, VERIF)
from props import PROPS   # what each property runs

def log(*a): print(*a, flush=True)
def die(msg):
    log("ERROR", msg); sys.exit(2)

def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", **kw)

def parse_result(out):
    for l in out.splitlines():
        if l.startswith("RESULT "):
            d = {}
            head, _, msg = l[7:].partition(" msg=")
            for f in head.split(" "):
                k, _, v = f.partition("="); d[k] = v
            d["msg"] = msg
            return d
    return None

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    t0 = time.time()
    log(f"check {prop} tier={tier} VERIF_SEED={seed}")
    work = tempfile.mkdtemp(prefix=f".work-{prop}-", dir=VERIF)
    procs = []
    try:
        rc = check(prop, tier, seed, cfg, work, procs, t0)
    finally:
        for p in procs:
            if p.poll() is None:
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def check(prop, tier, seed, cfg, work, procs, t0):
    targets = sorted({s["sim"] for s in cfg["stages"]})
    b = run(["bash", os.path.join(VERIF, "sim", "build.sh"), work] + targets, env=dict(os.environ, REPO=REPO))
    if b.returncode != 0:
        log((b.stdout + b.stderr)[-4000:]); die("the simulators do not build against this tree")
    tb = time.time() - t0
    log(f"built {' '.join(targets)} in {tb:.1f} s")
    ncpu = os.cpu_count() or 4
    workers = min(8, ncpu)
    stages, viols = [], []
    for si, st in enumerate(cfg["stages"]):
        n, cap = st[tier]
        base = seed * 1000003 + si * 100000000
        binp = os.path.join(work, st["sim"])
        mode = st.get("mode", prop)
        ps = []
        ts = time.time()
        for w in range(workers):
            cnt = (n + workers - 1 - w) // workers
            if cnt <= 0: continue
            p = subprocess.Popen([binp, "batch", mode, tier, str(base + w), str(cnt), str(workers), str(cap)],
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
            ps.append(p); procs.append(p)
        tot = {"runs": 0, "steps": 0, "distinct": 0, "nontrivial": 0}; counters = {}
        deadline = time.time() + cap + 120
        found = []
        pending = list(ps)
        grace = None
        while pending:
            for p in list(pending):
                if p.poll() is not None:
                    pending.remove(p)
                    out, err = p.communicate()
                    try: j = json.loads(out.strip().splitlines()[-1])
                    except Exception:
                        if p.returncode == -signal.SIGKILL and grace: continue
                        die(f"worker failed ({p.returncode}): {out[-500:]} {err[-1500:]}")
                    for k in tot: tot[k] += j[k]
                    for k, v in j["counters"].items(): counters[k] = counters.get(k, 0) + v
                    if j["violation"]:
                        found.append(j["violation"])
                        if grace is None: grace = time.time() + 5
            if grace and time.time() > grace:
                for p in pending:
                    try: os.killpg(p.pid, signal.SIGKILL)
                    except OSError: pass
            if time.time() > deadline: die("workers did not finish")
            time.sleep(0.02)
        wall = time.time() - ts
        stages.append({"sim": st["sim"], "mode": mode, "seed_base": base, "wall_s": round(wall, 2), "counters": counters, **tot})
        log(f"stage {si + 1}/{len(cfg['stages'])} {st['sim']}:{mode}: {tot['runs']} runs, {tot['steps']} steps, {tot['distinct']} distinct in {wall:.1f} s")
        for v in sorted(found, key=lambda v: v["seed"]):
            viols.append((st, mode, v))
        if viols: break

    # determinism: some of the seeds again, in other processes; event-log hashes must agree
    det_n, det_bad = 0, 0
    if not viols:
        for s in stages:
            n = 6 if tier == "quick" else 40
            cmd = [os.path.join(work, s["sim"]), "hash", s["mode"], tier, str(s["seed_base"]), str(n), "1"]
            a = [subprocess.Popen(cmd, stdout=subprocess.PIPE, text=True, start_new_session=True) for _ in range(2)]
            procs.extend(a)
            o = [p.communicate()[0] for p in a]
            det_n += n
            if o[0] != o[1] or len(o[0].splitlines()) != n:
                det_bad += 1; log("determinism: hashes differ between two executions of the same seeds:\n" + o[0][:600] + "\n" + o[1][:600])

    # samples for the evidence
    samples = []
    for s in stages[:2]:
        g = run([os.path.join(work, s["sim"]), "gen", s["mode"], tier, str(s["seed_base"])])
        lines = g.stdout.splitlines()
        samples.append({"seed": s["seed_base"], "sim": s["sim"], "plan_lines": len(lines), "plan_head": lines[:14], "plan_tail": lines[-6:]})

    known = load_known()
    rc, reported, kfs = 0, [], []
    # first the violations whose event logs repeat exactly; a violation that corrupts memory can depend on what
    # happens to lie beyond the arena, so those that only repeat in kind come second
    for exact, (st, mode, v) in [(True, x) for x in viols[:4]] + [(False, x) for x in viols[:4]]:
        r = gate(prop, tier, st, mode, v, work, exact)
        if r is None: continue
        k = match_known(known, prop, r)
        if k: kfs.append(k); continue
        reported.append(r); rc = 1
        break
    if viols and not reported and not kfs:
        die("a violation was seen but does not replay: " + json.dumps([v for _, _, v in viols])[:800])
    for k in known:
        if k.get("status") == "known" and k["property"] == prop:
            log(f"KNOWN-FINDING: property={prop} {k['what']}")

    wall = time.time() - t0
    runs = sum(s["runs"] for s in stages); steps = sum(s["steps"] for s in stages)
    counters = {}
    for s in stages:
        for k, c in s["counters"].items(): counters[k] = counters.get(k, 0) + c
    sim_wall = sum(s["wall_s"] for s in stages) or 1
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": sum(s["nontrivial"] for s in stages),
            "rule": cfg["rule"],
            "samples": samples,
            "simulated_runs_per_hour": int(runs * 3600 / sim_wall),
            "simulated_steps": steps,
            "simulated_time": "one step = " + cfg.get("step", "one operation of the history") + "; no wall-clock time is simulated except sleeping back-off, counted in sim_seconds_slept where it occurs",
            "distinct_executions": sum(s["distinct"] for s in stages),
            "distinct_measure": cfg.get("measure", "different hashes of the run's event log (operations, answers, sizes, images)"),
            "faults_and_probes_fired": {k: c for k, c in counters.items()},
            "probes_at_zero": [k for k, c in counters.items() if c == 0],
            "determinism_reruns": det_n, "determinism_mismatches": det_bad,
            "components_real": cfg["real"], "components_stubbed": cfg["stub"],
            "stages": [{k: s[k] for k in ("sim", "mode", "runs", "steps", "distinct", "nontrivial", "wall_s", "seed_base")} for s in stages],
            "build_s": round(tb, 1),
        },
        "assumptions": cfg["assumptions"],
        "wall_s": round(wall, 2), "violations": len(reported),
    }
    if reported: ev["coverage"]["violation"] = reported[0]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if reported:
        r = reported[0]
        log(f"violated: [{r['class']}] {r['msg']}")
        log(f"seed {r['seed']}, {r['lines']} lines after minimisation; replay: bash {VERIF}/replay.sh {r['replay']}")
        log(f"VIOLATION property={prop} replay={r['replay']}")
        return 1
    if det_bad: die("runs are not deterministic")
    log(f"held: {runs} runs, {sum(s['distinct'] for s in stages)} distinct, {steps} steps, {wall:.1f} s")
    return 0

def gate(prop, tier, st, mode, v, work, exact):
    """The same seed twice in fresh processes must give the same violation; then minimise and replay."""
    binp = os.path.join(work, st["sim"])
    plan = os.path.join(work, "v.plan")
    g = run([binp, "gen", mode, tier, str(v["seed"])])
    with open(plan, "w") as f: f.write(g.stdout)
    rs = []
    for _ in range(2):
        r = parse_result(run([binp, "run", plan]).stdout)
        rs.append((r["class"], r["hash"]) if r and r["status"] == "2" else (None, None))
    cls = rs[0][0]
    if cls is None or rs[1][0] is None or (exact and rs[0] != rs[1]):
        log("not reproducible:", rs, v["class"]); return None
    if cls != v["class"]: log(f"in a fresh process seed {v['seed']} shows as {cls} instead of {v['class']}")
    outdir = os.path.join(VERIF, "replays"); os.makedirs(outdir, exist_ok=True)
    out = os.path.join(outdir, f"{prop}-{v['seed']}.plan")
    m = run([binp, "min", plan, out, "60" if tier == "quick" else "200"])
    log("minimiser:", m.stdout.strip()[:600])
    ok = False
    if m.returncode == 0 and os.path.exists(out):
        a = parse_result(run([binp, "run", out]).stdout); c = parse_result(run([binp, "run", out]).stdout)
        ok = a and c and a["class"] == cls and (a["class"], a["hash"]) == (c["class"], c["hash"])
    if not ok:
        log("the minimised plan does not replay; keeping the original"); shutil.copy(plan, out)
        a = parse_result(run([binp, "run", out]).stdout)
        if not a or a["status"] != "2": return None
    text = open(out).read()
    with open(out, "w") as f: f.write(f"# sim {st['sim']}\n" + text)
    return {"seed": v["seed"], "class": a["class"], "msg": a["msg"], "replay": out, "hash": a["hash"], "lines": len([l for l in text.splitlines() if not l.startswith(("#", "cfg", "prop"))]), "sim": st["sim"]}

def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []

def match_known(known, prop, r):
    for k in known:
        if k.get("status") == "known" and k["property"] == prop and k.get("class") == r["class"] and all(s in r["msg"] for s in k.get("match", ["\0"])):
            return k
    return None

main()
