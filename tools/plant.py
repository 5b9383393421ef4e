#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: makes the planted changes of SPEC in scratch clones, keeps those that build, pass the stable tests and whose demo fails.
SPEC defines BUGS = [dict(id, prop, edits=[(file, old, new)], mode, needs, breaks, demo='diva'|'wh')]."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}; exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
sh = lambda c, **k: subprocess.run(["bash", "-c", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def one(b):
    w = tempfile.mkdtemp(prefix="plant-", dir="/tmp"); r = w + "/repo"
    try:
        sh(f"git clone -q /repo {r}")
        for f, old, new in b["edits"]:
            s = open(f"{r}/{f}").read()
            n = s.count(old)
            if n != b.get("count", 1): return f"edit matches {n} times: {old[:60]!r}"
            open(f"{r}/{f}", "w").write(s.replace(old, new))
        d = sh(f"git -C {r} diff").stdout
        o = sh(f"cmake -S {r} -B {w}/b -G Ninja -DCMAKE_C_COMPILER=/usr/bin/gcc-11 -DCMAKE_CXX_COMPILER=/usr/bin/g++-11 -DCMAKE_BUILD_TYPE=Release -DBUILD_TESTS=ON -DBUILD_EXAMPLES=ON -DBUILD_BENCHMARKS=OFF -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_DOCTEST=/opt/vp/doctest && ninja -C {w}/b")
        if o.returncode: return "build failed " + o.stdout[-600:]
        try: sh(f"python3 /opt/vp/run_doctest.py {w}/b {w}/res.txt && python3 /opt/vp/results.py {w}/t.json lines:{w}/res.txt", timeout=300)
        except subprocess.TimeoutExpired: return "tests hang"
        t = json.load(open(f"{w}/t.json"))
        miss = stable - set(t["passed"])
        if miss: return f"tests catch it: {sorted(miss)[:3]}"
        s = f"{w}/s"; os.makedirs(s)
        src = f"{V}/tools/demo" + ("" if b.get("demo", "diva") == "diva" else "_" + b["demo"])
        for f in os.listdir(src): shutil.copy(f"{src}/{f}", s)
        if b.get("demo") == "sim": shutil.copytree(f"{V}/sim", f"{s}/sim")
        open(f"{s}/mode", "w").write(b["mode"] + "\n")
        a = sh(f"cd /repo && timeout 300 bash {s}/demo.sh"); c = sh(f"cd {r} && timeout 300 bash {s}/demo.sh")
        if a.returncode != 0: return "demo fails on the unchanged tree: " + a.stdout[-300:]
        if c.returncode in (0, 99): return f"demo does not see it ({c.returncode}) {c.stdout[-300:]}"
        open(f"{s}/patch.diff", "w").write(d)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{s}/meta.json", "w"), indent=1)
        dst = f"{V}/seeded/{b['id']}"; shutil.rmtree(dst, ignore_errors=True); os.makedirs(V + "/seeded", exist_ok=True); shutil.copytree(s, dst)
        return "KEPT: " + c.stdout.strip()[-200:]
    finally: shutil.rmtree(w, ignore_errors=True)
from concurrent.futures import ThreadPoolExecutor
bs = [b for b in spec["BUGS"] if not only or b["id"] in only]
with ThreadPoolExecutor(3) as ex:
    for b, m in zip(bs, ex.map(one, bs)): print(b["id"], b["prop"], m, flush=True)
