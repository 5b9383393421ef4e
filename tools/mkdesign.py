#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md (between the marker lines) from properties.jsonl, MANIFEST.json and known_findings.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = json.load(open(V + "/MANIFEST.json")); tech = {c["property"]: c for c in man["checks"]}; na = {n["property"]: n["reason"] for n in man["not_applicable"]}
out = []
for p in props:
    out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n")
    if p["id"] in tech: out.append(f"*Decided by* {tech[p['id']]['technique']}.\n*Bounds and cost:* quick about 60-90 s on 8 cores, thorough about 12 min; {tech[p['id']]['level_note']}\n*Why tests cannot:* {p['why_tests_cant']}\n\n")
    else: out.append(f"*Not applicable:* {na[p['id']]}\n\n")
kf = json.load(open(V + "/known_findings.json"))["findings"]
fx = "".join(f"* {k['line']}\n" for k in kf)
s = open(V + "/DESIGN.md").read()
def sub(s, name, body):
    a, b = f"<!-- {name} -->\n", f"<!-- /{name} -->\n"
    i, j = s.index(a) + len(a), s.index(b)
    return s[:i] + body + s[j:]
s = sub(s, "properties", "".join(out)); s = sub(s, "findings", fx)
open(V + "/DESIGN.md", "w").write(s)
