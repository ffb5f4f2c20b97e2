#!/usr/bin/env python3
"""Writes checks.json (read by the engine) and MANIFEST.json from one table."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checktable import CHECKS, NOT_APPLICABLE, COMMON

checks, man = [], []
for pid, c in CHECKS.items():
    hs = []
    for h in c["harnesses"]:
        pkg, name = h[0].split(".")
        d = dict(pkg=pkg, h=name, bounds=h[1], asserts=h[2])
        o = h[3] if len(h) > 3 else {}
        d["quick_s"] = o.get("q", 60)
        d["thorough_s"] = o.get("t", 600)
        for k in ("only", "max_steps"):
            if k in o: d[k] = o[k]
        hs.append(d)
    checks.append(dict(property=pid, harnesses=hs, assumptions=c.get("assumptions", []) + COMMON,
                       outside=c.get("outside", [])))
    man.append(dict(property=pid,
        quick_cmd=f"./check --property {pid} --tier quick",
        thorough_cmd=f"./check --property {pid} --tier thorough",
        technique=c.get("technique", "symbolic execution of the real code (Go SSA) with an SMT solver (z3, bit-vectors) deciding every branch and assertion; counterexamples replayed natively"),
        level="model_checking",
        level_note=c["note"]))
json.dump(checks, open(os.path.join(root, "checks.json"), "w"), indent=1, ensure_ascii=False)
NA = dict(NOT_APPLICABLE)
for l in open(os.path.join(root, "properties.jsonl")):
    NA.setdefault(json.loads(l)["id"], "no check has been built for it (yet)")
m = dict(version=1, setup_cmd="./setup.sh", checks=man, not_applicable=[dict(property=p, reason=r) for p, r in NA.items() if p not in CHECKS],
    notes="No hooks in /repo. Harnesses (harness/) are overlaid into the module as internal/zzverif/...; the engine (engine/) encodes the real code from source on every run.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
missing = [p for p in props if p not in CHECKS and p not in NOT_APPLICABLE]
if missing: print("neither claimed nor declined:", missing)
