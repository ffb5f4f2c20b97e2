#!/usr/bin/env python3
"""Writes DESIGN.md from its parts."""
import json, os, re, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from checktable import CHECKS, NOT_APPLICABLE
from design_oracle import WHY
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
out = [open(here + "/design_head.md").read()]
for p in props:
    c = CHECKS[p["id"]]
    out.append(f"\n### {p['id']} {p['title']}\n\n{p['statement']}\n")
    if p["id"] in WHY: out.append(f"*How and why.* {WHY[p['id']]}\n")
    out.append(f"*Oracle and completeness.* {c['note']}\n")
    out.append("| harness | inputs (bounds) | asserted |\n|---|---|---|")
    for h in c["harnesses"]:
        out.append("| %s | %s | %s |" % (h[0], h[1].replace("|", "\\|"), h[2].replace("|", "\\|")))
    for k, t in (("assumptions", "Assumed"), ("outside", "Outside the bounds")):
        if c.get(k): out.append(f"\n{t}: " + "; ".join(c[k]) + ".")
out.append("\n## 4. Genuine defects found and repaired\n\nEach is a `fix:` commit in /repo; the check that found it is named.\n")
for l in open(root + "/known_findings.txt"):
    if l.startswith("fixed:"):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l.strip())
        out.append(f"* {m.group(1)} `{m.group(2)}` {m.group(3)}")
out.append("\n" + open(here + "/design_tail.md").read())
out.append("\n## 9. Planted bugs\n\nEach is in `seeded/<id>/` with a demonstration; written from the property's text and the code, not from the checks.\n\n| id | property | needs | breaks | result |\n|---|---|---|---|---|")
res = {}
try: res = json.load(open(here + "/seedresults.json"))
except OSError: pass
for s in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{s}/meta.json"))
    out.append(f"| {s} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {res.get(s, '')} |")
open(root + "/DESIGN.md", "w").write("\n".join(out) + "\n")
