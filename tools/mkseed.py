#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a list of planted bugs and confirms each one.

usage: mkseed.py SPEC.py   (SPEC defines SEEDS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)])
"""
import json, os, subprocess, sys, tempfile, shutil
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
DEMO = '''#!/bin/bash
# exit 0 when the property holds on this input, 1 when it does not
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$PWD/zzdemo/main.go\\":\\"$d/demo.go\\"}}" > "$t/o.json"
go build -overlay "$t/o.json" -o "$t/demo" ./zzdemo || exit 3
cd "$t" && timeout 120 ./demo
'''
env = dict(os.environ)
def run(cmd, cwd, t=600):
    p = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for s in ns["SEEDS"]:
    if only and s["id"] not in only: continue
    w = "/tmp/seed/" + s["id"]
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", w])
    out = os.path.join(root, "seeded", s["id"])
    os.makedirs(out, exist_ok=True)
    open(out + "/demo.go", "w").write(s["demo"].lstrip())
    open(out + "/demo.sh", "w").write(DEMO)
    os.chmod(out + "/demo.sh", 0o755)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(out + "/meta.json", "w"), indent=1)
    ok = True
    rc, o = run(out + "/demo.sh", w)
    if rc != 0: ok = False; print(s["id"], "demo fails on the base:", rc, o[-600:])
    for f, old, new in s["edits"]:
        t = open(w + "/" + f).read()
        if t.count(old) != 1: ok = False; print(s["id"], f, "old text found", t.count(old), "times"); continue
        open(w + "/" + f, "w").write(t.replace(old, new))
    rc, o = run("gofmt -l $(git diff --name-only); go vet $(git diff --name-only | xargs -n1 dirname | sort -u | sed 's,^,./,') 2>&1 | grep -v unkeyed | grep -v '^#' | head -5; go build ./...", w)
    if rc != 0: ok = False; print(s["id"], "does not build", o[-600:])
    rc, o = run("git diff > patch.out; cat patch.out", w)
    open(out + "/patch.diff", "w").write(o)
    rc, o = run("go test -vet=off -count=1 -json ./... 2>/dev/null", w)
    passed = set()
    for l in o.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get("Action") == "pass" and "Test" in d: passed.add((d["Package"], d["Test"]))
    names = {p + "." + t for p, t in passed} | {p + "::" + t for p, t in passed} | {t for p, t in passed} | {p + "/" + t for p, t in passed}
    lost = [x for x in stable if x not in names]
    if lost: ok = False; print(s["id"], "breaks tests:", lost[:5])
    rc, o = run(out + "/demo.sh", w)
    if rc in (0, 3): ok = False; print(s["id"], "demo does not fail:", rc, o[-300:])
    print(s["id"], "ok" if ok else "BAD", o.strip()[-100:].replace("\n", " | ") if ok else "")
    if not ok and not os.environ.get("KEEP"): shutil.rmtree(out)
    shutil.rmtree(w, ignore_errors=True)
