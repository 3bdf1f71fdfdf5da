#!/usr/bin/env python3
"""tryplant.py NAME [PROP...]: seeded/NAME/patch.diff against the demo, the repository's tests and the checks of PROP (default: meta's)"""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
name = sys.argv[1]
d = os.path.join(HERE, "seeded", name)
meta = json.load(open(d + "/meta.json"))
props = sys.argv[2:] or [meta["property"]]
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
t = time.time()
r = sh("bash %s/demo.sh" % d, cwd="/repo")
print("demo clean rc", r.returncode, "%.0fs" % (time.time() - t), "" if r.returncode == 0 else r.stdout[-1500:])
r = sh("git -C /repo apply %s/patch.diff" % d)
assert r.returncode == 0, r.stdout
try:
    r = sh("bash %s/demo.sh" % d, cwd="/repo")
    print("demo patched rc", r.returncode, r.stdout[-300:].replace("\n", " | "))
    if "--nocheck" not in sys.argv:
        r = sh("bash /opt/vp/build.sh")
        print("build rc", r.returncode, r.stdout[-800:] if r.returncode else "")
        sh("bash /opt/vp/test.sh /tmp/o.json")
        o = json.load(open("/tmp/o.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        print("tests failing", [x for x in base if x not in o["passed"]])
    caught = []
    for p in props:
        if p.startswith("--"):
            continue
        t = time.time()
        r = sh("python3 %s/run.py check %s" % (HERE, p))
        v = [l for l in r.stdout.splitlines() if l.startswith("violated") or l.startswith("VIOLATION")]
        print(p, "rc", r.returncode, "%.0fs" % (time.time() - t), " | ".join(l[:160] for l in v) or r.stdout[-600:])
        if r.returncode == 1:
            caught.append(p + ": " + "; ".join(sorted(set(l[10:].split(" with ")[0] for l in v if l.startswith("violated"))))[:200])
    meta["caught_by"] = ", ".join(caught) or "missed"
    json.dump(meta, open(d + "/meta.json", "w"), indent=1)
finally:
    sh("git -C /repo checkout -- .")
print("->", meta["caught_by"])
