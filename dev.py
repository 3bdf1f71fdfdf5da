#!/usr/bin/env python3
"""dev.py CRATE ENTRY[,ENTRY..] [engine options]: build and run entries, print a summary, replay violations natively."""
import sys, json, time
import run as R
crate, ents = sys.argv[1], sys.argv[2].split(",")
opts = sys.argv[3:]
R.build_engine(); files = R.build_ir([crate]); R.build_native([crate])
for e in ents:
    t = time.time()
    d = R.sxe(e, files, opts or ["--time", "120"], "quick")
    print("== %s: %.1fs paths %d done %d rev %d infeas %d assumed %d left %d forks %d q %d unk %d solver %.0fs steps %.1fM" % (e, time.time() - t, d["paths"], d["completed"], d["reverted"], d["infeasible"], d["assumed_away"], d["left"], d["forks"], d["queries"], d["unknown"], d["solver_s"], d["steps"] / 1e6))
    for k, v in d["covers"].items(): print("   cover", k, v)
    for k, v in d["checks"].items(): print("   check %-70s" % k, v["trivial"], v["proved"], v["hard"])
    for k, v in d["undecided"].items(): print("   UNDECIDED", k, v)
    for k, v in d["problems"].items(): print("   PROBLEM", k[:400], v)
    for k, v in sorted(d["panics"].items()): print("   panic", v, k[:190])
    seen = set()
    for v in d["violations"]:
        if v["label"] in seen: continue
        out = R.native(crate, e, v["model"], v["choices"])
        ok = "check 0 " + v["label"] in out
        if ok: seen.add(v["label"])
        print("   VIOL", "native-confirmed" if ok else "NOT REPRODUCED", v["label"], v["model"], v["choices"], v.get("note"), "" if ok else out)
    bad = 0
    for s in d["samples"]:
        out = R.native(crate, e, s["model"], s["choices"])
        got = [l[4:] for l in out if l.startswith("obs ")]
        want = ["%s %s" % (v, l) for l, v in s["obs"]]
        if got[:len(want)] != want:
            bad += 1
            if bad <= 2: print("   MISMATCH", s["model"], s["choices"], want, got, out[-3:])
    print("   samples %d mismatching %d" % (len(d["samples"]), bad))
