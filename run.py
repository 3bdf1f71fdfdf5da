#!/usr/bin/env python3
"""Driver. `run.py setup` builds everything; `run.py check ID [--tier quick|thorough]` decides one property."""
import json, os, subprocess, sys, time, glob, re
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS

HARNESS = os.path.join(HERE, "harness")
ENGINE = os.path.join(HERE, "engine", "target", "release", "sxe")
EVID = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(HERE, "replays")
KNOWN = os.path.join(HERE, "known_findings.txt")
TRIPLE = "riscv64gc-unknown-linux-gnu"


def base_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_PROFILE", "RUSTFLAGS", "CARGO_BUILD", "CARGO_ENCODED")):
            del e[k]
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["RUSTC_WRAPPER"] = ""
    e["RUSTC_BOOTSTRAP"] = "1"
    return e


def errs(s):
    i = s.find("error")
    return s[i:i + 6000] if i >= 0 else s[-6000:]


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def run(cmd, env, cwd, log=None):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return r


def build_engine():
    e = base_env()
    e["CARGO_TARGET_DIR"] = os.path.join(HERE, "engine", "target")
    e["RUSTFLAGS"] = "-Awarnings"
    r = run(["cargo", "build", "--release", "--offline", "-q"], e, os.path.join(HERE, "engine"))
    if r.returncode:
        die("engine build failed\n" + r.stderr[-4000:])


def build_ir(crates):
    """LLVM IR of the harness, the contracts and everything below them, including std. Returns {crate: [files]}"""
    e = base_env()
    e["CARGO_TARGET_DIR"] = os.path.join(HARNESS, "target-ir")
    e["CARGO_PROFILE_DEV_PANIC"] = "abort"
    e["RUSTFLAGS"] = (
        "--emit=llvm-ir -Csymbol-mangling-version=v0 -Zmir-opt-level=1 -Zinline-mir=no "
        "-Cno-prepopulate-passes -Awarnings -Clinker=" + os.path.join(HERE, "irlink.sh")
    )
    cmd = ["cargo", "build", "--offline", "--locked", "-Zchecksum-freshness", "-Zbuild-std=std,panic_abort", "--target", TRIPLE,
           "--lib", "--message-format=json-render-diagnostics"]
    for c in crates:
        cmd += ["-p", c]
    r = run(cmd, e, HARNESS)
    if r.returncode:
        die("build of /repo for symbolic execution failed\n" + errs(r.stderr))
    out = []
    for l in r.stdout.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("reason") != "compiler-artifact" or "custom-build" in m["target"]["kind"] or "proc-macro" in m["target"]["kind"]:
            continue
        hit = None
        for f in m["filenames"]:
            if TRIPLE not in f:
                continue
            d, b = os.path.split(f)
            if b.startswith("lib") and b.endswith((".rlib", ".rmeta")):
                p = os.path.join(d, b[3:].rsplit(".", 1)[0] + ".ll")
                if os.path.exists(p):
                    hit = p
        if not hit:
            for f in m["filenames"]:
                if TRIPLE in f and f.endswith(".rlib"):
                    d, b = os.path.split(f)
                    g = glob.glob(os.path.join(d, "deps", b[3:-5] + "-*.ll")) + glob.glob(os.path.join(d, "deps", b[3:-5] + ".ll"))
                    if g:
                        hit = max(g, key=os.path.getmtime)
        if hit:
            out.append(hit)
    return sorted(set(out))


def build_native(crates):
    e = base_env()
    e["CARGO_TARGET_DIR"] = os.path.join(HARNESS, "target")
    e["RUSTFLAGS"] = "-Awarnings"
    cmd = ["cargo", "build", "--offline", "--locked", "-q", "-Zchecksum-freshness"]
    for c in crates:
        cmd += ["-p", c]
    r = run(cmd, e, HARNESS)
    if r.returncode:
        die("native harness build failed\n" + errs(r.stderr))


def sxe(entry, files, opts, tier):
    lf = os.path.join(HARNESS, "target-ir", "files-%s.%d.tmp" % (entry, os.getpid()))
    with open(lf, "w") as f:
        f.write("\n".join(files) + "\n")
    cmd = [ENGINE, "--entry", entry, "--files", lf] + [str(x) for x in opts]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    finally:
        os.remove(lf)
    for l in r.stdout.splitlines():
        if l.startswith("{"):
            d = json.loads(l)
            if "error" in d:
                die(entry + ": " + d["error"])
            return d
    die("engine gave no result for %s (exit %s)\n%s" % (entry, r.returncode, r.stderr[-3000:]))


def native(crate, entry, model, choices, path=None):
    tmp = path or os.path.join(HARNESS, "target", "model-%d-%s.tmp" % (os.getpid(), entry))
    with open(tmp, "w") as f:
        for k, v in model.items():
            f.write("v %s %s\n" % (k, v))
        for k, v in choices:
            f.write("c %s %s\n" % (k, v))
    e = base_env()
    e["SX_MODEL"] = tmp
    try:
        r = subprocess.run([os.path.join(HARNESS, "target", "debug", crate), entry], env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=120)
        out = r.stdout.splitlines()
    except subprocess.TimeoutExpired:
        out = ["end timeout"]
    if not path:
        os.remove(tmp)
    return out


def known_findings():
    """{(property, entry, label)} of the recorded, unrepaired findings"""
    s = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) entry=(\S+) label=\"(.*?)\" (.*)", l.strip())
            if m:
                s[(m[1], m[2], m[3])] = m[4]
    return s


def check(pid, tier):
    t0 = time.time()
    p = PROPS[pid]
    crates = sorted(set(en["crate"] for en in p["entries"]))
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    with ThreadPoolExecutor(4) as ex:
        f1 = ex.submit(build_engine)
        f2 = {c: None for c in crates}
        f3 = ex.submit(build_native, crates)
        files = {}

        def irs():
            for c in crates:
                files[c] = build_ir([c])
        f4 = ex.submit(irs)
        for f in (f1, f3, f4):
            try:
                f.result()
            except SystemExit:
                raise
    t_build = time.time() - t0
    known = known_findings()
    tot = dict(paths=0, completed=0, reverted=0, forks=0, steps=0, queries=0, unsat=0, sat=0, unknown=0)
    solver_s = 0.0
    fns = set()
    checks = {}
    samples, und, prob, per = [], [], [], []
    viol, kf = [], []
    validated = mism = 0
    rc = 0
    for en in p["entries"]:
        if en.get("tier") == "thorough" and tier != "thorough":
            continue
        opts = list(en.get("opts", []))
        if tier == "thorough":
            opts += ["--check-ms", "10000", "--fork-ms", "5000", "--hard", "120", "--time", str(en.get("ttime", 3600))]
            opts += list(en.get("topts", []))
        else:
            opts += ["--time", str(en.get("time", 240))]
        e = en["entry"]
        r = sxe(e, files[en["crate"]], opts, tier)
        for k in tot:
            tot[k] += r.get(k, 0)
        solver_s += r["solver_s"]
        fns |= set(r["functions"])
        for l, c in r["checks"].items():
            a = checks.setdefault(e + ": " + l, {"simplified": 0, "solver": 0, "portfolio": 0})
            a["simplified"] += c["trivial"]
            a["solver"] += c["proved"]
            a["portfolio"] += c["hard"]
        for l, n in r["undecided"].items():
            und.append("%s: %s (%d)" % (e, l, n))
        if r["left"]:
            und.append("%s: %d unexplored alternatives" % (e, r["left"]))
        for l, n in r["problems"].items():
            und.append("%s: %s (%d)" % (e, l, n))
        for c in en.get("covers", []):
            if r["covers"].get(c):
                continue
            if r["left"] or r["problems"] or r["unknown"] or not r["paths"]:
                und.append("%s: not reached within the limits: %s" % (e, c))
            else:
                # everything was explored and no input gets there: a run shows where it ends instead
                path = os.path.join(REPLAYS, "%s-%s-unreached-%s.txt" % (pid, e, c.replace(" ", "_")))
                sm = r["samples"][0] if r["samples"] else {"model": {}, "choices": []}
                out = native(en["crate"], e, sm["model"], sm["choices"], path)
                with open(path, "a") as f:
                    f.write("# property %s, entry %s (crate %s): no input completes '%s'\n" % (pid, e, en["crate"], c))
                    for l in out:
                        f.write("# " + l + "\n")
                    for l, n in sorted(r["panics"].items()):
                        f.write("# path ends: %d x %s\n" % (n, l))
                viol.append(("no input completes '%s'" % c, path, sm["model"]))
        # validate the encoding: run sampled path models on the native build and compare what was observed
        for s in r["samples"]:
            out = native(en["crate"], e, s["model"], s["choices"])
            got = [l[4:] for l in out if l.startswith("obs ")]
            want = ["%s %s" % (v, l) for l, v in s["obs"]]
            if got[:len(want)] == want:
                validated += 1
            else:
                mism += 1
                prob.append("%s: native run differs from the encoding: %s vs %s (%s)" % (e, got, want, s["model"]))
            if len(samples) < 4:
                samples.append({"entry": e, "model": s["model"], "choices": s["choices"], "observed": s["obs"]})
        done = set()
        for v in r["violations"]:
            if v["label"] in done:
                continue
            i = len(glob.glob(os.path.join(REPLAYS, "%s-%s-*" % (pid, e))))
            path = os.path.join(REPLAYS, "%s-%s-%d.txt" % (pid, e, i))
            out = native(en["crate"], e, v["model"], v["choices"], path)
            lab = v["label"]
            ok = any(l == "check 0 " + lab for l in out)
            if not ok:
                os.remove(path)
                und.append("%s: counterexample does not reproduce natively: %s %s" % (e, lab, v["model"]))
                continue
            done.add(lab)
            with open(path, "a") as f:
                f.write("# property %s, entry %s (crate %s), violated: %s\n# replay: SX_VERBOSE=1 SX_MODEL=%s %s %s\n" % (
                    pid, e, en["crate"], lab, path, os.path.join(HARNESS, "target", "debug", en["crate"]), e))
                for l in out:
                    f.write("# " + l + "\n")
            if (pid, e, lab) in known:
                kf.append((lab, known[(pid, e, lab)]))
            else:
                viol.append((lab, path, v["model"]))
        # a counterexample that failed to reproduce does not matter once another one for the label did
        und = [x for x in und if not any(x.startswith("%s: counterexample does not reproduce natively: %s " % (e, l)) for l in done)]
        per.append({"entry": e, "paths": r["paths"], "completed": r["completed"], "reverted": r["reverted"], "left": r["left"],
                    "covers": r["covers"], "explore_s": r["explore_s"], "solver_s": r["solver_s"], "queries": r["queries"],
                    "panic_sites": len(r["panics"]), "hard_by": r["hard_by"]})
    discharged = sum(sum(c.values()) for c in checks.values())
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": tot["paths"],
            "transitions": tot["forks"],
            "traces_validated_against_impl": validated,
            "samples": samples,
            "what_counts": "states: symbolic end states (one per explored path, each a set of inputs); transitions: branch decisions "
                           "taken on symbolic conditions; traces: path models re-run on the native build with equal observations",
            "paths_completed": tot["completed"],
            "paths_ending_in_panic": tot["reverted"],
            "instructions_executed_symbolically": tot["steps"],
            "solver_queries": tot["queries"],
            "solver_unsat": tot["unsat"],
            "solver_sat": tot["sat"],
            "solver_unknown": tot["unknown"],
            "solver_seconds": round(solver_s, 2),
            "assertions": checks,
            "assertions_discharged": discharged,
            "undecided": und,
            "problems": prob,
            "entries": per,
            "functions_encoded": len(fns),
            "repo_functions_encoded": sorted(f for f in fns if "astro" in f)[:400],
            "bounds": p.get("bounds", ""),
            "known_findings": [k[0] for k in kf],
            "build_s": round(t_build, 1),
        },
        "assumptions": p.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d paths, %d assertions discharged, %d queries, solver %.1fs, build %.1fs, wall %.1fs" % (
        pid, tier, tot["paths"], discharged, tot["queries"], solver_s, t_build, time.time() - t0))
    for l, w in sorted(set(kf)):
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, l, w))
    for x in und:
        print("UNDECIDED: " + x)
    for x in prob:
        print("PROBLEM: " + x[:600])
    for lab, path, model in viol:
        print("violated: %s with %s" % (lab, json.dumps(model)[:400]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if viol:
        return 1
    if prob:
        return 2
    return rc


def setup():
    t0 = time.time()
    crates = sorted(set(en["crate"] for p in PROPS.values() for en in p["entries"]))
    build_engine()
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(build_native, crates)
        b = ex.submit(build_ir, crates)
        a.result()
        b.result()
    print("setup done in %.0fs" % (time.time() - t0))
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "setup":
        sys.exit(setup())
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    try:
        sys.exit(check(sys.argv[2], tier))
    except SystemExit:
        raise
    except BaseException as ex:
        import traceback
        traceback.print_exc()
        sys.exit(2)
