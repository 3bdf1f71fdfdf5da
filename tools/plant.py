"""helper: plant(name, prop, needs, breaks, edits=[(file, old, new)], crates, demo) writes seeded/name"""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def plant(name, prop, needs, breaks, edits, crates, demo):
    d = os.path.join(HERE, "seeded", name)
    os.makedirs(d, exist_ok=True)
    assert subprocess.run("git -C /repo status --porcelain", shell=True, stdout=subprocess.PIPE, text=True).stdout == ""
    try:
        for f, a, b in edits:
            p = "/repo/" + f
            s = open(p).read()
            assert s.count(a) == 1, (f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        diff = subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE, text=True).stdout
    finally:
        subprocess.run("git -C /repo checkout -- .", shell=True)
    open(d + "/patch.diff", "w").write(diff)
    old = {}
    if os.path.exists(d + "/meta.json"):
        old = json.load(open(d + "/meta.json"))
    m = {"property": prop, "needs": needs, "what_it_breaks": breaks}
    if "caught_by" in old:
        m["caught_by"] = old["caught_by"]
    json.dump(m, open(d + "/meta.json", "w"), indent=1)
    subprocess.run(["python3", HERE + "/tools/mkdemo.py", name, ",".join(crates)], input=demo, text=True, check=True)
