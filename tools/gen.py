#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import props
ids = sorted(list(props.PROPS) + list(props.NOT_APPLICABLE))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for i in ids:
        t = (props.PROPS.get(i) or props.NOT_APPLICABLE.get(i))["text"]
        assert len(t["title"]) <= 80, t["title"]
        for x in t["anchors"]["files"]:
            assert os.path.exists("/repo/" + x), x
        f.write(json.dumps(t) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "checks": [{
        "property": i,
        "quick_cmd": "python3 run.py check %s --tier quick" % i,
        "thorough_cmd": "python3 run.py check %s --tier thorough" % i,
        "technique": props.TECH,
        "level": "model_checking",
        "level_note": props.NOTE + (" " + p["note"] if p["note"] else "") + " Bounds: " + p["bounds"],
    } for i, p in sorted(props.PROPS.items())],
    "not_applicable": [{"property": i, "reason": p["reason"]} for i, p in sorted(props.NOT_APPLICABLE.items())],
    "notes": "All checks share one engine (/verif/engine) and one set of harness crates (/verif/harness); see DESIGN.md.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

# DESIGN.md
import glob
o = open(os.path.join(HERE, "tools/design_head.md")).read()
o += "\n## Properties\n"
for i, p in sorted(props.PROPS.items()):
    o += "\n### %s %s\n\n%s\n\n" % (i, p["text"]["title"], p["text"]["statement"])
    o += "- Quantified over: %s\n- Why tests cannot: %s\n- Entries (symbolic, decided by SMT): %s\n- Bounds: %s\n" % (
        p["text"]["quantifier"]["text"], p["text"]["why_tests_cant"],
        ", ".join("`%s`%s" % (e["entry"], " (thorough)" if e.get("tier") == "thorough" else "") for e in p["entries"]), p["bounds"])
    for a in p["assumptions"]:
        o += "- Assumes: %s\n" % a
for i, p in sorted(props.NOT_APPLICABLE.items()):
    o += "\n### %s %s (not applicable)\n\n%s\n\nReason: %s\n" % (i, p["text"]["title"], p["text"]["statement"], p["reason"])
o += "\n## Planted changes and the checks that catch them\n\n| change | property | caught by | what it breaks |\n|---|---|---|---|\n"
for d in sorted(glob.glob(os.path.join(HERE, "seeded/*/meta.json"))):
    t = json.load(open(d))
    o += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), t["property"], t.get("caught_by", "?"), t["what_it_breaks"])
open(os.path.join(HERE, "DESIGN.md"), "w").write(o)
