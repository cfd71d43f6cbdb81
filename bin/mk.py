#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from bin/props.py (run after editing it)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
import props

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for pid, p in sorted(props.PROPS.items()):
        t = p["text"]
        assert len(t["title"]) <= 80, pid
        f.write(json.dumps({
            "id": pid, "title": t["title"], "statement": t["statement"],
            "quantifier": {"over": t["over"], "text": t["qtext"]},
            "why_tests_cant": t["why"],
            "anchors": {"files": t["files"], "mechanism": [{"name": n, "where": w} for n, w in t["mech"]],
                        "observe_at": t.get("observe", "sockets of the bouncer (clients and networks) and its database")},
        }) + "\n")
checks = []
for pid, p in sorted(props.PROPS.items()):
    specs = sorted({x["spec"] for x in p["parts"]})
    checks.append({
        "property": pid,
        "quick_cmd": "bin/check.py %s --tier quick" % pid,
        "thorough_cmd": "bin/check.py %s --tier thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": "TLA+ specification (%s) model-checked with TLC; behaviours of the specification replayed into the real code" % ", ".join(specs),
        "level": "model_checking",
        "level_note": p.get("note", "Exhaustive for the specification within the bounds of the configuration; sampled (seeded) for the conformance of the code to it. Trusts TLC, the harness's fake networks and its reading of the observations."),
    })
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bin/setup.sh", "checks": checks, "not_applicable": props.NOT_APPLICABLE}, f, indent=1)
    f.write("\n")

# DESIGN.md
import glob, runpy
D = runpy.run_path(os.path.join(HERE, "docs", "details.py"))["D"]
tmpl = open(os.path.join(HERE, "docs", "DESIGN.tmpl.md")).read()
rows = ["| | property | specification | replayed (quick; thorough) |", "|---|---|---|---|"]
for pid, p in sorted(props.PROPS.items()):
    g = [x["gen"] for x in p["parts"] if x.get("gen")]
    fmt = lambda t: " + ".join("%d x %d" % x[t] for x in g)
    rows.append("| %s | %s | %s | %s; %s |" % (pid, p["text"]["title"], ", ".join(sorted({x["spec"] for x in p["parts"]})), fmt("quick"), fmt("thorough")))
det = []
for pid, p in sorted(props.PROPS.items()):
    det.append("**%s. %s.**  %s" % (pid, p["text"]["title"], D[pid]))
fx = ["- %s (%s): %s" % (k["property"], k["commit"], k["what"]) for k in json.load(open(os.path.join(HERE, "known-findings.json"))) if k["status"] == "fixed"]
caught = json.load(open(os.path.join(HERE, "docs", "caught.json")))
sd = ["| bug | property | what it breaks | needs | caught by its check |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    sd.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], caught.get(i, "?")))
na = ["- %s: %s" % (x["property"], x["reason"]) for x in props.NOT_APPLICABLE]
for k, v in [("TABLE", "\n".join(rows)), ("DETAILS", "\n\n".join(det)), ("FIXED", "\n".join(fx)), ("SEEDED", "\n".join(sd))]:
    tmpl = tmpl.replace("@@%s@@" % k, v)
open(os.path.join(HERE, "DESIGN.md"), "w").write(tmpl)
