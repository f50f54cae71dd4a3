#!/usr/bin/env python3
"""Single table behind properties.jsonl and MANIFEST.json (run after editing:
python3 tools/props.py).  A property whose checks/<id>.py exists is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/GTMesh/"
P = []


def p(id, title, statement, over, quant, why, files, mech, tech="", note="", na=None, level="proof", observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  tech=tech, note=note, na=na, level=level, observe=observe))


NF = "the clang front end, LLVM's scalar simplifications and lib/norm.py are trusted; arithmetic is compared as real-number algebra (re-association accepted, rounding ignored) and distinct reference parameters are taken not to alias unless one test says so"
VF = "static value-flow equivalence: normalised LLVM IR of each instantiation against an independent reference program"

exec(open(os.path.join(V, "tools", "props_table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in P:
        d = {"id": q["id"], "title": q["title"], "statement": q["statement"],
             "quantifier": {"over": q["over"], "text": q["quant"]}, "why_tests_cant": q["why"],
             "anchors": {"files": [S + x for x in q["files"]],
                         "mechanism": [{"name": a, "where": b} for a, b in q["mech"]], "hook_needed": None}}
        if q["observe"]:
            d["anchors"]["observe_at"] = q["observe"]
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for q in P:
    if q["na"] is None and os.path.exists(os.path.join(V, "checks", q["id"] + ".py")):
        checks.append({"property": q["id"], "quick_cmd": "./run.sh %s quick" % q["id"], "thorough_cmd": "./run.sh %s thorough" % q["id"],
                       "technique": q["tech"], "level": q["level"], "level_note": q["note"]})
    else:
        na.append({"property": q["id"], "reason": q["na"] or "check not built yet; nothing is claimed for it"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are static: they compile witness translation units against /repo's headers with clang and decide on the IR or the syntax tree; nothing of /repo is executed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties,", len(checks), "claimed:", " ".join(c["property"] for c in checks))
