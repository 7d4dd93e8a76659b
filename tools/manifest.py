#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the checks present (run after tools/props.py)."""
import json, os
import props
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
REPLAY = "TLA+ specification; TLC-generated behaviours replayed into the code"
TRACE = "TLA+ specification model-checked with TLC; traces of the code validated by TLC"
BOTH = "TLA+ specification; TLC-enumerated transitions replayed into the code and recorded traces validated by TLC"
# property -> (technique, level note)
NOTE = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
checks, na = [], []
for p in props.P:
    i = p["id"]
    if i in NOTE and os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        t, n = NOTE[i]
        checks.append({"property": i, "quick_cmd": "python3 checks/run.py %s quick" % i, "thorough_cmd": "python3 checks/run.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": "not yet covered by the specification"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ with TLC. Each check imports diffpy.srmise from /repo/src at run time (VERIF_REPO overrides the root, for trials on copies); no hooks are needed in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
