#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
commits = [l.split()[0] for l in hooks.splitlines() if l.split(" ", 1)[1].startswith("verif:")]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": "VERIF_TIER=quick python3 run.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
        "technique": "TLA+ specification model-checked with TLC, bound to the code by " + p.get("binding", "trace validation"),
        "level": "model_checking",
        "level_note": p["what"] + ". Conformance covers the recorded/replayed behaviours, not all inputs."
                      + (" Assumes: " + "; ".join(p["assumptions"]) if p["assumptions"] else ""),
    })
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "hooks": {"guard": "build tag verif",
               "enable": "go build -tags verif (the checks of the main program; GOSLIDE_VERIF_TRACE names the trace file)",
               "source_commits": commits},
     "checks": checks,
     "not_applicable": [{"property": i, "reason": "check under construction"} for i in ids if i not in PROPS],
     "notes": "See DESIGN.md. Repaired defects are listed in KNOWN_FINDINGS.md."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
