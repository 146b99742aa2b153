#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import checks
V = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
MODELS = "TLA+ machines of the indicators; TLC explores every short market, replays each through the code and validates the recorded executions step by step"
NOTE = ("Model-checked specification, bound to the code by trace validation: every market of the stated length over a small "
        "alphabet and seeded random markets are run through the real code and every published number must be a step of the machine. "
        "Trusts TLC, the 40-digit arithmetic of java/Num.java and the harness's logging; beyond the explored markets it is sampling.")
TECH = checks.TECHNIQUES
m = {"version": 1, "setup_cmd": "bin/check setup",
     "checks": [], "not_applicable": [],
     "notes": "Specification language: TLA+ (TLC). See DESIGN.md. No hooks: the harness uses the public API of /repo only."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        t, n = TECH.get(i, (MODELS, NOTE))
        m["checks"].append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                            "technique": t, "level": "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "its check is not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
