#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks (run after adding a check)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vsim import harness

NA = {
 "N01": "A pure function of its input: modulation and demodulation have no schedule, clock, fault or history for a simulator to decide (their seeds and bit sources are covered by C12).",
 "N02": "Closed-form functions of a number; no schedule, clock, I/O or interleaving.",
 "N03": "A pure function of order and seed; the simulator could only generate inputs (interference between generators is C12).",
 "N04": "Numerical accuracy of a pure function of its input (metadata and aliasing of the same functions are covered by C08 and C10).",
 "N06": "A pure layout conversion of a Matlab structure; no fault or schedule changes its outcome (reading damaged files of the native format is C05).",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    try:
        c = harness.load_check(i)
    except ModuleNotFoundError as e:
        if "vsim.checks" not in str(e):
            raise
        na.append({"property": i, "reason": "no check yet"})
        continue
    checks.append({"property": i, "quick_cmd": "./vs check " + i, "thorough_cmd": "VERIF_TIER=thorough ./vs check " + i,
                   "evidence_file": "evidence/%s.json" % i, "technique": c.technique, "level": c.level, "level_note": c.level_note})
m = {"version": 1, "setup_cmd": "./vs setup", "checks": checks, "not_applicable": na,
     "notes": "Every check is one deterministic simulator run by ./vs (see DESIGN.md); ./vs replay FILE repeats a reported violation."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print([c["property"] for c in checks], [n["property"] for n in na])
