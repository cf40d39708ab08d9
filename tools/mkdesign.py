#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + repaired defects + planted bugs."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = lambda *p: os.path.join(ROOT, *p)
out = open(J("tools", "design_head.md")).read()
f = json.load(open(J("known_findings.json")))
out += "\n" + "\n".join("* " + x for x in f["fixed"]) + "\n"
if f["findings"]:
    out += "\nRecorded, not repaired:\n\n" + "\n".join("* " + json.dumps(x) for x in f["findings"]) + "\n"
out += ("\n## Planted bugs (`seeded/`)\n\nEach was written from the text of its property, changes lines of the original code, passes all stable tests, and was tried with `tools/trybug.py --tests` "
        "(demo on both trees, stable tests, the property's check). The check that catches it is that of its property"
        "; bugs that were missed at first led to the changes noted.\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n")
notes = json.load(open(J("tools", "catch_notes.json")))
for d in sorted(glob.glob(J("seeded", "*"))):
    b = os.path.basename(d)
    m = json.load(open(os.path.join(d, "meta.json")))
    out += "| %s | %s | %s | %s |\n" % (b, m["property"], m["needs"], notes.get(b, m["property"]))
out += open(J("tools", "design_tail.md")).read() if os.path.exists(J("tools", "design_tail.md")) else ""
open(J("DESIGN.md"), "w").write(out)
