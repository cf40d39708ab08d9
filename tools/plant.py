#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from the descriptions in tools/plants/*.py (old -> new replacements in a scratch copy of /repo)."""
import glob, json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore MPLBACKEND=Agg OMP_NUM_THREADS=%s OPENBLAS_NUM_THREADS=1
exec timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def plant(id, prop, needs, breaks, edits, demo, threads=1):
    d = os.path.join(ROOT, "seeded", id)
    w = "/tmp/plant-work"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", os.environ.get("VSIM_REPO", "/repo"), w])
    for f, old, new in edits:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w, "diff"]).decode()
    shutil.rmtree(w)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % threads)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)


if __name__ == "__main__":
    want = sys.argv[1:]
    for f in sorted(glob.glob(os.path.join(ROOT, "tools", "plants", "*.py"))):
        g = {}
        exec(compile(open(f).read(), f, "exec"), g)
        for b in g["BUGS"]:
            if not want or b["id"] in want:
                plant(**b)
                print(b["id"])
