#!/opt/venv/bin/python
"""Try planted bugs in a scratch copy of /repo: trybug.py [--tests] ID...  (demo without and with the patch, stable tests, check)"""
import json, os, shutil, subprocess, sys, tempfile
import xml.etree.ElementTree as ET
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
tests = "--tests" in args
for bid in [a for a in args if not a.startswith("--")]:
    d = os.path.join(ROOT, "seeded", bid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    w = tempfile.mkdtemp(prefix="tb-", dir="/tmp")
    r = os.path.join(w, "repo")
    try:
        subprocess.check_call(["cp", "-a", os.environ.get("VSIM_REPO", "/repo"), r])
        def demo():
            p = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            return p.returncode, p.stdout.decode()[-300:]
        a = demo()
        subprocess.check_call(["git", "-C", r, "apply", os.path.join(d, "patch.diff")])
        if "pythran" in open(os.path.join(d, "patch.diff")).read():
            subprocess.check_call(["bash", "-c", "rm -f qampy/core/pythran_dsp.cpython* qampy/core/equalisation/pythran_equalisation.cpython*; /opt/venv/bin/python setup.py build_ext --inplace -j2 >/dev/null 2>&1"], cwd=r)
        b = demo()
        line = "%s: demo clean %d, patched %d" % (bid, a[0], b[0])
        if a[0] or not b[0]:
            line += " BAD " + a[1] + b[1]
        if tests:
            x = os.path.join(w, "junit.xml")
            env = dict(os.environ, PYTHONPATH="/opt/vp/plugins", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TMPDIR=w)
            subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "--tb=short", "-n", "8", "-p", "vp_seed", "-p", "no:cacheprovider", "--timeout=300", "--benchmark-disable", "--continue-on-collection-errors",
                            "-W", "ignore", "-o", "junit_family=xunit2", "--junitxml=" + x, "test", "qampy"], cwd=r, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            o = os.path.join(w, "o.json")
            subprocess.run(["python3", "/opt/vp/results.py", o, "junit:" + x], stdout=subprocess.DEVNULL)
            got = set(json.load(open(o))["passed"])
            lost = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in got]
            line += ", tests lost %d %s" % (len(lost), lost[:2])
        env = dict(os.environ, VSIM_REPO=r, VSIM_REPLAYS=os.path.join(w, "replays"))
        p = subprocess.run(["./vs", "check", meta["property"]], cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = p.stdout.decode()
        line += ", check exit %d %s" % (p.returncode, "CAUGHT" if p.returncode == 1 and "VIOLATION property=" + meta["property"] in out else "MISSED")
        print(line)
        print("   " + "\n   ".join([l for l in out.splitlines() if "kind:" in l or "detail:" in l or l.startswith("ERROR")][:4]), flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
