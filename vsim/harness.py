"""Seeded search over simulated runs: generation, isolation, replay, minimisation, evidence.

One integer (VERIF_SEED) decides everything: run i of a check is generated from the string
"<seed>:<check>:<i>" and executed in a process of its own, forked from a worker that has only
imported the code, so that no run sees what another left behind and the result does not depend on
which worker executes it.
"""
import collections
import hashlib
import importlib
import json
import os
import random
import select
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
EVIDENCE = os.path.join(ROOT, "evidence")
REPLAYS = os.environ.get("VSIM_REPLAYS", os.path.join(ROOT, "replays"))
KNOWN = os.path.join(ROOT, "known_findings.json")
RUN_TIMEOUT = float(os.environ.get("VSIM_RUN_TIMEOUT", "150"))
CRASH_SIGNALS = {signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL}


class HarnessError(Exception):
    """the simulator, not the code under test, is at fault"""


class Result:
    """Outcome of one simulated run."""

    def __init__(self):
        self.violation = None      # {"kind":, "key":, "detail":}
        self.log = hashlib.sha256()
        self.stats = collections.Counter()
        self.states = set()        # distinct states / interleavings reached (hashes)
        self.nontrivial = False
        self.sim_steps = 0
        self.concrete = None       # scenario with all decisions made explicit (for replay)
        self.note = None

    def event(self, *a):
        self.log.update(repr(a).encode())
        self.log.update(b"\n")

    def fail(self, kind, detail, key=None):
        if self.violation is None:
            self.violation = {"kind": kind, "key": key or kind, "detail": str(detail)[:2000]}
        self.event("VIOLATION", kind)

    def state(self, *a):
        self.states.add(hashlib.sha256(repr(a).encode()).hexdigest()[:16])

    def dump(self):
        return {"violation": self.violation, "log": self.log.hexdigest()[:32], "stats": dict(self.stats),
                "states": sorted(self.states), "nontrivial": bool(self.nontrivial),
                "sim_steps": int(self.sim_steps), "concrete": self.concrete, "note": self.note}


class Check:
    id = None
    level = "exploration"
    level_note = ("Seeded sampling of schedules, faults and histories of the real code: a clean batch is evidence, not proof. "
                  "Every reported violation replays exactly.")
    technique = "deterministic simulation"
    variant = "plain"              # kernels: "sim", "plain"
    runs = {"quick": 200, "thorough": 2000}
    rule = ""
    real = []                      # components that ran real code
    stubs = []                     # components that were simulated
    assumptions = []
    determinism = {"quick": 24, "thorough": 200}
    preload = False                # run behind the simulated disk
    library_errors = True          # an exception from the library that the check does not expect is a violation
    minimise_budget = 150
    minimise_seconds = 60

    def setup(self):
        pass

    def gen(self, rng, tier, index):
        raise NotImplementedError

    def run(self, sc, res):
        raise NotImplementedError

    def shrink(self, sc):
        return []

    def summarise(self, evidence, results):
        pass


def load_check(cid):
    mod = importlib.import_module("vsim.checks." + cid.lower())
    return mod.CHECK()


def derive(seed, cid, index):
    return random.Random("%d:%s:%d" % (seed, cid, index))


def _from_library(e):
    """Did the library (called by a check) raise this, directly or through numpy?"""
    from vsim import kernels
    names = []
    tb = e.__traceback__
    while tb:
        names.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    lib = os.path.join(kernels.REPO, "qampy") + os.sep
    return any(n.startswith(lib) for n in names) and not names[-1].startswith(HERE)


# ------------------------------------------------------------------------------- executing one run
def _child(check, sc, wfd):
    import numpy as np
    res = Result()
    try:
        s = sc.get("seed", 0) & 0xffffffff
        random.seed(s)
        np.random.seed(s)
        check.run(sc, res)
        out = res.dump()
    except HarnessError as e:
        out = {"error": "harness: %s" % e, "tb": traceback.format_exc()}
    except BaseException as e:
        if _from_library(e) and check.library_errors:
            # the workloads are legal calls: an exception nobody expected is the library's
            res.fail("unexpected exception", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]), key="exception:" + type(e).__name__)
            out = res.dump()
        else:
            out = {"error": "exception in check: %r" % (e,), "tb": traceback.format_exc()}
    data = json.dumps(out).encode()
    off = 0
    while off < len(data):
        off += os.write(wfd, data[off:off + 65536])
    os.close(wfd)


def execute(check, sc, timeout=None):
    """Run one scenario in a forked process."""
    timeout = timeout or RUN_TIMEOUT
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            os.close(r)
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 0)
            os.dup2(dn, 1)
            if not os.environ.get("VSIM_DEBUG"):
                os.dup2(dn, 2)
            _child(check, sc, w)
        finally:
            os._exit(0)
    os.close(w)
    buf = []
    t0 = time.time()
    timed_out = False
    while True:
        left = timeout - (time.time() - t0)
        if left <= 0:
            timed_out = True
            break
        rl, _, _ = select.select([r], [], [], min(left, 5))
        if rl:
            d = os.read(r, 1 << 16)
            if not d:
                break
            buf.append(d)
    os.close(r)
    if timed_out:
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return {"timeout": True}
    if os.WIFSIGNALED(status):
        return {"signal": os.WTERMSIG(status)}
    try:
        return json.loads(b"".join(buf).decode())
    except ValueError:
        return {"error": "run ended with status %d and no result" % os.WEXITSTATUS(status)}


def settle(check, sc, out):
    """Turn crashes and hangs of a run into violations, if they repeat."""
    if "signal" in out and out["signal"] in CRASH_SIGNALS:
        again = execute(check, sc)
        if again.get("signal") == out["signal"]:
            r = Result()
            r.fail("crash", "the process died with %s" % signal.Signals(out["signal"]).name)
            return r.dump()
        return {"error": "run died with signal %d once only" % out["signal"]}
    if "timeout" in out:
        again = execute(check, sc)
        if "timeout" in again:
            r = Result()
            r.fail("hang", "no progress within %.0f s of real time, twice" % RUN_TIMEOUT)
            return r.dump()
        return again
    if "signal" in out:
        return {"error": "run was killed with signal %d" % out["signal"]}
    return out


# ------------------------------------------------------------------------------------------ worker
def prepare(check):
    from vsim import kernels
    os.umask(0o022)
    if check.variant:
        kernels.install(kernels.build(check.variant))
        from vsim import pysim
        pysim.patch_locks()
        # import once, so that the forked runs do not
        for m in ("qampy", "qampy.signals", "qampy.equalisation", "qampy.phaserec", "qampy.impairments", "qampy.filtering", "qampy.io", "qampy.helpers",
                  "qampy.theory", "qampy.analog_frontend", "qampy.core.signal_quality", "qampy.core.prbs", "qampy.core.pilotbased_receiver", "qampy.core.ber_functions"):
            try:
                importlib.import_module(m)
            except ModuleNotFoundError:
                pass
    check.setup()


def ensure_preload(check):
    if check.preload:
        from vsim import fs
        fs.ensure_preload()


def worker_main(argv):
    ensure_preload(load_check(argv[0]))
    cid, tier, seed, w, nw, nruns, outfd = argv[0], argv[1], int(argv[2]), int(argv[3]), int(argv[4]), int(argv[5]), int(argv[6])
    indices = [int(x) for x in argv[7].split(",")] if len(argv) > 7 else range(w, nruns, nw)
    out = os.fdopen(outfd, "w")
    try:
        check = load_check(cid)
        prepare(check)
        nfail = 0
        for i in indices:
            sc = check.gen(derive(seed, cid, i), tier, i)
            sc.setdefault("index", i)
            res = settle(check, sc, execute(check, sc))
            res["index"] = i
            if res.get("violation"):
                res["scenario"] = res.get("concrete") or sc
                nfail += 1
            elif i < 3:
                res["scenario"] = sc
            res.pop("concrete", None)
            out.write(json.dumps(res) + "\n")
            out.flush()
            if nfail >= 5:     # plenty to minimise from
                break
        out.write(json.dumps({"done": w, "stopped": nfail >= 5}) + "\n")
    except BaseException as e:
        out.write(json.dumps({"fatal": repr(e), "tb": traceback.format_exc()}) + "\n")
    out.flush()
    return 0


def _env(hashseed="0"):
    env = dict(os.environ)
    env.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONHASHSEED=hashseed,
               PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MALLOC_PERTURB_="165", LANG="C.UTF-8", LC_ALL="C.UTF-8",
               PYTHONWARNINGS="ignore", PYTHONPATH=ROOT)
    return env


def spawn(check, tier, seed, nw, nruns, indices=None, hashseed="0"):
    procs = []
    for w in range(nw):
        r, wfd = os.pipe()
        args = [sys.executable, "-m", "vsim", "worker", check.id, tier, str(seed), str(w), str(nw), str(nruns), str(wfd)]
        if indices is not None:
            mine = indices[w::nw]
            if not mine:
                os.close(r)
                os.close(wfd)
                continue
            args.append(",".join(map(str, mine)))
        p = subprocess.Popen(args, cwd=ROOT, env=_env(hashseed), pass_fds=[wfd], stdin=subprocess.DEVNULL,
                             stdout=subprocess.DEVNULL, stderr=None)
        os.close(wfd)
        procs.append((p, r))
    return procs


def collect(procs):
    """Merge all workers' lines; returns (results by index, errors)"""
    bufs = {r: b"" for _, r in procs}
    results, errors, done = {}, [], 0
    stopped = False
    while bufs:
        rl, _, _ = select.select(list(bufs), [], [])
        for r in rl:
            d = os.read(r, 1 << 16)
            if not d:
                rest = bufs.pop(r)
                os.close(r)
                if rest.strip():
                    errors.append("incomplete line from a worker")
                continue
            bufs[r] += d
            *lines, bufs[r] = bufs[r].split(b"\n")
            for ln in lines:
                m = json.loads(ln)
                if "fatal" in m:
                    errors.append(m["fatal"] + "\n" + m.get("tb", ""))
                elif "done" in m:
                    done += 1
                    stopped = stopped or m["stopped"]
                elif "error" in m:
                    errors.append("run %d: %s\n%s" % (m["index"], m["error"], m.get("tb", "")))
                    results[m["index"]] = m
                else:
                    results[m["index"]] = m
    for p, _ in procs:
        p.wait()
    if done != len(procs) and not errors:
        errors.append("a worker ended early")
    return results, errors, stopped


# --------------------------------------------------------------------------------- minimise, replay
def minimise(check, sc, viol):
    """Greedy shrinking: keep any smaller scenario that fails the same way."""
    best, tried, t0 = sc, 0, time.time()
    improved = True
    while improved and tried < check.minimise_budget and time.time() - t0 < check.minimise_seconds:
        improved = False
        for cand in check.shrink(best):
            tried += 1
            out = settle(check, cand, execute(check, cand))
            v = out.get("violation")
            if v and v["key"] == viol["key"]:
                best = out.get("concrete") or cand
                viol = v
                improved = True
                break
            if tried >= check.minimise_budget or time.time() - t0 > check.minimise_seconds:
                break
    return best, viol, tried


def minimise_main(argv):
    cid, path, outp = argv
    check = load_check(cid)
    ensure_preload(check)
    prepare(check)
    with open(path) as fp:
        job = json.load(fp)
    best, viol, tried = minimise(check, job["scenario"], job["violation"])
    with open(outp, "w") as fp:
        json.dump({"scenario": best, "violation": viol, "tried": tried}, fp)
    return 0


def replay_main(argv):
    path = argv[0]
    with open(path) as fp:
        job = json.load(fp)
    check = load_check(job["property"])
    ensure_preload(check)
    prepare(check)
    out = settle(check, job["scenario"], execute(check, job["scenario"]))
    if "error" in out:
        print("ERROR %s\n%s" % (out["error"], out.get("tb", "")))
        return 2
    v = out.get("violation")
    if not v:
        print("NOT-REPRODUCED property=%s replay=%s" % (job["property"], path))
        return 0
    same = v["key"] == job["violation"]["key"] and (job.get("log") in (None, out["log"]))
    print("VIOLATION property=%s replay=%s" % (job["property"], path))
    print("  kind: %s (%s)\n  detail: %s" % (v["kind"], "same execution" if same else "differs from the recorded one", v["detail"]))
    return 1


def known_findings(cid):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as fp:
        k = json.load(fp)
    return [e for e in k.get("findings", []) if e["property"] == cid]


def sub(cmd, hashseed="0", timeout=600):
    return subprocess.run([sys.executable, "-m", "vsim"] + cmd, cwd=ROOT, env=_env(hashseed),
                          stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


# -------------------------------------------------------------------------------------------- check
def scratch():
    """a directory for this run, below the check's own scratch directory"""
    import tempfile
    base = os.environ.get("VSIM_SCRATCH") or ("/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    return os.path.realpath(tempfile.mkdtemp(prefix="vsim-", dir=base))


def with_scratch(main, argv):
    import shutil
    if os.environ.get("VSIM_SCRATCH"):
        return main(argv)
    d = scratch()
    os.environ["VSIM_SCRATCH"] = d
    try:
        return main(argv)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_main(argv):
    cid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    sys.path.insert(0, ROOT)
    check = load_check(cid)
    print("check %s tier=%s seed=%d" % (cid, tier, seed), flush=True)
    from vsim import kernels
    if check.variant:
        try:
            kernels.build(check.variant)
        except kernels.BuildError as e:
            print("ERROR the kernels do not build: %s" % e)
            return 2
    t_build = time.time() - t0
    nruns = int(os.environ.get("VSIM_RUNS", check.runs[tier]))
    nw = int(os.environ.get("VSIM_WORKERS", "8"))
    t1 = time.time()
    results, errors, stopped = collect(spawn(check, tier, seed, nw, nruns))
    t_runs = time.time() - t1
    known = {e["key"]: e for e in known_findings(cid)}
    found = collections.OrderedDict()
    for i in sorted(results):
        v = results[i].get("violation")
        if v:
            found.setdefault(v["key"], results[i])
    seen_known = [k for k in found if k in known]
    fresh = [k for k in found if k not in known]
    rc = 0
    nviol = 0
    # determinism: the same runs in other processes, another worker count and another hash seed
    det = {"runs": 0, "mismatches": 0}
    if not fresh and not errors:
        nd = min(check.determinism[tier], nruns)
        rng = derive(seed, cid + ":det", 0)
        idx = sorted(rng.sample(range(nruns), nd))
        again, errs2, _ = collect(spawn(check, tier, seed, 3, nruns, indices=idx, hashseed="4242"))
        errors += errs2
        for i in idx:
            det["runs"] += 1
            if i in again and i in results and again[i].get("log") != results[i].get("log"):
                det["mismatches"] += 1
        if det["mismatches"]:
            errors.append("%d of %d repeated runs had a different event log" % (det["mismatches"], det["runs"]))
    # violations: minimise, then replay in a fresh process
    os.makedirs(REPLAYS, exist_ok=True)
    lines = []
    for n, key in enumerate(fresh[:3]):
        r = results and found[key]
        job = {"property": cid, "seed": seed, "tier": tier, "index": r["index"], "scenario": r["scenario"], "violation": r["violation"]}
        base = os.path.join(REPLAYS, "%s-seed%d-run%d" % (cid, seed, r["index"]))
        path = base + ".json"
        with open(path, "w") as fp:
            json.dump(job, fp)
        tried = 0
        try:
            out = base + ".min.json"
            p = sub(["minimise", cid, path, out])
            with open(out) as fp:
                m = json.load(fp)
            os.unlink(out)
            job.update(scenario=m["scenario"], violation=m["violation"], minimised_from=r["scenario"])
            tried = m["tried"]
        except Exception as e:
            print("  (minimisation failed: %r)" % (e,))
        with open(path, "w") as fp:
            json.dump(job, fp, indent=1)
        p = sub(["replay", path], hashseed="99")
        if p.returncode != 1 and "minimised_from" in job:
            job["scenario"], job["violation"] = r["scenario"], r["violation"]
            del job["minimised_from"]
            with open(path, "w") as fp:
                json.dump(job, fp, indent=1)
            p = sub(["replay", path], hashseed="99")
        if p.returncode == 1:
            rc = 1
            nviol += 1
            lines.append("VIOLATION property=%s replay=%s" % (cid, path))
            print(lines[-1])
            print("  kind: %s\n  detail: %s\n  run %d, %d shrinking steps; replayed in a fresh process: same violation"
                  % (job["violation"]["kind"], job["violation"]["detail"], r["index"], tried), flush=True)
        else:
            errors.append("violation %s of run %d does not replay:\n%s" % (key, r["index"], p.stdout.decode(errors="replace")))
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (cid, known[k]["what"]))
    ok = [r for r in results.values() if "error" not in r]
    stats, states, logs, steps = collections.Counter(), set(), set(), 0
    for r in ok:
        stats.update(r.get("stats", {}))
        states.update(r.get("states", []))
        steps += r.get("sim_steps", 0)
        if r.get("nontrivial"):
            logs.add(r["log"])
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("probe:")}
    work = {k: v for k, v in sorted(stats.items()) if not k.startswith(("fault:", "probe:"))}
    samples = []
    for i in sorted(results):
        if "scenario" in results[i] and len(samples) < 3:
            samples.append({"run": i, "scenario": _clip(results[i]["scenario"]), "log": results[i].get("log")})
    cov = {"evaluations": len(ok), "distinct_nontrivial": len(logs), "rule": check.rule, "samples": samples,
           "exhaustive": False, "simulated_runs": len(ok), "seeds": len(ok),
           "runs_per_hour": int(len(ok) / max(t_runs, 1e-6) * 3600),
           "simulated_time": {"unit": "simulator steps", "total": steps},
           "faults_injected": faults, "probes": probes, "workload": work,
           "distinct_states": len(states), "state_measure": getattr(check, "state_measure", "distinct hashes of the states named in the rule"),
           "components_real": check.real, "components_simulated": check.stubs,
           "determinism": det, "build_s": round(t_build, 2), "search_s": round(t_runs, 2),
           "harness_errors": len(errors), "known_findings_seen": seen_known}
    ev = {"property": cid, "tier": tier, "seed": seed, "level": check.level, "coverage": cov,
          "assumptions": check.assumptions, "wall_s": round(time.time() - t0, 2), "violations": nviol}
    check.summarise(ev, ok)
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, cid + ".json"), "w") as fp:
        json.dump(ev, fp, indent=1, sort_keys=True)
        fp.write("\n")
    print("%d runs in %.1f s (%d/h), %d distinct non-trivial, %d states, faults %s, build %.1f s, total %.1f s"
          % (len(ok), t_runs, cov["runs_per_hour"], len(logs), len(states), faults, t_build, time.time() - t0))
    dead = [p for p in getattr(check, "required_probes", []) if not probes.get(p)] if not fresh else []
    if dead:
        errors.append("probes never hit: %s" % dead)
    if errors:
        for e in errors[:5]:
            print("ERROR " + e)
        if rc == 0:
            return 2
    if rc == 0:
        print("OK property=%s held on everything explored" % cid)
    return rc


def _clip(x, n=400):
    s = json.dumps(x)
    return x if len(s) < 4 * n else {"clipped": s[:4 * n]}
