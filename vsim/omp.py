"""Runs one library call under the deterministic OpenMP scheduler and compares schedules.

Every execution of the call happens in a process forked from the prepared scenario, so all of them
start from the same memory; only the schedule differs.
"""
import ctypes
import hashlib
import os
import pickle
import select
import signal
import time

import numpy as np

from vsim import kernels
from vsim.harness import Check, HarnessError

SERIAL, LIST, RANDOM, PCT, DIRECTED = range(5)
MODES = {"random": RANDOM, "pct": PCT, "directed": DIRECTED}
STATS = ("steps", "regions", "switches", "blocked", "conflicts", "nhot", "max_team", "nested", "barriers", "criticals", "trace", "nrec")
MAXREC = 1 << 16


class Out:
    def __init__(self, kind, value=None, stats=None, rec=None, hot=None):
        self.kind, self.value, self.stats, self.rec, self.hot = kind, value, stats or {}, rec or [], hot


def _config(mode, team, seed=0, p=0., probe=0, switches=(), horizon=0, nchange=0, step_limit=0, hot=None):
    rt = kernels.runtime()
    n = len(switches)
    ls = (ctypes.c_uint64 * max(n, 1))(*[s for s, _ in switches])
    lt = (ctypes.c_int * max(n, 1))(*[t for _, t in switches])
    if hot is not None:
        a = (ctypes.c_uint64 * max(len(hot), 1))(*hot)
        rt.ompsim_hot_set(a, ctypes.c_uint64(len(hot)))
    rt.ompsim_config(mode, team, ctypes.c_uint64(seed), ctypes.c_double(p), probe, n, ls, lt,
                     ctypes.c_uint64(horizon), nchange, ctypes.c_uint64(step_limit))
    return ls, lt


def arena():
    """numpy arrays and kernel temporaries come from the runtime's arena from now on"""
    rt = kernels.runtime()
    api = ctypes.pythonapi
    api.PyCapsule_GetPointer.restype = ctypes.c_void_p
    api.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
    api.PyCapsule_New.restype = ctypes.py_object
    api.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
    from numpy.core import _multiarray_umath as mu
    table = ctypes.cast(api.PyCapsule_GetPointer(mu._ARRAY_API, None), ctypes.POINTER(ctypes.c_void_p))
    sethandler = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)(table[304])
    rt.ompsim_handler.restype = ctypes.c_void_p
    rt.ompsim_arena(1)
    sethandler(api.PyCapsule_New(rt.ompsim_handler(), b"mem_handler", None))


def _finish():
    rt = kernels.runtime()
    a = (ctypes.c_uint64 * 12)()
    rt.ompsim_stats(a)
    st = dict(zip(STATS, [int(x) for x in a]))
    n = min(st["nrec"], MAXREC)
    s = (ctypes.c_uint64 * max(n, 1))()
    t = (ctypes.c_int * max(n, 1))()
    rt.ompsim_record(s, t, n)
    rec = [(int(s[i]), int(t[i])) for i in range(n)]
    h = (ctypes.c_uint64 * 4096)()
    k = rt.ompsim_hot_get(h, ctypes.c_uint64(4096))
    return st, rec, [int(x) for x in h[:k]]


def flatten(v):
    """result of a call -> list of plain arrays (class names kept)"""
    out = []
    if isinstance(v, (tuple, list)):
        for x in v:
            out.extend(flatten(x))
    elif isinstance(v, np.ndarray):
        out.append((type(v).__name__, np.array(v.view(np.ndarray))))
    elif v is None or isinstance(v, (str, bool)):
        out.append((type(v).__name__, np.array(0 if v is None else 1)))
    else:
        out.append(("scalar", np.array(v)))
    return out


def call(fn, mode, team, timeout=60., **kw):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            arena()
            keep = _config(mode, team, **kw)
            try:
                val = ("ok", flatten(fn()))
            except BaseException as e:
                val = ("exc", (type(e).__name__, str(e)[:300]))
            st, rec, hot = _finish()
            data = pickle.dumps((val, st, rec, hot), protocol=5)
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + (1 << 20)])
            os.close(w)
            del keep
        finally:
            os._exit(0)
    os.close(w)
    buf, t0, late = [], time.time(), False
    while True:
        left = timeout - (time.time() - t0)
        if left <= 0:
            late = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if rl:
            d = os.read(r, 1 << 20)
            if not d:
                break
            buf.append(d)
    os.close(r)
    if late:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if late:
        return Out("late")
    if os.WIFSIGNALED(status):
        return Out("signal:%d" % os.WTERMSIG(status))
    code = os.WEXITSTATUS(status)
    if code == 98:
        return Out("deadlock")
    if code == 97:
        return Out("steplimit")
    if not buf:
        raise HarnessError("execution ended with status %d" % code)
    (kind, value), st, rec, hot = pickle.loads(b"".join(buf))
    return Out(kind, value, st, rec, hot)


def tolerance(dt):
    if dt.kind in "fc":
        return {4: 2e-4, 8: 2e-4 if dt.kind == "c" else 1e-9, 16: 1e-9}.get(dt.itemsize, 1e-9)
    return 0.


def differ(a, b, names=None, tol=None):
    """None if the two results agree, otherwise what differs"""
    if len(a) != len(b):
        return "%d results instead of %d" % (len(b), len(a))
    for i, ((ca, xa), (cb, xb)) in enumerate(zip(a, b)):
        nm = names[i] if names and i < len(names) else "result %d" % i
        if ca != cb or xa.shape != xb.shape or xa.dtype != xb.dtype:
            return "%s: %s %s %s instead of %s %s %s" % (nm, cb, xb.shape, xb.dtype, ca, xa.shape, xa.dtype)
        if xa.dtype.kind not in "fc":
            bad = xa != xb
            err = None
        else:
            t = tol or tolerance(xa.dtype)
            with np.errstate(all="ignore"):
                fin = np.isfinite(xa)
                scale = np.max(np.abs(xa[fin])) if fin.any() else 0.
                d = np.abs(xa - xb)
                same = (xa == xb) | (np.isnan(xa) & np.isnan(xb)) | (d <= t * (scale + 1e-300))
            bad = ~same
            err = d
        if bad.any():
            k = np.argwhere(bad)
            first = tuple(int(x) for x in k[0])
            return "%s: %d of %d values differ, first at %s: %r instead of %r" % (nm, len(k), xa.size, first, xb[first].item() if xb.ndim else xb.item(), xa[first].item() if xa.ndim else xa.item())
    return None


def digest(v):
    h = hashlib.sha256()
    for c, x in v:
        h.update(("%s%s%s" % (c, x.shape, x.dtype)).encode())
        if x.dtype.kind in "fc":   # last bits may depend on vector alignment
            with np.errstate(all="ignore"):
                x = np.round(x.astype(np.complex128), 6) + 0.
        h.update(np.ascontiguousarray(x).tobytes())
    return h.hexdigest()[:16]


class OmpCheck(Check):
    variant = "sim"
    technique = "deterministic simulation (seeded thread schedules at memory-access granularity)"
    state_measure = "distinct interleavings: hash of the sequence of (step, thread) switches of every schedule executed"

    def setup(self):
        kernels.runtime().ompsim_arena(0)   # map the arena before forking: the same addresses in every run

    def thunk(self, sc):
        """-> (callable, names of results)"""
        raise NotImplementedError

    def extra(self, sc, res, ref):
        """further oracles"""

    def schedules(self, rng):
        team = rng.choice([2, 2, 2, 3, 4, 5, 8])
        out = []
        for k in range(rng.choice([2, 3, 4])):
            kind = rng.choice(["random", "random", "pct", "directed", "directed"])
            p = {"random": rng.choice([1e-3, 1e-2, 0.05, 0.2, 0.5]), "pct": 0., "directed": rng.choice([0.02, 0.1, 0.3, 0.6])}[kind]
            out.append({"kind": kind, "team": team if k == 0 or rng.random() < .7 else rng.choice([2, 3, 4, 6, 8, 16]), "p": p,
                        "nchange": rng.choice([1, 2, 3, 5, 8]), "seed": rng.getrandbits(48)})
        return out

    def run(self, sc, res):
        fn, names = self.thunk(sc)
        ref = call(fn, SERIAL, 1)
        res.event("ref", ref.kind)
        if ref.kind not in ("ok", "exc"):
            if ref.kind == "late":
                raise HarnessError("the reference execution took too long")
            res.fail("crash", "a single thread: %s" % ref.kind)
            return
        if ref.kind == "exc":
            res.stats["calls that raise"] += 1
            res.note = ref.value
        else:
            res.event(digest(ref.value))
        self.hits(sc, res, ref)
        if "schedule" in sc:
            s = sc["schedule"]
            o = call(fn, LIST, s["team"], switches=s["switches"], step_limit=s.get("limit", 0))
            res.sim_steps += o.stats.get("steps", 0)
            self.judge(sc, res, ref, o, names, "%d threads, %d recorded switches" % (s["team"], len(s["switches"])))
            return
        if not sc.get("only"):
            probes = {}
            for s in sc["schedules"]:
                t = s["team"]
                if t not in probes:
                    o = call(fn, LIST, t, probe=1)
                    res.stats["fault:thread team"] += 1
                    res.sim_steps += o.stats.get("steps", 0)
                    res.event("probe", t, o.kind, o.stats.get("steps"), o.stats.get("regions"))
                    if self.judge(sc, res, ref, o, names, "%d threads, run one after another" % t):
                        if o.stats:
                            self.freeze(sc, res, t, o)
                        return
                    probes[t] = o
                    if o.stats.get("conflicts"):
                        res.stats["probe:shared memory conflict seen"] += 1
                    if o.stats.get("regions", 0) >= 1:
                        res.stats["probe:parallel region entered"] += 1
                        res.nontrivial = True
                    res.state(t, o.stats.get("trace"))
                pr = probes[t]
                steps = pr.stats.get("steps", 0)
                limit = 200 * steps + 1000000
                p = s["p"]
                if s["kind"] == "random":
                    p = max(p, 3. / max(steps, 1))
                    if steps * p > 60000:
                        p = 60000. / steps
                o = call(fn, MODES[s["kind"]], t, seed=s["seed"], p=p, horizon=max(steps, 1), nchange=s["nchange"],
                         step_limit=limit, hot=pr.hot if s["kind"] == "directed" else None)
                res.stats["fault:schedule " + s["kind"]] += 1
                res.stats["fault:preemption"] += o.stats.get("switches", 0)
                res.sim_steps += o.stats.get("steps", 0)
                res.event(s["kind"], t, o.kind)
                res.event(o.stats.get("trace"))
                res.state(t, o.stats.get("trace"))
                if o.kind == "ok":
                    res.event(digest(o.value))
                if self.judge(sc, res, ref, o, names, "%d threads, %s schedule, %d switches" % (t, s["kind"], o.stats.get("switches", 0))):
                    self.freeze(sc, res, t, o, limit)
                    if not o.stats:  # died inside: keep the seeds as the replay
                        res.concrete = {k: v for k, v in sc.items()}
                        res.concrete["schedules"] = [s]
                    return
        if ref.kind == "ok":
            self.extra(sc, res, ref)

    def hits(self, sc, res, ref):
        pass

    def freeze(self, sc, res, team, o, limit=0):
        c = {k: v for k, v in sc.items() if k not in ("schedules",)}
        if o.stats.get("nrec", 0) <= MAXREC:
            c["schedule"] = {"team": team, "switches": [list(x) for x in o.rec], "limit": limit}
            res.concrete = c

    def judge(self, sc, res, ref, o, names, how):
        if o.kind == "late":
            raise HarnessError("execution took too long: " + how)
        if o.kind in ("deadlock", "steplimit") or o.kind.startswith("signal"):
            res.fail("schedule-" + o.kind, "%s: %s under %s" % (self.describe(sc), o.kind, how))
            return True
        if o.kind != ref.kind:
            res.fail("schedule-dependent", "%s: %s under %s, but %s with one thread" % (self.describe(sc), o.value if o.kind == "exc" else "a result", how, ref.value if ref.kind == "exc" else "a result"))
            return True
        if o.kind == "exc":
            if o.value[0] != ref.value[0]:
                res.fail("schedule-dependent", "%s: raises %s under %s, but %s with one thread" % (self.describe(sc), o.value, how, ref.value))
                return True
            return False
        d = differ(ref.value, o.value, names)
        if d:
            res.fail("schedule-dependent", "%s: under %s %s (compared with one thread)" % (self.describe(sc), how, d))
            return True
        return False

    def describe(self, sc):
        return sc.get("op", "")

    # -- shrinking: parameters first (searching schedules again), then the switches
    def shrink_params(self, sc):
        return []

    def shrink(self, sc):
        if sc.get("only"):
            for c in self.shrink_params(sc):
                yield c
            return
        if "schedule" not in sc:
            for c in self.shrink_params(sc):
                yield c
            return
        sw = sc["schedule"]["switches"]
        n = len(sw)
        for c in self.shrink_params({k: v for k, v in sc.items() if k != "schedule"}):
            c["schedules"] = [{"kind": k, "team": t, "p": p, "nchange": 3, "seed": 12345 + 7 * i}
                              for i, (k, t, p) in enumerate([("directed", 2, .5), ("directed", 2, .1), ("random", 2, .1),
                                                            ("random", sc["schedule"]["team"], .02), ("pct", 2, 0.)])]
            yield c
        size = max(n // 2, 1)
        while n:
            for i in range(0, n, size):
                c = dict(sc)
                c["schedule"] = dict(sc["schedule"], switches=sw[:i] + sw[i + size:])
                yield c
            if size == 1:
                break
            size = max(size // 4, 1)
