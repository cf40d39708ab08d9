"""Processing sessions: a history of operations on one signal, run in processes that may be stopped and restarted.

Only what was saved survives the end of a process.  Every segment of a session runs in a process of
its own, forked from a parent that has not executed any operation (or, for some, in a brand-new
interpreter with another hash seed).
"""
import base64
import copy
import json
import os
import pickle
import random
import subprocess
import sys

import numpy as np

from vsim import harness, ops, sigs, state

EVENTS = ("copy", "ccopy", "dcopy", "pickle", "save", "restart", "ship", "crash")


def canonical(s):
    """the same signal in one fixed memory layout"""
    if isinstance(s, np.ndarray) and not s.flags.c_contiguous and hasattr(s, "recreate_from_np_array"):
        return s.copy(order="C")
    return s


def picture(s):
    return state.look(s)


def value(v):
    if isinstance(v, tuple):
        v = list(v)
    return state._h(repr([sorted(picture(x).items()) for x in (v if isinstance(v, list) else [v])]).encode())


def arrays(obj, out=None, seen=None):
    """every writable array that can be reached from obj"""
    if out is None:
        out, seen = [], set()
    if id(obj) in seen:
        return out
    seen.add(id(obj))
    if isinstance(obj, np.ndarray):
        if obj.flags.writeable and not obj.dtype.hasobject and obj.size:
            out.append(obj)
    if isinstance(obj, dict):
        for v in obj.values():
            arrays(v, out, seen)
    elif isinstance(obj, (list, tuple)):
        for v in obj:
            arrays(v, out, seen)
    for v in getattr(obj, "__dict__", {}).values():
        arrays(v, out, seen)
    return out


def scribble(obj):
    for a in arrays(obj):
        np.asarray(a)[...] = 1 if a.dtype == bool else 0.25
    for k in ("_fs", "_fb"):
        if k in getattr(obj, "__dict__", {}):
            setattr(obj, k, 7.)
    if isinstance(getattr(obj, "_shiftfctrs", None), list):
        obj._shiftfctrs.append(3)


def duplicate(ev, s, root):
    from qampy.core import io as cio
    from qampy import io as qio
    kind, p = ev[1], ev[2]
    if kind == "copy":
        return s.copy()
    if kind == "ccopy":
        return copy.copy(s)
    if kind == "dcopy":
        return copy.deepcopy(s)
    if kind == "pickle":
        return pickle.loads(pickle.dumps(s, p["proto"]))
    save(ev, s, os.path.join(root, "dup.sig"))
    return (cio if p["api"] == "core" else qio).load_signal(os.path.join(root, "dup.sig"))


def save(ev, s, path):
    from qampy.core import io as cio
    from qampy import io as qio
    p = ev[2]
    kw = {} if p["lvl"] is None else {"lvl": p["lvl"]}
    if p["api"] == "method" and hasattr(s, "save_to_file"):
        s.save_to_file(path, **kw)
    else:
        (cio if p["api"] == "core" else qio).save_signal(path, s, **kw)


def step(op, s, log, i):
    """apply one operation; returns the signal to go on with"""
    if not ops.applicable(op, s):
        log.append([i, "skip", op[0], None, None])
        return s
    o = ops.OPS[op[0]]
    try:
        v = ops.call(op, s)
    except Exception as e:
        log.append([i, "raised " + type(e).__name__, op[0], None, str(e)[:300]])
        return s
    val = None
    if o.kind == "value":
        val = value(v)
    elif o.kind == "new":
        new = ops.signal_of(v)
        if isinstance(v, tuple):
            val = value(list(v[1:]))
        if keep(new):
            s = new
        else:
            val = value(v)
    log.append([i, "done", op[0], picture(s), val])
    return s


def keep(n):
    return isinstance(n, np.ndarray) and hasattr(n, "fs") and n.ndim == 2 and 4 < n.shape[1] < 3000 and bool(np.all(np.isfinite(n)))


def segment(job):
    """run a session from position job["at"] to its end or the end of the process; returns what happened"""
    import warnings
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    sc, root, simulate = job["sc"], job["root"], job["simulate"]
    log, problems = [], []
    if job["load"] is None:
        s = sigs.make(sc["sig"])
    elif job["load"] == "ship":
        with open(os.path.join(root, "ship"), "rb") as fp:
            s = pickle.load(fp)
    else:
        from qampy.core import io as cio
        s = cio.load_signal(os.path.join(root, "state.sig"))
    if job["load"]:
        log.append([job["at"], "loaded", job["load"], picture(s), None])
    i = job["at"]
    while i < len(sc["steps"]):
        st = sc["steps"][i]
        if st[0] == "op":
            s = step(st[1], s, log, i)
        else:
            s = canonical(s)
            log.append([i, "event", st[1], picture(s), None])
            if simulate:
                kind = st[1]
                if kind in ("copy", "ccopy", "dcopy", "pickle", "save"):
                    s = copied(st, s, root, problems, i)
                if kind in ("save", "restart"):
                    save(st, s, os.path.join(root, "state.sig"))
                    if kind == "restart":
                        return {"log": log, "problems": problems, "next": i + 1, "load": "file", "saved": i + 1}
                    log.append([i, "saved", kind, None, None])
                if kind == "ship":
                    with open(os.path.join(root, "ship"), "wb") as fp:
                        pickle.dump(s, fp, st[2]["proto"])
                    return {"log": log, "problems": problems, "next": i + 1, "load": "ship"}
                if kind == "crash" and i not in job["crashed"]:
                    return {"log": log, "problems": problems, "crash": i}
        i += 1
    return {"log": log, "problems": problems, "next": None}


def copied(ev, s, root, problems, i):
    kind = ev[1]
    before = picture(s)
    d = duplicate(ev, s, root)
    after = picture(s)
    if before != after:
        problems.append([i, "copying changed the original", "%s: %s" % (kind, first(before, after)), kind])
    dp = picture(d)
    if type(d) is not type(s):
        problems.append([i, "copy has another type", "%s: %s instead of %s" % (kind, type(d).__name__, type(s).__name__), kind])
    elif dp != before:
        problems.append([i, "copy differs", "%s: %s" % (kind, first(before, dp)), kind])
    if np.shares_memory(np.asarray(d), np.asarray(s)):
        problems.append([i, "copy shares samples", kind, kind])
    if kind in ("dcopy", "pickle", "save"):
        victim, other, ref = (s, d, dp) if ev[2]["go"] == "copy" else (d, s, before)
        # the in-place changes go everywhere a caller can reach
        scribble(victim)
        now = picture(other)
        if now != ref:
            problems.append([i, "copy not independent", "%s: changing the %s changed the %s: %s" % (kind, *(("original", "copy") if victim is s else ("copy", "original")), first(ref, now)), kind])
        return other
    if ev[2]["go"] == "copy":
        np.asarray(s)[...] = 0.25
        if picture(d)["samples"] != dp["samples"]:
            problems.append([i, "copy not independent", "%s: changing the samples of the original changed the copy" % kind, kind])
        return d
    return s


def first(a, b):
    for k in list(a) + [x for x in b if x not in a]:
        if a.get(k) != b.get(k):
            return "%s was %s, is %s" % (k or "object", a.get(k), b.get(k))
    return "same"


def in_fork(fn, arg):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = fn(arg)
            except BaseException as e:
                import traceback
                out = {"exception": "%s: %s" % (type(e).__name__, e), "tb": traceback.format_exc(), "library": harness._from_library(e)}
            data = json.dumps(out).encode()
            with os.fdopen(w, "wb") as fp:
                fp.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fp:
        data = fp.read()
    _, st = os.waitpid(pid, 0)
    if not data:
        raise harness.HarnessError("a segment died with status %d" % st)
    return json.loads(data.decode())


def in_interpreter(arg, hashseed):
    """the same in a new interpreter with another hash seed"""
    env = harness._env(str(hashseed))
    p = subprocess.run([sys.executable, "-m", "vsim", "segment"], input=json.dumps(arg).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=harness.ROOT, timeout=120)
    try:
        return json.loads(p.stdout.decode().splitlines()[-1])
    except Exception:
        raise harness.HarnessError("segment in a new interpreter: %s" % p.stderr.decode()[-1500:])


def segment_main(argv):
    from vsim import kernels
    import traceback
    arg = json.loads(sys.stdin.read())
    kernels.install(kernels.build("plain"))
    try:
        out = segment(arg)
    except BaseException as e:
        out = {"exception": "%s: %s" % (type(e).__name__, e), "tb": traceback.format_exc(), "library": harness._from_library(e)}
    print(json.dumps(out))
    return 0
