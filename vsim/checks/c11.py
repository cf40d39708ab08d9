"""C11: calls stopped by an interrupt or a failed allocation, and repeated."""
import os
import shutil

import numpy as np

from vsim import harness, mem, ops, pysim, session, sigs, state
from vsim.checks import c10

UPDATES = ("sync", "corr_foe", "norm_inplace", "norm_symbols")
CALLS = sorted(set(ops.NEW_NAMES + ops.VALUE_NAMES) | {"corr_foe", "norm_inplace", "norm_symbols"})
FAULTS = {"interrupt": KeyboardInterrupt, "failed allocation": MemoryError}
INSIDE = "failed array allocation"         # in NumPy, wherever it asks for memory


def outside(code):
    return not code.co_filename.endswith("signals.py")


class Place:
    """the caller's world: shared objects (as in C10), its own signal and a directory"""

    def __init__(self, sc, root):
        self.h = c10.Shared(sc)
        self.own = self.h.sig.copy() if isinstance(self.h.sig, np.ndarray) else self.h.sig
        self.root = root
        self.path = os.path.join(root, "kept.sig")

    def bind(self, c):
        """(function, kind) of one call, or None if it does not apply"""
        name, p, on, seed = c
        h = self.h
        if name in c10.CALLS:
            gen, ok, f = c10.CALLS[name]
            return (lambda: f(h, p), "value") if ok(h, p) else None
        s = h.sig if on == "shared" else self.own
        if name == "save":
            return lambda: s.save_to_file(self.path, **p), "save"
        if name == "load":
            from qampy.core import io as cio
            return (lambda: cio.load_signal(self.path), "value") if os.path.exists(self.path) else None
        if name == "generate":
            return lambda: sigs.make(p), "value"
        if name == "sync":
            s = self.own
            if not sync_ok(s):
                return None
            return lambda: s.sync2frame(Ntaps=p["n"], Niter=2), "update"
        if name in UPDATES:
            s = self.own
            if not ops.applicable([name, p], s):
                return None
            return lambda: ops.call([name, p, seed], s), "update"
        if not ops.applicable([name, p], s):
            return None
        return lambda: ops.call([name, p, seed], s), ops.OPS[name].kind

    def pictures(self):
        return self.h.pictures() + [state.look(self.own)]

    def stored(self):
        try:
            with open(self.path, "rb") as fp:
                return fp.read()
        except FileNotFoundError:
            return None


def sync_ok(s):
    return ops.is_pilot(s) and ops.cplx(s) and s.os in (1, 2) and s.os == s.fs / s.fb and s.shape[0] == s.pilot_seq.shape[0] and s.pilot_seq.shape[1] >= 12 and \
        s.shape[1] >= (s.frame_len + 2 * s.pilot_seq.shape[1]) * s.os and s.flags.c_contiguous and s.dtype == s.coded_symbols.dtype


def result(v):
    if v[0] == "raised":
        return "raised %s: %s" % (type(v[1]).__name__, str(v[1])[:200])
    return session.value(list(v[1]) if isinstance(v[1], tuple) else v[1])


class C11(harness.Check):
    id = "C11"
    technique = "deterministic simulation of interrupts and failing allocations at seeded points inside library calls"
    runs = {"quick": 4000, "thorough": 20000}
    rule = ("a run is 1-5 calls on a signal at some stage of a receiver chain (with taps, alphabets and references as in C10), each stopped 0-3 times by an interrupt or a failed allocation at a seeded bytecode of the library "
            "and then repeated; checked: the exception arrives, everything the caller owns is as before, a stored file is the old or the complete new one, and the repeated call gives the result of a run without faults; "
            "non-trivial if a fault hit")
    state_measure = "distinct places (function and bytecode) a call was stopped at"
    real = ["all Python code of qampy executed by the calls, the compiled kernels (one thread), files in a scratch directory"]
    stubs = ["the source of the exceptions (raised at a bytecode of the library instead of by the user or an allocator)"]
    assumptions = ["exceptions occur at bytecodes of qampy, not inside numpy, scipy or the compiled kernels (a failure inside those surfaces at the bytecode that called them)",
                   "calls that update the signal in place are stopped in the computation they rest on, not between the assignments that store its results"]
    required_probes = ["interrupt", "failed allocation", "failed array allocation", "update", "save", "load", "taps", "synchronisation"]

    def gen(self, rng, tier, index):
        c = c10.C10()
        base = c.gen(rng, tier, index)
        sc = {k: base[k] for k in ("spec", "prepare", "taps")}
        cand = [x for q in base["callers"] for x in q]
        rng.shuffle(cand)
        calls = []
        if sc["spec"]["kind"].startswith("pilots") and rng.random() < .5:
            # a capture that is not synchronised yet
            sc["spec"].update(nframes=3, nmodes=rng.choice([1, 2]), M=rng.choice([4, 16]))
            sc["prepare"] = [ops._op(rng, "resample_poly", os=2)] if rng.random() < .5 else []
            sc["prepare"].append(ops._op(rng, "roll"))
            cand.insert(0, ["sync", {"n": rng.choice([5, 7])}, "own"])
        for k in range(rng.choice([1, 1, 2, 3, 5])):
            x = rng.random()
            if x < .12:
                n = rng.choice(["save", "load", "generate"])
                p = {"save": {"lvl": rng.randint(0, 9)}, "load": {}, "generate": sigs.spec(rng, [y for y in sigs.KINDS if y != "symonly"])}[n]
                calls.append([n, p, rng.choice(["shared", "own"]), 0])
                if n == "save" and rng.random() < .7:
                    calls.append(["load", {}, "own", 0])
            elif x < .3:
                n = rng.choice(["corr_foe", "norm_inplace", "norm_symbols"])
                calls.append([n, ops.OPS[n].gen(rng), "own", rng.getrandbits(24)])
            elif x < .75 and cand:
                n, p, on = cand.pop(0)
                calls.append([n, p, on, rng.getrandbits(24)])
            else:
                n = rng.choice(CALLS)
                calls.append([n, ops.OPS[n].gen(rng), rng.choice(["shared", "own"]), rng.getrandbits(24)])
        stops = []
        for c in calls:
            stops.append([[rng.choice(sorted(FAULTS) + [INSIDE]), rng.random()] for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))])
        if not any(stops):
            stops[0] = [["interrupt", rng.random()]]
        sc.update(calls=calls, stops=stops)
        return sc

    def undisturbed(self, sc, root):
        """results, points passed and what is there afterwards, call by call"""
        w = Place(sc, root)
        log = []
        for c in sc["calls"]:
            b = w.bind(c)
            if b is None:
                log.append(None)
                continue
            fn, kind = b
            a = pysim.Abort(0, None, only=outside if kind == "update" else None)
            mem.module().fail(0)
            v = a.call(fn)
            asked = mem.module().counts()[0]
            log.append([result(v), a.count, asked, state._h(repr(w.pictures()).encode()), None if w.stored() is None else state._h(w.stored())])
            self.proceed(w, c, v)
        return {"log": log}

    def proceed(self, w, c, v):
        if v[0] == "ok" and c[2] == "own" and c[0] in ops.OPS and ops.OPS[c[0]].kind == ops.NEW and session.keep(ops.signal_of(v[1])):
            w.own = session.canonical(ops.signal_of(v[1]))
            if np.shares_memory(np.asarray(w.own), np.asarray(w.h.sig)):
                w.own = w.own.copy()

    def run(self, sc, res):
        import warnings
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        root = harness.scratch()
        try:
            os.mkdir(os.path.join(root, "a"))
            os.mkdir(os.path.join(root, "b"))
            self._run(sc, res, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def _run(self, sc, res, root):
        r = session.in_fork(lambda a: self.undisturbed(sc, a), os.path.join(root, "a"))
        if "exception" in r:
            raise harness.HarnessError(r["tb"])
        ref = r["log"]
        w = Place(sc, os.path.join(root, "b"))
        for i, c in enumerate(sc["calls"]):
            name = c[0]
            b = w.bind(c)
            if (b is None) != (ref[i] is None):
                res.fail("a stopped call changes later ones", "call %d (%s) is %spossible after faults in the calls before" % (i, name, "not " if b is None else ""), key="later:" + name)
                return
            if b is None:
                continue
            fn, kind = b
            want, points, asked, after, stored = ref[i]
            for fault, f in sc["stops"][i]:
                if not (asked if fault == INSIDE else points) or fault == INSIDE and kind == "update":
                    continue
                before, old = w.pictures(), w.stored()
                if fault == INSIDE:
                    exc, place = MemoryError(), None
                    n = 1 + int(f * asked)
                    mem.module().fail(n)
                    try:
                        v = ("ok", fn())
                    except BaseException as e:
                        v = ("raised", e)
                    if mem.module().counts()[1]:
                        place = "array %d" % n
                    mem.module().fail(0)
                else:
                    exc = FAULTS[fault]("simulated")
                    a = pysim.Abort(1 + int(f * points), exc, only=outside if kind == "update" else None)
                    v = a.call(fn)
                    place = a.place
                    res.sim_steps += a.count
                if place is None:
                    # the call took a shorter way
                    res.stats["not reached"] += 1
                    if kind == "update":
                        break
                    continue
                res.nontrivial = True
                res.state(name if fault == INSIDE else "", place)
                res.stats["fault:" + fault] += 1
                for k in [fault, kind, {"sync": "synchronisation"}.get(name, name)] + (["taps"] if "taps" in name else []):
                    res.stats["probe:" + k] += 1
                res.event(i, name, fault, place, v[0])
                where = "%s of %s in %s" % (fault, name, place)
                if v[0] == "ok":
                    res.fail("the exception is lost", "%s: the call returned normally" % where, key="lost:" + name)
                    return
                if isinstance(v[1], pysim.Deadlock):
                    res.fail("deadlock", where, key="deadlock:" + name)
                    return
                if not isinstance(v[1], type(exc)):
                    res.fail("the exception is lost", "%s: the call raised %s: %s" % (where, type(v[1]).__name__, str(v[1])[:200]), key="lost:" + name)
                    return
                v = None
                now = w.pictures()
                if kind == "save":
                    new = w.stored()
                    if new != old and (new is None or state._h(new) != stored):
                        res.fail("half-written file", "%s: the file holds %s" % (where, "nothing" if new is None else "%d bytes" % len(new)), key="file:" + name)
                        return
                if now != before:
                    k = [x == y for x, y in zip(before, now)].index(False)
                    res.fail("stopped call changed its input", "%s: %s: %s" % (where, "own signal" if k == len(now) - 1 else "shared object %d" % k, session.first(before[k], now[k]) if isinstance(now[k], dict) else "other values"), key="input:" + name)
                    return
            try:
                v = ("ok", fn())
            except pysim.Deadlock as e:
                res.fail("deadlock", "repeating %s: %s" % (name, e), key="deadlock:" + name)
                return
            except Exception as e:
                v = ("raised", e)
            got = result(v)
            res.event(i, name, got)
            res.stats["calls %s" % ("raised" if v[0] == "raised" else "done")] += 1
            if got != want:
                res.fail("repeated call gives another result", "call %d (%s) after %d faults: %s instead of %s" % (i, name, len(sc["stops"][i]), got, want), key="retry:" + name)
                return
            if state._h(repr(w.pictures()).encode()) != after:
                res.fail("repeated call gives another result", "call %d (%s) after %d faults: other objects afterwards" % (i, name, len(sc["stops"][i])), key="retry:" + name)
                return
            if (None if w.stored() is None else state._h(w.stored())) != stored:
                res.fail("repeated call gives another result", "call %d (%s) after %d faults: another file" % (i, name, len(sc["stops"][i])), key="file:" + name)
                return
            self.proceed(w, c, v)

    def shrink(self, sc):
        n = len(sc["calls"])
        if n > 1:
            for i in range(n):
                yield dict(sc, calls=sc["calls"][:i] + sc["calls"][i + 1:], stops=sc["stops"][:i] + sc["stops"][i + 1:])
        for k in range(len(sc["prepare"])):
            yield dict(sc, prepare=sc["prepare"][:k] + sc["prepare"][k + 1:])
        for i, st in enumerate(sc["stops"]):
            for k in range(len(st)):
                yield dict(sc, stops=sc["stops"][:i] + [st[:k] + st[k + 1:]] + sc["stops"][i + 1:])
        for s in sigs.smaller(sc["spec"]):
            yield dict(sc, spec=s)


CHECK = C11
