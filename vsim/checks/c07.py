"""C07: signals survive copies, persistence and process restarts."""
import os
import shutil

from vsim import harness, ops, session, sigs

SKIP = {"quantize_new"}
KINDS = sigs.KINDS + ("pilots", "pilots_fresh", "tdhqam", "resampled")


class C07(harness.Check):
    id = "C07"
    technique = "deterministic simulation of processing sessions (seeded histories with copies, saves, process restarts and crashes, compared with the uninterrupted session)"
    runs = {"quick": 2000, "thorough": 20000}
    rule = ("a run is a signal of any class, a history of 2-12 operations and 1-5 events (copies, pickling, saves, process ends, hand-over to another process, crashes back to the last save); the "
            "uninterrupted history runs in a process of its own and every step is compared; non-trivial if at least one event was executed on a signal")
    state_measure = "distinct signal states at events"
    real = ["qampy.signals (all classes), qampy.core.io, qampy.io, all operations of the catalogue (vsim/ops.py)", "pickle, copy, real processes (fork, and new interpreters with another hash seed)"]
    stubs = ["the moment at which a process ends or crashes, and what survives (only saved files)"]
    assumptions = ["both sessions use the same memory layout at events (floating-point reductions may depend on it)", "metadata are compared through the public properties and the attributes later operations read"]
    required_probes = ["event " + e for e in session.EVENTS] + ["new interpreter", "metadata changed before an event", "resumed after a crash", "pilot signal", "hybrid signal", "operation after a restore"]

    def gen(self, rng, tier, index):
        n = rng.choice([2, 3, 4, 6, 8] + ([12, 20] if tier == "thorough" else [12]))
        names = rng.choice([list(set(ops.OPS) - SKIP), [x for x in ops.OPS if x in ops.INPLACE_NAMES or x in ops.NUMPY], ops.VALUE_NAMES + ops.INPLACE_NAMES, list(set(ops.OPS) - SKIP)])
        names = sorted(names)
        sp = sigs.spec(rng, KINDS, maxn=rng.choice([24, 100, 200]))
        if rng.random() < .4:
            sp, seq = ops.chain(rng, sigs)
            steps = [["op", o] for o in seq]
        else:
            steps = [["op", ops.gen(rng, names)] for _ in range(n)]
        for _ in range(rng.choice([1, 2, 3, 5])):
            k = rng.choice(session.EVENTS)
            ev = ["ev", k, {"proto": rng.randint(0, 5), "lvl": rng.choice([None, 0, 3, 9]), "api": rng.choice(["core", "io", "method"]), "go": rng.choice(["copy", "original"])}]
            steps.insert(rng.randint(0, len(steps)), ev)
        return {"sig": sp, "steps": steps, "fresh": rng.random() < .06, "hashseed": rng.randint(1, 4000000)}

    def run(self, sc, res):
        root = harness.scratch()
        try:
            self._run(sc, res, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def _run(self, sc, res, root):
        job = {"sc": sc, "root": root, "simulate": False, "at": 0, "load": None, "crashed": []}
        ref = session.in_fork(session.segment, job)
        if "exception" in ref:
            raise harness.HarnessError("reference session: " + ref["tb"])
        want = {}
        for e in ref["log"]:
            want[(e[0], e[1] if e[1] == "event" else "op")] = e
        for e in ref["log"]:
            if e[1] != "event":
                res.stats["%s %s" % (e[1].split()[0], e[2])] += 1
        res.event("ref", [(e[0], e[1], e[2], e[4]) for e in ref["log"]])
        sk = sc["sig"]["kind"]
        res.stats["probe:pilot signal"] += sk.startswith("pilots")
        res.stats["probe:hybrid signal"] += sk.startswith("tdhqam")
        at, load, saved, crashed = 0, None, None, []
        restored = False
        fresh_used = False
        for n in range(40):
            job = dict(job, simulate=True, at=at, load=load, crashed=crashed)
            if sc["fresh"] and load and not fresh_used:
                fresh_used = True
                out = session.in_interpreter(job, sc["hashseed"])
                res.stats["probe:new interpreter"] += 1
                res.stats["fault:new interpreter"] += 1
            else:
                out = session.in_fork(session.segment, job)
            res.sim_steps += len(out.get("log", []))
            if "exception" in out:
                if not out["library"]:
                    raise harness.HarnessError("segment: " + out["tb"])
                res.fail("cannot be restored", "after %s of step %d: %s" % ("loading the state" if load else "the start", at, out["exception"]), key="restore:" + out["exception"].split(":")[0])
                return
            for i, kind, detail, ev in out["problems"]:
                res.fail(kind, "step %d of %s: %s" % (i, self.describe(sc, i), detail), key="%s:%s" % (kind, ev))
                return
            for e in out["log"]:
                i, what, name, pic, val = e
                if what == "loaded":
                    prev = want.get((i - 1, "event"))
                    if prev and prev[3] != pic:
                        res.fail("restored signal differs", "step %d of %s: %s" % (i, self.describe(sc, i), session.first(prev[3], pic)), key="restored signal differs")
                        return
                    restored = True
                    continue
                if what == "event":
                    res.nontrivial = True
                    res.state(tuple(sorted(pic.items())))
                    if any(s[0] == "op" and s[1][0] in ops.INPLACE_NAMES for s in sc["steps"][:i]):
                        res.stats["probe:metadata changed before an event"] += 1
                    res.stats["probe:event " + name] += 1
                    if name in ("restart", "ship", "crash"):
                        res.stats["fault:" + {"restart": "process end", "ship": "hand-over", "crash": "crash"}[name]] += 1
                    w = want[(i, "event")]
                elif what == "saved":
                    saved = i + 1
                    continue
                else:
                    w = want[(i, "op")]
                    if restored and what == "done":
                        res.stats["probe:operation after a restore"] += 1
                if w[1] != what or w[3] != pic or w[4] != val:
                    d = "%s instead of %s" % (what, w[1]) if w[1] != what else session.first(w[3], pic) if w[3] != pic else "another result"
                    if what.startswith("raised"):
                        d += " (%s)" % val
                    res.fail("later operation differs", "step %d of %s: %s (%s%s)" % (i, self.describe(sc, i), name, d, ""), key="later operation differs:" + name)
                    return
            if "crash" in out:
                crashed = crashed + [out["crash"]]
                res.event("crash", out["crash"])
                at, load = (saved, "file") if saved else (0, None)
                if saved:
                    res.stats["probe:resumed after a crash"] += 1
                continue
            if out["next"] is None:
                break
            at, load = out["next"], out["load"]
            if load == "file":
                saved = out["saved"]
            res.event("segment", n, at, load)
        else:
            raise harness.HarnessError("session does not end")
        res.stats["kind " + sk] += 1

    def describe(self, sc, i):
        h = [s[1][0] if s[0] == "op" else "<%s>" % s[1] for s in sc["steps"][:i + 1]]
        return "%s %s" % (sc["sig"]["kind"], " ".join(h))

    def shrink(self, sc):
        st = sc["steps"]
        if sc["fresh"]:
            yield dict(sc, fresh=False)
        for k in (len(st) // 2, 1):
            for i in range(0, len(st), max(k, 1)):
                yield dict(sc, steps=st[:i] + st[i + max(k, 1):])
        for s in sigs.smaller(sc["sig"]):
            yield dict(sc, sig=s)
        for i, x in enumerate(st):
            if x[0] == "ev" and x[1] not in ("dcopy", "pickle"):
                for k in ("dcopy", "pickle"):
                    yield dict(sc, steps=st[:i] + [["ev", k, x[2]]] + st[i + 1:])


CHECK = C07
