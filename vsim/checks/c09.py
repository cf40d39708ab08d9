"""C09: concurrent callers working on their own signals."""
import random
import shutil

import numpy as np

from vsim import harness, ops, pysim, session, sigs

QUIET = [n for n, o in ops.OPS.items() if not o.random and o.cheap]


class C09(harness.Check):
    id = "C09"
    technique = "deterministic simulation of concurrent Python callers (seeded preemption at lines and bytecodes of the library)"
    runs = {"quick": 1400, "thorough": 15000}
    rule = ("a run is 2-4 callers, each generating a signal with an explicit seed and taking it through 2-8 operations without random element or through a receiver chain, interleaved by a seeded scheduler at "
            "lines (in every fourth run: bytecodes) of the library, then executed once more one after another; every caller's results are compared with those it gets alone in a clean process; "
            "non-trivial if at least one caller was preempted inside the library")
    state_measure = "distinct (place a caller was stopped at, place the next one resumed at) pairs"
    real = ["all Python code of qampy executed by the callers, the compiled kernels (one thread), real threads"]
    stubs = ["thread scheduling (one caller runs at a time, switches at traced points of qampy only)"]
    assumptions = ["code outside qampy (numpy, scipy, the compiled kernels) is not preempted in the middle", "callers do not use operations with a random element, as the property demands"]
    required_probes = ["preempted", "bytecode granularity", "stored", "same class at once", "repeated afterwards", "default arguments"]

    def setup(self):
        pass

    def jobs(self, rng, tier):
        out = []
        n = rng.choice([2, 2, 3, 4])
        twin = rng.random() < .5
        base = None
        for i in range(n):
            if base is not None and twin:
                # callers doing the same with other data meet in the same functions
                sp = dict(base[0], seed=rng.randint(0, 1 << 20), M=rng.choice([base[0]["M"], rng.choice([4, 16, 64])]), nmodes=rng.choice([base[0]["nmodes"], 1, 2]), N=max(4, base[0]["N"] - rng.choice([0, 0, 3])))
                seq = [[o[0], ops.OPS[o[0]].gen(rng) if o[0] in ops.OPS and rng.random() < .5 else o[1], rng.getrandbits(24)] for o in base[1]]
            elif rng.random() < .5:
                sp, seq = ops.chain(rng, sigs)
                if sp["N"] > 1000:
                    sp["N"] = 200
                seq = [o for o in seq if o[0] in QUIET]
            else:
                sp = sigs.spec(rng, [k for k in sigs.KINDS if k != "symonly"], maxn=60)
                seq = [ops.gen(rng, QUIET) for _ in range(rng.choice([1, 2, 4, 8]))]
            if rng.random() < .15:
                seq.insert(rng.randint(0, len(seq)), ["store", {}, 0])
            base = base or (sp, seq)
            out.append({"spec": sp, "ops": seq})
        return out

    def gen(self, rng, tier, index):
        return {"jobs": self.jobs(rng, tier), "p": rng.choice([.02, .1, .3, .6]), "opcode": rng.random() < .25, "seed": rng.getrandbits(30), "switches": None, "again": [rng.random() for _ in range(4)]}

    def run(self, sc, res):
        root = harness.scratch()
        try:
            self._run(sc, res, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def _run(self, sc, res, root):
        import warnings
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        jobs = sc["jobs"]
        fns = [pysim.job(j["spec"], j["ops"], root, "caller%d" % i) for i, j in enumerate(jobs)]
        solo = []
        for f in fns:
            r = session.in_fork(lambda f: {"log": f()}, f)
            if "exception" in r:
                raise harness.HarnessError(r["tb"])
            solo.append(r["log"])
        err = np.geterr()
        sim = pysim.Sim(random.Random(sc["seed"]), sc["p"], sc["switches"], sc["opcode"])
        out = sim.run(fns)
        res.sim_steps += sim.step
        res.concrete = dict(sc, switches=sim.trace)
        for a, b in sim.pairs:
            res.state(a, b)
        res.event(sim.trace, len(jobs))
        if sim.pairs:
            res.nontrivial = True
            res.stats["probe:preempted"] += 1
            res.stats["fault:preemption in the library"] += len(sim.pairs)
        res.stats["probe:bytecode granularity"] += sc["opcode"]
        res.stats["probe:stored"] += any(o[0] == "store" for j in jobs for o in j["ops"])
        res.stats["probe:same class at once"] += len({j["spec"]["kind"] for j in jobs}) < len(jobs)
        res.stats["probe:default arguments"] += any(j["spec"]["kind"] in ("resampled", "pilots_from") for j in jobs)
        for i, (j, v) in enumerate(zip(jobs, out)):
            got = pysim.outcome(v)
            res.event(i, got)
            for e in solo[i][1:]:
                res.stats["ops %s" % ("skipped" if e[1] == "skipped" else "raised" if str(e[1]).startswith("raised") else "done")] += 1
            if got != solo[i]:
                res.fail("result depends on concurrent callers", "caller %d of %d (%s; %s): %s; %d switches" % (i, len(jobs), j["spec"]["kind"], " ".join(o[0] for o in j["ops"]), pysim.first_difference(solo[i], got), len(sim.trace)),
                         key="concurrent:" + self.place(solo[i], got))
                return
        # the same again, one after another
        order = sorted(range(len(jobs)), key=lambda i: sc["again"][i])
        for i in order:
            res.stats["probe:repeated afterwards"] += 1
            got = fns[i]()
            if got != solo[i]:
                res.fail("earlier calls change later results", "%s; %s: %s" % (jobs[i]["spec"]["kind"], " ".join(o[0] for o in jobs[i]["ops"]), pysim.first_difference(solo[i], got)), key="later:" + self.place(solo[i], got))
                return
        if np.geterr() != err:
            res.fail("earlier calls change later results", "the floating-point error handling of the process was left at %s" % np.geterr(), key="later:geterr")

    @staticmethod
    def place(a, b):
        if isinstance(b, str):
            return b.split(":")[0]
        for x, y in zip(a, b):
            if x != y:
                return x[0] if isinstance(x, list) else "generation"
        return "length"

    def shrink(self, sc):
        js = sc["jobs"]
        if len(js) > 2:
            for i in range(len(js)):
                yield dict(sc, jobs=js[:i] + js[i + 1:], switches=None)
        for i, j in enumerate(js):
            if j["ops"]:
                n = len(j["ops"])
                for k in (n // 2, 1):
                    for a in range(0, n, max(k, 1)):
                        yield dict(sc, jobs=js[:i] + [dict(j, ops=j["ops"][:a] + j["ops"][a + max(k, 1):])] + js[i + 1:], switches=None)
        sw = sc["switches"]
        if sw:
            n = len(sw)
            for k in (n // 2, n // 4, 1):
                if k:
                    for a in range(0, n, k):
                        yield dict(sc, switches=sw[:a] + sw[a + k:])
        for i, j in enumerate(js):
            for s in sigs.smaller(j["spec"]):
                yield dict(sc, jobs=js[:i] + [dict(j, spec=s)] + js[i + 1:], switches=None)


CHECK = C09
