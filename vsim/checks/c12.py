"""C12: generation with explicit seeds, whatever happens around it."""
import json
import os
import random
import subprocess
import sys

import numpy as np

from vsim import harness, ops, pysim, session, sigs, state

KINDS = [k for k in sigs.KINDS if k != "symonly"]


def a_seed(rng):
    return rng.choice([0, 0, 1, 7, (1 << 32) - 1] + [rng.randint(0, 1 << 31)] * 5)


def a_register(rng, order):
    """start of a shift register: a number, its bits, or the default"""
    x = rng.random()
    if x < .15:
        return None
    if x < .3:
        return [1] + [rng.randint(0, 1) for _ in range(order - 1)]
    return rng.randint(1, min((1 << order) - 1, 1 << rng.randint(1, 31)))


def a_spec(rng, kinds):
    sp = sigs.spec(rng, kinds, maxn=60)
    if rng.random() < .15:
        sp["seed"] = rng.choice([0, 0, 1])
    return sp


def maker(rng):
    x = rng.random()
    if x < .12:
        return ["bits", {"N": rng.randint(1, 300), "n": rng.choice([1, 2, 3]), "seed": a_seed(rng)}]
    if x < .3:
        n = rng.choice([1, 2, 3, 4])
        given = rng.choice([n, n, n, rng.randint(1, n)])
        order = [rng.choice([7, 15, 23, 31]) for _ in range(given)]
        return ["prbs", {"N": rng.choice([rng.randint(1, 300), rng.randint(1, 300), 3000]), "n": n, "seed": [a_register(rng, (order + [15] * n)[i]) for i in range(rng.choice([given, n]))], "order": order}]
    if x < .4:
        order = rng.choice([7, 15, 23, 31])
        return ["prbs_fn", {"ext": rng.choice([True, False]), "order": order, "N": rng.choice([rng.randint(1, 300), rng.randint(1, 300), 3000]), "seed": a_register(rng, order)}]
    if x < .55:
        sp = a_spec(rng, ["pilots"])
        return ["frames", dict(sp, repeat=[rng.choice([True, False]), rng.choice([True, False])], prbs=rng.choice([True, False]), scale=rng.choice([1, 1.5]))]
    if x < .62:
        return ["pulse", dict(a_spec(rng, ["resampled"]), beta=rng.choice([.1, .3]))]
    if x < .7:
        return ["default orders", {"M": rng.choice([4, 16, 64]), "N": rng.randint(4, 80), "n": rng.choice([1, 2])}]
    return ["signal", a_spec(rng, KINDS)]


def another(rng, m):
    """nearly the same arguments"""
    sd = m[1].get("seed")
    if isinstance(sd, int):
        m[1]["seed"] = sd - 1 if sd else 1
    elif isinstance(sd, list) and sd:
        i = rng.randrange(len(sd))
        if m[0] == "prbs_fn":
            sd[i] ^= 1
            sd[-1] = 1
        elif isinstance(sd[i], int):
            sd[i] = sd[i] - 1 or 2
        elif isinstance(sd[i], list):
            sd[i] = sd[i][1:] + [1]
    elif "N" in m[1]:
        m[1]["N"] += 1
    return m


def make(m):
    """(object, what of it is determined)"""
    from qampy import signals
    from qampy.core import prbs
    k, p = m
    if k == "bits":
        o = signals.RandomBits(p["N"], nmodes=p["n"], seed=p["seed"])
        return o, np.asarray(o)
    if k == "prbs":
        o = signals.PRBSBits(p["N"], nmodes=p["n"], seed=list(p["seed"]), order=list(p["order"]))
        return o, np.asarray(o)[:min(len(p["seed"]), len(p["order"]))]
    if k == "prbs_fn":
        o = (prbs.make_prbs_extXOR if p["ext"] else prbs.make_prbs_intXOR)(p["order"], p["N"], p["seed"])
        return o, o
    if k == "frames":
        fl, ps, pr = sigs.layout(p)
        kw = dict(bitclass=signals.PRBSBits, seed=[p["seed"] % 97 + 1 + i for i in range(p["nmodes"])], order=[15, 23, 7][:p["nmodes"]]) if p["prbs"] else dict(seed=p["seed"])
        o = signals.SignalWithPilots(p["M"], fl, ps, pr, nframes=p["nframes"], repeat_data=p["repeat"][0], repeat_pilots=p["repeat"][1], pilot_scale=p["scale"], nmodes=p["nmodes"], fb=p["fb"], dtype=np.dtype(p["dtype"]).type, **kw)
        return o, o
    if k == "pulse":
        o = signals.ResampledQAM(p["M"], max(p["N"], 32), fb=p["fb"], fs=p["fb"] * p["os"], resamplekwargs={"beta": p["beta"]}, seed=p["seed"], nmodes=p["nmodes"])
        return o, o
    if k == "default orders":
        o = signals.SignalQAMGrayCoded(p["M"], p["N"], nmodes=p["n"], bitclass=signals.PRBSBits)
        return o, o
    o = sigs.make(p)
    return o, o


def produce(ms):
    out = []
    for m in ms:
        o, v = make(m)
        out.append(session.value(v))
    return out


def own_data(o):
    for a in [o] + [getattr(o, n, None) for n in ("bits", "symbols", "pilots")]:
        if isinstance(a, np.ndarray) and a.flags.writeable and not a.dtype.hasobject and a.size:
            np.asarray(a)[...] = 1 if a.dtype == bool else 0.5


def noise(plan):
    """a caller that draws from the process-wide generators"""
    def go():
        from qampy import impairments, signals
        np.random.seed(plan["seed"])
        random.seed(plan["seed"])
        log = []
        s = signals.SignalQAMGrayCoded(4, 16, seed=1)
        for a, k in plan["draws"]:
            if a == "randn":
                log.append(state._h(np.random.randn(k).tobytes()))
            elif a == "randint":
                log.append(np.random.randint(0, 1 << 30, size=k).tolist())
            elif a == "random":
                log.append([random.random() for _ in range(k)])
            elif a == "seed":
                np.random.seed(k)
                random.seed(k)
            elif a == "noisy":
                log.append(session.value(impairments.change_snr(s, 10 + k)))
            elif a == "phase":
                log.append(session.value(impairments.apply_phase_noise(s, 1e-4 * k)))
            elif a == "symbols":
                log.append(session.value(signals.SymbolOnlySignal(5, 8 + k, np.exp(2j * np.pi * np.arange(5) / 5))))
        return log
    return go


def globals_now():
    s = np.random.get_state()
    return state._h(repr((s[0], s[1].tolist(), s[2:], random.getstate())).encode())


class C12(harness.Check):
    id = "C12"
    technique = "deterministic simulation of generators among other users of randomness (seeded preemption, process-wide generators, hash seeds, processes)"
    runs = {"quick": 1000, "thorough": 20000}
    rule = ("a run generates 1-6 bit sequences and signals with explicit seeds by 1-3 callers while another caller uses and re-seeds the process-wide random generators, interleaved by a seeded scheduler at lines or bytecodes of the library, "
            "then again one after another (after the results were overwritten in place), and every 40th run in a new interpreter with another hash seed; everything is compared with generation alone in a clean process; "
            "non-trivial if a generation was interleaved with others")
    state_measure = "distinct (place a caller was stopped at, place the next one resumed at) pairs"
    real = ["all generators of qampy, numpy's generators, real threads, new interpreters"]
    stubs = ["thread scheduling (one caller runs at a time, switches at traced points of qampy only)"]
    assumptions = ["SymbolOnlySignal takes no seed and is not covered; of PRBS sequences with fewer seeds or orders than modes only the modes with both are determined"]
    required_probes = ["interleaved", "noise", "new interpreter", "overwritten", "fewer orders than modes", "pilot frames"]

    def gen(self, rng, tier, index):
        ms = [maker(rng) for _ in range(rng.choice([1, 2, 3, 4, 6]))]
        if rng.random() < .3:      # the same arguments again, and nearly the same
            m = rng.choice(ms)
            ms.append(json.loads(json.dumps(m)))
            m = json.loads(json.dumps(m))
            ms.append(another(rng, m))
        k = rng.choice([1, 2, 2, 3])
        callers = [[] for _ in range(k)]
        for i in range(len(ms)):
            callers[rng.randrange(k)].append(i)
        plan = {"seed": rng.randint(0, 9999), "draws": [[rng.choice(["randn", "randint", "random", "seed", "noisy", "phase", "symbols"]), rng.randint(1, 5)] for _ in range(rng.randint(1, 10))]}
        return {"makers": ms, "callers": callers, "noise": plan, "p": rng.choice([.02, .1, .3, .6]), "opcode": rng.random() < .3, "seed": rng.getrandbits(30), "switches": None,
                "interpreter": rng.randint(1, 1 << 20) if index % 40 == 0 else None}

    def run(self, sc, res):
        import warnings
        warnings.simplefilter("ignore")
        ms = sc["makers"]
        solo = []
        for m in ms:
            r = session.in_fork(lambda m: {"v": produce([m])[0]}, m)
            if "exception" in r:
                res.fail("generation fails", "%s: %s" % (json.dumps(m), r["exception"]), key="fails:" + m[0])
                return
            solo.append(r["v"])
        quiet = session.in_fork(lambda p: {"v": noise(p)()}, sc["noise"])["v"]
        for m in ms:
            res.stats["probe:fewer orders than modes"] += m[0] == "prbs" and len(m[1]["order"]) < m[1]["n"]
            res.stats["probe:pilot frames"] += m[0] == "frames"
            res.stats["made " + m[0]] += 1
        # interleaved
        fns = [lambda c=c: [produce([ms[i]])[0] for i in c] for c in sc["callers"]] + [noise(sc["noise"])]
        # sequences with missing seeds draw from the process-wide generator, as documented
        undetermined = any(m[0] == "prbs" and min(len(m[1]["order"]), len(m[1]["seed"])) < m[1]["n"] for m in ms)
        sim = pysim.Sim(random.Random(sc["seed"]), sc["p"], sc["switches"], sc["opcode"])
        out = sim.run(fns)
        res.sim_steps += sim.step
        res.concrete = dict(sc, switches=sim.trace)
        res.event(sim.trace)
        for a, b in sim.pairs:
            res.state(a, b)
        if sim.pairs:
            res.nontrivial = True
            res.stats["probe:interleaved"] += 1
            res.stats["fault:preemption in the library"] += len(sim.pairs)
        for c, v in zip(sc["callers"], out):
            got = pysim.outcome(v)
            res.event(got)
            want = [solo[i] for i in c]
            if got != want:
                k = [a == b for a, b in zip(got, want)].index(False) if isinstance(got, list) else 0
                res.fail("generation depends on what runs beside it", "%s: %s instead of %s" % (json.dumps(ms[c[k]]), got[k] if isinstance(got, list) else got, want[k]), key="beside:" + ms[c[k]][0])
                return
        got = pysim.outcome(out[-1])
        res.stats["probe:noise"] += 1
        res.stats["fault:process-wide generator used"] += len(sc["noise"]["draws"])
        if got != quiet and not undetermined:
            res.fail("generation disturbs the process-wide random state", "draws of another caller changed while %s were generated" % " ".join(m[0] for m in ms), key="disturbs:" + self.who(sc))
            return
        # one after another, with the process-wide state as the noise left it
        order = random.Random(sc["seed"] + 1).sample(range(len(ms)), len(ms))
        for i in order:
            m = ms[i]
            before = globals_now()
            o, v = make(m)
            got = session.value(v)
            if got != solo[i]:
                res.fail("generation depends on what ran before", "%s: %s instead of %s" % (json.dumps(m), got, solo[i]), key="before:" + m[0])
                return
            if globals_now() != before and not (m[0] == "prbs" and min(len(m[1]["order"]), len(m[1]["seed"])) < m[1]["n"]):
                res.fail("generation disturbs the process-wide random state", json.dumps(m), key="disturbs:" + m[0])
                return
            if m[0] == "prbs":
                self.modes(m, v, res)
                if res.violation:
                    return
            own_data(o)
            res.stats["probe:overwritten"] += 1
        for i in order:
            o, v = make(ms[i])
            if session.value(v) != solo[i]:
                res.fail("generation depends on what ran before", "%s after an earlier result was overwritten by its owner" % json.dumps(ms[i]), key="before:" + ms[i][0])
                return
        if sc["interpreter"] is not None:
            res.stats["probe:new interpreter"] += 1
            res.stats["fault:new interpreter"] += 1
            got = new_interpreter(ms, sc["interpreter"])
            if got != solo:
                k = [a == b for a, b in zip(got, solo)].index(False)
                res.fail("generation depends on the process", "%s: %s instead of %s" % (json.dumps(ms[k]), got[k], solo[k]), key="process:" + ms[k][0])

    def modes(self, m, v, res):
        """each mode is the sequence of its own order and seed"""
        p = m[1]
        for i in range(v.shape[0]):
            o, w = make(["prbs", {"N": p["N"], "n": 1, "seed": [p["seed"][i]], "order": [p["order"][i]]}])
            if not np.array_equal(w[0], v[i]):
                res.fail("generation of one mode depends on the others", "%s: mode %d" % (json.dumps(m), i), key="modes:" + m[0])
                return

    @staticmethod
    def who(sc):
        for m in sc["makers"]:
            b = globals_now()
            make(m)
            if globals_now() != b:
                return m[0]
        return "together"

    def shrink(self, sc):
        ms = sc["makers"]
        if len(ms) > 1:
            for i in range(len(ms)):
                yield dict(sc, makers=ms[:i] + ms[i + 1:], callers=[[k - (k > i) for k in c if k != i] for c in sc["callers"]], switches=None)
        d = sc["noise"]["draws"]
        for i in range(len(d)):
            yield dict(sc, noise=dict(sc["noise"], draws=d[:i] + d[i + 1:]), switches=None)
        for i, c in enumerate(sc["callers"]):
            if not c and len(sc["callers"]) > 1:
                yield dict(sc, callers=sc["callers"][:i] + sc["callers"][i + 1:], switches=None)
        sw = sc["switches"]
        if sw:
            n = len(sw)
            for k in (n // 2, n // 4, 1):
                if k:
                    for a in range(0, n, k):
                        yield dict(sc, switches=sw[:a] + sw[a + k:])
        if sc["interpreter"] is not None:
            yield dict(sc, interpreter=None)


def new_interpreter(ms, hashseed):
    env = harness._env(str(hashseed))
    p = subprocess.run([sys.executable, "-m", "vsim", "produce"], input=json.dumps(ms).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=harness.ROOT, timeout=120)
    try:
        return json.loads(p.stdout.decode().splitlines()[-1])
    except Exception:
        raise harness.HarnessError("generation in a new interpreter: %s" % p.stderr.decode()[-1500:])


def produce_main(argv):
    from vsim import kernels
    import warnings
    warnings.simplefilter("ignore")
    ms = json.loads(sys.stdin.read())
    kernels.install(kernels.build("plain"))
    print(json.dumps(produce(ms)))
    return 0


CHECK = C12
