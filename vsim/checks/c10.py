"""C10: concurrent callers that share the signals, taps, alphabets and references they read."""
import random

import numpy as np

from vsim import harness, ops, pysim, session, sigs, state

READERS = [n for n, o in ops.OPS.items() if not o.random and o.cheap and o.kind in (ops.NEW, ops.VALUE)]


class Shared:
    """what the callers have in common"""

    def __init__(self, sc):
        s = sigs.make(sc["spec"])
        for op in sc["prepare"]:
            if not ops.applicable(op, s):
                continue
            o = ops.OPS[op[0]]
            v = ops.call(op, s)
            if o.kind == ops.NEW and session.keep(ops.signal_of(v)):
                s = ops.signal_of(v)
        self.sig = s
        self.taps = ops.taps(s, sc["taps"], sc["spec"]["seed"] % 1000) if np.iscomplexobj(s) else None
        r = np.random.RandomState(sc["spec"]["seed"])
        a = getattr(s, "coded_symbols", None)
        self.alphabet = None if a is None else np.array(a)
        self.ref = np.array(s.symbols) if ops.has_symbols(s) else None
        self.angles = np.linspace(-np.pi / 4, np.pi / 4, 12, endpoint=False).reshape(1, -1)
        self.phase = r.uniform(-3, 3, (s.shape[0], 1))
        self.shifts = np.array([11, 14, 12])
        self.rx = None
        if ops.measurable(s):
            self.rx = s * np.exp(0.1j)
        self.watched = [(a, a.tobytes()) for a in map(np.asarray, session.arrays([self.sig, self.taps, self.alphabet, self.ref, self.angles, self.phase, self.shifts, self.rx]))]

    def touched(self):
        """an array somebody has written to, or None"""
        for k, (a, b) in enumerate(self.watched):
            if a.tobytes() != b:
                return k
        return None

    def pictures(self):
        return [state.look(self.sig)] + [state.describe(x) for x in (self.taps, self.alphabet, self.ref, self.angles, self.phase, self.shifts, self.rx)]


CALLS = {}


def call(name, gen=lambda r: {}, ok=lambda h, p: True):
    def deco(f):
        CALLS[name] = (gen, ok, f)
        return f
    return deco


def _eq(h, p, n=None):
    return h.taps is not None and ops.eq_ok(h.sig, {"Ntaps": h.taps.shape[-1]})


@call("train with shared taps", lambda r: {"mu": ops._f(r, 1e-4, 1e-3), "m": r.choice(["cma", "mcma", "sbd", "dd", "rde", "mrde", "cma2"]), "a": r.choice([True, False]), "it": r.choice([1, 2])},
      lambda h, p: _eq(h, p) and ops.method_ok(h.sig, p["m"]))
def _(h, p):
    from qampy import equalisation
    return list(equalisation.equalise_signal(h.sig, p["mu"], wxy=h.taps, method=p["m"], adaptive_stepsize=p["a"], Niter=p["it"], apply=True))


@call("train with shared alphabet", lambda r: {"mu": ops._f(r, 1e-4, 1e-3), "m": r.choice(["cma", "mcma", "sbd", "dd"])},
      lambda h, p: _eq(h, p) and h.alphabet is not None and ops.method_ok(h.sig, p["m"]) and ops.has_bits(h.sig))
def _(h, p):
    from qampy import equalisation
    return list(equalisation.equalise_signal(h.sig, p["mu"], wxy=h.taps, method=p["m"], symbols=h.alphabet))


@call("apply shared taps", lambda r: {"how": r.choice(["pyt", "py"])}, lambda h, p: _eq(h, p) and (p["how"] == "pyt" or h.taps.shape[-1] >= h.sig.os))
def _(h, p):
    from qampy import equalisation
    return equalisation.apply_filter(h.sig, h.taps, method=p["how"], frames=None)


@call("dual mode with shared taps", lambda r: {"mu": ops._f(r, 1e-4, 1e-3)}, lambda h, p: _eq(h, p) and ops.method_ok(h.sig, "mcma"))
def _(h, p):
    from qampy import equalisation
    return list(equalisation.dual_mode_equalisation(h.sig, (p["mu"], p["mu"]), h.taps.shape[-1], wxy=h.taps, methods=("mcma", "sbd")))


@call("pilot equaliser with shared taps", lambda r: {"mu": ops._f(r, 1e-4, 1e-3), "foe": r.choice([True, False])}, lambda h, p: h.taps is not None and ops.eqp_ok(h.sig, {"Ntaps": h.taps.shape[-1]}))
def _(h, p):
    from qampy import equalisation
    return list(equalisation.pilot_equaliser(h.sig, p["mu"], h.taps.shape[-1], wxinit=h.taps, foe_comp=p["foe"], Niter=3))


@call("blind phase search with shared alphabet", lambda r: {"N": r.randint(2, 5)}, lambda h, p: ops.alphabet(h.sig) and h.sig.shape[1] >= 24)
def _(h, p):
    from qampy.core import phaserecovery
    return list(phaserecovery.bps(h.sig, h.angles.shape[1], h.alphabet, p["N"]))


@call("decide on shared alphabet", ok=lambda h, p: h.alphabet is not None and ops.plain_rows(h.sig))
def _(h, p):
    from qampy.core import signal_quality
    return [signal_quality.make_decision(x, h.alphabet) for x in h.sig]


@call("quality of a shared received signal", lambda r: {"sy": r.choice([True, False]), "what": r.choice(["cal_ser", "cal_ber", "cal_evm", "est_snr", "cal_gmi"])},
      lambda h, p: h.rx is not None and ops.measurable_bits(h.sig) and ops._adj(h.rx, p) and len(h.alphabet) <= 64)
def _(h, p):
    kw = {"snr": 10.} if p["what"] == "cal_gmi" else {}
    return getattr(h.sig, p["what"])(signal_rx=h.rx, synced=p["sy"], **kw)


@call("snr against shared reference", lambda r: {"sy": r.choice([True, False])}, lambda h, p: h.ref is not None and ops.measurable_bits(h.sig) and ops._adj(h.sig, p) and len(h.alphabet) <= 64)
def _(h, p):
    return h.sig.est_snr(symbols_tx=h.ref, synced=p["sy"])


@call("synchronise with shared references", lambda r: {"a": r.choice(["tx", "rx"])}, lambda h, p: h.ref is not None and ops.measurable(h.sig) and ops._adj(h.sig, {"sy": False}))
def _(h, p):
    from qampy.core import ber_functions
    return list(ber_functions.sync_and_adjust(h.ref[0], np.asarray(h.sig)[0], adjust=p["a"])[0])


@call("frequency offset from shared pilots", ok=lambda h, p: ops.is_pilot(h.sig) and ops.cplx(h.sig) and h.sig.shape[1] >= h.sig.pilot_seq.shape[1] > 2 and h.sig.shape[0] == h.sig.pilot_seq.shape[0])
def _(h, p):
    from qampy.core import pilotbased_receiver
    return list(pilotbased_receiver.pilot_based_foe(np.asarray(h.sig)[:, :h.sig.pilot_seq.shape[1]], h.sig.pilot_seq))


@call("frame search", lambda r: {"n": r.choice([5, 7])}, lambda h, p: ops.is_pilot(h.sig) and ops.cplx(h.sig) and h.sig.os in (1, 2) and h.sig.os == h.sig.fs / h.sig.fb and h.sig.shape[0] == h.sig.pilot_seq.shape[0]
      and h.sig.shape[1] >= (h.sig.frame_len + 2 * h.sig.pilot_seq.shape[1]) * h.sig.os and h.sig.pilot_seq.shape[1] >= 12)
def _(h, p):
    from qampy.core import pilotbased_receiver
    return list(pilotbased_receiver.frame_sync(h.sig, h.sig.pilot_seq, int(h.sig.os), frame_len=h.sig.frame_len, Ntaps=p["n"]))


@call("correct shared shifts", ok=lambda h, p: True)
def _(h, p):
    from qampy.core import pilotbased_receiver
    return [pilotbased_receiver.correct_shifts(h.shifts, (5, 9), 2)]


@call("shift shared signal", ok=lambda h, p: h.sig.ndim == 2 and h.sig.shape[0] > 1)
def _(h, p):
    from qampy.core import pilotbased_receiver
    return [pilotbased_receiver.shift_signal(h.sig, h.shifts[:h.sig.shape[0]])]


@call("modulate shared bits", ok=lambda h, p: ops.cplx(h.sig) and ops.has_bits(h.sig))
def _(h, p):
    return h.sig.modulate(h.sig.bits)


@call("remove shared phase", ok=lambda h, p: ops.cplx(h.sig))
def _(h, p):
    from qampy import phaserec
    return phaserec.correct_pilot_const_phase(h.sig, h.phase)


@call("constant phase against shared reference", ok=lambda h, p: h.ref is not None and h.sig.ndim == 2 and h.ref.shape[0] == h.sig.shape[0] and min(h.ref.shape[1], h.sig.shape[1]) > 2)
def _(h, p):
    from qampy import phaserec
    L = min(h.ref.shape[1], h.sig.shape[1])
    return phaserec.find_pilot_const_phase(h.sig[:, :L], h.ref[:, :L])


@call("find offset to shared reference", ok=lambda h, p: h.ref is not None and ops.measurable(h.sig) and ops._adj(h.sig, {"sy": False}))
def _(h, p):
    from qampy.core import ber_functions
    return [list(ber_functions.find_sequence_offset_complex(np.asarray(h.ref[0]), np.asarray(h.sig[0])))[:2]]


FOR_PILOTS = ["pilot equaliser with shared taps", "frequency offset from shared pilots", "frame search", "correct shared shifts", "pilot equaliser with shared taps"]


def caller(h, seq):
    """the results one caller gets, in order"""
    log = []
    own = h.sig
    for name, p, on in seq:
        if name in CALLS:
            gen, ok, f = CALLS[name]
            if not ok(h, p):
                log.append([name, "skipped"])
                continue
            go = lambda: f(h, p)
        else:
            s = h.sig if on == "shared" else own
            if not ops.applicable([name, p], s):
                log.append([name, "skipped"])
                continue
            go = lambda: ops.call([name, p, 0], s)
        try:
            v = go()
        except Exception as e:
            log.append([name, "raised %s: %s" % (type(e).__name__, str(e)[:200])])
            continue
        if name not in CALLS and ops.OPS[name].kind == ops.NEW and session.keep(ops.signal_of(v)):
            own = ops.signal_of(v)
        log.append([name, session.value(list(v) if isinstance(v, tuple) else v)])
    return log


class C10(harness.Check):
    id = "C10"
    technique = "deterministic simulation of concurrent Python callers sharing inputs (seeded preemption at lines and bytecodes of the library)"
    runs = {"quick": 1600, "thorough": 16000}
    rule = ("a run is one signal (raw or part-way through a receiver chain) with taps, alphabet, references, test angles and phases shared by 2-4 callers, each making 1-4 calls that only read them, "
            "interleaved by a seeded scheduler at lines (every fourth run: bytecodes) of the library; results are compared with those each caller gets alone, all arrays reachable from the shared objects are compared at every switch "
            "and the objects' metadata at the end; non-trivial if a caller was preempted inside the library")
    state_measure = "distinct (place a caller was stopped at, place the next one resumed at) pairs"
    real = ["all Python code of qampy executed by the callers, the compiled kernels (one thread), real threads"]
    stubs = ["thread scheduling (one caller runs at a time, switches at traced points of qampy only)"]
    assumptions = ["code outside qampy (numpy, scipy, the compiled kernels) is not preempted in the middle; writes inside it are seen at the next switch"]
    required_probes = ["preempted", "bytecode granularity", "shared taps", "pilot signal", "measured", "pilot equaliser", "frame search"]

    def seq(self, rng, pilot):
        out = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            if rng.random() < .6:
                n = rng.choice(FOR_PILOTS) if pilot and rng.random() < .6 else rng.choice(sorted(CALLS))
                out.append([n, CALLS[n][0](rng), "shared"])
            else:
                n = rng.choice(READERS)
                out.append([n, ops.OPS[n].gen(rng), rng.choice(["shared", "shared", "own"])])
        return out

    def gen(self, rng, tier, index):
        while True:
            if rng.random() < .75:
                sp, seq = ops.chain(rng, sigs)
                if sp["N"] > 1000:
                    continue
                # the callers meet at some stage of the chain
                prepare = [o for o in seq[:rng.randint(0, len(seq))]]
                rest = [o for o in seq[len(prepare):] if o[0] in READERS]
            else:
                sp, prepare, rest = sigs.spec(rng, [k for k in sigs.KINDS if k != "symonly"], maxn=60), [], []
            break
        pilot = sp["kind"].startswith("pilots")
        if pilot and rng.random() < .4:
            # synchronised, not yet equalised
            sp.update(nmodes=rng.choice([1, 2]), nframes=3)
            prepare = ([ops._op(rng, "resample_poly", os=2)] if rng.random() < .5 else []) + [ops._op(rng, "set_sync", o=rng.randint(2, 20))]
        callers = []
        for _ in range(rng.choice([2, 2, 3, 4])):
            q = self.seq(rng, pilot)
            if rest and rng.random() < .7:
                q = ([[o[0], o[1], rng.choice(["own", "shared"])] for o in rest[:3]] + q)[:4]
            callers.append(q)
            if rng.random() < .4:
                callers.append([list(x) for x in q])
        return {"spec": sp, "prepare": prepare, "taps": rng.choice([3, 5, 7]), "callers": callers[:4], "p": rng.choice([.02, .1, .3, .6]), "opcode": rng.random() < .25, "seed": rng.getrandbits(30), "switches": None}

    def run(self, sc, res):
        import warnings
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        solo = []

        def alone(i):
            return {"log": caller(Shared(sc), sc["callers"][i])}
        for i in range(len(sc["callers"])):
            r = session.in_fork(alone, i)
            if "exception" in r:
                raise harness.HarnessError(r["tb"])
            solo.append(r["log"])
        h = Shared(sc)
        pics = h.pictures()
        seen = []

        def watch():
            if not seen and h.touched() is not None:
                seen.append(h.touched())
        sim = pysim.Sim(random.Random(sc["seed"]), sc["p"], sc["switches"], sc["opcode"], on_switch=watch)
        out = sim.run([lambda q=q: caller(h, q) for q in sc["callers"]])
        watch()
        res.sim_steps += sim.step
        res.concrete = dict(sc, switches=sim.trace)
        for a, b in sim.pairs:
            res.state(a, b)
        res.event(sim.trace, len(out))
        names = {e[0] for l in solo for e in l if e[1] != "skipped"}
        if sim.pairs:
            res.nontrivial = True
            res.stats["probe:preempted"] += 1
            res.stats["fault:preemption in the library"] += len(sim.pairs)
        res.stats["probe:bytecode granularity"] += sc["opcode"]
        res.stats["probe:shared taps"] += any(e[0] in CALLS and "taps" in e[0] and e[1] != "skipped" and not e[1].startswith("raised") for l in solo for e in l)
        res.stats["probe:pilot signal"] += ops.is_pilot(h.sig)
        res.stats["probe:measured"] += bool(names & set(ops.MEASURE))
        for n in ("pilot equaliser", "frame search"):
            res.stats["probe:" + n] += any(e[0].startswith(n) and len(e[1]) == 20 for l in solo for e in l)
        for l in solo:
            for e in l:
                res.stats["calls %s" % ("skipped" if e[1] == "skipped" else "raised" if e[1].startswith("raised") else "done")] += 1
        what = "; ".join(" ".join(x[0] for x in q) for q in sc["callers"])
        for i, v in enumerate(out):
            got = pysim.outcome(v)
            res.event(i, got)
            if got != solo[i]:
                k, n = self.place(solo[i], got)
                res.fail("result depends on callers sharing the input", "caller %d (%s), call %d (%s): %s instead of %s; %d switches" % (i, what, k, n, got[k] if isinstance(got, list) else got, solo[i][k], len(sim.trace)), key="shared:" + n)
                return
        if seen:
            res.fail("shared input written to", "during %s: array %d of %d reachable from the shared objects" % (what, seen[0], len(h.watched)), key="written:" + self.guess(sc))
            return
        after = h.pictures()
        if after != pics:
            d = session.first(pics[0], after[0]) if pics[0] != after[0] else "object %d" % [a == b for a, b in zip(pics, after)].index(False)
            res.fail("shared input changed", "%s: %s" % (what, d), key="changed:" + self.guess(sc))

    def guess(self, sc):
        """the first call that changes the shared objects on its own"""
        for q in sc["callers"]:
            for c in q:
                h = Shared(sc)
                pics = h.pictures()
                caller(h, [c])
                if h.touched() is not None or h.pictures() != pics:
                    return c[0]
        return "together"

    @staticmethod
    def place(a, b):
        if isinstance(b, list):
            for k, (x, y) in enumerate(zip(a, b)):
                if x != y:
                    return k, x[0]
        return 0, a[0][0] if a else "nothing"

    def shrink(self, sc):
        cs = sc["callers"]
        if len(cs) > 2:
            for i in range(len(cs)):
                yield dict(sc, callers=cs[:i] + cs[i + 1:], switches=None)
        for i, q in enumerate(cs):
            if len(q) > 1:
                for k in range(len(q)):
                    yield dict(sc, callers=cs[:i] + [q[:k] + q[k + 1:]] + cs[i + 1:], switches=None)
        for k in range(len(sc["prepare"])):
            yield dict(sc, prepare=sc["prepare"][:k] + sc["prepare"][k + 1:], switches=None)
        sw = sc["switches"]
        if sw:
            n = len(sw)
            for k in (n // 2, n // 4, 1):
                if k:
                    for a in range(0, n, k):
                        yield dict(sc, switches=sw[:a] + sw[a + k:])
        for s in sigs.smaller(sc["spec"]):
            yield dict(sc, spec=s, switches=None)
        if sc["opcode"]:
            yield dict(sc, opcode=False, switches=None)


CHECK = C10
