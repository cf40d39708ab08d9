"""C20: a disturbance on one port stays on that port."""
import copy

import numpy as np

from vsim import harness, ops, sigs

# operations that treat every port on its own: those whose result for one port can be had from that port alone, and the others
ALONE = ["resample", "resample_poly", "carrier_offset", "dispersion", "modal_delay", "sim_mod_response", "clip_DAC", "filter_signal", "filter_analog", "pre_filter", "rrcos", "moving_average", "orthonormalize", "comp_IQ", "rf_delay",
         "normalise_and_center", "normalise_pil", "dump_edges", "rescale", "quantize", "bps", "bps_twostage", "viterbi", "partition16", "find_foe", "comp_foe", "const_phase", "find_const_phase", "make_decision", "demodulate",
         "norm_inplace", "conj", "roll", "scale", "slice"]
WITH_REFS = ["cal_ser", "cal_ber", "cal_evm", "est_snr", "cal_gmi", "cal_mi", "norm_symbols", "pilot_cpe", "get_data", "extract_pilots", "corr_foe", "set_sync", "phase_noise", "add_awgn", "plain_link", "measure_data", "pilot_phase", "demap"]
NAMES = ALONE + WITH_REFS
LIST_PARAMS = {"modal_delay": "d", "comp_foe": "f", "const_phase": "ph"}
HOWS = ["loss", "dead", "noise", "strong", "stuck", "clipped", "other", "delayed", "rotated", "nan", "inf", "tiny", "impulse"]
# with these, a port carries no numbers or no signal any more and the whole call may refuse to work


def gen_op(rng, name):
    if name == "clip_DAC":
        return [name, {"clip": rng.choice([.6, .8, .95]), "cutoff": rng.choice([None, .2, .35]), "bits": rng.choice([0, 0, 4, 6])}, 0]
    if name == "plain_link":
        o = ops.gen(rng, ["simulate_transmission"])
        o[1].update(dgd=None, snr=None)
        o[0] = name
        return o
    if name == "measure_data":
        return [name, {"what": rng.choice(["ser", "ber", "evm", "snr", "gmi"])}, 0]
    if name == "demap":
        return [name, {"what": rng.choice(["gmi", "gmi minmax", "mi", "mi", "mi slow", "ser", "ber", "snr", "evm blind"]), "snr": rng.choice([None, None, 5., 12., [rng.uniform(0, 20) for _ in range(8)]])}, 0]
    if name == "pilot_phase":
        return [name, {}, 0]
    o = ops.gen(rng, [name])
    if "sy" in o[1]:
        o[1]["sy"] = True
    if name == "find_foe":
        o[1]["avg"] = False
    if name in LIST_PARAMS:
        k = LIST_PARAMS[name]
        o[1][k] = o[1][k] + [o[1][k][0]]
    return o


def ok(o, s):
    n, p = o[0], o[1]
    if n == "clip_DAC":
        return ops.cplx(s) and ops.frames_ok(s) and s.shape[1] >= 8 and np.all(np.any(np.asarray(s), axis=-1))
    if n == "plain_link":
        return ops.frames_ok(s) and ops.OPS["simulate_transmission"].ok(s, p)
    if n == "measure_data":
        return ops.pilot_measurable(s) and s.nframes >= 1 and len(s.coded_symbols) <= 64
    if n == "demap":
        return ops.measurable_bits(s) and len(s.coded_symbols) <= 64 and (s.dtype == np.complex128 or not p["what"].startswith("mi")) and s.shape[0] <= 8
    if n == "pilot_phase":
        return ops.pilot_measurable(s) and s.pilots.shape[1] == np.count_nonzero(s._idx_pil) and ops.repeats(s)
    if n in LIST_PARAMS:
        return s.shape[0] <= len(p[LIST_PARAMS[n]]) and ops.cplx(s) and ops.frames_ok(s)
    return ops.applicable(o, s)


def call(o, s):
    n, p = o[0], o[1]
    if n == "clip_DAC":
        from qampy import impairments
        kw = {} if p["cutoff"] is None else {"cutoff": p["cutoff"] * s.fs}
        return impairments.sim_DAC_response(s, enob=0, clip_rat=p["clip"], quant_bits=p.get("bits", 0), **kw)
    if n == "plain_link":
        return ops.call(["simulate_transmission", p, o[2]], s)
    if n == "measure_data":
        d = s.get_data()
        return {"ser": d.cal_ser, "ber": d.cal_ber, "evm": d.cal_evm, "snr": d.est_snr, "gmi": lambda **k: d.cal_gmi(snr=10., **k)}[p["what"]](synced=True)
    if n == "demap":
        w, snr = p["what"], p["snr"]
        if isinstance(snr, list):
            snr = np.array(snr[:s.shape[0]])
        if w.startswith("gmi"):
            return s.cal_gmi(synced=True, snr=snr, llr_minmax=w == "gmi minmax")
        if w.startswith("mi"):
            return s.cal_mi(synced=True, snr=snr, fast=w == "mi")
        if w == "evm blind":
            return s.cal_evm(blind=True)
        return {"ser": s.cal_ser, "ber": s.cal_ber, "snr": s.est_snr}[w](synced=True, verbose=True)
    if n == "pilot_phase":
        from qampy import phaserec
        ph = phaserec.find_pilot_const_phase(s.extract_pilots([0]), s.pilots)
        return phaserec.correct_pilot_const_phase(s, ph)
    return ops.call(o, s)


def flat(name, x, p, alphabet):
    """the core functions, which take plain arrays of one or several modes"""
    from qampy import helpers
    from qampy.core import analog_frontend as af, filter as cf, impairments as ci, phaserecovery as pr
    if name == "normalise_pil":
        return helpers.normalise_and_center_pil(x, np.arange(x.shape[-1]) % p["k"] == 0)
    if name == "normalise_and_center":
        return helpers.normalise_and_center(x)
    if name == "dump_edges":
        return helpers.dump_edges(x, p["n"])
    if name == "rf_delay":
        return af.comp_rf_delay(np.ascontiguousarray(x.real), p["d"], 1.)
    if name == "comp_IQ":
        return af.comp_IQ_inbalance(x)
    if name == "moving_average":
        return cf.moving_average(x, p["N"])
    if name == "pre_filter":
        return cf.pre_filter(x, p["bw"])
    if name == "bps":
        return pr.bps(x, p["M"], alphabet, p["N"])
    if name == "bps_twostage":
        return pr.bps_twostage(x, p["M"], alphabet, p["N"], B=p["B"])
    if name == "viterbi":
        return pr.viterbiviterbi(x, p["N"], 4)
    if name == "partition16":
        return pr.phase_partition_16qam(x, p["N"])
    if name == "dispersion":
        return ci.add_dispersion(x, 1e9, 1e-6, 100)
    return None


FLAT = ("normalise_pil", "normalise_and_center", "dump_edges", "rf_delay", "comp_IQ", "moving_average", "pre_filter", "bps", "bps_twostage", "viterbi", "partition16")


def disturb(s, k, f):
    """one port of a capture, changed in place"""
    how, a, b, seed = f
    r = np.random.RandomState(seed)
    n = s.shape[1]
    x = np.array(s[k])
    i, j = sorted([int(a * n), int(b * n)])
    j = max(j, i + 1)
    m = j - i
    z = (r.randn(m) + 1j * r.randn(m)) if np.iscomplexobj(x) else r.randn(m)
    if how == "loss":
        x[i:j] = 0
    elif how == "dead":
        x[:] = 0
    elif how == "noise":
        x[i:j] = z
    elif how == "strong":
        x[i:j] += 30 * z
    elif how == "stuck":
        x[:] = x[i]
    elif how == "clipped":
        x[i:j] = x[i:j] / np.maximum(np.abs(x[i:j]), .3)
    elif how == "other":
        x[:] = r.permutation(x)
    elif how == "delayed":
        x[:] = np.roll(x, i + 1)
    elif how == "rotated":
        x[i:] = x[i:] * (1j if np.iscomplexobj(x) else -1)
    elif how == "nan":
        x[i:j] = np.nan
    elif how == "inf":
        x[i] = np.inf
    elif how == "tiny":
        x[:] = x * 1e-4
    elif how == "impulse":
        x[i] = 1e4
    s[k] = x


def arrays(v):
    if isinstance(v, (tuple, list)):
        for x in v:
            yield from arrays(x)
    elif v is not None:
        yield np.asarray(v)


def raised(e):
    return "%s: %s" % (type(e).__name__, str(e)[:150])


class C20(harness.Check):
    id = "C20"
    technique = "deterministic simulation of ports that fail during a processing history, against the history without the failure"
    runs = {"quick": 6000, "thorough": 100000}
    rule = ("a run takes a signal of two to four modes of any class through 2-8 operations that treat the modes separately (resampling, filters, impairments without coupling, front end, carrier recovery, decisions, extraction, measurements), while at one to three "
            "seeded points one port fails (loss of signal, dead, stuck, clipped, noise, strong burst, infinite or missing values, delay, rotation, other data); after every operation the other modes are compared bit for bit with the history without failure, "
            "and every mode with the same operation on that mode alone; non-trivial if a failure preceded an operation")
    state_measure = "distinct (operation, failure, class, number of modes)"
    real = ["qampy.signals, filtering, impairments, phaserec, analog_frontend, helpers and the compiled kernels (one thread)"]
    stubs = ["the failing port", "the process-wide random state (seeded per operation)"]
    assumptions = ["operations that couple the modes by definition (equalisation, PMD, rotation of the field, a common full scale, mean noise power, averaged frequency offset, synchronisation over all modes) are not included"]
    required_probes = ["failure of a port", "failure between operations", "several failures", "alone", "pilot signal", "three modes or more", "single precision", "oversampled", "in place", "one dimension"] + ["how " + h for h in HOWS]

    def gen(self, rng, tier, index):
        kind = rng.choice(["qam", "qam", "psk", "pilots", "pilots", "pilots_fresh", "resampled", "tdhqam", "qam_prbs", "symonly_from", "fromsym"])
        sp = sigs.spec(rng, [kind])
        sp.update(nmodes=rng.choice([2, 2, 3, 3, 4]), N=rng.randint(30, 140), fb=rng.choice([1, 25e9, 25e9]), M=rng.choice([4, 16, 16, 64, 32]))
        names = NAMES if rng.random() < .5 else rng.sample(NAMES, 6)
        sc = {"spec": sp, "seq": [], "noise": rng.choice([0, .02, .1]), "seed": rng.getrandbits(20)}
        if rng.random() < .03:
            sc["spec"]["N"] = 1100
            sc["seq"].append(gen_op(rng, "rrcos"))
        elif rng.random() < .35:
            sc["seq"].append(gen_op(rng, rng.choice(["resample_poly", "resample"])))
        if kind.startswith("pilots") and rng.random() < .6:
            sc["seq"].append(gen_op(rng, rng.choice(["pilot_cpe", "pilot_phase", "get_data", "extract_pilots", "measure_data", "cal_ser", "cal_ber"])))
        for _ in range(rng.randint(1, 6)):
            sc["seq"].append(gen_op(rng, rng.choice(names)))
        sc["port"] = rng.randrange(sp["nmodes"])
        sc["faults"] = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            a = rng.random()
            sc["faults"].append([rng.choice([0, rng.randrange(len(sc["seq"]))]), [rng.choice(HOWS), a, min(1., a + rng.choice([0, .1, .5, 1])), rng.getrandbits(16)]])
        return sc

    def run(self, sc, res):
        import warnings
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        ops.FINITE = False
        s = sigs.make(sc["spec"])
        r = np.random.RandomState(sc["seed"])
        if sc["noise"]:
            s = s + (sc["noise"] * (r.randn(*s.shape) + 1j * r.randn(*s.shape))).astype(s.dtype)
        t = copy.deepcopy(s)
        n, k = s.shape[0], sc["port"]
        hows = set()
        applied = 0
        for i, o in enumerate(sc["seq"]):
            for at, f in sc["faults"]:
                if at == i and t.ndim == 2 and t.shape[0] == n:
                    disturb(t, k, f)
                    hows.add(f[0])
                    res.stats["fault:" + f[0]] += 1
                    res.stats["probe:how " + f[0]] += 1
                    res.stats["probe:failure between operations"] += applied > 0
            if s.ndim != 2 or s.shape[0] != n:
                break
            try:
                good = ok(o, s)
            except (AttributeError, TypeError, ValueError):
                good = False
            if not good:
                continue
            if not self.alone(sc, o, s, res):
                return
            a = self.call(o, s)
            if a[0] == "raised":
                raise a[1]
            try:
                fine = ok(o, t)
            except Exception:
                fine = False
            if not fine:
                break
            b = self.call(o, t)
            applied += 1
            res.stats["operation " + o[0]] += 1
            res.sim_steps += s.size
            if hows:
                res.nontrivial = True
                res.stats["probe:failure of a port"] += 1
                res.stats["probe:several failures"] += len(sc["faults"]) > 1
                res.stats["probe:pilot signal"] += ops.is_pilot(s)
                res.stats["probe:three modes or more"] += n > 2
                res.stats["probe:single precision"] += s.dtype == np.complex64
                res.stats["probe:oversampled"] += s.fs > s.fb
                res.state((o[0], tuple(sorted(hows)), type(s).__name__, n))
            where = "%s %s on %s, %d modes, after %s of mode %d" % (o[0], o[1], type(s).__name__, n, "+".join(sorted(hows)) or "nothing", k)
            if b[0] == "raised":
                res.fail("a failing port stops the others", "%s: %s" % (where, raised(b[1])), key="raise:" + o[0])
                return
            if not self.compare(a[1], b[1], s, t, n, k, where, o, res):
                return
            va, vb = a[1], b[1]
            kind = "new" if o[0] in ("clip_DAC", "plain_link", "pilot_phase") else "value" if o[0] in ("measure_data", "demap") else ops.OPS[o[0]].kind
            if kind == "new":
                va, vb = ops.signal_of(va), ops.signal_of(vb)
                if not hasattr(va, "fb") or not hasattr(vb, "fb") or va.ndim != 2 or va.shape != vb.shape or va.shape[1] < 2:
                    break
                s, t = va, vb
            elif kind == "inplace":
                res.stats["probe:in place"] += 1
            res.event(o[0], np.ascontiguousarray(np.asarray(np.delete(np.asarray(s), k, 0))).tobytes()[:256])

    def call(self, o, s):
        try:
            return ("ok", call(o, s))
        except Exception as e:
            return ("raised", e)

    def compare(self, va, vb, s, t, n, k, where, o, res):
        la, lb = list(arrays(va)), list(arrays(vb))
        if len(la) != len(lb):
            res.fail("a failing port changes the others", "%s: %d results instead of %d" % (where, len(lb), len(la)), key="number:" + o[0])
            return False
        pairs = [(x, y, "result %d" % i) for i, (x, y) in enumerate(zip(la, lb))]
        if ops.OPS.get(o[0]) is not None and ops.OPS[o[0]].kind == "inplace":
            pairs.append((np.asarray(s), np.asarray(t), "signal"))
        for x, y, name in pairs:
            if x.ndim == 0 or x.shape[0] != n:
                continue
            if x.shape != y.shape or x.dtype != y.dtype:
                res.fail("a failing port changes the others", "%s: %s has shape %s, type %s instead of %s, %s" % (where, name, y.shape, y.dtype, x.shape, x.dtype), key="shape:" + o[0])
                return False
            p, q = np.ascontiguousarray(np.delete(x, k, 0)), np.ascontiguousarray(np.delete(y, k, 0))
            if p.tobytes() != q.tobytes():
                eq = (p == q) | ((p != p) & (q != q))
                if np.all(eq):
                    continue
                bad = np.argwhere(~eq)
                m = bad[0][0] + (bad[0][0] >= k)
                res.fail("a failing port changes the others", "%s: %s of mode %d differs in %d of %d values, first at %s: %s instead of %s" % (where, name, m, len(bad), p.size, tuple(int(v) for v in bad[0][1:]), q[tuple(bad[0])], p[tuple(bad[0])]),
                         key="mix:" + o[0])
                return False
        return True

    def alone(self, sc, o, s, res):
        """what each mode gives with the others is what it gives alone"""
        if o[0] not in ALONE or ops.is_hybrid(s):
            return True
        n = s.shape[0]
        if o[0].startswith("normalise"):          # nothing but rounding is left of a constant
            x = np.asarray(s)[:, ::o[1].get("k", 1)]
            if np.any(np.std(x, axis=-1) < 1e-5 * np.abs(x).max(axis=-1)):
                return True
        st = np.random.get_state()
        v = self.call(o, copy.deepcopy(s))
        if v[0] == "raised":
            return True          # reported by the caller
        la = [x for x in arrays(v[1] if v[1] is not None else [])]
        for i in range(n):
            one = copy.deepcopy(s)[i:i + 1]
            p = dict(o[1])
            if o[0] in LIST_PARAMS:
                p[LIST_PARAMS[o[0]]] = [p[LIST_PARAMS[o[0]]][i]]
            q = [o[0], p, o[2]]
            try:
                if not ok(q, one):
                    continue
            except Exception:
                continue
            u = self.call(q, one)
            where = "%s %s on %s, mode %d of %d" % (o[0], p, type(s).__name__, i, n)
            if u[0] == "raised":
                res.fail("a mode alone fails", "%s: %s" % (where, raised(u[1])), key="alone raise:" + o[0])
                return False
            res.stats["probe:alone"] += 1
            lb = [x for x in arrays(u[1] if u[1] is not None else [])]
            tol = 2e-4 if s.dtype == np.complex64 else 1e-8
            for j, (x, y) in enumerate(zip(la, lb)):
                if x.ndim == 0 or x.shape[0] != n:
                    continue
                x = x[i:i + 1]
                y = y.reshape(x.shape) if y.size == x.size else y
                if x.shape != y.shape:
                    res.fail("a mode alone gives something else", "%s: result %d has shape %s instead of %s" % (where, j, y.shape, x.shape), key="alone:" + o[0])
                    return False
                if x.dtype.kind in "biu":
                    bad = np.count_nonzero(x != y)
                    lim = 0
                else:
                    sc_ = np.nanmax(np.abs(x)) if x.size and np.any(np.isfinite(x)) else 1.
                    bad = np.count_nonzero(~(np.abs(x - y) <= tol * sc_ + 1e-300) & ~((x != x) & (y != y)))
                    lim = 0
                if bad > lim:
                    res.fail("a mode alone gives something else", "%s: result %d differs in %d of %d values" % (where, j, bad, x.size), key="alone:" + o[0])
                    return False
        np.random.set_state(st)
        if o[0] in FLAT:
            x = np.array(s)
            al = np.array(s.coded_symbols) if o[0].startswith("bps") else None
            la = list(arrays(flat(o[0], x.copy(), o[1], al)))
            for i in range(n):
                where = "core %s %s on an array, mode %d of %d" % (o[0], o[1], i, n)
                try:
                    lb = list(arrays(flat(o[0], x[i].copy(), o[1], al)))
                except Exception as e:
                    res.fail("a mode alone fails", "%s: %s" % (where, raised(e)), key="flat raise:" + o[0])
                    return False
                res.stats["probe:one dimension"] += 1
                tol = 2e-4 if s.dtype == np.complex64 else 1e-8
                for u, v in zip(la, lb):
                    u = u[i]
                    scale = np.nanmax(np.abs(u)) if u.size and np.any(np.isfinite(u)) else 1.
                    if u.shape != v.shape or np.any(~(np.abs(u - v) <= tol * scale + 1e-300) & ~((u != u) & (v != v))):
                        res.fail("a mode alone gives something else", "%s: shapes %s and %s" % (where, u.shape, v.shape), key="flat:" + o[0])
                        return False
        return True

    def shrink(self, sc):
        q = sc["seq"]
        for i in range(len(q)):
            if len(q) > 1:
                yield dict(sc, seq=q[:i] + q[i + 1:], faults=[[max(0, a - (a > i)) if a < len(q) else 0, f] for a, f in sc["faults"]])
        for i in range(len(sc["faults"])):
            if len(sc["faults"]) > 1:
                yield dict(sc, faults=sc["faults"][:i] + sc["faults"][i + 1:])
        if sc["noise"]:
            yield dict(sc, noise=0)
        for x in sigs.smaller(sc["spec"]):
            if x["nmodes"] > sc["port"] and x["nmodes"] >= 2:
                yield dict(sc, spec=x)


CHECK = C20
