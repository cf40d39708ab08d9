"""C08: signal metadata through any processing history."""
import numpy as np

from vsim import harness, ops, sigs, state

SYNC = {"_foe", "shiftfctrs", "synctaps"}
PLAIN = {"slice", "modes", "fancy", "reverse", "scale", "rscale", "shiftadd", "rsub", "neg", "conj", "roll", "copy", "selfadd", "add_array", "array_add", "ufunc_exp", "astype", "reshape", "ascontig"}


def nested(s):
    """a picture of the reference symbols, in memory"""
    return {n: state.describe(np.asarray(getattr(s, n))) for n in ("symbols", "pilots", "symbols_M1", "symbols_M2", "coded_symbols") if isinstance(getattr(s, n, None), np.ndarray)}


def model_of(s):
    return state.meta(s, derived=False)


class Known:
    """one signal of the pool and what is known about it"""

    def __init__(self, sig, model, fs, hist):
        self.sig, self.model, self.fs, self.hist = sig, model, fs, hist
        self.refresh()

    def refresh(self):
        self.seen = dict(state.meta(self.sig), samples=state.samples(self.sig))

    def changed(self):
        now = dict(state.meta(self.sig), samples=state.samples(self.sig))
        for k in self.seen:
            if now.get(k) != self.seen[k]:
                return "%s was %s, is %s" % (k, self.seen[k], now.get(k))
        return None


def transmitted(s, which="symbols"):
    """payload (or pilots) of frame f as generated"""
    ref = np.asarray(s.symbols if which == "symbols" else s.pilots)
    n = int(np.count_nonzero(s._idx_dat if which == "symbols" else s._idx_pil))
    return lambda f: ref[:, (f % (ref.shape[1] // n)) * n:(f % (ref.shape[1] // n)) * n + n]


class C08(harness.Check):
    id = "C08"
    technique = "deterministic simulation of processing histories against a metadata model (seeded operation sequences over a pool of signals)"
    runs = {"quick": 8000, "thorough": 60000}
    rule = ("a run creates 1-3 signals of any class and applies 3-24 operations of the catalogue to members of the pool (random histories and whole receiver chains); after each one the model's metadata, "
            "the sampling rate, the length and - for arithmetic and slicing - the samples are compared and every other signal must be unchanged; non-trivial if at least two operations were applied to one lineage")
    state_measure = "distinct (class, operation, previous operation) triples reached"
    real = ["qampy.signals, qampy.impairments, qampy.filtering, qampy.equalisation, qampy.phaserec, qampy.analog_frontend, qampy.helpers and the compiled kernels below them"]
    stubs = ["the process-wide random state (seeded per operation)"]
    assumptions = ["numpy views share memory with their origin: in-place changes are allowed to show there"]
    required_probes = ["lineage of 4 or more", "sampling rate changed", "payload extracted", "fresh frames extracted", "in-place change", "measurement", "arithmetic compared", "hybrid signal", "class " + "SignalWithPilots",
                       "class SymbolOnlySignal", "class SignalPSKGrayCoded", "class QPSKfromBERT", "class ResampledQAM"]

    def gen(self, rng, tier, index):
        if rng.random() < .4:
            sp, seq = ops.chain(rng, sigs)
            spec = [sp]
            steps = [[0, o, "replace"] for o in seq]
            if rng.random() < .5:
                spec.append(sigs.spec(rng, maxn=60))
                for _ in range(rng.randint(1, 4)):
                    steps.insert(rng.randint(0, len(steps)), [1, ops.gen(rng), "replace"])
        else:
            spec = [sigs.spec(rng, maxn=rng.choice([24, 100, 300])) for _ in range(rng.choice([1, 1, 2, 3]))]
            steps = [[rng.randint(0, 3), ops.gen(rng), rng.choice(["replace", "replace", "add", "drop"])] for _ in range(rng.choice([3, 5, 8, 12, 24]))]
        return {"specs": spec, "steps": steps}

    def run(self, sc, res):
        import warnings
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        pool = []
        for sp in sc["specs"]:
            s = sigs.make(sp)
            res.stats["probe:class " + type(s).__name__] += 1
            res.stats["probe:hybrid signal"] += ops.is_hybrid(s)
            if not self.created(sp, s, res):
                return
            pool.append(Known(s, model_of(s), s.fs, [sp["kind"]]))
        for n, (i, op, how) in enumerate(sc["steps"]):
            k = pool[i % len(pool)]
            if not ops.applicable(op, k.sig):
                continue
            o = ops.OPS[op[0]]
            before = np.array(k.sig)
            refs = nested(k.sig)
            expect_fs = o.expected_fs(k.sig, op[1])
            length = o.length(k.sig, op[1]) if o.length else None
            v = ops.call(op, k.sig)
            res.sim_steps += 1
            hist = k.hist + [op[0]]
            where = "after %s" % " ".join(hist)
            res.state(type(k.sig).__name__, op[0], k.hist[-1])
            if len(hist) > 2:
                res.nontrivial = True
            if len(hist) > 4:
                res.stats["probe:lineage of 4 or more"] += 1
            key = op[0]
            # inputs and everything else in the pool
            if o.kind == "inplace":
                res.stats["probe:in-place change"] += 1
                if nested(k.sig) != refs:
                    return res.fail("reference symbols modified", "%s: an operation that changes the samples in place changed the reference symbols" % where, key="reference symbols modified:" + key)
                for t in pool:
                    if t is not k and np.shares_memory(np.asarray(t.sig), np.asarray(k.sig)):
                        t.refresh()
                now = model_of(k.sig)
                bad = {x: (k.model.get(x), now.get(x)) for x in k.model if now.get(x) != k.model[x] and not (x in SYNC and op[0] in ("set_sync", "corr_foe"))}
                if bad:
                    return res.fail("metadata changed", "%s: %s" % (where, bad), key="metadata changed:%s:%s" % (key, sorted(bad)[0]))
                k.model = now
                k.hist = hist
                self.plain(op, before, np.asarray(k.sig), res, where, inplace=True)
                k.refresh()
            for t in pool:
                c = t.changed()
                if c:
                    return res.fail("input modified" if t is k else "other signal modified", "%s: %s" % (where, c), key="modified:%s" % key)
            if res.violation:
                return
            if o.kind == "inplace":
                res.event(n, op[0], k.seen["samples"])
                continue
            if o.kind == "value":
                res.stats["probe:measurement"] += 1
                res.event(n, op[0], state.describe(v))
                continue
            new = ops.signal_of(v)
            if not isinstance(new, np.ndarray) or not hasattr(new, "fs"):
                return res.fail("not a signal", "%s: the result is a %s without the attributes of a signal" % (where, type(new).__name__), key="not a signal:" + key)
            if not self.judge(op, o, k, new, expect_fs, length, res, where):
                return
            self.plain(op, before, np.asarray(new), res, where)
            if res.violation:
                return
            res.event(n, op[0], state.samples(new), new.fs)
            ok = new.ndim == 2 and 4 < new.shape[1] < 3000 and bool(np.all(np.isfinite(new)))
            if not ok or how == "drop":
                continue
            nk = Known(new, model_of(new), new.fs, hist)
            if how == "add" and len(pool) < 4:
                pool.append(nk)
            else:
                pool[i % len(pool)] = nk

    def judge(self, op, o, k, new, expect_fs, length, res, where):
        s = k.sig
        if new.fs != (s.fb if o.meta != "same" else expect_fs):
            res.fail("wrong sampling rate", "%s: sampling rate %r instead of %r (symbol rate %r)" % (where, new.fs, expect_fs, s.fb), key="fs:" + op[0])
            return False
        if new.fs != s.fs:
            res.stats["probe:sampling rate changed"] += 1
        if length is not None and new.shape[-1] != length:
            res.fail("wrong length", "%s: %d samples instead of %d" % (where, new.shape[-1], length), key="length:" + op[0])
            return False
        if new.os != int(new.fs / new.fb):
            res.fail("inconsistent oversampling", "%s: os %r, fs %r, fb %r" % (where, new.os, new.fs, new.fb), key="os:" + op[0])
            return False
        if o.meta == "same":
            now = model_of(new)
            for x in k.model:
                if x != "fs" and now.get(x) != k.model[x]:
                    res.fail("metadata changed", "%s: %s was %s, is %s" % (where, x, k.model[x], now.get(x)), key="metadata:%s:%s" % (op[0], x))
                    return False
            return True
        ref = s.symbols if o.meta == "payload" else s.pilots
        if type(new) is not type(ref) or new.M != ref.M or new.fb != s.fb or state.describe(np.asarray(new.coded_symbols)) != state.describe(np.asarray(ref.coded_symbols)):
            res.fail("metadata changed", "%s: %s M=%s fb=%s, expected %s M=%s fb=%s and the same alphabet" % (where, type(new).__name__, new.M, new.fb, type(ref).__name__, ref.M, s.fb), key="extracted:" + op[0])
            return False
        res.stats["probe:payload extracted"] += 1
        f = op[1]["f"]
        frames = range(s.nframes) if f is None else [f % s.nframes]
        sent = transmitted(s, "symbols" if o.meta == "payload" else "pilots")
        tx = np.hstack([sent(i) for i in frames])
        if not np.array_equal(sent(0), sent(1)):
            res.stats["probe:fresh frames extracted"] += 1
        got = np.asarray(new.symbols)
        if o.meta == "payload":
            rep = np.tile(got, (1, -(-tx.shape[1] // got.shape[1])))[:, :tx.shape[1]]
            if not np.array_equal(rep, tx):
                res.fail("wrong reference symbols", "%s (frames %s): the reference symbols of the payload are not the transmitted ones" % (where, list(frames)), key="payload reference")
                return False
        return True

    def plain(self, op, before, after, res, where, inplace=False):
        """numpy's own answer for arithmetic and slicing"""
        name, p = op[0], op[1]
        if name not in PLAIN and name not in ("iscale", "iadd", "setitem"):
            return
        res.stats["probe:arithmetic compared"] += 1
        x = before.copy()
        r = ops.OPS[name].call(x, p)
        want = x if inplace else r
        if after.dtype != want.dtype or after.shape != want.shape or not np.array_equal(after, want, equal_nan=True):
            if after.dtype == want.dtype and after.shape == want.shape and np.allclose(after, want, rtol=1e-6, atol=1e-9, equal_nan=True):
                return        # the memory layout may change the last digit
            res.fail("wrong samples", "%s: the samples differ from the same operation on a plain array" % where, key="samples:" + name)

    def created(self, sp, s, res):
        """a new signal carries what it was generated with"""
        def bad(what):
            res.fail("wrong metadata at creation", "%s signal %s: %s" % (sp["kind"], {x: sp[x] for x in ("M", "N", "nmodes", "dtype", "fb")}, what), key="creation:" + sp["kind"])
            return False
        if s.fb != sp["fb"]:
            return bad("symbol rate %r" % s.fb)
        if s.fs != (sp["fb"] * sp["os"] if sp["kind"] == "resampled" else sp["fb"]):
            return bad("sampling rate %r" % s.fs)
        if sp["kind"] not in ("bert", "psk", "symonly", "symonly_from") and not ops.is_hybrid(s) and s.M != sp["M"]:
            return bad("order %r" % s.M)
        if not ops.is_hybrid(s) and not ops.is_pilot(s) and sp["kind"] != "resampled":
            if not np.array_equal(np.asarray(s.symbols), np.asarray(s)):
                return bad("the reference symbols are not the samples")
            if s.dtype != np.dtype(sp["dtype"]):
                return bad("data type %s" % s.dtype)
        if ops.has_bits(s) and sp["kind"] != "resampled":
            b = np.asarray(s.demodulate(np.array(s.symbols)))
            if b.shape != np.asarray(s.bits).shape or not np.array_equal(b, s.bits):
                return bad("the bits %s are not those of the symbols %s" % (np.asarray(s.bits).shape, b.shape))
        if ops.is_pilot(s):
            tx, n = transmitted(s), s.frame_len
            pil = transmitted(s, "pilots")
            a = np.asarray(s)
            for f in range(sp["nframes"]):
                fr = a[:, f * n:(f + 1) * n]
                if not np.array_equal(fr[:, s._idx_dat], tx(f)) or not np.array_equal(fr[:, s._idx_pil], pil(f)):
                    return bad("frame %d does not hold the payload and pilots" % f)
        if ops.has_bits(s) and len(s.coded_symbols) != s.M:
            return bad("alphabet of %d symbols" % len(s.coded_symbols))
        return True

    def shrink(self, sc):
        st = sc["steps"]
        for k in (len(st) // 2, 1):
            for i in range(0, len(st), max(k, 1)):
                yield dict(sc, steps=st[:i] + st[i + max(k, 1):])
        if len(sc["specs"]) > 1:
            for i in range(len(sc["specs"])):
                yield dict(sc, specs=[sc["specs"][i]], steps=[[0] + x[1:] for x in st if x[0] % len(sc["specs"]) == i])
        for i, s in enumerate(sc["specs"]):
            for t in sigs.smaller(s):
                yield dict(sc, specs=sc["specs"][:i] + [t] + sc["specs"][i + 1:])


CHECK = C08
