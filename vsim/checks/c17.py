"""C17: payload and pilots of every frame of a pilot-framed transmission."""
import copy
import pickle
import random

import numpy as np

from vsim import harness, linksim

TRIPS = ["copy", "pickle", "deepcopy", "recreate", "view", "unit factor", "contiguous"]


def trip(s, how):
    if how == "copy":
        return s.copy()
    if how == "pickle":
        return pickle.loads(pickle.dumps(s))
    if how == "deepcopy":
        return copy.deepcopy(s)
    if how == "recreate":
        return s.recreate_from_np_array(np.array(s))
    if how == "view":
        return s[:, :]
    if how == "unit factor":
        return s * 1.
    return np.ascontiguousarray(s).view(type(s)) if False else s.T.T


class C17(harness.Check):
    id = "C17"
    technique = "deterministic simulation of a pilot-framed link with symbol errors, lost frames and cut captures against a frame-by-frame reference model"
    runs = {"quick": 9000, "thorough": 100000}
    variant = "plain"
    rule = ("a run transmits 1-6 frames of a random layout (any pilot sequence, pilot spacing or explicit pilot positions, scaling, modulation, repeated or fresh payload and pilots, given or generated, one to three modes), "
            "replaces symbols at chosen places of chosen frames, cuts the capture, lets it make round trips, and asks for the payload, pilots and error rates of random selections of frames; non-trivial if at least two frames were asked for")
    state_measure = "distinct (layout, selection, errors per frame)"
    real = ["qampy.signals (pilot signals, payload and pilot extraction, error rates, EVM, SNR), qampy.core.ber_functions, qampy.core.signal_quality with the compiled kernels"]
    stubs = ["the link"]
    assumptions = ["a capture of non-repeating frames starts at the first of them (the signal has no frame numbers)"]
    required_probes = ["fresh payload", "fresh pilots", "symbol errors", "cut capture", "lost head", "explicit positions", "no phase pilots", "given payload", "given pilots", "payload with pilots", "frame that is not there", "selection out of order", "SNR from pilots", "pilot scaling", "odd tail", "point not sent", "GMI with pilot SNR"]

    def gen(self, rng, tier, index):
        how = rng.choice(["new", "new", "new", "payload", "payload", "frame", "positions"])
        pr = rng.choice([0, None, 1, 2, 4, 4, 5, 8, 16, 32])
        ps = rng.choice([0, 1, 4, 8, 13, 16, 32]) if pr not in (0, None) else rng.choice([1, 4, 8, 13, 32])
        nf = rng.choice([1, 2, 2, 3, 4, 6])
        if pr in (0, None):
            F = ps + rng.randint(6, 60)
        else:
            F = ps + pr * rng.randint(2, max(3, 80 // max(pr, 1)))
        n = rng.choice([1, 2, 2, 3])
        sc = {"how": how, "pr": pr, "ps": ps, "F": F, "nframes": nf, "nmodes": n, "M": rng.choice([4, 16, 16, 64, 32]), "Mp": rng.choice([4, 4, 16]), "scale": rng.choice([1, 1, 1, 0.5, 1.5]),
              "dtype": rng.choice(["complex128", "complex128", "complex64"]), "psk": rng.random() < .1, "repd": rng.random() < .5, "repp": rng.random() < .6, "seed": rng.getrandbits(20), "fb": rng.choice([1, 10e9]),
              "extra": rng.choice([0, 0, 1, 7, 40]), "given": rng.choice(["no", "signal", "array", "one mode"]), "npos": rng.randint(1, 12)}
        if sc["given"] == "array":
            sc["Mp"] = 4           # a bare array of few points does not tell the scale of a larger alphabet
        sc["errors"] = [[rng.randrange(n), rng.randrange(nf), rng.randrange(10000), rng.randrange(64)] for _ in range(rng.choice([0, 0, 1, 3, 8, 20]))]
        sc["tail"] = rng.choice([0, 0, 0, rng.randint(1, F - 1), F])
        sc["head"] = rng.choice([0, 0, 1, 2])
        sc["trips"] = [rng.choice(TRIPS) for _ in range(rng.choice([0, 1, 2]))]
        sc["noise"] = rng.choice([0, .01, .01, .02, .3 if sc["M"] == 4 or sc["psk"] else .02])
        if sc["psk"]:
            sc["noise"] = min(sc["noise"], .2)
        sc["gsnr"] = [rng.choice([3, 8, 12, 15]) for _ in range(rng.choice([1, 1, n]))]
        sc["asks"] = []
        for _ in range(rng.randint(1, 6)):
            x = rng.random()
            f = None if x < .25 else rng.randrange(nf) if x < .45 else [rng.randrange(nf) for _ in range(rng.randint(1, 4))]
            if x > .9:
                f = rng.choice([[nf], [0, nf + 2], [-1], nf, nf + 5, [-3, 0]])
            sc["asks"].append([rng.choice(["data", "data", "pilots", "ser", "ber", "evm", "snr", "psnr", "gmi", "gmi", "pgmi", "egmi"]), f, rng.choice(["list", "array", "tuple"]), rng.random() < .5])
        return sc

    # ---- transmitter and model
    def mask(self, sc):
        """pilot positions of a frame, from the description of the format"""
        F, ps, pr = sc["F"], sc["ps"], sc["pr"]
        if sc["how"] == "positions":
            r = random.Random(sc["seed"])
            m = np.zeros(F, dtype=bool)
            m[r.sample(range(F), min(sc["npos"], F - 2))] = True
            return m
        j = np.arange(F)
        if pr in (0, None):
            return j < ps
        return (j <= ps) if False else (j < ps) | ((j >= ps) & ((j - ps) % pr == 0))

    def transmit(self, sc, res):
        from qampy import signals
        dt = np.dtype(sc["dtype"]).type
        P = self.mask(sc)
        n = sc["nmodes"]
        cls = signals.SignalPSKGrayCoded if sc["psk"] else signals.SignalQAMGrayCoded
        M = 8 if sc["psk"] else sc["M"]
        if sc["how"] == "new":
            res.stats["probe:fresh payload"] += not sc["repd"]
            res.stats["probe:fresh pilots"] += not sc["repp"]
            s = signals.SignalWithPilots(M, sc["F"], sc["ps"], sc["pr"], nframes=sc["nframes"], pilot_scale=sc["scale"], Mpilots=sc["Mp"], dataclass=cls, nmodes=n, dtype=dt,
                                         repeat_data=sc["repd"], repeat_pilots=sc["repp"], fb=sc["fb"], seed=sc["seed"])
            return s, P, None, None, (sc["repd"] or sc["nframes"] == 1) and (sc["repp"] or sc["nframes"] == 1)
        nd = int(np.count_nonzero(~P))
        npil = sc["F"] - nd
        kw = {}
        if sc["how"] == "frame":
            whole = signals.SignalQAMGrayCoded(4, sc["F"], nmodes=n, seed=sc["seed"], dtype=dt, fb=sc["fb"])
            res.stats["probe:payload with pilots"] += 1
            s = signals.SignalWithPilots.from_symbol_array(np.array(whole), sc["F"], sc["ps"], sc["pr"], nframes=sc["nframes"], payload_is_frame=True, pilot_kwargs={"M": 4}, payload_kwargs={"M": 4}, fb=sc["fb"])
            return s, P, np.array(whole)[:, ~P], np.array(whole)[:, P], True
        res.stats["probe:given payload"] += 1
        pay = cls(M, nd + sc["extra"], nmodes=n, seed=sc["seed"], dtype=dt, fb=sc["fb"])
        pil = None
        if sc["given"] != "no" and npil:
            res.stats["probe:given pilots"] += 1
            pil = signals.SignalQAMGrayCoded(sc["Mp"], npil, nmodes=1 if sc["given"] == "one mode" else n, seed=sc["seed"] + 1, dtype=dt, fb=sc["fb"])
            kw["pilots"] = np.array(pil) if sc["given"] == "array" else pil
        if sc["how"] == "positions":
            kw["pilot_idx"] = np.nonzero(P)[0]
            res.stats["probe:explicit positions"] += 1
        s = signals.SignalWithPilots.from_symbol_array(pay, sc["F"], sc["ps"], sc["pr"], nframes=sc["nframes"], pilot_scale=sc["scale"] if pil is None else 1, pilot_kwargs={"M": sc["Mp"]}, **kw)
        return s, P, np.array(pay)[:, :nd], None if pil is None else np.broadcast_to(np.array(pil), (n, npil)), True

    def run(self, sc, res):
        np.seterr(all="ignore")
        P = self.mask(sc)
        nd = int(np.count_nonzero(~P))
        if nd == 0:
            return
        F, n = sc["F"], sc["nmodes"]
        tx, P, pay, pil, repeats = self.transmit(sc, res)
        res.stats["probe:no phase pilots"] += sc["pr"] in (0, None)
        res.stats["probe:pilot scaling"] += sc["scale"] != 1
        T = np.array(tx)
        nf = sc["nframes"]
        if T.shape != (n, F * nf):
            res.fail("wrong frame", "%s instead of %s" % (T.shape, (n, F * nf)))
            return
        tf = T.reshape(n, nf, F)
        # the transmitted frames hold the payload and pilots that were given
        for f in range(nf):
            if pay is not None and not np.allclose(tf[:, f][:, ~P], pay, atol=1e-5):
                res.fail("wrong symbols sent", "payload of frame %d" % f)
                return
            if pil is not None and not np.allclose(tf[:, f][:, P], pil, atol=1e-5):
                res.fail("wrong symbols sent", "pilots of frame %d" % f)
                return
            if repeats and not np.array_equal(tf[:, f], tf[:, 0]):
                res.fail("wrong symbols sent", "frame %d is not a repetition" % f)
                return
        if sc["how"] == "new" and not repeats and nf > 1 and nd >= 40:
            if not sc["repd"] and np.array_equal(tf[:, 0][:, ~P], tf[:, 1][:, ~P]):
                res.fail("wrong symbols sent", "fresh payload repeats")
                return
        alpha = np.asarray(tx.coded_symbols)
        if np.max(np.abs(T[:, np.tile(~P, nf)] - alpha[linksim.nearest(alpha, T[:, np.tile(~P, nf)])])) > 1e-5:
            res.fail("wrong symbols sent", "payload positions do not hold payload")
            return
        # ---- the link
        rx = tx.copy()
        dpos = np.nonzero(~P)[0]
        R = T.copy()
        for m, f, j, k in sc["errors"]:
            pos = f * F + dpos[j % nd]
            linksim.corrupt(R, alpha, [[m, pos, k]])
        if sc["noise"]:
            r = np.random.RandomState(sc["seed"] & 0x7fffffff)
            N = (sc["noise"] * (r.uniform(-1, 1, R.shape) + 1j * r.uniform(-1, 1, R.shape))).astype(R.dtype)
            res.stats["fault:noise"] += 1
        else:
            N = np.zeros_like(R)
        errs = (np.abs(R - T) > 1e-9).reshape(n, nf, F)
        R = R + N
        rx[:] = R
        res.stats["fault:symbol error"] += int(errs.sum())
        res.stats["probe:symbol errors"] += bool(errs.any())
        lo, hi = 0, nf * F
        if repeats and sc["head"] and nf > sc["head"]:
            lo = sc["head"] * F
            res.stats["fault:lost frame"] += sc["head"]
            res.stats["probe:lost head"] += 1
        if sc["tail"] and hi - sc["tail"] - lo >= F:
            hi -= sc["tail"]
            res.stats["fault:cut capture"] += 1
            res.stats["probe:cut capture"] += 1
            res.stats["probe:odd tail"] += sc["tail"] % F != 0
        rx = rx[:, lo:hi]
        f0, have = lo // F, (hi - lo) // F
        for t in sc["trips"]:
            rx = trip(rx, t)
            res.event("trip", t)
        if rx.nframes != have:
            res.fail("wrong number of frames", "%d instead of %d" % (rx.nframes, have))
            return
        ip = np.asarray(rx.idx_pilots)
        if not np.array_equal(ip, np.tile(P, have)) or not np.array_equal(np.asarray(rx.idx_payload), np.tile(~P, have)):
            res.fail("wrong positions", "of pilots and payload")
            return
        if sc["ps"] and sc["how"] != "positions" and not np.array_equal(np.asarray(rx.pilot_seq), tf[:, 0, :sc["ps"]]):
            res.fail("wrong pilot sequence", "")
            return
        if repeats and not np.array_equal(np.asarray(rx.ph_pilots)[:, :np.count_nonzero(P) - sc["ps"]], tf[:, 0][:, P][:, sc["ps"]:]):
            res.fail("wrong phase pilots", "")
            return
        bits = linksim.gray(tx.symbols)
        R2 = R.reshape(n, nf, F)
        asked = 0
        for what, f, form, verb in sc["asks"]:
            bad = f is not None and (np.min(f) < 0 or np.max(f) >= have)
            arg = f if f is None or isinstance(f, int) else np.array(f) if form == "array" else tuple(f) if form == "tuple" else list(f)
            sel = list(range(have)) if f is None else [f] if isinstance(f, int) else list(f)
            asked += len(sel)
            if what in ("pilots", "psnr", "pgmi") and not P.any():
                continue
            before = np.array(rx)
            try:
                v = self.ask(rx, what, arg, verb, sc)
            except Exception as e:
                if not harness._from_library(e) and not isinstance(e, AssertionError):
                    raise
                if bad:
                    res.stats["probe:frame that is not there"] += 1
                    res.event("raised", what)
                    continue
                res.fail("refused", "%s of frames %s: %r" % (what, f, e), key="refused:" + what)
                return
            if bad:
                res.fail("a frame that is not there", "%s of frames %s of %d" % (what, f, have), key="no such frame:" + what)
                return
            if not np.array_equal(before, np.asarray(rx)):
                res.fail("asking changed the signal", what)
                return
            res.stats["probe:selection out of order"] += f is not None and sel != sorted(set(sel))
            g = [i + f0 for i in sel]
            e = errs[:, g][:, :, ~P].reshape(n, -1)
            sent = tf[:, g][:, :, ~P].reshape(n, -1)
            got = R2[:, g][:, :, ~P].reshape(n, -1)
            bad = self.judge(what, v, sc, res, e, sent, got, tf[:, g][:, :, P].reshape(n, -1), R2[:, g][:, :, P].reshape(n, -1), alpha, bits, verb, tx)
            res.event(what, str(f), bool(bad))
            res.state(sc["F"], sc["ps"], sc["pr"], nf, what, str(f), e.sum())
            res.stats["asked for " + what] += 1
            if bad:
                res.fail("wrong " + {"data": "payload", "pilots": "pilots"}.get(what, what), "frames %s of %d (%s): %s" % (f, have, sc["how"], bad), key="wrong:" + what)
                return
        res.nontrivial = asked >= 2

    def ask(self, rx, what, f, verb, sc):
        if what == "data":
            return rx.get_data(f)
        if what == "pilots":
            return rx.extract_pilots(f)
        if what == "ser":
            return rx.cal_ser(frames=f, verbose=verb)
        if what == "ber":
            return rx.cal_ber(frames=f, verbose=verb)
        if what == "evm":
            return rx.cal_evm(frames=f)
        if what == "snr":
            return rx.est_snr(frames=f)
        if what == "psnr":
            return rx.est_snr(frames=f, use_pilots=True)
        if what == "pgmi":
            return rx.cal_gmi(frames=f, use_pilot_snr=True)
        if what == "egmi":
            return rx.cal_gmi(frames=f)
        return rx.cal_gmi(frames=f, snr=float(sc["gsnr"][0]) if len(sc["gsnr"]) == 1 else np.array(sc["gsnr"], float))

    def judge(self, what, v, sc, res, e, sent, got, psent, pgot, alpha, bits, verb, tx):
        n, N = got.shape
        if what == "data":
            if not np.array_equal(np.asarray(v), got):
                return "not the symbols received there"
            if not self.covers(v.symbols, sent):
                return "the reference is not what was sent there"
            if v.fs != sc["fb"] or v.fb != sc["fb"] or v.M != tx.M:
                return "fs, fb or M"
            return None
        if what == "pilots":
            if not np.array_equal(np.asarray(v), pgot):
                return "not the pilots received there"
            k = sc["scale"] if sc["how"] == "new" or sc["given"] == "no" and sc["how"] != "frame" else 1
            if not self.covers(np.asarray(v.symbols) * k, psent):
                return "the reference is not what was sent there"
            return None
        if what == "ser":
            r, ev, ref = v if verb else (v, None, None)
            want = np.count_nonzero(e, axis=-1) / N
            if not np.array_equal(np.asarray(r), want):
                return "%s instead of %s" % (np.asarray(r), want)
            if verb and (not np.array_equal(np.asarray(ev) != 0, e) or not np.allclose(np.asarray(ref), sent)):
                return "the error vector or the references"
            return None
        b0, b1 = bits[linksim.nearest(alpha, sent)].reshape(n, -1), bits[linksim.nearest(alpha, got)].reshape(n, -1)
        if what == "ber":
            r, ev, ref = v if verb else (v, None, None)
            want = np.count_nonzero(b0 != b1, axis=-1) / b0.shape[1]
            if not np.array_equal(np.asarray(r), want):
                return "%s instead of %s" % (np.asarray(r), want)
            if verb and (not np.array_equal(np.asarray(ev), b0 ^ b1) or not np.array_equal(np.asarray(ref), b0)):
                return "the error vector or the references"
            return None
        tol = 2e-4 if sc["dtype"] == "complex64" else 1e-8
        if what == "evm":
            want = np.sqrt(np.mean(np.abs(got - sent) ** 2, axis=-1))
            r = np.asarray(v)
            if not np.allclose(r, want, rtol=10 * tol, atol=tol):
                return "%s instead of %s" % (r, want)
            return None
        if what in ("snr", "psnr"):
            res.stats["probe:SNR from pilots"] += what == "psnr"
            a, b = (psent, pgot) if what == "psnr" else (sent, got)
            if what == "snr" and any(len(np.unique(np.round(x, 5))) < len(alpha) for x in sent):
                res.stats["probe:point not sent"] += 1
            r, want = np.asarray(v), self.snr(a, b)
            big = 1e7 if sc["dtype"] == "complex64" else 1e12
            if not np.all(np.where(want > big, ~(r < big / 10), np.abs(r - want) <= (1e-2 if sc["dtype"] == "complex64" else 1e-6) * want)):
                return "%s instead of %s, errors per mode %s" % (r, want, e.sum(axis=-1))
            return None
        # generalised mutual information
        snr = self.snr(psent, pgot) if what == "pgmi" else self.snr(sent, got) if what == "egmi" else np.ones(n) * 10 ** (np.array(sc["gsnr"], float) / 10)
        g, gb = np.asarray(v[0]), np.asarray(v[1])
        if what == "pgmi":
            res.stats["probe:GMI with pilot SNR"] += 1
        for m in range(n):
            if not snr[m] < (25 if sc["dtype"] == "complex64" else 100):             # beyond that the exponentials vanish
                if not e[m].any() and not (snr[m] > 1e4) and not abs(g[m] - self.gmi(alpha, bits, got[m], b0[m], snr[m]).sum()) < 1e-2:
                    return "mode %d: %s" % (m, g[m])
                continue
            want = self.gmi(alpha, bits, got[m], b0[m], snr[m])
            if not np.allclose(gb[m], want, rtol=1e-3, atol=5e-3 if sc["dtype"] == "complex64" else 1e-6) or not np.isclose(g[m], gb[m].sum()):
                return "mode %d: %s (%s) instead of %s, %d errors" % (m, gb[m], g[m], want, e[m].sum())
        return None

    def snr(self, sent, got):
        """signal and noise power of the clouds of the points that were sent"""
        out = []
        for a, b in zip(np.asarray(sent).astype(complex), np.asarray(got).astype(complex)):
            S = N = 0.
            key = np.round(a, 5)
            for p in np.unique(key):
                c = b[key == p]
                S += abs(c.mean()) ** 2 * len(c) / len(b)
                N += np.sum(np.abs(c - c.mean()) ** 2) / len(b)
            out.append(S / N if N else np.inf)
        return np.array(out)

    def gmi(self, alpha, bits, got, sent_bits, snr):
        x = -snr * np.abs(np.asarray(got).astype(complex)[:, None] - np.asarray(alpha).astype(complex)[None]) ** 2
        nb = bits.shape[1]
        sb = sent_bits.reshape(-1, nb)
        out = np.zeros(nb)
        for k in range(nb):
            L = np.logaddexp.reduce(x[:, bits[:, k]], axis=1) - np.logaddexp.reduce(x[:, ~bits[:, k]], axis=1)
            out[k] = 1 - np.mean(np.logaddexp(0, np.where(sb[:, k], -1, 1) * L)) / np.log(2)
        return out

    def covers(self, ref, sent):
        """ref equals sent, or repeats to it"""
        ref = np.asarray(ref)
        if ref.shape[1] == 0 or ref.shape[0] != sent.shape[0]:
            return False
        k = -(-sent.shape[1] // ref.shape[1])
        return np.allclose(np.tile(ref, (1, k))[:, :sent.shape[1]], sent, atol=1e-5)

    def shrink(self, sc):
        a = sc["asks"]
        for i in range(len(a)):
            if len(a) > 1:
                yield dict(sc, asks=a[:i] + a[i + 1:])
        for i in range(len(sc["errors"])):
            yield dict(sc, errors=sc["errors"][:i] + sc["errors"][i + 1:])
        for k, v in (("noise", 0), ("gsnr", [12]), ("trips", []), ("tail", 0), ("head", 0), ("nmodes", 1), ("M", 4), ("Mp", 4), ("scale", 1), ("dtype", "complex128"), ("psk", False), ("fb", 1), ("extra", 0), ("given", "no"), ("repd", True), ("repp", True)):
            if sc[k] != v:
                s = dict(sc, **{k: v})
                s["errors"] = [[m % s["nmodes"], f, j, q] for m, f, j, q in s["errors"]]
                yield s


CHECK = C17
