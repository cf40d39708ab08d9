"""C18: several frames of a pilot capture in one call against frame by frame."""
import numpy as np

from vsim import harness, linksim, pysim, state

FAULTS = {"interrupt": KeyboardInterrupt, "failed allocation": MemoryError}
COMPLEX = [("cma", "cma"), ("cma", "cma"), ("cma", "sbd"), ("mcma", "mcma"), ("cma", "mddma"), ("mcma", "sbd_data"), ("cma", "dd")]
REAL = [("cma_real", "cma_real"), ("cma_real", "dd_real"), ("cma_real", "dd_data_real")]


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()


class C18(harness.Check):
    id = "C18"
    technique = "deterministic simulation of a pilot-framed link with disturbed frames and interrupted receivers against frame-by-frame reception"
    runs = {"quick": 3000, "thorough": 30000}
    rule = ("a run transmits 2-6 frames of a random layout over a simulated link (delay per mode, coupling, frequency offset, phase, noise, ISI), equalises a random selection of frames in one call and each of them on its own from the "
            "same starting taps, disturbs a frame, interrupts the receiver and repeats; compared bit for bit: taps, offset and symbols of every frame, results handed out before, frames that were not disturbed; payload recovered; "
            "non-trivial if at least two frames were equalised")
    state_measure = "distinct (layout, selection, methods, tap counts)"
    real = ["qampy.equalisation pilot_equaliser, pilot_equaliser_nframes, apply_filter; qampy.core.pilotbased_receiver, equalisation and phaserecovery with the compiled kernels (one thread); qampy.signals resampling"]
    stubs = ["the link", "the synchronisation (the true frame position is handed over; C14 runs the real one)"]
    assumptions = ["a frame may start from the taps given by the caller or from those of a frame equalised before it in the same call", "payload is checked to within 10 % errors at 35 dB or more, for complex-valued CMA training (a lost, swapped or misplaced frame gives 25 % or more)"]
    required_probes = ["different delays", "frames not in order", "scattered frames", "given taps", "other tap count", "without frequency compensation", "payload", "frame disturbed", "interrupt", "failed allocation", "real-valued",
                       "all frames", "incomplete frame", "frame in the next", "16-QAM pilots", "taps only", "one mode", "single precision", "position of a mode"]

    def gen(self, rng, tier, index):
        n = rng.choice([1, 2, 2, 2, 3])
        ps = rng.choice([64, 128, 128, 256])
        pr = rng.choice([8, 16, 32])
        F = ps + pr * rng.randint(4, 16)
        nf = rng.choice([2, 3, 3, 4, 6])
        st = rng.choice([9, 11, 17])
        sc = {"M": rng.choice([4, 16, 16, 64]), "Mp": rng.choice([4, 4, 4, 16]), "F": F, "ps": ps, "pr": pr, "nframes": nf, "nmodes": n, "seed": rng.getrandbits(20), "dtype": rng.choice(["complex128", "complex128", "complex64"]),
              "synctaps": st, "Ntaps": st + rng.choice([0, 0, 2, -2, 4, 6]), "delay": rng.choice([rng.randint(0, 8), rng.randint(8, 2 * F), rng.randint(8, 2 * F)]), "skew": [0] * n, "foe": rng.choice([0, 0, 1e-4, -3e-4, 5e-5]), "snr": rng.choice([35, 40, 60]),
              "theta": rng.choice([0, rng.uniform(0, .2)]), "foe_comp": rng.random() < .65, "Niter": rng.choice([1, 3, 10]), "mu": rng.choice([1e-3, 5e-4]), "adaptive": rng.random() < .6, "init": rng.random() < .25, "verbose": rng.random() < .75,
              "apply": rng.random() < .75, "real": rng.random() < .15, "rrc": rng.random() < .4, "tail": rng.choice([0, 0, rng.randint(1, 2 * F)])}
        if n > 1 and rng.random() < .4:
            sc["skew"] = [0] + [rng.randint(-8, 8) for _ in range(n - 1)]
            sc["delay"] = max(sc["delay"], 20)
        sc["methods"] = rng.choice(REAL if sc["real"] else COMPLEX)
        x = rng.random()
        if x < .12:
            sc["frames"] = None
        elif x < .45:
            a = rng.randrange(nf)
            sc["frames"] = list(range(a, rng.randint(a, nf - 1) + 1))
        else:
            sc["frames"] = [rng.randrange(nf) for _ in range(rng.randint(1, 4))]
        sc["fault"] = rng.choice([None, "interrupt", "failed allocation"])
        sc["at"] = rng.random()
        sc["disturb"] = rng.randrange(nf) if rng.random() < .5 else None
        sc["noise"] = rng.choice(["noise", "dead", "strong"])
        return sc

    def link(self, sc):
        from qampy import signals
        n, F, os = sc["nmodes"], sc["F"], 2
        r = np.random.RandomState(sc["seed"])
        dt = np.dtype(sc["dtype"]).type
        s = signals.SignalWithPilots(sc["M"], F, sc["ps"], sc["pr"], nframes=sc["nframes"], Mpilots=sc["Mp"], nmodes=n, fb=1e9, seed=sc["seed"], repeat_data=False, repeat_pilots=True, dtype=dt)
        x = s.resample(os * 1e9, beta=.1 if sc["rrc"] else None, renormalise=True)
        a = np.array(x).astype(np.complex128)
        d = [sc["delay"] + k for k in sc["skew"]]
        a = np.concatenate([a, a, a[:, :64]], axis=1)
        L = os * F * sc["nframes"]
        # the capture begins so that the first frame starts at sample d, with the last frames before it and the first ones again behind
        a = np.array([np.concatenate([q[L - k:L] if k else q[:0], q])[:L + max(d) + 2 * F * os] for q, k in zip(np.tile(a, (1, 1)), d)])
        if n > 1:
            J = np.eye(n) * np.cos(sc["theta"]) + (1 - np.eye(n)) * np.sin(sc["theta"]) / (n - 1) * np.exp(1j * r.uniform(0, 6))
            a = J.dot(a)
        a = a * np.exp(2j * np.pi * sc["foe"] / os * np.arange(a.shape[1]) + 1j * r.uniform(0, 6, (n, 1)))
        a = a + 10 ** (-sc["snr"] / 20) * (r.randn(*a.shape) + 1j * r.randn(*a.shape))
        pos = np.array([k - sc["synctaps"] // 2 for k in d])
        room = max(sc["Ntaps"], sc["synctaps"]) + 8
        need = max(d) + os * F * sc["nframes"] + room + (os * F if min(k - max(sc["Ntaps"], sc["synctaps"]) // 2 for k in d) < 0 else 0)
        a = a[:, :need + sc["tail"]]
        y = x.recreate_from_np_array(np.ascontiguousarray(a.astype(dt)))
        y.shiftfctrs, y.synctaps = pos, sc["synctaps"]
        return s, y, d

    def taps0(self, sc):
        if not sc["init"]:
            return None
        r = np.random.RandomState(sc["seed"] + 1)
        n = sc["nmodes"] * (2 if sc["real"] else 1)
        w = .02 * (r.randn(n, n, sc["Ntaps"]) + 1j * r.randn(n, n, sc["Ntaps"]))
        w[np.arange(n), np.arange(n), sc["Ntaps"] // 2] += 1
        d = np.zeros(1, np.dtype(sc["dtype"]))
        return w.real.astype(d.real.dtype) if sc["real"] else w.astype(d.dtype)

    def one(self, sc, y, f, start):
        from qampy import equalisation as eq
        return eq.pilot_equaliser(y, sc["mu"], sc["Ntaps"], apply=True, foe_comp=sc["foe_comp"], wxinit=start, frame=f, verbose=True, M_pilot=sc["Mp"], Niter=sc["Niter"], adaptive_stepsize=sc["adaptive"], methods=tuple(sc["methods"]))

    def many(self, sc, y, w, **kw):
        from qampy import equalisation as eq
        kw = dict(dict(apply=sc["apply"], foe_comp=sc["foe_comp"], wxinit=w, frames=sc["frames"], verbose=sc["verbose"]), **kw)
        return eq.pilot_equaliser_nframes(y, sc["mu"], sc["Ntaps"], M_pilot=sc["Mp"], Niter=sc["Niter"], adaptive_stepsize=sc["adaptive"], methods=tuple(sc["methods"]), **kw)

    def model_filter(self, sc, y, taps, f, d):
        """the samples of frame f through the taps, mode by mode"""
        from qampy.core import equalisation as ceq
        os, F, n = 2, sc["F"], sc["nmodes"]
        nt = taps.shape[-1]
        p = np.array(y.shiftfctrs) - ((nt - sc["synctaps"]) // 2 if nt != sc["synctaps"] else 0)
        if p.min() < 0:
            p = p + os * F
        out = []
        for m in range(n):
            i = p[m] + f * os * F
            rows = [m, m + n] if sc["real"] else [m]
            out.append(np.asarray(ceq.apply_filter(np.asarray(y)[:, i:i + F * os + nt - 1], os, taps, modes=rows))[0])
        return np.array(out)

    def run(self, sc, res):
        import warnings
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        from qampy import equalisation as eq, phaserec
        s, y, d = self.link(sc)
        F, nf, n = sc["F"], sc["nframes"], sc["nmodes"]
        w = self.taps0(sc)
        w_was = None if w is None else w.copy()
        was = state.look(y)
        who = "%s, %d modes, frames %s, taps %d/%d, delays %s, foe_comp=%s" % ("+".join(sc["methods"]), n, sc["frames"], sc["Ntaps"], sc["synctaps"], d, sc["foe_comp"])
        shifted = min(k - sc["Ntaps"] // 2 for k in d) < 0
        for name, c in (("different delays", len(set(d)) > 1), ("frames not in order", sc["frames"] is not None and sorted(set(sc["frames"])) != sc["frames"]), ("given taps", w is not None), ("other tap count", sc["Ntaps"] != sc["synctaps"]),
                        ("without frequency compensation", not sc["foe_comp"]), ("real-valued", sc["real"]), ("all frames", sc["frames"] is None), ("frame in the next", shifted), ("16-QAM pilots", sc["Mp"] == 16), ("one mode", n == 1),
                        ("scattered frames", sc["frames"] is not None and len(sc["frames"]) > 1 and any(b - a != 1 for a, b in zip(sc["frames"], sc["frames"][1:]))), ("single precision", sc["dtype"] == "complex64")):
            if c:
                res.stats["probe:" + name] += 1
        if sc["fault"] is not None:
            a = pysim.Abort(0, None, "line")
            v = a.call(lambda: self.many(sc, y, w))
            if v[0] != "ok":
                raise v[1]
            exc = FAULTS[sc["fault"]]("simulated")
            a = pysim.Abort(1 + int(sc["at"] * a.count), exc, "line")
            v = a.call(lambda: self.many(sc, y, w))
            res.stats["fault:" + sc["fault"]] += 1
            res.stats["probe:" + sc["fault"]] += 1
            if v[0] == "ok" or type(v[1]) is not type(exc):
                res.fail("the exception is lost", "%s: %s in %s" % (who, sc["fault"], a.place), key="lost")
                return
            if state.look(y) != was:
                res.fail("the capture changes", "%s: %s in %s" % (who, sc["fault"], a.place), key="capture")
                return
        out = self.many(sc, y, w)
        if sc["apply"]:
            taps, sout, rest = out[0], out[1], out[2]
        elif sc["verbose"]:
            taps, sout, rest = out[0], None, out[1:]
        else:
            taps, sout, rest = out, None, ()
        if not sc["apply"]:
            res.stats["probe:taps only"] += 1
        frames = sc["frames"]
        if frames is None:
            frames = list(range(len(taps)))
            if len(taps) not in (nf, nf + (len(y[0]) - d[0]) // (2 * F) - nf) and not shifted:
                res.fail("another number of frames", "%s: %d instead of %d" % (who, len(taps), nf), key="frames")
                return
        if len(taps) != len(frames):
            res.fail("another number of frames", "%s: %d instead of %d" % (who, len(taps), len(frames)), key="frames")
            return
        if state.look(y) != was or (w is not None and not same(w, w_was)):
            res.fail("the capture or the given taps change", who, key="capture")
            return
        handed = [np.array(t) for t in taps] + ([np.array(sout)] if sout is not None else [])
        res.state(n, F, tuple(frames), tuple(sc["methods"]), sc["Ntaps"], sc["synctaps"])
        res.nontrivial = len(frames) > 1
        res.sim_steps += len(frames)
        singles = []
        for k, f in enumerate(frames):
            starts = [t for j, t in enumerate(taps[:k]) if frames[j] == 0][-1:] + [w] + [t for j, t in enumerate(taps[:k]) if frames[j] != 0]
            found = None
            diffs = []
            for st in starts:
                t1, s1, foe1, nt1 = self.one(sc, y, f, None if st is None else np.array(st))
                if not same(t1, taps[k]):
                    diffs.append("taps")
                    continue
                if rest and (not same(rest[0][k], foe1) or tuple(rest[1][k]) != tuple(nt1)):
                    diffs.append("frequency offset %s instead of %s" % (np.ravel(rest[0][k])[:2], np.ravel(foe1)[:2]))
                    continue
                if sout is not None and not same(np.asarray(sout)[:, k * F:(k + 1) * F], s1):
                    diffs.append("symbols")
                    continue
                found = (t1, s1, foe1, st)
                break
            if found is None:
                res.fail("another result than for the frame alone", "%s: frame %d (number %d of the call): other %s" % (who, f, k, ", ".join(sorted(set(diffs)))), key="alone")
                return
            singles.append(found)
            # applying its taps later, to this frame alone
            comp = phaserec.comp_freq_offset(y, found[2]) if sc["foe_comp"] else y
            late = eq.apply_filter(comp, taps[k], frames=[f])
            if not same(late, found[1]) or not same(np.asarray(late), self.model_filter(sc, comp, taps[k], f, d)):
                res.fail("applying the taps of a frame gives other symbols", "%s: frame %d" % (who, f), key="apply")
                return
        if sout is not None and np.asarray(sout).shape != (n, F * len(frames)):
            res.fail("another number of symbols", "%s: %s" % (who, np.asarray(sout).shape), key="length")
            return
        # the same taps over several frames at once
        multi = np.asarray(eq.apply_filter(y, taps[0], frames=list(frames)))
        each = np.hstack([self.model_filter(sc, y, np.array(taps[0]), f, d) for f in frames])
        if not same(multi, each):
            res.fail("applying taps to several frames at once", "%s: other symbols than frame by frame (%s, %s)" % (who, multi.shape, each.shape), key="apply frames")
            return
        now = [np.array(t) for t in taps] + ([np.array(sout)] if sout is not None else [])
        if not all(same(a, b) for a, b in zip(handed, now)):
            res.fail("results of a frame change later", who, key="later")
            return
        res.event([state._h(h.tobytes()) for h in handed])
        if len(set(d)) > 1 and not sc["foe_comp"] and not sc["adaptive"]:
            # the position of one mode does not matter for another
            res.stats["probe:position of a mode"] += 1
            z = y.copy()
            for m in range(n):
                z.shiftfctrs, z.synctaps = np.full(n, y.shiftfctrs[m]), y.synctaps
                if (np.min(z.shiftfctrs - (sc["Ntaps"] - sc["synctaps"]) // 2) < 0) != shifted:
                    continue
                f = frames[0]
                try:
                    t = eq.pilot_equaliser(z, sc["mu"], sc["Ntaps"], apply=False, foe_comp=False, wxinit=w, frame=f, M_pilot=sc["Mp"], Niter=sc["Niter"], adaptive_stepsize=False, methods=tuple(sc["methods"]))
                except AssertionError:
                    continue
                rows = [m, m + n] if sc["real"] else [m]
                if not same(np.asarray(t)[rows], np.asarray(taps[0])[rows]):
                    res.fail("the position of one mode changes another", "%s: frame %d: other taps for mode %d if the other modes start where it does" % (who, f, m), key="position")
                    return
        ok = sc["snr"] >= 35 and sc["ps"] >= 128 and sc["Mp"] == 4 and sc["Niter"] >= 10 and sc["mu"] >= 1e-3 and tuple(sc["methods"]) == ("cma", "cma") and sc["M"] <= (4 if sc["rrc"] else 16) and (sc["foe_comp"] or sc["foe"] == 0)
        if ok:
            res.stats["probe:payload"] += 1
            for k, f in enumerate(frames):
                e, tot = self.payload(s, singles[k][1], f + shifted)
                if e > .1 * tot:
                    res.fail("payload of a frame is lost", "%s: frame %d: %d of %d symbols wrong" % (who, f, e, tot), key="payload")
                    return
        self.disturbed(sc, res, y, w, frames, taps, sout, singles, d, who, shifted)
        if res.violation:
            return
        # a frame that is not (completely) there
        try:
            self.many(sc, y[:, :max(d) + 2 * F * (max(frames) + 1 + shifted) - F // 2], w, frames=[max(frames)])
        except AssertionError:
            res.stats["probe:incomplete frame"] += 1
        else:
            res.fail("an incomplete frame is equalised", "%s: frame %d of a capture that ends within it" % (who, max(frames)), key="incomplete")

    def disturbed(self, sc, res, y, w, frames, taps, sout, singles, d, who, shifted):
        g = sc["disturb"]
        if g is None or g not in frames or len(set(frames)) < 2:
            return
        F = sc["F"]
        z = y.copy()
        z.shiftfctrs, z.synctaps = y.shiftfctrs, y.synctaps
        a = min(d) + 2 * F * (g + shifted) + 40
        b = max(d) + 2 * F * (g + shifted + 1) - 40
        a = max(d) + 2 * F * (g + shifted) + 40
        b = min(d) + 2 * F * (g + shifted + 1) - 40
        r = np.random.RandomState(sc["seed"] + 2)
        new = {"noise": r.randn(sc["nmodes"], b - a) + 1j * r.randn(sc["nmodes"], b - a), "dead": np.zeros((sc["nmodes"], b - a)), "strong": np.asarray(y)[:, a:b] * 3}[sc["noise"]]
        z[:, a:b] = new.astype(y.dtype)
        res.stats["fault:frame disturbed"] += 1
        res.stats["probe:frame disturbed"] += 1
        out = self.many(sc, z, w, apply=True, verbose=True)
        for k, f in enumerate(frames):
            if f == g:
                continue
            if any(frames[j] == g for j in range(k)) and singles[k][3] is not None and singles[k][3] is not w:
                continue    # started from the disturbed frame, or from one that did
            F0 = sc["F"]
            if not same(out[0][k], taps[k]) or (sout is not None and not same(np.asarray(out[1])[:, k * F0:(k + 1) * F0], np.asarray(sout)[:, k * F0:(k + 1) * F0])):
                res.fail("a disturbed frame changes another one", "%s: frame %d after %s in frame %d" % (who, f, sc["noise"], g), key="disturbed")
                return

    def payload(self, s, rx, f):
        F = s.frame_len
        f = f % s.nframes
        tx = np.asarray(s)[:, f * F:(f + 1) * F]
        m = np.asarray(s._idx_pil)[:F] if False else self.mask(s)
        rx = np.asarray(rx)
        bad = tot = 0
        i = np.nonzero(m)[0]
        al = np.asarray(s.symbols.coded_symbols)
        for q in range(rx.shape[0]):
            ph = np.unwrap(np.angle(rx[q, i] * tx[q, i].conj()))
            c = rx[q] * np.exp(-1j * np.interp(np.arange(F), i, ph))
            bad += np.count_nonzero(linksim.nearest(al, c[~m]) != linksim.nearest(al, tx[q, ~m]))
            tot += np.count_nonzero(~m)
        return bad, tot

    def mask(self, s):
        j = np.arange(s.frame_len)
        ps, pr = s.pilot_seq.shape[1], s._pilot_ins_rat
        return (j < ps) | ((j - ps) % pr == 0)

    def shrink(self, sc):
        if sc["frames"] is not None:
            for i in range(len(sc["frames"])):
                if len(sc["frames"]) > 1:
                    yield dict(sc, frames=sc["frames"][:i] + sc["frames"][i + 1:])
            for i, f in enumerate(sc["frames"]):
                if f > 0:
                    yield dict(sc, frames=sc["frames"][:i] + [f - 1] + sc["frames"][i + 1:])
        for k, v in (("fault", None), ("disturb", None), ("init", False), ("foe", 0), ("theta", 0), ("skew", [0] * sc["nmodes"]), ("snr", 60), ("rrc", False), ("tail", 0), ("Ntaps", sc["synctaps"]), ("M", 4), ("Mp", 4), ("ps", 64), ("nframes", 2), ("Niter", 1), ("dtype", "complex128"),
                     ("foe_comp", False), ("apply", True), ("verbose", True), ("methods", COMPLEX[0]), ("adaptive", False)):
            if sc[k] != v:
                new = dict(sc, **{k: v})
                if k == "ps":
                    new["F"] = 64 + sc["pr"] * ((sc["F"] - sc["ps"]) // sc["pr"])
                if k == "nframes" and sc["frames"] and max(sc["frames"]) > 1:
                    continue
                if k == "methods":
                    new["real"] = False
                yield new
        if sc["nmodes"] > 1:
            yield dict(sc, nmodes=sc["nmodes"] - 1, skew=sc["skew"][:-1])


CHECK = C18
