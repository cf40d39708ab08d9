"""C16: carrier recovery against the trajectories of the simulated oscillators."""
import numpy as np

from vsim import harness, linksim

KINDS = ["pilots", "pilots", "pilots", "pilots", "bps", "bps", "bps", "two stages", "two stages", "power", "power", "rings", "offset", "offset", "constant", "slope"]
TOL = {"complex128": 1e-7, "complex64": 6e-3}


def bits(a):
    return np.ascontiguousarray(a).tobytes()


def near(a, b):
    """the same but for rounding"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    tol = 1e-4 if a.dtype in (np.complex64, np.float32) else 1e-9
    return not a.size or bool(np.max(np.abs(a - b)) <= tol * (1 + np.max(np.abs(a))))


def phase_of(spec, n):
    return linksim.trajectory(n, spec)


class C16(harness.Check):
    id = "C16"
    technique = "deterministic simulation of a link with drifting oscillators and bursts, against the trajectories that were simulated"
    runs = {"quick": 5000, "thorough": 50000}
    rule = ("a run transmits 200-4000 symbols on 1-3 modes over oscillators whose phase follows a seeded trajectory per mode (offset, ramp, sine, random walk, steps), adds noise and bursts, recovers the carrier with one of eight "
            "estimators and compares: what was removed is what is reported; the pilot trace equals the average and interpolation of the phases at the pilots; decisions are error-free away from edges and bursts "
            "(up to one constant ambiguity per mode); what happens in one mode leaves the others alone; non-trivial if a phase changed over time")
    state_measure = "distinct (estimator, parameters, trajectories)"
    real = ["qampy.phaserec, qampy.core.phaserecovery, qampy.core.pilotbased_receiver (pilot_based_cpe_new, pilot_based_foe), qampy.core.segmentaxis, moving_average, qampy.signals, the compiled phase search"]
    stubs = ["the link and its oscillators"]
    assumptions = ["trajectories stay within the tracking range of the estimator (less than 0.8 rad from one used pilot to the next; little change over a window of the blind estimators)", "blind estimators resolve the phase up to their symmetry",
                   "windows of at least 20 symbols (40 for the ring partition, with bursts that do not dominate the power of the capture)"]
    required_probes = ["pilots", "bps", "two stages", "power", "rings", "offset", "constant", "slope", "several frames", "fresh pilots", "pilot sequence used", "every other pilot", "cut frame", "limited blocks", "burst", "burst over pilots", "other modes", "single precision",
                       "walk", "ramp", "steps", "error-free", "one-dimensional", "more frames than one turn", "8-PSK", "64 points", "end to end", "average", "long capture"]

    # ------------------------------------------------------------------ scenarios
    def spec(self, rng, n, slope):
        """a trajectory that changes by less than slope per symbol"""
        t = {"const": rng.uniform(-3.1, 3.1)}
        x = rng.random()
        if x < .35:
            t["ramp"] = rng.uniform(-.6, .6) * slope
        elif x < .55:
            per = rng.uniform(n / 4, 2 * n)
            t["sine"] = [.5 * slope * per / 6.3, per, rng.uniform(0, 6)]
        elif x < .75:
            t["walk"] = [.12 * slope, rng.getrandbits(20)]
        elif x < .9:
            w = rng.uniform(n / 20, n / 8)
            t["steps"] = [[rng.uniform(.2, .8) * n, rng.choice([-1, 1]) * 1.8 * slope * w, w]]
        return t

    def gen(self, rng, tier, index):
        k = rng.choice(KINDS)
        n = rng.choice([1, 2, 2, 3])
        sc = {"kind": k, "nmodes": n, "seed": rng.getrandbits(20), "dtype": rng.choice(["complex128", "complex128", "complex64"]), "snr": rng.choice([40, 40, 60, 30]), "core": rng.random() < .3}
        if k in ("pilots", "constant", "slope"):
            ps, pr = rng.choice([8, 16, 33, 64]), rng.choice([4, 8, 8, 16, 32])
            F = ps + pr * rng.randint(12, 40)
            nf = rng.choice([1, 1, 2, 3, 4])
            sc.update(M=rng.choice([4, 16, 64]), Mp=rng.choice([4, 4, 16]), F=F, ps=ps, pr=pr, nframes=nf, repeat_data=rng.random() < .6, repeat_pilots=rng.random() < .6, use=rng.randint(1, nf), N=rng.choice([3, 3, 5, 7, 4, 9]), use_seq=rng.random() < .4,
                      rat=rng.choice([1, 1, 1, 2, 3]), blocks=None if rng.random() < .85 else rng.randint(8, 60), cut=rng.choice([0, 0, 0, rng.randint(1, F - 1)]))
            n_ = F * nf
            slope = .8 / (pr * sc["rat"])
        else:
            L = rng.choice([200, 400, 400, 1000, 2000])
            sc.update(M=rng.choice([4, 4, 16, 32, 64]), L=L, N=rng.choice([10, 12, 15, 20, 21, 30]), angles=rng.choice([32, 64, 64, 90]), B=rng.choice([2, 4, 4, 6, 8]))
            if k == "rings":
                sc.update(M=16, N=rng.choice([40, 64, 100]), L=rng.choice([400, 1000, 2000]))
            if k == "power":
                sc.update(M=rng.choice([4, 4, 8, 16]), N=rng.choice([10, 11, 20, 31]), psk=rng.random() < .6)
            if k == "two stages":
                sc.update(angles=rng.choice([16, 24, 32]))
            if k == "offset":
                sc.update(M=rng.choice([4, 4, 4, 16]), fft=rng.choice([4096, 8192, 5000, 1 << 14]), os=rng.choice([1, 1, 2]), foe=[rng.uniform(-.11, .11) for _ in range(n)], average=rng.random() < .3, L=rng.choice([1000, 2000, 4000]))
                sc["snr"] = max(sc["snr"], 40)
                if rng.random() < .03:  # a long capture
                    sc.update(L=rng.choice([1 << 19, 1 << 20, 700001]), os=1, nmodes=min(n, 2), dtype=rng.choice(["complex64", "complex64", "complex128"]))
                    sc["foe"] = sc["foe"][:sc["nmodes"]]
                    n = sc["nmodes"]
                elif rng.random() < .3:  # lasers that nearly agree
                    d = 10**rng.uniform(-6, -3)
                    sc["foe"] = [sc["foe"][0] * .9 + rng.choice([0, 1, rng.uniform(-1, 1)]) * d for _ in range(n)]
            n_ = sc["L"]
            slope = {4: .3, 8: .12, 16: .1, 32: .07, 64: .05}[sc["M"]] / (2 * sc["N"])
            if k == "rings":
                slope = .06 / sc["N"]
            if sc["M"] > 4:
                sc["snr"] = max(sc["snr"], 40)
        sc["spec"] = [self.spec(rng, n_, slope) for _ in range(n)]
        sc["burst"] = None
        if rng.random() < .35:
            a = rng.randrange(n_)
            sc["burst"] = [rng.randrange(n), a, a + rng.choice([1, 2, 10, 40]), rng.choice(["noise", "dead", "strong"])]
        if sc["burst"] and k == "rings":    # the power of the rings is estimated over the whole capture
            sc["burst"][2], sc["burst"][3] = sc["burst"][1] + rng.randint(1, 8), rng.choice(["noise", "dead"])
        sc["other"] = rng.randrange(n)
        return sc

    # ------------------------------------------------------------------ the link
    def link(self, sc, x, skip=None):
        """the received field; skip=m: everything that happens differently in the modes other than m"""
        n, L = x.shape
        y = np.empty((n, L), np.complex128)
        th = np.empty((n, L))
        r = np.random.RandomState(sc["seed"])
        w = 10 ** (-sc["snr"] / 20) / np.sqrt(2) * (r.randn(n, L) + 1j * r.randn(n, L))
        for m in range(n):
            th[m] = phase_of(sc["spec"][m], L)
            if skip is not None and m != skip:
                th[m] = th[m][::-1] * .7 + 1
                w[m] = w[m][::-1]
            y[m] = np.asarray(x)[m] * np.exp(1j * th[m]) + w[m]
        if sc["burst"] and (skip is None or sc["burst"][0] == skip):
            m, a, b, what = sc["burst"]
            m = m % n
            q = np.random.RandomState(sc["seed"] + 1)
            k = y[m, a:b].shape[0]
            y[m, a:b] = {"noise": q.randn(k) + 1j * q.randn(k), "dead": np.zeros(k), "strong": -4 * y[m, a:b]}[what]
        return y.astype(sc["dtype"]), th

    def quiet(self, sc, m, L, reach):
        """positions that no burst reaches"""
        ok = np.ones(L, bool)
        if sc["burst"] and sc["burst"][0] % sc["nmodes"] == m:
            ok[max(0, sc["burst"][1] - reach):max(0, sc["burst"][2] + reach)] = False
        return ok

    def run(self, sc, res):
        import warnings
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        res.stats["probe:" + sc["kind"]] += 1
        for k in ("walk", "ramp", "steps"):
            res.stats["probe:" + k] += any(k in s for s in sc["spec"])
            res.stats["fault:drift (%s)" % k] += any(k in s for s in sc["spec"])
        res.stats["probe:single precision"] += sc["dtype"] == "complex64"
        if sc["burst"]:
            res.stats["fault:burst (%s)" % sc["burst"][3]] += 1
            res.stats["probe:burst"] += 1
        res.nontrivial = any(len(s) > 1 for s in sc["spec"])
        res.state(sorted((k, str(v)) for k, v in sc.items() if k != "seed"))
        {"pilots": self.pilots, "constant": self.constant, "slope": self.slope, "bps": self.blind, "two stages": self.blind, "power": self.power, "rings": self.blind, "offset": self.offset}[sc["kind"]](sc, res)

    def removed(self, sc, res, who, y, out, ph, sign, sl=slice(None), tol=None):
        """what was removed is what is reported"""
        want = np.asarray(y, np.complex128)[..., sl] * np.exp(sign * 1j * np.real(np.asarray(ph)).astype(float))
        tol = tol or 1e-9 if sc["dtype"] == "complex128" else tol or 3e-4 * (1 + np.max(np.abs(np.real(ph))) / 50)
        got = np.asarray(out)[..., sl]
        if got.shape != want.shape or np.max(np.abs(got - want)) > tol * (1 + np.max(np.abs(want))):
            d = "shape %s, not %s" % (got.shape, want.shape) if got.shape != want.shape else "off by up to %.2g in modes %s" % (np.max(np.abs(got - want)), np.nonzero(np.max(np.abs(got - want), axis=-1).ravel() > tol)[0])
            res.fail("the reported phase is not the one removed", who + ": " + d, key="removed:" + sc["kind"])
            return False
        return True

    # ------------------------------------------------------------------ pilots
    def transmitter(self, sc):
        from qampy import signals
        return signals.SignalWithPilots(sc["M"], sc["F"], sc["ps"], sc["pr"], nframes=sc["nframes"], Mpilots=sc["Mp"], nmodes=sc["nmodes"], seed=sc["seed"], repeat_data=sc["repeat_data"], repeat_pilots=sc["repeat_pilots"], dtype=np.dtype(sc["dtype"]).type)

    def pilots(self, sc, res):
        from qampy import phaserec
        s = self.transmitter(sc)
        F, n, use = sc["F"], sc["nmodes"], sc["use"]
        tx = np.array(s)
        rx, th = self.link(sc, tx)
        L = F * use
        end = F * sc["nframes"]
        if sc["cut"]:
            end = min(max(F * (use - 1) + sc["cut"], F), F * sc["nframes"])
            res.stats["probe:cut frame"] += end < L
            res.stats["fault:capture ends within a frame"] += end < L
        L = min(L, end)
        y = s.recreate_from_np_array(rx[:, :end])
        N = sc["N"] + (sc["N"] % 2 == 0)
        pos = np.array([p for p in range(F) if p < sc["ps"] or (p - sc["ps"]) % sc["pr"] == 0])
        if not sc["use_seq"]:
            pos = pos[sc["ps"]:]
        pos = pos[:sc["blocks"]][::sc["rat"]]
        at = np.concatenate([pos + f * F for f in range(use)])
        at = at[at < L]
        if len(at) < N:
            try:
                phaserec.pilot_cpe(y, N=sc["N"], pilot_rat=sc["rat"], max_blocks=sc["blocks"], nframes=use, use_seq=sc["use_seq"])
            except AssertionError:
                return
            res.fail("an average over more pilots than there are", "%d pilots, %d to average" % (len(at), N), key="average")
            return
        for k, c in (("several frames", use > 1), ("fresh pilots", use > 1 and not sc["repeat_pilots"]), ("pilot sequence used", sc["use_seq"]), ("every other pilot", sc["rat"] > 1), ("limited blocks", sc["blocks"] is not None),
                     ("more frames than one turn", use > 1 and np.ptp(th[:, :L]) > 7), ("64 points", sc["M"] == 64)):
            res.stats["probe:" + k] += bool(c)
        who = "pilot_cpe, %d of %d frames of %d+n*%d (%d symbols received), N=%d, every %d pilots%s%s" % (use, sc["nframes"], sc["ps"], sc["pr"], end, sc["N"], sc["rat"], ", with sequence" if sc["use_seq"] else "", ", %s blocks" % sc["blocks"] if sc["blocks"] else "")
        before = bits(y)
        out, tr = phaserec.pilot_cpe(y, N=sc["N"], pilot_rat=sc["rat"], max_blocks=sc["blocks"], nframes=use, use_seq=sc["use_seq"])
        if bits(y) != before:
            res.fail("the received signal changes", who, key="input")
            return
        if np.shape(out) != (n, L) or np.shape(tr) != (n, L):
            res.fail("another number of symbols", "%s: %s and %s instead of %s" % (who, np.shape(out), np.shape(tr), (n, L)), key="length")
            return
        if np.max(np.abs(np.imag(tr))) > 0 or not self.removed(sc, res, who, rx[:, :L], out, tr, -1):
            res.fail("complex phase trace", who, key="removed:pilots")
            return
        res.event(sc["kind"], use, end, np.round(np.real(tr[:, ::50]), 3).tolist())
        # the phase at the pilots, averaged and interpolated
        tr = np.real(tr).astype(float)
        h = N // 2
        for m in range(n):
            p = np.unwrap(np.angle(rx[m, at].astype(complex) * np.conj(tx[m, at]).astype(complex)))
            av = np.array([np.mean(p[i - h:i + h + 1]) for i in range(h, len(p) - h)])
            model = np.interp(np.arange(L), at[h:len(p) - h], av)
            hit = sc["burst"] and sc["burst"][0] % n == m
            if hit and np.any(np.abs(np.abs(np.diff(p)) - np.pi) < .02):
                continue    # the burst makes the turns ambiguous
            d = tr[m] - model
            turns = np.round(d[0] / (2 * np.pi))
            d -= 2 * np.pi * turns
            tol = TOL[sc["dtype"]] * (1 if sc["dtype"] == "complex128" else 1 + np.max(np.abs(p)) * len(p) / 2e4)
            if np.max(np.abs(d)) > tol:
                i = int(np.argmax(np.abs(d)))
                res.fail("the trace is not the phase at the pilots", "%s: mode %d is off by %.3g at symbol %d" % (who, m, d[i], i), key="trace")
                return
        # decisions
        al = np.asarray(s.symbols.coded_symbols)
        pal = np.asarray(s.pilots.coded_symbols)
        mask = self.mask(sc, L)
        for m in range(n):
            lo, hi = at[h], at[-1 - h]
            if sc["blocks"] is not None and use > 1:
                hi = [q for q in at if q < F][-1 - h] if len([q for q in at if q < F]) > h else lo
            span = N * sc["pr"] * sc["rat"] + (sc["ps"] if not sc["use_seq"] else 0)
            reach = span + sc["pr"] * sc["rat"]
            # how far the true phase is from its average over the pilots used
            t = th[m]
            want = np.interp(np.arange(L), at[h:len(at) - h], [np.mean(t[at[i - h:i + h + 1]]) for i in range(h, len(at) - h)])
            room = .5 * np.min(np.abs(al[:, None] - al)[~np.eye(len(al), dtype=bool)])
            noise = 4.5 * 10 ** (-sc["snr"] / 20)
            ok = self.quiet(sc, m, L, reach)
            ok[:lo], ok[hi + 1:] = False, False
            ok &= (np.abs(want - t[:L]) + .5 * noise) * np.max(np.abs(al)) + noise < room
            ok &= ~mask
            gaps = np.diff(t[at])
            if not np.all(np.abs(gaps) < 2.4 - 2 * noise) or noise > .5 or (sc["burst"] and sc["burst"][0] % n == m and sc["burst"][3] == "strong" and False):
                continue
            i = np.nonzero(ok)[0]
            if not len(i):
                continue
            if sc["burst"] and sc["burst"][0] % n == m and np.any((at >= sc["burst"][1]) & (at < sc["burst"][2])):
                res.stats["probe:burst over pilots"] += 1
            res.stats["probe:error-free"] += 1
            bad = linksim.nearest(al, np.asarray(out)[m, i]) != linksim.nearest(al, tx[m, i])
            if bad.any():
                res.fail("wrong symbols after carrier recovery", "%s: mode %d: %d of %d, first %d" % (who, m, bad.sum(), len(i), i[np.argmax(bad)]), key="symbols:pilots")
                return
        if n > 1:
            m = sc["other"] % n
            rx2, _ = self.link(sc, tx, skip=m)
            y2 = s.recreate_from_np_array(rx2[:, :end])
            out2, tr2 = phaserec.pilot_cpe(y2, N=sc["N"], pilot_rat=sc["rat"], max_blocks=sc["blocks"], nframes=use, use_seq=sc["use_seq"])
            res.stats["probe:other modes"] += 1
            if not near(out2[m], out[m]) or not near(np.real(tr2[m]).astype(float), tr[m]):
                res.fail("one mode changes another", "%s: mode %d" % (who, m), key="modes:pilots")

    def mask(self, sc, L):
        j = np.arange(L) % sc["F"]
        return (j < sc["ps"]) | ((j - sc["ps"]) % sc["pr"] == 0)

    def constant(self, sc, res):
        from qampy import phaserec
        s = self.transmitter(sc)
        n = sc["nmodes"]
        th = np.array([t["const"] for t in sc["spec"]])
        ref = np.array(s.pilots)[:, :64]
        y, _ = self.link(dict(sc, spec=[{"const": c} for c in th], burst=None), ref)
        got = phaserec.find_pilot_const_phase(y, ref)
        tol = 4 * 10 ** (-sc["snr"] / 20)
        who = "find_pilot_const_phase"
        d = np.angle(np.exp(1j * (np.ravel(got) - th)))
        if np.shape(got) != (n, 1) or np.max(np.abs(d)) > tol:
            res.fail("wrong constant phase", "%s: %s instead of %s" % (who, np.ravel(got), th), key="constant")
            return
        full, _ = self.link(dict(sc, spec=[{"const": c} for c in th], burst=None), np.array(s))
        out = phaserec.correct_pilot_const_phase(s.recreate_from_np_array(full), got)
        self.removed(sc, res, "correct_pilot_const_phase", full, out, np.broadcast_to(got, full.shape), -1)
        al = np.asarray(s.symbols.coded_symbols)
        keep = ~self.mask(sc, full.shape[1])
        if sc["snr"] >= 40 and not np.array_equal(linksim.nearest(al, np.asarray(out)[:, keep]), linksim.nearest(al, np.array(s)[:, keep])):
            res.fail("wrong symbols after carrier recovery", who, key="symbols:constant")
        res.stats["probe:error-free"] += sc["snr"] >= 40
        try:
            phaserec.correct_pilot_const_phase(full, np.zeros(n + 1))
        except AssertionError:
            pass
        else:
            res.fail("phases for another number of modes are taken", who, key="constant modes")
        if n > 1:
            m = sc["other"] % n
            one = phaserec.find_pilot_const_phase(y[m], ref[m])
            res.stats["probe:other modes"] += 1
            if not near(one[0], got[m]):
                res.fail("one mode changes another", "%s: mode %d" % (who, m), key="modes:constant")

    def slope(self, sc, res):
        from qampy.core import pilotbased_receiver as pr
        s = self.transmitter(sc)
        n = sc["nmodes"]
        f = np.array([sc["spec"][m].get("ramp", .02 * (m + 1) / sc["pr"]) * sc["pr"] for m in range(n)])
        ref = np.array(s.pilots)[:, :100]
        y, th = self.link(dict(sc, spec=[{"const": t["const"], "ramp": q} for t, q in zip(sc["spec"], f)], burst=None), ref)
        mean, each, cond = pr.pilot_based_foe(y, ref)
        L = ref.shape[1]
        tol = 8 * 10 ** (-sc["snr"] / 20) * np.sqrt(12 / L ** 3)
        if np.shape(each) != (n, 1) or np.max(np.abs(np.ravel(each) * 2 * np.pi - f)) > tol or abs(mean - np.mean(each)) > 1e-12:
            res.fail("wrong slope of the phase", "pilot_based_foe: %s instead of %s" % (np.ravel(each) * 2 * np.pi, f), key="slope")
            return
        if n > 1:
            m = sc["other"] % n
            res.stats["probe:other modes"] += 1
            if not near(pr.pilot_based_foe(y[m:m + 1], ref[m:m + 1])[1][0], each[m]):
                res.fail("one mode changes another", "pilot_based_foe: mode %d" % m, key="modes:slope")

    # ------------------------------------------------------------------ blind
    def source(self, sc):
        from qampy import signals
        dt = np.dtype(sc["dtype"]).type
        if sc.get("psk") or sc["M"] == 8:
            return signals.SignalPSKGrayCoded(sc["M"], sc["L"], nmodes=sc["nmodes"], seed=sc["seed"], dtype=dt)
        return signals.SignalQAMGrayCoded(sc["M"] if sc["kind"] != "power" else 4, sc["L"], nmodes=sc["nmodes"], seed=sc["seed"], dtype=dt)

    def estimate(self, sc, y):
        from qampy import phaserec
        from qampy.core import phaserecovery as core
        k = sc["kind"]
        if k == "bps":
            return core.bps(np.asarray(y), sc["angles"], y.coded_symbols, sc["N"]) if sc["core"] else phaserec.bps(y, sc["angles"], sc["N"])
        if k == "two stages":
            return core.bps_twostage(np.asarray(y), sc["angles"], y.coded_symbols, sc["N"], B=sc["B"]) if sc["core"] else phaserec.bps_twostage(y, sc["angles"], sc["N"], B=sc["B"])
        if k == "power":
            return core.viterbiviterbi(np.asarray(y), sc["N"], y.M) if sc["core"] else phaserec.viterbiviterbi(y, sc["N"])
        return core.phase_partition_16qam(np.asarray(y), sc["N"]) if sc["core"] else phaserec.phase_partition_16qam(y, sc["N"])

    def rotations(self, sc):
        return 4

    def blind(self, sc, res):
        s = self.source(sc)
        n, L, N, k = sc["nmodes"], sc["L"], sc["N"], sc["kind"]
        tx = np.array(s)
        rx, th = self.link(sc, tx)
        y = s.recreate_from_np_array(rx)
        who = "%s, %d points, %d symbols, N=%d" % ({"rings": "phase_partition_16qam", "bps": "bps with %d angles" % sc["angles"], "two stages": "bps_twostage with %d and %d angles" % (sc["angles"], sc["B"])}[k], len(s.coded_symbols), L, N)
        res.stats["probe:64 points"] += sc["M"] == 64
        out, ph = self.estimate(sc, y)
        if bits(y) != bits(rx):
            res.fail("the received signal changes", who, key="input")
            return
        if np.shape(out) != (n, L) or np.shape(ph) != (n, L):
            res.fail("another number of symbols", "%s: %s and %s" % (who, np.shape(out), np.shape(ph)), key="length")
            return
        if not self.removed(sc, res, who, rx, out, ph, -1 if k == "rings" else 1):
            return
        res.event(k, np.round(np.asarray(ph)[:, ::40], 2).tolist())
        edge = 0 if k == "rings" else N
        if k == "rings":
            edge = N     # the last block can be short
        al = np.asarray(s.coded_symbols)
        for m in range(n):
            self.decide(sc, res, who, m, al, tx[m], np.asarray(out)[m], edge, 2 * N, 4)
            if res.violation:
                return
        self.alone(sc, res, who, s, y, tx, out, ph)

    def decide(self, sc, res, who, m, al, tx, out, edge, reach, turns):
        """error-free up to one rotation, before and after a burst"""
        L = len(tx)
        want = linksim.nearest(al, tx)
        parts = [(edge, L - edge)]
        if sc["burst"] and sc["burst"][0] % sc["nmodes"] == m and sc["burst"][1] < L:
            a, b = sc["burst"][1], min(sc["burst"][2], L)
            if sc["kind"] == "rings":
                a, b = a // reach * reach, -(-b // reach) * reach
            parts = [(edge, a - reach), (b + reach, L - edge)]
        for a, b in parts:
            if b - a < 20:
                continue
            errs = [np.count_nonzero(linksim.nearest(al, out[a:b] * np.exp(2j * np.pi * k / turns)) != want[a:b]) for k in range(turns)]
            res.stats["probe:error-free"] += 1
            if min(errs) > 0:
                res.fail("wrong symbols after carrier recovery", "%s: mode %d: %d of symbols %d to %d" % (who, m, min(errs), a, b), key="symbols:" + sc["kind"])
                return

    def alone(self, sc, res, who, s, y, tx, out, ph):
        n = sc["nmodes"]
        m = sc["other"] % n
        if n > 1:
            rx2, _ = self.link(sc, tx, skip=m)
            o2, p2 = self.estimate(sc, s.recreate_from_np_array(rx2))
            res.stats["probe:other modes"] += 1
            if not near(o2[m], out[m]) or not near(p2[m], ph[m]):
                res.fail("one mode changes another", "%s: mode %d" % (who, m), key="modes:" + sc["kind"])
                return
        o1, p1 = self.estimate(dict(sc, core=False), y[m])
        res.stats["probe:one-dimensional"] += 1
        if np.ndim(o1) != 1 or not near(o1, out[m]) or not near(p1, ph[m]):
            res.fail("one mode alone gives another result", "%s: mode %d" % (who, m), key="alone:" + sc["kind"])

    def power(self, sc, res):
        s = self.source(sc)
        n, L, N = sc["nmodes"], sc["L"], sc["N"]
        M = s.M
        tx = np.array(s)
        rx, th = self.link(sc, tx)
        y = s.recreate_from_np_array(rx)
        who = "viterbiviterbi, %d-PSK, %d symbols, N=%d" % (M, L, N)
        res.stats["probe:8-PSK"] += M == 8
        out, ph = self.estimate(sc, y)
        a = (N - 1) // 2 if N % 2 else N // 2 - 1
        if bits(y) != bits(rx):
            res.fail("the received signal changes", who, key="input")
            return
        if np.shape(out) != (n, L) or np.shape(ph) != (n, L - N + 1):
            res.fail("another number of symbols", "%s: %s and %s" % (who, np.shape(out), np.shape(ph)), key="length")
            return
        if not self.removed(sc, res, who, rx, out, ph, -1, slice(a, a + L - N + 1)):
            return
        res.event("power", np.round(np.asarray(ph)[:, ::40], 2).tolist())
        al = np.asarray(s.coded_symbols)
        for m in range(n):
            self.decide(sc, res, who, m, al, tx[m], np.asarray(out)[m], N, 2 * N, 2 * M)
            if res.violation:
                return
        self.alone(sc, res, who, s, y, tx, out, ph)

    # ------------------------------------------------------------------ frequency offset
    def offset(self, sc, res):
        from qampy import phaserec
        s = self.source(sc)
        n, os = sc["nmodes"], sc["os"]
        if os > 1:
            x = s.resample(os * s.fb, beta=.3, renormalise=True)
        else:
            x = s
        a = np.array(x).astype(complex)
        f = np.array(sc["foe"])
        t = np.arange(1, a.shape[1] + 1)
        r = np.random.RandomState(sc["seed"])
        a = a * np.exp(2j * np.pi * f[:, None] * t / os + 1j * np.array([q["const"] for q in sc["spec"]])[:, None]) + 10 ** (-sc["snr"] / 20) / np.sqrt(2) * (r.randn(*a.shape) + 1j * r.randn(*a.shape))
        a = a.astype(sc["dtype"])
        y = x.recreate_from_np_array(a)
        who = "%d symbols, %d samples per symbol, offsets %s of the symbol rate, FFT of %d" % (sc["L"], os, np.round(f, 4), sc["fft"])
        res.nontrivial = True
        res.stats["fault:frequency offset"] += 1
        # compensation alone
        c = phaserec.comp_freq_offset(y, f[:, None])
        if not self.removed(sc, res, "comp_freq_offset, " + who, a, c, 2 * np.pi * f[:, None] * t / os, -1, tol=1e-3 if sc["dtype"] == "complex64" else 1e-7):
            return
        if n > 1:
            m = sc["other"] % n
            c1 = phaserec.comp_freq_offset(y[m], f[m:m + 1])
            res.stats["probe:other modes"] += 1
            if not near(c1, c[m]):
                res.fail("one mode changes another", "comp_freq_offset: mode %d" % m, key="modes:comp")
                return
        if sc["L"] > 1 << 18:
            res.stats["probe:long capture"] += 1
            return
        got = phaserec.find_freq_offset(y, average_over_modes=sc["average"], fft_size=sc["fft"])
        if bits(y) != bits(a):
            res.fail("the received signal changes", who, key="input")
            return
        size = 1 << int(np.ceil(np.log2(sc["fft"])))
        each = np.ravel(phaserec.find_freq_offset(y, average_over_modes=False, fft_size=sc["fft"]))
        bin_ = os / 4 / min(size, a.shape[1])
        if sc["M"] == 4 and np.max(np.abs(each - f)) > 1.01 * bin_:
            res.fail("wrong frequency offset", "find_freq_offset, %s: %s" % (who, each), key="offset")
            return
        want = np.full(n, np.mean(each)) if sc["average"] else each
        res.stats["probe:average"] += sc["average"]
        if np.shape(got) != (n, 1) or np.max(np.abs(np.ravel(got) - want)) > 1e-12:
            res.fail("average over the modes", "find_freq_offset, %s: %s instead of %s" % (who, np.ravel(got), want), key="offset average")
            return
        if n > 1:
            one = phaserec.find_freq_offset(y[m:m + 1], average_over_modes=False, fft_size=sc["fft"])
            if not near(one[0], each[m:m + 1]):
                res.fail("one mode changes another", "find_freq_offset: mode %d" % m, key="modes:find")
                return
        if sc["M"] == 4 and os == 1 and sc["dtype"] == "complex128":
            z = phaserec.comp_freq_offset(y, each[:, None])
            out, ph = phaserec.bps(z, 64, 10)
            al = np.asarray(s.coded_symbols)
            res.stats["probe:end to end"] += 1
            for m in range(n):
                self.decide(dict(sc, burst=None), res, "find_freq_offset, comp_freq_offset and bps, " + who, m, al, np.array(s)[m], np.asarray(out)[m], 10, 20, 4)

    def shrink(self, sc):
        if sc["burst"]:
            yield dict(sc, burst=None)
        if sc["nmodes"] > 1:
            n = sc["nmodes"] - 1
            yield dict(sc, nmodes=n, spec=sc["spec"][:n], foe=sc.get("foe", [])[:n], other=sc["other"] % n)
            yield dict(sc, nmodes=n, spec=sc["spec"][1:], foe=sc.get("foe", [])[1:], other=sc["other"] % n)
        for m, t in enumerate(sc["spec"]):
            for k in list(t):
                new = {a: b for a, b in t.items() if a != k}
                yield dict(sc, spec=sc["spec"][:m] + [dict(new, const=new.get("const", 0))] + sc["spec"][m + 1:]) if k != "const" or t["const"] else dict(sc)
        for k, v in (("snr", 60), ("dtype", "complex128"), ("core", False), ("cut", 0), ("blocks", None), ("rat", 1), ("use_seq", False), ("repeat_data", True), ("repeat_pilots", True), ("N", {"pilots": 3, "rings": 40}.get(sc["kind"], 10)), ("M", 4), ("Mp", 4), ("L", 400), ("average", False), ("os", 1)):
            if k in sc and sc[k] != v and not (k == "M" and sc["kind"] == "rings"):
                yield dict(sc, **{k: v})
        if sc.get("nframes", 1) > 1:
            yield dict(sc, nframes=sc["nframes"] - 1, use=min(sc["use"], sc["nframes"] - 1))
        if sc.get("use", 1) > 1:
            yield dict(sc, use=sc["use"] - 1)


CHECK = C16
