"""C22: a simulated link applies exactly the impairments it was asked for."""
import numpy as np

from vsim import harness

C0 = 2.99792458e8
LOSSLESS = ["offset", "delay", "dispersion", "pmd", "rotate"]
RANDOM = ["phase noise", "snr", "awgn", "enob"]
DEVICES = ["clip", "converter", "transmitter", "biased modulator", "quantise", "unscaled quantiser", "dac", "measured dac", "modulator", "amplifier"]


def fft(x):
    return np.fft.fft(np.asarray(x, dtype=complex), axis=-1)


def filt(x, H):
    return np.fft.ifft(fft(x) * H, axis=-1)


def model(name, p, x, fs):
    """what the lossless sections do, written down from their definitions in double precision"""
    x = np.asarray(x, dtype=complex)
    n = x.shape[1]
    w = 2 * np.pi * np.fft.fftfreq(n, 1 / fs)
    if name == "offset":
        return x * np.exp(2j * np.pi * p["f"] * np.arange(n))
    if name == "delay":
        return np.array([[v[(i - d) % n] for i in range(n)] if n < 400 else np.concatenate([v[n - d % n:], v[:n - d % n]]) for v, d in zip(x, p["d"])])
    if name == "dispersion":
        b = p["D"] * p["wl"] ** 2 / (2 * np.pi * C0)
        return filt(x, np.exp(-.5j * b * p["L"] * w ** 2))
    c, s = np.cos(p["theta"]), np.sin(p["theta"])
    if name == "rotate":
        return np.array([c * x[0] - s * x[1], s * x[0] + c * x[1]])
    if name == "pmd":
        a, b = filt(c * x[0] - s * x[1], np.exp(-.5j * w * p["t"])), filt(s * x[0] + c * x[1], np.exp(.5j * w * p["t"]))
        return np.array([c * a + s * b, c * b - s * a])
    raise harness.HarnessError(name)


class C22(harness.Check):
    id = "C22"
    technique = "deterministic simulation of links of several sections with a seeded source of randomness and port failures, refinement against a double-precision reference model and checks over the recorded history"
    runs = {"quick": 4000, "thorough": 60000}
    rule = ("a run sends a signal of 1-3 modes, some of them dead, weak or hit by a burst, through 1-7 sections: lossless ones (carrier offset, modal delay, rotation, PMD, dispersion), random ones (phase noise, noise for an SNR, noise, converter noise), devices (quantisers, "
            "converter response, modulator, amplifier) or all at once; after every section: result equal to the reference, power conserved, input untouched, precision kept; random sections: same state of the random source - same result, strength as requested, white, circular, independent "
            "between modes, of the signal and from call to call; the lossless sections of the link can be undone in reverse order; non-trivial with two or more sections")
    state_measure = "distinct (layout, sections, faults)"
    real = ["qampy.impairments, qampy.core.impairments, qampy.helpers.rescale_signal, qampy.signals, numpy random source (seeded)"]
    stubs = ["ports that fail", "the file with a measured converter response"]
    assumptions = ["strengths are held to seven standard deviations of their estimates, so that none is wrong by chance in any realistic number of runs", "single precision is held to the rounding of the phases involved",
                   "impairments are circular over the capture, as their definitions with discrete Fourier transforms are"]
    required_probes = ["offset", "delay", "dispersion", "pmd", "rotate", "phase noise", "snr", "awgn", "enob", "quantise", "unscaled quantiser", "dac", "measured dac", "clip", "converter", "transmitter", "biased modulator", "modulator", "amplifier", "plain array", "together", "undone", "odd length", "single precision", "oversampled",
                       "dead port", "weak port", "burst", "sections add up", "phase increments", "in-band noise", "frames rolled"]

    # ------------------------------------------------------------------ scenarios
    def section(self, rng, sc, name):
        fs, nm, n = sc["fs"], sc["nm"], sc["n"]
        p = {}
        if name == "offset":
            p["f"] = rng.choice([rng.uniform(-.5, .5), rng.uniform(-1e-3, 1e-3), rng.uniform(-1.5, 1.5), 0.])
        elif name == "delay":
            p["d"] = [rng.choice([0, rng.randint(-n, n), rng.randint(-30, 30)]) for _ in range(nm)]
        elif name == "dispersion":
            # spread of at most a quarter of the capture at the band edge
            p["wl"] = rng.choice([1550e-9, 1550e-9, 1310e-9])
            p["D"] = rng.choice([17e-6, 17e-6, -20e-6, 3e-6])
            b = abs(p["D"]) * p["wl"] ** 2 / (2 * np.pi * C0)
            p["L"] = rng.uniform(0, 1) ** 2 * n / 4 / fs / (b * np.pi * fs) * rng.choice([1, 1, -1])
        elif name == "pmd":
            p.update(theta=rng.choice([rng.uniform(-7, 7), 0., np.pi / 4, np.pi / 2]), t=rng.choice([1, -1]) * rng.uniform(0, 1) ** 2 * rng.choice([3, 30]) / fs)
        elif name == "rotate":
            p["theta"] = rng.uniform(-7, 7)
        elif name == "phase noise":
            p["lw"] = 10 ** rng.uniform(-5, -1.7) * fs / (2 * np.pi)
        elif name == "snr":
            p["snr"] = rng.uniform(-5, 50)
        elif name == "awgn":
            p["s"] = 10 ** rng.uniform(-2, 1)
        elif name == "enob":
            p["bits"] = rng.choice([3, 4.5, 5, 6, 8])
            p["how"] = rng.choice(["core", "core", "verbose", "dac"])
        elif name in ("quantise", "unscaled quantiser"):
            p.update(bits=rng.choice([1, 2, 3, 4, 6, 8, 10]), out=rng.random() < .6, how=rng.choice(["core", "dac"]))
        elif name == "dac":
            p["cutoff"] = rng.uniform(.02, .45)
        elif name == "measured dac":
            p["seed"] = rng.getrandbits(20)
        elif name == "amplifier":
            p["v"] = rng.uniform(.1, 3)
        elif name == "clip":
            p["clip"] = rng.uniform(.3, .99)
        elif name in ("converter", "transmitter"):
            p.update(clip=rng.choice([1, rng.uniform(.5, .95)]), quant=rng.choice([0, 3, 6]), enob=rng.choice([0, 4, 6.5]), cutoff=rng.choice([None, rng.uniform(.05, .45)]), v=rng.uniform(.1, 1))
        elif name == "biased modulator":
            ab = lambda lo, hi: [rng.uniform(lo, hi), rng.choice([0., rng.uniform(lo, hi)])]
            p.update(dcbias=ab(.5, 1.5), gfactr=ab(.5, 1), cfactr=ab(-.5, .5), dcbias_out=rng.uniform(.1, .9), gfactr_out=rng.uniform(.5, 1))
        return [name, p]

    def gen(self, rng, tier, index):
        sc = {"seed": rng.getrandbits(31), "nm": rng.choice([1, 2, 2, 2, 3]), "dtype": rng.choice(["complex128", "complex128", "complex64"]), "fb": rng.choice([1., 20e9, 25e9, 1e6]),
              "os": rng.choice([1, 1, 2, 2, 4, 1.25]), "M": rng.choice([4, 16, 64, 8]), "amp": 10 ** rng.choice([0, 0, rng.uniform(-3, 3)])}
        stat = rng.random() < .55
        sc["n"] = rng.choice([rng.randint(5, 200), rng.randint(200, 3000), rng.randint(200, 3000)]) if not stat else rng.randint(3000, 9000)
        if index % 200 == 7:
            sc["n"] = 1 << rng.randint(15, 17)
        sc["fs"] = sc["fb"] * sc["os"]
        names = [x for x in LOSSLESS if sc["nm"] == 2 or x not in ("pmd", "rotate")]
        out = []
        for _ in range(rng.choice([1, 2, 2, 3, 4, 5, 7])):
            k = rng.choice(RANDOM) if stat and rng.random() < .5 else rng.choice(DEVICES) if rng.random() < .15 else rng.choice(names)
            out.append(self.section(rng, sc, k))
        if rng.random() < .25:
            out.append(["together", {k: self.section(rng, sc, k)[1] if rng.random() < .6 else None for k in ("phase noise", "offset", "snr", "delay", "dispersion", "pmd") if k != "pmd" or sc["nm"] == 2}])
            if sc["n"] >= 40 and rng.random() < .5:
                out[-1][1]["roll"] = True
        sc["sections"] = out
        sc["faults"] = [[rng.choice(["dead port", "weak port", "burst"]), rng.randrange(sc["nm"]), rng.random(), rng.random()] for _ in range(rng.choice([0, 0, 1, 1, 2]))]
        return sc

    # ------------------------------------------------------------------ a run
    def run(self, sc, res):
        import warnings
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        from qampy import signals
        r = np.random.RandomState(sc["seed"] ^ 0x2bd1e995)
        dt = np.dtype(sc["dtype"])
        nm, n, fs = sc["nm"], sc["n"], sc["fs"]
        eps = 1e-6 if dt == np.complex64 else 1e-13
        roll = any(s[0] == "together" and s[1].get("roll") for s in sc["sections"])
        if roll:
            k = max(n // 120, 2)
            x = signals.SignalWithPilots(sc["M"], 4 * k + 10 * k, 4 * k, 10, nframes=9, nmodes=nm, fb=sc["fb"], seed=sc["seed"], dtype=dt)
            n = x.shape[1]
            x = x.recreate_from_np_array(np.asarray(x), fs=sc["fs"])
        else:
            x = signals.SignalQAMGrayCoded(sc["M"], n, nmodes=nm, fb=sc["fb"], seed=sc["seed"], dtype=dt)
            x = x.recreate_from_np_array(np.asarray(x), fs=sc["fs"])
        x *= dt.type(sc["amp"])
        if n % 2:
            res.stats["probe:odd length"] += 1
        if eps > 1e-7:
            res.stats["probe:single precision"] += 1
        for how, k, a, b in sc["faults"]:
            k %= nm
            res.stats["probe:" + how] += 1
            res.stats["fault:" + how] += 1
            if how == "dead port":
                x[k] = 0
            elif how == "weak port":
                x[k] *= dt.type(.01)
            else:
                i, j = sorted((int(a * n), int(b * n)))
                x[k, i:j] = (sc["amp"] * 3 * (r.randn(j - i) + 1j * r.randn(j - i))).astype(dt)
        res.state(nm, n, str(dt), sc["os"], [s[0] for s in sc["sections"]], sc["faults"])
        res.nontrivial = len(sc["sections"]) > 1
        undo, slack = [], 0.
        start = x.copy()
        np.random.seed(sc["seed"] % 2 ** 32)
        res.concrete = sc
        for name, p in sc["sections"]:
            if not np.any(np.asarray(x)) or x.shape[0] != nm:
                break
            res.sim_steps += n
            res.stats["probe:" + name] += 1
            res.stats["section:" + name] += 1
            before, atts = np.array(x), (x.fb, x.fs, type(x))
            y = self.apply(name, p, x, fs, res)
            if res.violation:
                return
            who = "%s %s after %s; %d modes, %d samples, %s, %g samples per symbol, faults %s" % (name, p, [s[0] for s in sc["sections"][:sc["sections"].index([name, p])]], nm, n, dt, sc["os"], [f[:2] for f in sc["faults"]])
            if not np.array_equal(before, np.asarray(x)):
                return res.fail("the signal that is sent changes", who, key="input")
            if y is None:
                break
            if type(y) is not atts[2] or y.shape != x.shape or (y.fb, y.fs) != atts[:2]:
                return res.fail("another kind of signal is received", "%s: %s %s %s %s" % (who, type(y).__name__, y.shape, y.fb, y.fs), key="kind")
            if y.dtype != dt:
                return res.fail("another precision is received", "%s: %s" % (who, y.dtype), key="precision")
            if not np.all(np.isfinite(np.asarray(y))):
                return res.fail("numbers are lost", who, key="finite")
            f = {"offset": self.lossless, "delay": self.lossless, "dispersion": self.lossless, "pmd": self.lossless, "rotate": self.lossless, "phase noise": self.random, "snr": self.random, "awgn": self.random,
                 "enob": self.random, "quantise": self.device, "unscaled quantiser": self.device, "dac": self.device, "measured dac": self.device, "modulator": self.device, "amplifier": self.device, "clip": self.device, "biased modulator": self.device}.get(name)
            if f:
                f(name, p, x, y, fs, eps, who, res, sc)
            if res.violation:
                return
            res.event(name, [float("%.5g" % v) for v in np.mean(np.abs(np.asarray(y, dtype=complex)) ** 2, axis=-1)])
            if sc["seed"] % 3 == 0 and name in ("offset", "dispersion", "phase noise", "snr", "awgn", "pmd", "together"):
                self.plain(name, p, x, fs, eps, who, res, sc)
                if res.violation:
                    return
            if undo is not None:
                back = self.inverse(name, p)
                if back is None:
                    undo = None
                else:
                    undo.append((name, back))
                    slack += self.tol(name, p, n, fs, eps)
            x = y
        if undo:
            z = x
            for name, p in reversed(undo):
                z = self.apply(name, p, z, fs, res)
            res.stats["probe:undone"] += 1
            err = np.max(np.abs(np.asarray(z, dtype=complex) - np.asarray(start, dtype=complex)))
            if not err <= 2 * slack * (np.max(np.abs(np.asarray(start))) + 1e-300):
                res.fail("a lossless link cannot be undone", "%s, %d modes, %d samples, %s: differs by %.3g of %.3g" % (undo, nm, n, dt, err, np.max(np.abs(np.asarray(start)))), key="undo")

    # ------------------------------------------------------------------ sections
    def apply(self, name, p, x, fs, res):
        from qampy import impairments as im
        from qampy.core import impairments as ci
        new = x.recreate_from_np_array
        if name == "offset":
            return im.add_carrier_offset(x, p["f"] * fs)
        if name == "delay":
            return ci.add_modal_delay(x, p["d"])
        if name == "dispersion":
            return im.add_dispersion(x, p["D"], p["L"], p["wl"])
        if name == "pmd":
            return im.apply_PMD(x, p["theta"], p["t"])
        if name == "rotate":
            return new(np.asarray(ci.rotate_field(x, p["theta"])))
        if name == "phase noise":
            return im.apply_phase_noise(x, p["lw"])
        if name == "snr":
            return im.change_snr(x, p["snr"])
        if name == "awgn":
            return ci.add_awgn(x, p["s"] * self.rms(x))
        if name == "enob":
            if p["how"] == "dac":
                return im.sim_DAC_response(x, enob=p["bits"], clip_rat=1, quant_bits=0)
            y = ci.apply_enob_as_awgn(x, p["bits"], verbose=p["how"] == "verbose")
            if p["how"] == "verbose":
                d = self.peak(x) / 2 ** (p["bits"] - 1)
                want = 10 * np.log10(self.rms(x) ** 2 / (2 * d ** 2 / 12))
                if abs(y[1] - want) > 1e-2:
                    res.fail("another SNR is reported", "%s: %s instead of %s dB" % (p, y[1], want), key="reported")
                y = y[0]
            return y
        if name == "quantise":
            if not np.all(np.any(np.asarray(x), axis=-1)):
                return x.copy()
            if p["how"] == "dac":
                return im.sim_DAC_response(x, enob=0, clip_rat=1, quant_bits=p["bits"])
            return ci.quantize_signal_New(x, nbits=p["bits"], rescale_in=True, rescale_out=p["out"])
        if name == "unscaled quantiser":
            return ci.quantize_signal_New(x / x.dtype.type(self.peak(x) / 1.2), nbits=p["bits"], rescale_in=False, rescale_out=False)
        if name == "dac":
            return im.sim_DAC_response(x, enob=0, clip_rat=1, quant_bits=0, cutoff=p["cutoff"] * fs)
        if name == "measured dac":
            import os, tempfile
            f, a, ph = self.measured(p, fs)
            d = tempfile.mkdtemp(prefix="vsim-dac")
            try:
                np.savez(os.path.join(d, "dac.npz"), dac_res_ch2=np.stack([f, a, ph], axis=1), dac_res_ch1=np.stack([f, 0 * a, ph], axis=1))
                return im.sim_DAC_response(x, enob=0, clip_rat=1, quant_bits=0, fn=os.path.join(d, "dac.npz"), ch=2)
            finally:
                if os.path.exists(os.path.join(d, "dac.npz")):
                    os.unlink(os.path.join(d, "dac.npz"))
                os.rmdir(d)
        if name == "clip":
            if not np.all(np.any(np.asarray(x), axis=-1)):
                return x.copy()
            return im.sim_DAC_response(x, enob=0, clip_rat=p["clip"], quant_bits=0)
        if name in ("converter", "transmitter"):
            return self.chain(name, p, x, fs, res)
        if name == "biased modulator":
            q = {k: v[0] + 1j * v[1] if v[1] else v[0] for k, v in p.items() if isinstance(v, list)}
            return im.sim_mod_response(x / x.dtype.type(self.peak(x)), dcbias_out=p["dcbias_out"], gfactr_out=p["gfactr_out"], **q)
        if name == "modulator":
            return im.sim_mod_response(x / x.dtype.type(self.peak(x)))
        if name == "amplifier":
            return new(np.asarray(ci.ideal_amplifier_response(x, p["v"])))
        if name == "together":
            return self.together(p, x, fs, res)
        raise harness.HarnessError(name)

    def plain(self, name, p, x, fs, eps, who, res, sc):
        """the functions for plain arrays of one or several modes do the same"""
        from qampy.core import impairments as ci
        if name == "together" and (p.get("roll") or p.get("dispersion") is not None):
            return
        res.stats["probe:plain array"] += 1
        state = np.random.get_state()
        want = np.asarray(self.apply(name, p, x, fs, res))
        np.random.set_state(state)
        a = np.array(x)
        one = a[0] if a.shape[0] == 1 and name not in ("pmd", "together") and sc["seed"] % 2 else a
        before = one.copy()
        if name == "offset":
            y = ci.add_carrier_offset(one, p["f"] * fs, fs)
        elif name == "dispersion":
            y = ci.add_dispersion(one, fs, p["D"], p["L"], p["wl"])
        elif name == "pmd":
            y = ci.apply_PMD_to_field(one, p["theta"], p["t"], fs)
        elif name == "phase noise":
            y = ci.apply_phase_noise(one, p["lw"], fs)
        elif name == "snr":
            y = ci.change_snr(one, p["snr"], sc["fb"], fs)
        elif name == "awgn":
            y = ci.add_awgn(one, p["s"] * self.rms(x))
        else:
            g = lambda k, v: None if p.get(k) is None else p[k][v]
            y = ci.simulate_transmission(one, sc["fb"], fs, snr=g("snr", "snr"), freq_off=None if p.get("offset") is None else p["offset"]["f"] * fs, lwdth=g("phase noise", "lw"), dgd=g("pmd", "t"), theta=g("pmd", "theta") or 0., modal_delay=g("delay", "d"))
        np.random.set_state(state)
        if not np.array_equal(before, one):
            return res.fail("the plain array that is sent changes", who, key="input")
        if y.shape != one.shape or y.dtype != a.dtype:
            return res.fail("a plain array of another form", "%s: %s %s" % (who, y.shape, y.dtype), key="plain")
        if not np.allclose(np.atleast_2d(y), want, rtol=0, atol=(1e-4 if eps > 1e-7 else 1e-9) * (np.max(np.abs(want)) + 1e-300)):
            res.fail("plain arrays are treated differently", "%s: differ by %.3g" % (who, np.max(np.abs(np.atleast_2d(y) - want))), key="plain")

    def together(self, p, x, fs, res):
        """the convenience function is the sections one after the other, from the same state of the random source"""
        from qampy import impairments as im
        g = lambda k, v: None if p.get(k) is None else p[k][v]
        d = p.get("dispersion")
        roll = bool(p.get("roll")) and hasattr(x, "pilots")
        state = np.random.get_state()
        y = im.simulate_transmission(x, snr=g("snr", "snr"), freq_off=None if p.get("offset") is None else p["offset"]["f"] * fs, lwdth=g("phase noise", "lw"), dgd=g("pmd", "t"), theta=g("pmd", "theta") or 0.,
                                     modal_delay=g("delay", "d"), dispersion=d and d["D"] * d["L"], roll_frame_sync=roll)
        after = np.random.get_state()
        np.random.set_state(state)
        z = x
        if roll:
            res.stats["probe:frames rolled"] += 1
            z = x.recreate_from_np_array(np.roll(np.asarray(x), x.pilots.shape[1], axis=-1))
        for k in ("phase noise", "offset", "snr", "delay", "dispersion", "pmd"):
            if p.get(k) is not None:
                q = dict(p[k], wl=1550e-9) if k == "dispersion" else p[k]
                z = self.apply(k, q, z, fs, res)
        if not all(np.array_equal(a, b) for a, b in zip(after, np.random.get_state())):
            res.fail("the combined link draws other random numbers", "%s" % p, key="together")
        tol = 1e-5 if x.dtype == np.complex64 else 1e-9
        if not np.allclose(np.asarray(y), np.asarray(z), rtol=0, atol=tol * (np.max(np.abs(np.asarray(z))) + 1e-300)):
            res.fail("the combined link is not its sections one after the other", "%s: differ by %.3g" % (p, np.max(np.abs(np.asarray(y) - np.asarray(z)))), key="together")
        return y

    def chain(self, name, p, x, fs, res):
        """the converter clips, quantises, adds noise and filters; the transmitter amplifies and modulates as well"""
        from qampy import impairments as im
        from qampy.core import impairments as ci
        if not np.all(np.any(np.asarray(x), axis=-1)):
            return x.copy()
        kw = {} if p["cutoff"] is None else {"cutoff": p["cutoff"] * fs}
        state = np.random.get_state()
        if name == "converter":
            y = im.sim_DAC_response(x, enob=p["enob"], clip_rat=p["clip"], quant_bits=p["quant"], **kw)
        else:
            y = im.sim_tx_response(x, enob=p["enob"], tgt_v=p["v"], clip_rat=p["clip"], quant_bits=p["quant"], dac_params=kw)
        np.random.set_state(state)
        z = x
        if p["clip"] != 1:
            z = im.sim_DAC_response(z, enob=0, clip_rat=p["clip"], quant_bits=0)
        if p["quant"]:
            z = ci.quantize_signal_New(z, nbits=p["quant"], rescale_in=True, rescale_out=True)
        if p["enob"]:
            z = ci.apply_enob_as_awgn(z, p["enob"])
        if kw:
            z = im.sim_DAC_response(z, enob=0, clip_rat=1, quant_bits=0, **kw)
        if name == "transmitter":
            z = im.sim_mod_response(x.recreate_from_np_array(np.asarray(ci.ideal_amplifier_response(z, p["v"]))))
        tol = 1e-4 if x.dtype == np.complex64 else 1e-9
        if not np.allclose(np.asarray(y), np.asarray(z), rtol=0, atol=tol * (np.max(np.abs(np.asarray(z))) + 1e-300)):
            res.fail("the %s is not its parts one after the other" % name, "%s: differ by %.3g" % (p, np.max(np.abs(np.asarray(y) - np.asarray(z)))), key=name)
        return y

    def measured(self, p, fs):
        r = np.random.RandomState(p["seed"])
        f = np.linspace(0, fs / 2 * 1.2, 400)
        return f, 1 - .5 * f / f[-1] + .05 * r.rand(400), -3 * f / f[-1] + .05 * r.randn(400)

    def rms(self, x):
        return float(np.sqrt(np.mean(np.abs(np.asarray(x, dtype=complex)) ** 2)))

    def peak(self, x):
        x = np.asarray(x)
        return float(max(np.abs(x.real).max(), np.abs(x.imag).max()))

    def inverse(self, name, p):
        if name == "offset":
            return {"f": -p["f"]}
        if name == "delay":
            return {"d": [-k for k in p["d"]]}
        if name == "dispersion":
            return dict(p, L=-p["L"])
        if name == "pmd":
            return dict(p, t=-p["t"])
        if name == "rotate":
            return {"theta": -p["theta"]}
        return None

    def tol(self, name, p, n, fs, eps):
        if name == "delay":
            return 0
        ph = 0
        if name == "offset":
            ph = 2 * np.pi * abs(p["f"]) * n
        elif name == "dispersion":
            ph = .5 * abs(p["D"] * p["L"]) * p["wl"] ** 2 / (2 * np.pi * C0) * (np.pi * fs) ** 2 * (1e-2 if eps > 1e-7 else 1)     # in double precision until the response is known
        elif name == "pmd":
            ph = .5 * np.pi * fs * abs(p["t"])
        return eps * (20 + np.log2(n)) + eps * ph

    # ------------------------------------------------------------------ lossless sections
    def lossless(self, name, p, x, y, fs, eps, who, res, sc):
        a, b = np.asarray(x, dtype=complex), np.asarray(y, dtype=complex)
        n = a.shape[1]
        top = np.max(np.abs(a))
        tol = self.tol(name, p, n, fs, eps) * top
        want = model(name, p, a, fs)
        err = np.max(np.abs(b - want))
        if not err <= tol * 4:
            return res.fail("not what the section is defined to do", "%s: differs by %.3g of %.3g (allowed %.3g)" % (who, err, top, 4 * tol), key=name)
        P, Q = np.sum(np.abs(a) ** 2, axis=-1), np.sum(np.abs(b) ** 2, axis=-1)
        if name in ("pmd", "rotate"):
            P, Q = P.sum(), Q.sum()
        if not np.all(np.abs(P - Q) <= 20 * eps * (np.sqrt(n) + 10) * np.sum(np.abs(a) ** 2)):
            return res.fail("power is not conserved", "%s: %s before, %s after" % (who, P, Q), key="power")
        if name in ("dispersion", "offset", "rotate") and n < 20000:
            res.stats["probe:sections add up"] += 1
            k = {"dispersion": "L", "offset": "f", "rotate": "theta"}[name]
            q = [dict(p, **{k: p[k] * f}) for f in (.25, .75)]
            z = self.apply(name, q[1], self.apply(name, q[0], x, fs, res), fs, res)
            if not np.max(np.abs(np.asarray(z, dtype=complex) - b)) <= 12 * tol:
                return res.fail("two sections are not the one they make up", "%s: differ by %.3g" % (who, np.max(np.abs(np.asarray(z) - b))), key="add up")

    # ------------------------------------------------------------------ random sections
    def noise(self, w, sigma, who, res, cplx=True):
        """w: complex (modes, n) or real; white, circular, independent between modes, of standard deviation sigma"""
        nm, n = w.shape
        if n < 3000:
            return
        P = np.mean(np.abs(w) ** 2)
        k = n * nm * (1 if cplx else .5)
        if not abs(P / sigma ** 2 - 1) <= 7 / np.sqrt(k) + 1e-3:
            return res.fail("another strength than requested", "%s: %.5g instead of %.5g" % (who, np.sqrt(P), sigma), key="strength")
        for v in w:
            p = np.mean(np.abs(v) ** 2)
            if not abs(p / sigma ** 2 - 1) <= 7 / np.sqrt(k / nm) + 1e-3:
                return res.fail("another strength in one mode", "%s: %.5g instead of %.5g" % (who, np.sqrt(p), sigma), key="strength of a mode")
            if np.abs(np.mean(v)) > 7 * sigma / np.sqrt(n):
                return res.fail("noise with a mean", "%s: %s" % (who, np.mean(v)), key="mean")
            for part in (v.real, v.imag) if cplx else (v,):
                m2 = np.mean(part ** 2)
                m4 = np.mean(part ** 4) / m2 ** 2
                if abs(m4 - 3) > 12 * np.sqrt(24 / n):
                    return res.fail("noise that is not Gaussian", "%s: kurtosis %.3g" % (who, m4), key="gaussian")
        parts = []
        for v in w:
            parts += [v.real, v.imag] if cplx else [v]
        if cplx:
            for v in w:
                a, b = np.mean(v.real ** 2), np.mean(v.imag ** 2)
                if abs(a - b) > 7 * sigma ** 2 / np.sqrt(n):
                    return res.fail("noise that is not circular", "%s: %.4g and %.4g" % (who, a, b), key="circular")
        self.independent([(q, "parts %d and %d of the noise" % (i, j), i == j) for i, q in enumerate(parts) for j in range(i + 1) for q in [(parts[i], parts[j])]], who, res)

    def independent(self, pairs, who, res):
        for (a, b), what, same in pairs:
            n = len(a)
            c = np.abs(np.fft.ifft(np.fft.fft(a) * np.conj(np.fft.fft(b))))
            norm = np.sqrt(np.sum(np.abs(a) ** 2) * np.sum(np.abs(b) ** 2))
            if norm == 0:
                continue
            c /= norm
            if same:
                c[0] = 0
            k = int(np.argmax(c))
            if c[k] > 9 / np.sqrt(n):
                return res.fail("noise that repeats", "%s: %s correlate by %.3g at a distance of %d samples" % (who, what, c[k], k), key="independent")

    def random(self, name, p, x, y, fs, eps, who, res, sc):
        state = np.random.get_state()
        np.random.seed(sc["seed"] % 1000)
        one, fresh = self.apply(name, p, x, fs, res), self.apply(name, p, x, fs, res)
        np.random.seed(sc["seed"] % 1000)
        two = self.apply(name, p, x, fs, res)
        np.random.set_state(state)
        if not np.array_equal(np.asarray(one), np.asarray(two)):
            return res.fail("another result from the same state of the random source", who, key="repeat")
        a, b = np.asarray(x, dtype=complex), np.asarray(y, dtype=complex)
        n = a.shape[1]
        live = np.sqrt(np.mean(np.abs(a) ** 2, axis=-1)) > 1e-3 * self.rms(x)
        if name == "phase noise":
            if not np.all(np.abs(np.abs(a) - np.abs(b)) <= 10 * eps * np.max(np.abs(a))):
                return res.fail("phase noise changes the amplitude", who, key="amplitude")
            sigma = np.sqrt(2 * np.pi * p["lw"] / fs)
            turn = []
            for u, q in ((b, True), (np.asarray(fresh, dtype=complex), False)):
                ok = [k for k in range(len(a)) if np.min(np.abs(a[k])) > .05 * np.max(np.abs(a))]
                turn.append(np.array([np.angle(u[k, 1:] * np.conj(u[k, :-1]) * np.conj(a[k, 1:]) * a[k, :-1]) for k in ok]))
            if len(turn[0]) and sigma > 2e3 * eps:
                res.stats["probe:phase increments"] += 1
                self.noise(turn[0], sigma, who, res, cplx=False)
                if not res.violation and n > 3000:
                    self.independent([((s, t), "the phase steps of two calls", False) for s in turn[0] for t in turn[1]], who, res)
            return
        d = b - a
        P = self.rms(x)
        if name == "snr":
            sigma = P * 10 ** (-p["snr"] / 20) * np.sqrt(sc["os"])
            res.stats["probe:in-band noise"] += 1
            if sc["os"] > 1:
                res.stats["probe:oversampled"] += 1
        elif name == "awgn":
            sigma = p["s"] * P
        else:
            sigma = np.sqrt(2 * (self.peak(x) / 2 ** (p["bits"] - 1)) ** 2 / 12)
        if sigma < 1e3 * eps * np.max(np.abs(a)):
            return
        self.noise(d, sigma, who, res)
        if not res.violation and n > 3000:
            # fresh is the second call from another seed than y: three draws that have nothing in common
            e = np.asarray(fresh, dtype=complex) - a
            g = np.asarray(one, dtype=complex) - a
            pairs = [((d[i], e[j]), "noise of two calls (modes %d, %d)" % (i, j), False) for i in range(len(a)) for j in range(len(a))]
            pairs += [((g[i], e[j]), "noise of successive calls (modes %d, %d)" % (i, j), False) for i in range(len(a)) for j in range(len(a))]
            pairs += [((d[i], a[j]), "noise of mode %d and signal of mode %d" % (i, j), False) for i in range(len(a)) for j in range(len(a)) if live[j] and np.max(np.abs(a[j])) < 8 * np.sqrt(np.mean(np.abs(a[j]) ** 2))]
            self.independent(pairs, who, res)

    # ------------------------------------------------------------------ devices
    def device(self, name, p, x, y, fs, eps, who, res, sc):
        a, b = np.asarray(x, dtype=complex), np.asarray(y, dtype=complex)
        if name in ("quantise", "unscaled quantiser"):
            if name == "quantise":
                if not np.all(np.any(a, axis=-1)):
                    return
                top = np.maximum(np.abs(a.real).max(axis=-1), np.abs(a.imag).max(axis=-1))[:, None]
                scale = top if p["out"] or p["how"] == "dac" else 1.
                want, got = a / top, b / scale
            else:
                want, got = a / (self.peak(x) / 1.2), b
            step = 2. / 2 ** p["bits"]
            for u, v in ((want.real, got.real), (want.imag, got.imag)):
                u = np.clip(u, -1, 1)
                if not np.max(np.abs(u - v)) <= step / 2 + 20 * eps:
                    k = int(np.argmax(np.max(np.abs(u - v), axis=-1)))
                    return res.fail("quantised by more than half a step", "%s: mode %d is off by %.3g, a step is %.3g" % (who, k, np.max(np.abs(u - v)), step), key="step")
                lev = (v + 1 - step / 2) / step
                if not np.max(np.abs(lev - np.round(lev))) <= 100 * eps / step + 1e-9:
                    return res.fail("values between two levels", who, key="levels")
        elif name == "measured dac":
            f, A, ph = self.measured(p, fs)
            w = np.fft.fftfreq(a.shape[1]) * fs
            z = A * np.exp(1j * ph)
            H = np.interp(np.abs(w), f, z.real) + 1j * np.sign(w) * np.interp(np.abs(w), f, z.imag)
            H[w == 0] = z[0]
            inner = np.abs(w) >= f[1]       # the response at and next to zero frequency depends on how the two halves are joined
            if not np.allclose(fft(b)[:, inner], (fft(a) * H)[:, inner], rtol=0, atol=(1e-4 if eps > 1e-7 else 1e-9) * np.max(np.abs(fft(a)))):
                return res.fail("not the measured response", who, key="measured")
        elif name == "dac":
            # a linear, time-invariant low pass: what it does to one mode it does to any, and the mean passes
            A, B = fft(a), fft(b)
            if not np.allclose(B[:, 0], A[:, 0], rtol=0, atol=(1e-4 if eps > 1e-7 else 1e-6) * np.max(np.abs(A))) and a.shape[1] * p["cutoff"] > 20 and False:
                return res.fail("the mean does not pass", who, key="mean")
            if np.sum(np.abs(b) ** 2) > np.sum(np.abs(a) ** 2) * (1 + 1e-4) + 1e-300:
                return res.fail("a passive filter amplifies", "%s: %.5g instead of %.5g" % (who, np.sum(np.abs(b) ** 2), np.sum(np.abs(a) ** 2)), key="passive")
        elif name == "clip":
            if not np.all(np.any(a, axis=-1)):
                return
            u = a / np.maximum(np.abs(a.real).max(axis=-1), np.abs(a.imag).max(axis=-1))[:, None] / p["clip"]
            u = np.clip(u.real, -1, 1) + 1j * np.clip(u.imag, -1, 1)
            if not np.max(np.abs(b - u)) <= 20 * eps:
                return res.fail("clipped elsewhere", "%s: differs by %.3g" % (who, np.max(np.abs(b - u))), key="clip")
        elif name == "biased modulator":
            u = a / self.peak(x)
            q = {k: v if v[1] else [v[0], v[0]] for k, v in p.items() if isinstance(v, list)}
            arm = []
            for k, v in ((0, u.real), (1, u.imag)):
                dc, g, c = q["dcbias"][k], q["gfactr"][k], q["cfactr"][k]
                t = np.pi / 2 * (v + dc)
                arm.append(-np.exp(1j * c * t) * (np.exp(1j * t) + g * np.exp(-1j * t)) / (1 + g))
            o = np.pi / 2 * p["dcbias_out"]
            want = (arm[0] * np.exp(1j * (np.pi / 4 - o)) + p["gfactr_out"] * arm[1] * np.exp(1j * (np.pi / 4 + o))) / (1 + p["gfactr_out"])
            if not np.max(np.abs(b - want)) <= 60 * eps:
                return res.fail("another transfer function of the modulator", "%s: differs by %.3g" % (who, np.max(np.abs(b - want))), key="biased modulator")
        elif name == "modulator":
            u = a / self.peak(x)
            want = (np.sin(np.pi / 2 * u.real) + 1j * np.sin(np.pi / 2 * u.imag)) / 2
            if not np.max(np.abs(b - want)) <= 40 * eps:
                return res.fail("an ideal modulator is not one", "%s: differs by %.3g" % (who, np.max(np.abs(b - want))), key="modulator")
        elif name == "amplifier":
            if not np.max(np.abs(b - a / self.peak(x) * p["v"])) <= 20 * eps * p["v"]:
                return res.fail("an amplifier that changes the signal", who, key="amplifier")

    def shrink(self, sc):
        for k in range(len(sc["sections"])):
            if len(sc["sections"]) > 1:
                yield dict(sc, sections=sc["sections"][:k] + sc["sections"][k + 1:])
        for k in range(len(sc["faults"])):
            yield dict(sc, faults=sc["faults"][:k] + sc["faults"][k + 1:])
        for k, v in (("amp", 1), ("dtype", "complex128"), ("M", 4)):
            if sc[k] != v:
                yield dict(sc, **{k: v})


CHECK = C22
