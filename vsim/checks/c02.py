"""C02: filter application and symbol decisions are thread-schedule independent."""
import numpy as np

from vsim import omp


class C02(omp.OmpCheck):
    id = "C02"
    runs = {"quick": 2000, "thorough": 8000}
    rule = ("a run is one filter application (complex or real taps, oversampling, modes subset) or symbol decision with inputs from the seed, executed with "
            "one thread, with a team run one after another, and under 2-4 seeded schedules; non-trivial if a parallel region was entered")
    real = ["qampy.core.equalisation.apply_filter, qampy.equalisation.apply_filter, make_decision (kernels compiled from the current source with ThreadSanitizer instrumentation)", "qampy.signals"]
    stubs = ["OpenMP runtime and threads (ompsim: coroutines, one step per instrumented memory access)"]
    assumptions = ["sequentially consistent memory, preemption only at memory accesses and OpenMP calls", "instrumented build at -O1 instead of the shipped flags"]
    required_probes = ["parallel region entered", "modes subset", "real taps", "single precision", "object API", "pilot frames", "fewer samples than threads", "decision", "ties", "samples that are not numbers"]

    def gen(self, rng, tier, index):
        op = rng.choice(["filter", "filter", "filter_real", "objfilter", "pilotfilter", "decide", "decide", "objdecide"])
        nmodes = rng.choice([1, 2, 2, 3, 4])
        sc = {"op": op, "nmodes": nmodes, "N": rng.choice([rng.randint(1, 8), rng.randint(8, 60), rng.randint(60, 400)]), "os": rng.choice([1, 2, 2, 3, 4]), "Ntaps": rng.choice([1, 2, 3, 5, 9]),
              "M": rng.choice([4, 8, 16, 32, 64]), "dtype": rng.choice(["complex128", "complex128", "complex64"]), "modes": None, "seed": rng.getrandbits(31), "schedules": self.schedules(rng)}
        sc["ties"] = "decide" in op and rng.random() < .4
        sc["bad"] = "decide" in op and rng.random() < .15
        if op in ("filter", "filter_real") and nmodes > 1 and rng.random() < .5:
            sc["modes"] = rng.sample(range(nmodes), rng.randint(1, nmodes))
        return sc

    def hits(self, sc, res, ref):
        res.stats["op " + sc["op"]] += 1
        team = max([s["team"] for s in sc.get("schedules", [{"team": 0}])])
        n = sc["N"] if sc["op"] in ("decide", "objdecide") else (sc["N"] * sc["os"] - sc["Ntaps"] + 1) // sc["os"] * sc["nmodes"]
        for name, cond in (("modes subset", sc["modes"] is not None), ("real taps", sc["op"] == "filter_real"), ("single precision", sc["dtype"] == "complex64"),
                           ("object API", sc["op"].startswith("obj")), ("pilot frames", sc["op"] == "pilotfilter" and ref.kind == "ok"),
                           ("fewer samples than threads", n < team), ("decision", "decide" in sc["op"]), ("ties", sc["ties"]), ("samples that are not numbers", sc["bad"])):
            if cond:
                res.stats["probe:" + name] += 1

    def describe(self, sc):
        return "%s, %d modes (%s), %d symbols, %d taps, oversampling %d, %s" % (sc["op"], sc["nmodes"], sc["modes"], sc["N"], sc["Ntaps"], sc["os"], sc["dtype"])

    def thunk(self, sc):
        from qampy.core import equalisation as ceq
        from qampy import equalisation as oeq, signals
        from qampy.core import signal_quality
        rng = np.random.RandomState(sc["seed"] & 0x7fffffff)
        n, N, os, T = sc["nmodes"], sc["N"], sc["os"], sc["Ntaps"]
        dt = np.dtype(sc["dtype"])
        c = lambda *sh: (rng.randn(*sh) + 1j * rng.randn(*sh)).astype(dt)
        op = sc["op"]
        if op in ("filter", "filter_real", "objfilter"):
            E = c(n, max(N * os, T))
            modes = None if sc["modes"] is None else np.array(sc["modes"])
            if op == "filter":
                w = c(n, n, T)
                return (lambda: ceq.apply_filter(E, os, w, modes=modes)), ["output"]
            if op == "filter_real":
                w = c(2 * n, 2 * n, T).real.copy()
                if modes is not None:
                    modes = np.hstack([modes, modes + n])
                return (lambda: ceq.apply_filter(E, os, w, modes=modes)), ["output"]
            s = signals.SignalQAMGrayCoded(4, 16, nmodes=n, fb=1e9, seed=1, dtype=dt)
            sig = s.recreate_from_np_array(E, fs=1e9 * os)
            w = c(n, n, T)
            return (lambda: oeq.apply_filter(sig, w)), ["output"]
        if op == "pilotfilter":
            s = signals.SignalWithPilots(sc["M"] if sc["M"] != 8 else 4, 48, 16, 8, nframes=3, nmodes=n, fb=1e9, seed=sc["seed"] % 1000, dtype=dt)
            sig = s.recreate_from_np_array(c(n, 48 * 2 * 4), fs=2e9)
            sig.synctaps = T
            sh = rng.randint(0, 20, n) if rng.rand() < .5 else np.repeat(rng.randint(0, 20), n)
            sig.shiftfctrs = np.asarray(sh, dtype=int)
            w = c(n, n, T)
            frames = [[0], [1], [0, 1], [0, 2], [1, 2]][rng.randint(5)]
            return (lambda: oeq.apply_filter(sig, w, frames=frames)), ["output"]
        if op == "decide":
            a = c(sc["M"])
            if rng.rand() < .2:
                a[-1] = a[0]            # ties are resolved the same way by every thread
            E = c(N)
            if sc["ties"]:
                from qampy import theory
                a = np.asarray(theory.cal_symbols_qam(sc["M"])).astype(dt)
                E = (rng.randint(-4, 5, N) + 1j * rng.randint(-4, 5, N)).astype(dt)
            self.nonfinite(sc, rng, E)
            return (lambda: signal_quality.make_decision(E, a)), ["symbols", "distances", "indices"]
        s = signals.SignalQAMGrayCoded(sc["M"], max(N, 1), nmodes=n, fb=1e9, seed=sc["seed"] % 1000, dtype=dt)
        sig = s + 0.2 * c(*s.shape)
        if sc["ties"]:
            al = np.array(s.coded_symbols)
            mid = (rng.choice(al, s.shape) + rng.choice(al, s.shape)) / 2
            mid[rng.rand(*mid.shape) < .3] = 0
            sig[:] = mid
        self.nonfinite(sc, rng, sig)
        return (lambda: sig.make_decision(verbose=True)), ["symbols", "distances", "indices"]

    def nonfinite(self, sc, rng, E):
        """samples no decision can be made on"""
        if sc["bad"]:
            m = rng.rand(*E.shape) < .2
            E[m] = rng.choice(np.array([np.nan, np.inf, -np.inf, complex(0, np.nan), complex(np.inf, -np.inf), 3e38], dtype=complex), np.count_nonzero(m))

    def shrink_params(self, sc):
        for k, v in (("N", max(1, sc["N"] // 2)), ("N", max(1, sc["N"] - 1)), ("Ntaps", 1), ("nmodes", 1), ("nmodes", 2), ("dtype", "complex128"), ("modes", None), ("ties", False), ("bad", False), ("os", 1), ("M", 4)):
            if sc[k] != v and not (k == "nmodes" and sc["modes"]) and not (k in ("N", "nmodes") and v > sc[k]):
                yield dict(sc, **{k: v})


CHECK = C02
