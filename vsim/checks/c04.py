"""C04: quality estimates do not depend on thread count or schedule."""
import numpy as np

from vsim import omp


class C04(omp.OmpCheck):
    id = "C04"
    runs = {"quick": 2500, "thorough": 6000}
    rule = ("a run is one SNR, MI or GMI estimate (signal method or the underlying function) of a received signal from the seed, executed with one thread, with a "
            "team run one after another, and under 2-4 seeded schedules; results are compared to 1e-9 (double) or 2e-4 (single precision) relative; non-trivial if a parallel region was entered")
    real = ["qampy.signals est_snr, cal_mi, cal_gmi, qampy.theory.cal_gmi, qampy.core.pythran_dsp kernels (compiled from the current source with ThreadSanitizer instrumentation)"]
    stubs = ["OpenMP runtime and threads (ompsim: coroutines, one step per instrumented memory access)", "std::random_device (fixed seed)"]
    assumptions = ["sequentially consistent memory, preemption only at memory accesses and OpenMP calls", "instrumented build at -O1 instead of the shipped flags"]
    OPS = ["est_snr", "est_snr", "snr_kernel", "snr_kernel", "mi_fast", "mi_fast", "mi_slow", "gmi", "gmi_mc", "objmi"]
    required_probes = ["parallel region entered", "single precision", "fewer points than threads"] + ["op " + o for o in sorted(set(OPS))]

    def gen(self, rng, tier, index):
        op = rng.choice(self.OPS)
        M = rng.choice([4, 8, 16, 16, 32, 64])
        N = rng.choice([rng.randint(M, 2 * M + 10), rng.randint(64, 300)])
        if op in ("mi_slow", "gmi_mc"):
            M = rng.choice([4, 4, 8, 16])
            N = rng.randint(4, 24)
        if op == "objmi":
            M = rng.choice([4, 8, 16])
            N = rng.randint(20, 60)
        return {"op": op, "nmodes": rng.choice([1, 2, 3]), "N": N, "M": M, "dtype": rng.choice(["complex128", "complex128", "complex64"]) if op in ("est_snr", "snr_kernel", "gmi") else "complex128",
                "noise": rng.choice([0.05, 0.2, 0.5]), "fast": rng.random() < .5, "seed": rng.getrandbits(31), "schedules": self.schedules(rng)}

    def hits(self, sc, res, ref):
        res.stats["probe:op " + sc["op"]] += 1 if ref.kind == "ok" else 0
        if sc["dtype"] == "complex64":
            res.stats["probe:single precision"] += 1
        if sc["M"] < max([s["team"] for s in sc.get("schedules", [{"team": 0}])]):
            res.stats["probe:fewer points than threads"] += 1

    def describe(self, sc):
        return "%s, %d modes, %d symbols of %d-QAM, noise %g, %s" % (sc["op"], sc["nmodes"], sc["N"], sc["M"], sc["noise"], sc["dtype"])

    def thunk(self, sc):
        from qampy.core import pythran_dsp as dsp, signal_quality as q
        from qampy import signals
        rng = np.random.RandomState(sc["seed"] & 0x7fffffff)
        n, N = sc["nmodes"], sc["N"]
        dt = np.dtype(sc["dtype"])
        s = signals.SignalQAMGrayCoded(sc["M"], N, nmodes=n, fb=1e9, seed=sc["seed"] % 1000, dtype=dt)
        N = s.shape[1]
        a = np.array(s.coded_symbols).astype(dt)
        # every point of the alphabet occurs, otherwise the estimate is undefined
        E = np.array(s)
        noise = (sc["noise"] * (rng.randn(n, N) + 1j * rng.randn(n, N))).astype(dt)
        op = sc["op"]
        sig = s.recreate_from_np_array((E + noise).astype(dt))
        if op == "est_snr":
            return (lambda: sig.est_snr(synced=True, verbose=True)), ["snr", "signal power", "noise power"]
        if op == "gmi":
            return (lambda: sig.cal_gmi(synced=True, llr_minmax=sc["fast"])), ["gmi", "gmi per bit"]
        if op == "objmi":
            return (lambda: sig.cal_mi(synced=True, fast=sc["fast"])), ["mi"]
        if op == "snr_kernel":
            tx = a[np.arange(max(N, sc["M"])) % sc["M"]]
            rx = (tx + sc["noise"] * (rng.randn(tx.size) + 1j * rng.randn(tx.size))).astype(dt)
            return (lambda: dsp.estimate_snr(rx, tx, a)), ["snr", "signal power", "noise power"]
        if op in ("mi_fast", "mi_slow"):
            N0 = 2 * sc["noise"] ** 2
            return (lambda: q.cal_mi(np.array(sig[0]), E[0].copy(), a, N0, fast=op == "mi_fast")), ["mi"]
        bm = np.array(s._bitmap_mtx)
        return (lambda: dsp.cal_gmi_mc(a, 1 / sc["noise"], min(N, 12), bm)), ["gmi"]

    def shrink_params(self, sc):
        for k, v in (("nmodes", 1), ("M", 4), ("N", max(sc["M"], sc["N"] // 2)), ("dtype", "complex128")):
            if sc[k] != v and not (k in ("N", "nmodes", "M") and v > sc[k]):
                yield dict(sc, **{k: v})


CHECK = C04
