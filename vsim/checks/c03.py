"""C03: phase search and soft demapping are thread-schedule independent."""
import numpy as np

from vsim import omp


class C03(omp.OmpCheck):
    id = "C03"
    runs = {"quick": 1800, "thorough": 8000}
    rule = ("a run is one blind phase search (one or two stages, object or array level), angle selection or soft demapping (both methods, also inside cal_gmi) with "
            "inputs from the seed, executed with one thread, with a team run one after another, and under 2-4 seeded schedules; non-trivial if a parallel region was entered")
    real = ["qampy.core.phaserecovery, qampy.phaserec, qampy.core.pythran_dsp kernels (compiled from the current source with ThreadSanitizer instrumentation), qampy.signals.cal_gmi"]
    stubs = ["OpenMP runtime and threads (ompsim: coroutines, one step per instrumented memory access)"]
    assumptions = ["sequentially consistent memory, preemption only at memory accesses and OpenMP calls", "instrumented build at -O1 instead of the shipped flags"]
    OPS = ["bps", "bps", "bps_twostage", "bps_kernel", "objbps", "select_angles", "demap", "demap", "demap_minmax", "demap_minmax", "gmi"]
    required_probes = ["parallel region entered", "single precision", "one angle set per sample"] + ["op " + o for o in sorted(set(OPS))]

    def gen(self, rng, tier, index):
        op = rng.choice(self.OPS)
        sc = {"op": op, "nmodes": rng.choice([1, 1, 2]), "N": rng.choice([rng.randint(2, 8), rng.randint(10, 60), rng.randint(60, 150)]), "M": rng.choice([4, 16, 16, 32, 64]),
              "angles": rng.choice([1, 2, 4, 8, 16]), "block": rng.randint(1, 5), "dtype": rng.choice(["complex128", "complex128", "complex64"]),
              "per_sample": rng.random() < .5, "idx32": rng.random() < .5, "minmax": rng.random() < .5, "B": rng.choice([2, 4]),
              "snr": rng.choice([1., 10., 30.]), "seed": rng.getrandbits(31), "schedules": self.schedules(rng)}
        if "bps" in op:
            sc["N"] = max(sc["N"], 4 * sc["block"] + 2)
        return sc

    def hits(self, sc, res, ref):
        res.stats["probe:op " + sc["op"]] += 1 if ref.kind == "ok" else 0
        if sc["dtype"] == "complex64":
            res.stats["probe:single precision"] += 1
        if sc["op"] in ("select_angles", "bps_kernel") and sc["per_sample"] or sc["op"] == "bps_twostage":
            res.stats["probe:one angle set per sample"] += 1

    def describe(self, sc):
        return "%s, %d modes, %d symbols of %d-QAM, %d angles, %s" % (sc["op"], sc["nmodes"], sc["N"], sc["M"], sc["angles"], sc["dtype"])

    def thunk(self, sc):
        from qampy.core import phaserecovery as ph, pythran_dsp as dsp
        from qampy.core.signal_quality import generate_bitmapping_mtx
        from qampy import phaserec, signals
        rng = np.random.RandomState(sc["seed"] & 0x7fffffff)
        n, N = sc["nmodes"], sc["N"]
        dt = np.dtype(sc["dtype"])
        rdt = np.zeros(1, dt).real.dtype
        s = signals.SignalQAMGrayCoded(sc["M"], N, nmodes=n, fb=1e9, seed=sc["seed"] % 1000, dtype=dt)
        N = s.shape[1]
        phase = np.cumsum(rng.randn(n, N) * .02, axis=1) + rng.randn() * .2
        E = (np.asarray(s) * np.exp(1j * phase) + 0.05 * (rng.randn(n, N) + 1j * rng.randn(n, N))).astype(dt)
        a = np.array(s.coded_symbols).astype(dt)
        op = sc["op"]
        if op == "bps":
            x = E if n > 1 or rng.rand() < .5 else E[0]
            return (lambda: ph.bps(x, sc["angles"], a, sc["block"])), ["signal", "phase"]
        if op == "bps_twostage":
            return (lambda: ph.bps_twostage(E, sc["angles"], a, sc["block"], B=sc["B"])), ["signal", "phase"]
        if op == "objbps":
            sig = s.recreate_from_np_array(E)
            f = phaserec.bps_twostage if sc["per_sample"] else phaserec.bps
            return (lambda: f(sig, sc["angles"], sc["block"])), ["signal", "phase"]
        if op in ("bps_kernel", "select_angles"):
            rows = N if sc["per_sample"] else 1
            ang = (np.linspace(-np.pi / 4, np.pi / 4, sc["angles"], endpoint=False)[None, :] + .01 * rng.randn(rows, 1)).astype(rdt)
            if op == "bps_kernel":
                return (lambda: dsp.bps(E[0].copy(), ang, a, sc["block"])), ["indices"]
            idx = rng.randint(0, sc["angles"], N).astype(np.int32 if sc["idx32"] else np.int64)
            return (lambda: dsp.select_angles(ang, idx)), ["angles"]
        if op == "gmi":
            sig = s.recreate_from_np_array(E)
            return (lambda: sig.cal_gmi(synced=True, snr=10., llr_minmax=sc["minmax"])), ["gmi", "gmi per bit"]
        bm = np.array(s._bitmap_mtx).astype(dt)
        if op == "demap":
            return (lambda: dsp.soft_l_value_demapper(E[0].copy(), bm.shape[0], rdt.type(sc["snr"]), bm)), ["L values"]
        return (lambda: dsp.soft_l_value_demapper_minmax(E[0].copy(), bm.shape[0], rdt.type(sc["snr"]), bm)), ["L values"]

    def shrink_params(self, sc):
        lo = 4 * sc["block"] + 2 if "bps" in sc["op"] else 2
        for k, v in (("N", max(lo, sc["N"] // 2)), ("N", max(lo, sc["N"] - 1)), ("nmodes", 1), ("block", 1), ("angles", 1), ("angles", 2), ("dtype", "complex128"), ("M", 4)):
            if sc[k] != v and not (k in ("N", "nmodes", "angles") and v > sc[k]):
                yield dict(sc, **{k: v})


CHECK = C03
