"""C01: equaliser training does not depend on thread count or thread schedule."""
import numpy as np

from vsim import omp

COMPLEX = ["cma", "cma2", "mcma", "rde", "mrde", "sgncma", "sbd", "mddma", "dd", "sbd_data"]
REAL = ["cma_real", "dd_real", "dd_data_real", "sgncma_real"]


def make_field(sc):
    """a distorted QAM field, its symbols and starting taps, from the scenario's seed"""
    from qampy.theory import cal_symbols_qam, cal_scaling_factor_qam
    rng = np.random.RandomState(sc["seed"] & 0x7fffffff)
    n, N, os, M = sc["nmodes"], sc["N"], sc["os"], sc["M"]
    alpha = (cal_symbols_qam(M) / np.sqrt(cal_scaling_factor_qam(M))).astype(np.complex128)
    syms = alpha[rng.randint(0, M, (n, N))]
    up = np.zeros((n, N * os), dtype=np.complex128)
    for k in range(os):
        up[:, k::os] = syms
    h = np.array([0.1 + .05j, 1., 0.15 - .1j])
    E = np.array([np.convolve(x, h, mode="same") for x in up])
    mix = np.eye(n) + 0.15 * (rng.randn(n, n) + 1j * rng.randn(n, n))
    E = mix.dot(E) + 0.05 * (rng.randn(*E.shape) + 1j * rng.randn(*E.shape))
    E /= np.sqrt(np.mean(abs(E) ** 2))
    dt = np.dtype(sc["dtype"])
    nn = 2 * n if sc["method"] in REAL else n
    w = None
    if sc["inittaps"]:
        w = 0.05 * (rng.randn(nn, nn, sc["Ntaps"]) + 1j * rng.randn(nn, nn, sc["Ntaps"]))
        w[np.arange(nn), np.arange(nn), sc["Ntaps"] // 2] += 1
        w = w.real.astype(np.zeros(1, dt).real.dtype) if sc["method"] in REAL else w.astype(dt)
    return E.astype(dt), syms.astype(dt), w


class C01(omp.OmpCheck):
    id = "C01"
    runs = {"quick": 1500, "thorough": 4000}
    rule = ("a run is one training call (API level, method, modes, precision, step size, initial taps drawn from the seed) executed with one "
            "thread, with a team run one after another while conflicting accesses are recorded, and under 2-4 seeded schedules (random, "
            "priority-change, directed at the conflicting accesses); non-trivial if a parallel region was entered")
    real = ["qampy.core.equalisation (wrappers and kernels compiled from the current source with ThreadSanitizer instrumentation)", "qampy.equalisation", "qampy.signals"]
    stubs = ["OpenMP runtime and threads (ompsim: coroutines, one step per instrumented memory access)"]
    assumptions = ["sequentially consistent memory, preemption only at memory accesses and OpenMP calls", "instrumented build at -O1 instead of the shipped flags"]
    required_probes = ["parallel region entered", "adaptive step", "modes subset", "real-valued", "single precision", "object API", "mode trained alone"]

    def gen(self, rng, tier, index):
        real = rng.random() < .3
        method = rng.choice(REAL if real else COMPLEX)
        nmodes = rng.choice([1, 2, 2, 2, 3, 4]) if not real else rng.choice([1, 2, 2, 3])
        api = rng.choice(["core", "core", "core", "dual", "obj", "objdual"])
        sc = {"op": api, "method": method, "nmodes": nmodes, "M": rng.choice([4, 16, 16, 64, 32]), "N": rng.randint(30, 110), "os": rng.choice([2, 2, 2, 1, 4]),
              "Ntaps": rng.choice([1, 3, 5, 7, 9]), "Niter": rng.choice([1, 1, 2, 3]), "mu": rng.choice([1e-4, 1e-3, 3e-3, 1e-2]),
              "adaptive": rng.random() < .5, "dtype": rng.choice(["complex128", "complex128", "complex64"]), "inittaps": rng.random() < .5,
              "modes": None, "TrSyms": rng.choice([None, None, rng.randint(8, 20)]), "seed": rng.getrandbits(31), "apply": rng.random() < .4,
              "schedules": self.schedules(rng)}
        if api in ("dual", "objdual"):
            sc["method2"] = rng.choice([m for m in (REAL if real else COMPLEX)])
        if rng.random() < .35 and nmodes > 1:
            k = rng.randint(1, nmodes)
            sc["modes"] = rng.sample(range(nmodes), k)
        if api.startswith("obj"):
            sc["inittaps"] = sc["inittaps"] and api == "obj"
            sc["os"] = 2
            if sc["M"] == 32:
                sc["M"] = 16
        return sc

    def hits(self, sc, res, ref):
        res.stats["api " + sc["op"]] += 1
        res.stats["method " + sc["method"]] += 1
        for name, cond in (("adaptive step", sc["adaptive"]), ("modes subset", sc["modes"] is not None), ("real-valued", sc["method"] in REAL),
                           ("single precision", sc["dtype"] == "complex64"), ("object API", sc["op"].startswith("obj"))):
            if cond:
                res.stats["probe:" + name] += 1

    def describe(self, sc):
        return "%s %s, %d modes (%s), %s, adaptive=%s" % (sc["op"], sc["method"], sc["nmodes"], sc["modes"], sc["dtype"], sc["adaptive"])

    def thunk(self, sc, modes="sc"):
        from qampy.core import equalisation as ceq
        from qampy import equalisation as oeq, signals
        E, syms, w = make_field(sc)
        modes = sc["modes"] if modes == "sc" else modes
        data = sc["method"] in ("sbd_data", "dd_data_real") or sc.get("method2") in ("sbd_data", "dd_data_real")
        kw = dict(Ntaps=None if w is not None else sc["Ntaps"], modes=None if modes is None else np.array(modes))
        if sc["op"] in ("core", "dual"):
            if sc["op"] == "core":
                return (lambda: ceq.equalise_signal(E, sc["os"], sc["mu"], sc["M"], wxy=w, TrSyms=sc["TrSyms"], Niter=sc["Niter"], method=sc["method"],
                                                    adaptive_stepsize=sc["adaptive"], symbols=syms if data else None, apply=sc["apply"], **kw)), \
                    (["signal", "taps", "errors"] if sc["apply"] else ["taps", "errors"])
            if data:
                ms = (sc["method"], sc["method2"])
                dsyms = np.array([syms, syms])
                # decision methods of a mixed pair get the alphabet of the transmitted symbols
                if not all(m in ("sbd_data", "dd_data_real") for m in ms):
                    ms = tuple(m if m in ("sbd_data", "dd_data_real", "cma", "mcma", "rde", "mrde", "cma2", "cma_real", "sgncma", "sgncma_real") else
                               ("dd_data_real" if m in REAL else "sbd_data") for m in ms)
                f = lambda: ceq.dual_mode_equalisation(E, sc["os"], (sc["mu"], sc["mu"] / 2), sc["M"], wxy=w, TrSyms=(sc["TrSyms"], sc["TrSyms"]), Niter=(sc["Niter"], 1),
                                                       methods=ms, adaptive_stepsize=(sc["adaptive"], sc["adaptive"]), symbols=dsyms, apply=sc["apply"], **kw)
            else:
                from qampy.theory import cal_symbols_qam, cal_scaling_factor_qam
                a = (cal_symbols_qam(sc["M"]) / np.sqrt(cal_scaling_factor_qam(sc["M"]))).astype(E.dtype)
                f = lambda: ceq.dual_mode_equalisation(E, sc["os"], (sc["mu"], sc["mu"] / 2), sc["M"], wxy=w, TrSyms=(sc["TrSyms"], sc["TrSyms"]), Niter=(sc["Niter"], 1),
                                                       methods=(sc["method"], sc["method2"]), adaptive_stepsize=(sc["adaptive"], sc["adaptive"]), symbols=a, apply=sc["apply"], **kw)
            return f, (["signal", "taps", "errors 1", "errors 2"] if sc["apply"] else ["taps", "errors 1", "errors 2"])
        s = signals.SignalQAMGrayCoded(sc["M"], sc["N"], nmodes=sc["nmodes"], fb=1e9, seed=sc["seed"] % 1000, dtype=np.dtype(sc["dtype"]))
        sig = s.recreate_from_np_array(np.array(E[:, :s.shape[1] * 2]).copy(), fs=2e9)
        if sc["op"] == "obj":
            return (lambda: oeq.equalise_signal(sig, sc["mu"], wxy=w, TrSyms=sc["TrSyms"], Niter=sc["Niter"], method=sc["method"],
                                                adaptive_stepsize=sc["adaptive"], apply=sc["apply"], **kw)), (["signal", "taps", "errors"] if sc["apply"] else ["taps", "errors"])
        ms = (sc["method"], sc["method2"])
        if data:
            ms = tuple(("dd_data_real" if m in REAL else "sbd_data") for m in ms)
        return (lambda: oeq.dual_mode_equalisation(sig, (sc["mu"], sc["mu"] / 2), sc["Ntaps"], TrSyms=(sc["TrSyms"], sc["TrSyms"]), Niter=(sc["Niter"], 1), methods=ms,
                                                   adaptive_stepsize=(sc["adaptive"], sc["adaptive"]), apply=sc["apply"], modes=kw["modes"])), \
            (["signal", "taps", "errors 1", "errors 2"] if sc["apply"] else ["taps", "errors 1", "errors 2"])

    def extra(self, sc, res, ref):
        """a mode trained alone gives the same taps and errors as among the others"""
        n = sc["nmodes"]
        joint = list(range(n)) if sc["modes"] is None else list(sc["modes"])
        if len(joint) < 2 or sc["adaptive"]:      # an adaptive step size is handed on from mode to mode
            return
        vals = ref.value[1:] if sc["apply"] else ref.value
        for m in joint:
            fn, names = self.thunk(sc, modes=[m])
            o = omp.call(fn, omp.SERIAL, 1)
            res.stats["probe:mode trained alone"] += 1
            if o.kind != "ok":
                res.fail("cross-mode", "%s: mode %d alone ends with %s %s" % (self.describe(sc), m, o.kind, o.value))
                break
            alone = o.value[1:] if sc["apply"] else o.value
            rows = [m, m + n] if sc["method"] in REAL else [m]
            pick = lambda v: [(c, x[rows]) for c, x in v]
            d = omp.differ(pick(vals), pick(alone), ["taps of mode", "errors of mode", "second errors of mode"])
            if d:
                res.fail("cross-mode", "%s: mode %d trained alone differs from training it together with %s: %s" % (self.describe(sc), m, joint, d))
                res.concrete = dict({k: v for k, v in sc.items() if k != "schedules"}, only="alone")
                break

    def shrink_params(self, sc):
        for k, v in (("N", max(20, sc["N"] // 2)), ("Niter", 1), ("Ntaps", 1), ("Ntaps", 3), ("nmodes", 2), ("op", "core"), ("inittaps", False),
                     ("dtype", "complex128"), ("modes", None), ("TrSyms", 8), ("os", 1), ("apply", False), ("M", 4)):
            if sc[k] != v and not (k == "nmodes" and sc["modes"]) and not (k in ("N", "nmodes", "Ntaps") and isinstance(v, int) and v > sc[k]):
                yield dict(sc, **{k: v})


CHECK = C01
