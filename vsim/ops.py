"""Catalogue of the library's operations on signals, with what each one prescribes.

An operation in a history is [name, params] with JSON params that do not depend on the signal;
ok() decides at run time whether it is a legal call on the signal at hand.
"""
import numpy as np

OPS = {}


class Op:
    kind = "new"          # "new": returns a new signal (or a tuple starting with one); "value": returns a measurement; "inplace": changes the signal
    random = False        # uses the process-wide random state
    fs = "same"           # sampling rate afterwards: "same", "fb" or a function of (signal, params)
    meta = "same"         # "same", "payload" (signal of the payload), "pilots"
    length = None         # expected length as a function of (signal, params), where the operation fixes it
    cheap = True

    def __init__(self, name, gen, call, ok=None, **kw):
        self.name, self.gen, self.call = name, gen, call
        self.ok = ok or (lambda s, p: True)
        for k, v in kw.items():
            setattr(self, k, v)
        OPS[name] = self

    def expected_fs(self, s, p):
        return s.fs if self.fs == "same" else s.fb if self.fs == "fb" else self.fs(s, p)


def is_pilot(s):
    return hasattr(type(s), "sync2frame")


def is_hybrid(s):
    return hasattr(type(s), "symbols_M1")


def has_bits(s):
    from qampy import signals
    return isinstance(s, signals.SignalQAMGrayCoded) and not isinstance(s, signals.SymbolOnlySignal)


def has_symbols(s):
    from qampy import signals
    return isinstance(s, signals.SignalQAMGrayCoded)


FINITE = True        # decisions and phase recovery only of numbers (C20 looks at the other modes)


def cplx(s):
    return np.iscomplexobj(s) and s.ndim == 2


def frames_ok(s, n=None):
    """a pilot signal must keep at least one frame"""
    return not is_pilot(s) or (s.shape[-1] if n is None else n) // (s.os * s.frame_len) >= 1


def signal_of(v):
    return v[0] if isinstance(v, tuple) else v


def _f(rng, a, b):
    if a <= 0 <= b and rng.random() < .1:
        return 0.0
    return round(rng.uniform(a, b), 6)


def taps(sig, n, seed, real=False):
    r = np.random.RandomState(seed)
    m = sig.shape[0]
    if real:
        w = 0.1 * r.randn(2 * m, 2 * m, n)
        w[np.arange(2 * m), np.arange(2 * m), n // 2] += 1
        return w.astype(sig.real.dtype)
    w = 0.1 * (r.randn(m, m, n) + 1j * r.randn(m, m, n))
    w[np.arange(m), np.arange(m), n // 2] += 1
    return w.astype(sig.dtype)


def _none(rng):
    return {}


NEW, VALUE, INPLACE = "new", "value", "inplace"

# ---- slicing and arithmetic (numpy semantics)
Op("slice", lambda r: {"a": _f(r, 0, .3), "b": _f(r, .6, 1), "step": r.choice([1, 1, 1, 2])},
   lambda s, p: s[:, int(p["a"] * s.shape[1]):int(np.ceil(p["b"] * s.shape[1])):p["step"]],
   lambda s, p: s.ndim == 2 and s.shape[1] >= 8)
Op("modes", lambda r: {"i": r.randint(0, 3)}, lambda s, p: s[p["i"] % s.shape[0]:p["i"] % s.shape[0] + 1], lambda s, p: s.ndim == 2)
Op("fancy", lambda r: {"k": r.randint(2, 5)}, lambda s, p: s[:, np.arange(s.shape[1]) % p["k"] != 0], lambda s, p: s.ndim == 2 and s.shape[1] >= 8)
Op("reverse", _none, lambda s, p: s[:, ::-1], lambda s, p: s.ndim == 2)
Op("scale", lambda r: {"f": _f(r, .5, 2), "ph": _f(r, -3, 3)}, lambda s, p: s * complex(p["f"] * np.exp(1j * p["ph"])), lambda s, p: np.iscomplexobj(s))
Op("rscale", lambda r: {"f": _f(r, .5, 2)}, lambda s, p: s / p["f"])
Op("shiftadd", lambda r: {"c": _f(r, -.1, .1)}, lambda s, p: s + p["c"])
Op("rsub", _none, lambda s, p: 1. - s)
Op("neg", _none, lambda s, p: -s)
Op("conj", _none, lambda s, p: s.conj(), lambda s, p: np.iscomplexobj(s))
Op("roll", lambda r: {"n": r.randint(-40, 40)}, lambda s, p: np.roll(s, p["n"], axis=-1))
Op("copy", _none, lambda s, p: s.copy())
Op("selfadd", lambda r: {"f": _f(r, .1, 1)}, lambda s, p: s + p["f"] * s)
Op("add_array", lambda r: {"seed": r.randint(0, 9999)}, lambda s, p: s + np.random.RandomState(p["seed"]).randn(*s.shape))
Op("array_add", lambda r: {"seed": r.randint(0, 9999)}, lambda s, p: np.random.RandomState(p["seed"]).randn(*s.shape) + s)
Op("ufunc_exp", _none, lambda s, p: np.multiply(s, np.exp(1j * np.arange(s.shape[-1]))), lambda s, p: cplx(s))
Op("astype", lambda r: {"dt": r.choice(["complex64", "complex128"])}, lambda s, p: s.astype(p["dt"]), lambda s, p: cplx(s))
Op("reshape", _none, lambda s, p: s.reshape(s.shape), None)
Op("ascontig", _none, lambda s, p: s.T.T)
Op("recreate", _none, lambda s, p: s.recreate_from_np_array(np.array(s) * 0.5))
Op("recreate_fs", lambda r: {"k": r.choice([1, 2, 4])}, lambda s, p: s.recreate_from_np_array(np.array(s), fs=s.fb * p["k"]), lambda s, p: not is_pilot(s) or s.shape[-1] // (p["k"] * s.frame_len) > 0,
   fs=lambda s, p: s.fb * p["k"])

# ---- resampling
Op("resample", lambda r: {"os": r.choice([1, 2, 2, 3, 1.5]), "beta": r.choice([.1, .25, 1])}, lambda s, p: s.resample(p["os"] * s.fb, beta=p["beta"], taps=r_taps(s)),
   lambda s, p: cplx(s) and 16 <= s.shape[1] and s.shape[1] / (s.fs / s.fb) * p["os"] <= 2000 and (not is_pilot(s) or p["os"] >= 1),
   fs=lambda s, p: p["os"] * s.fb)
Op("resample_poly", lambda r: {"os": r.choice([1, 2, 4, 1.5]) if r.random() < .93 else r.choice([1.001, 1.0025])}, lambda s, p: s.resample(p["os"] * s.fb),
   lambda s, p: cplx(s) and 16 <= s.shape[1] and s.shape[1] / (s.fs / s.fb) * p["os"] <= 2000, fs=lambda s, p: p["os"] * s.fb,
   length=lambda s, p: int(np.ceil(s.shape[1] * (p["os"] * s.fb / s.fs) - 1e-9)))


def r_taps(s):
    return 401


# ---- impairments
def two(s, p=None):
    return cplx(s) and s.shape[0] == 2


def imp(f):
    def call(s, p):
        from qampy import impairments
        return f(impairments, s, p)
    return call


Op("apply_PMD", lambda r: {"th": _f(r, 0, 3), "d": _f(r, 0, 1)}, imp(lambda m, s, p: m.apply_PMD(s, p["th"], p["d"] / s.fs)), lambda s, p: two(s) and s.shape[1] >= 8)
Op("phase_noise", lambda r: {"lw": _f(r, 1e-6, 1e-4)}, imp(lambda m, s, p: m.apply_phase_noise(s, p["lw"] * s.fb)), lambda s, p: cplx(s), random=True)
Op("change_snr", lambda r: {"snr": _f(r, 5, 40)}, imp(lambda m, s, p: m.change_snr(s, p["snr"])), lambda s, p: cplx(s), random=True)
Op("add_awgn", lambda r: {"n": _f(r, 0, .3)}, imp(lambda m, s, p: m.add_awgn(s, p["n"])), lambda s, p: cplx(s), random=True)
Op("carrier_offset", lambda r: {"fo": _f(r, -.01, .01)}, imp(lambda m, s, p: m.add_carrier_offset(s, p["fo"] * s.fb)), lambda s, p: cplx(s))
Op("dispersion", lambda r: {"D": _f(r, 1e-6, 2e-5)}, imp(lambda m, s, p: m.add_dispersion(s, p["D"], 1000.)), lambda s, p: cplx(s) and s.shape[0] >= 1 and s.fs > 1e6)
Op("rotate_field", lambda r: {"th": _f(r, 0, 3)}, imp(lambda m, s, p: m.rotate_field(s, p["th"])), two)
Op("modal_delay", lambda r: {"d": [r.choice([0, r.randint(0, 30), -r.randint(1, 9)]) for _ in range(3)]}, imp(lambda m, s, p: m.add_modal_delay(s, p["d"][:s.shape[0]])), lambda s, p: s.ndim == 2 and s.shape[0] <= 3)
Op("simulate_transmission", lambda r: {"snr": r.choice([None, 20.]), "fo": r.choice([None, .001]), "lw": r.choice([None, 1e-5]), "dgd": r.choice([None, .2]), "md": r.choice([None, [3, 5, 0], [0, 2, 7]]), "roll": r.choice([False, True]), "disp": r.choice([None, None, 1e-3, 1e-2])},
   imp(lambda m, s, p: m.simulate_transmission(s, snr=p["snr"], freq_off=None if p["fo"] is None else p["fo"] * s.fb, lwdth=None if p["lw"] is None else p["lw"] * s.fb,
                                               dgd=None if p["dgd"] is None else p["dgd"] / s.fs, modal_delay=None if p["md"] is None else p["md"][:s.shape[0]], roll_frame_sync=p["roll"] and is_pilot(s), dispersion=p["disp"] if s.fs > 1e6 else None)),
   lambda s, p: cplx(s) and s.shape[0] <= 3 and s.shape[1] >= 8 and (p["dgd"] is None or s.shape[0] == 2), random=True)
Op("sim_tx_response", lambda r: {"enob": r.choice([0, 5]), "clip": r.choice([1, .8]), "q": r.choice([0, 4, 6])},
   imp(lambda m, s, p: m.sim_tx_response(s, enob=p["enob"], clip_rat=p["clip"], quant_bits=p["q"], dac_params={"cutoff": .4 * s.fs})), lambda s, p: cplx(s) and s.shape[1] >= 8 and (p["q"] == 0 or p["clip"] == 1) and np.any(np.asarray(s)), random=True)
Op("sim_DAC_response", lambda r: {"enob": r.choice([0, 5]), "clip": r.choice([1, .8]), "q": r.choice([0, 4, 6]), "f": r.choice([None, .3])},
   imp(lambda m, s, p: m.sim_DAC_response(s, enob=p["enob"], clip_rat=p["clip"], quant_bits=p["q"], **({} if p["f"] is None else {"cutoff": p["f"] * s.fs}))),
   lambda s, p: cplx(s) and s.shape[1] >= 8 and (p["q"] == 0 or p["clip"] == 1) and np.all(np.any(np.asarray(s), axis=-1)), random=True)
Op("tx_default", lambda r: {"q": r.choice([4, 6])}, imp(lambda m, s, p: m.sim_tx_response(s, enob=0, quant_bits=p["q"])), lambda s, p: cplx(s) and s.shape[1] >= 8 and s.fs > 40e9 and np.all(np.any(np.asarray(s), axis=-1)))
Op("channel", lambda r: {"fo": r.choice([None, .001]), "dgd": r.choice([None, .2]), "md": r.choice([None, [3, 5, 0], [0, 2, 7]]), "roll": r.choice([False, True]), "disp": r.choice([None, 1e-3])},
   imp(lambda m, s, p: m.simulate_transmission(s, freq_off=None if p["fo"] is None else p["fo"] * s.fb, dgd=None if p["dgd"] is None else p["dgd"] / s.fs, modal_delay=None if p["md"] is None else p["md"][:s.shape[0]],
                                               roll_frame_sync=p["roll"] and is_pilot(s), dispersion=p["disp"] if s.fs > 1e6 else None)),
   lambda s, p: cplx(s) and s.shape[0] <= 3 and s.shape[1] >= 8 and (p["dgd"] is None or s.shape[0] == 2))
Op("sim_mod_response", lambda r: {"b": _f(r, .5, 1.5)}, imp(lambda m, s, p: m.sim_mod_response(s * 0.2, dcbias=p["b"])), lambda s, p: cplx(s))


# ---- filters, front end, helpers
def mod(name, f):
    def call(s, p):
        import importlib
        return f(importlib.import_module("qampy." + name), s, p)
    return call


Op("filter_signal", lambda r: {"f": _f(r, .1, .45), "t": r.choice(["bessel", "butter", "gauss", "exp"]), "o": r.choice([1, 2, 3])},
   mod("filtering", lambda m, s, p: m.filter_signal(s, p["f"] * s.fs, ftype=p["t"], order=p["o"])), lambda s, p: cplx(s) and s.shape[1] >= 8)
Op("filter_analog", lambda r: {"f": _f(r, .1, .45), "t": r.choice(["bessel", "butter"])}, mod("filtering", lambda m, s, p: m.filter_signal_analog(s, p["f"] * s.fs, ftype=p["t"])),
   lambda s, p: cplx(s) and 8 <= s.shape[1] <= 400, cheap=False)
Op("pre_filter", lambda r: {"bw": _f(r, 6, 20)}, mod("filtering", lambda m, s, p: m.pre_filter(s, p["bw"])), lambda s, p: cplx(s) and s.shape[1] >= 12)
Op("rrcos", lambda r: {"b": r.choice([.1, .3, .7])}, mod("filtering", lambda m, s, p: m.rrcos_pulseshaping(s, p["b"])), lambda s, p: cplx(s) and s.shape[1] >= 1001)
Op("moving_average", lambda r: {"N": r.choice([2, 3, 5])}, mod("filtering", lambda m, s, p: m.moving_average(s, p["N"])), lambda s, p: cplx(s) and s.shape[1] >= 8, kind=VALUE)
Op("orthonormalize", _none, mod("analog_frontend", lambda m, s, p: m.orthonormalize_signal(s)), lambda s, p: cplx(s) and s.shape[1] >= 8)
Op("comp_IQ", _none, mod("analog_frontend", lambda m, s, p: m.comp_IQ_inbalance(s)), lambda s, p: cplx(s) and s.shape[1] >= 8)
Op("rf_delay", lambda r: {"d": _f(r, -2, 2)}, mod("analog_frontend", lambda m, s, p: m.comp_rf_delay(s.real, p["d"] / s.fs)), lambda s, p: cplx(s))
Op("normalise_and_center", _none, mod("helpers", lambda m, s, p: m.normalise_and_center(s)), lambda s, p: cplx(s) and s.shape[1] >= 2)
Op("normalise_pil", lambda r: {"k": r.randint(2, 6)}, mod("helpers", lambda m, s, p: m.normalise_and_center_pil(s, np.arange(s.shape[1]) % p["k"] == 0)), lambda s, p: cplx(s) and s.shape[1] >= 16)
Op("dump_edges", lambda r: {"n": r.randint(1, 5)}, mod("helpers", lambda m, s, p: m.dump_edges(s, p["n"])), lambda s, p: cplx(s) and s.shape[1] >= 20, length=lambda s, p: s.shape[1] - 2 * p["n"])
Op("set_mid_point", lambda r: {"c": _f(r, -1, 1)}, mod("helpers", lambda m, s, p: m.set_mid_point(s, p["c"])), lambda s, p: cplx(s))
Op("rescale", lambda r: {"sw": _f(r, .2, 2)}, mod("helpers", lambda m, s, p: m.rescale_signal(s, p["sw"])), lambda s, p: cplx(s) and np.all(np.any(np.asarray(s), axis=-1)))
Op("set_mid_and_rescale", lambda r: {"sw": _f(r, .2, 2)}, mod("helpers", lambda m, s, p: m.set_mid_and_resale(s, 0, p["sw"])), lambda s, p: cplx(s) and s.shape[1] > 2)


def core_quantize(s, p):
    from qampy.core import impairments
    return impairments.quantize_signal(s, nbits=p["n"], rescale=p["rs"], re_normalize=p["rn"])


Op("quantize", lambda r: {"n": r.choice([3, 5]), "rs": True, "rn": r.choice([True, False])}, core_quantize, lambda s, p: cplx(s) and s.shape[1] >= 8 and np.all(np.any(np.asarray(s), axis=-1)), kind=VALUE)


def core_quantize_new(s, p):
    from qampy.core import impairments
    return impairments.quantize_signal_New(s, nbits=p["n"])


Op("quantize_new", lambda r: {"n": r.choice([3, 5])}, core_quantize_new, lambda s, p: cplx(s) and s.shape[1] >= 8 and np.all(np.any(np.asarray(s), axis=-1)))


# ---- carrier recovery
def alphabet(s):
    return cplx(s) and (has_symbols(s) or is_pilot(s)) and plain_rows(s) and len(s.coded_symbols) <= 128


Op("bps", lambda r: {"M": r.choice([8, 16]), "N": r.randint(2, 5)}, mod("phaserec", lambda m, s, p: m.bps(s, p["M"], p["N"])), lambda s, p: alphabet(s) and s.shape[1] >= 24)
Op("bps_twostage", lambda r: {"M": r.choice([8, 16]), "N": r.randint(2, 5), "B": r.choice([2, 4])}, mod("phaserec", lambda m, s, p: m.bps_twostage(s, p["M"], p["N"], B=p["B"])), lambda s, p: alphabet(s) and s.shape[1] >= 24)
Op("viterbi", lambda r: {"N": r.choice([3, 5, 4])}, mod("phaserec", lambda m, s, p: m.viterbiviterbi(s, p["N"])), lambda s, p: alphabet(s) and s.shape[1] >= 24)
Op("partition16", lambda r: {"N": r.choice([5, 8])}, mod("phaserec", lambda m, s, p: m.phase_partition_16qam(s, p["N"])), lambda s, p: alphabet(s) and s.shape[1] >= 24 and s.M == 16)
Op("find_foe", lambda r: {"avg": r.choice([True, False])}, mod("phaserec", lambda m, s, p: m.find_freq_offset(s, average_over_modes=p["avg"], fft_size=256)), lambda s, p: cplx(s) and s.shape[1] >= 16, kind=VALUE)
Op("comp_foe", lambda r: {"f": [_f(r, -.01, .01) for _ in range(3)]}, mod("phaserec", lambda m, s, p: m.comp_freq_offset(s, np.array(p["f"])[:s.shape[0], None])), lambda s, p: cplx(s) and s.shape[0] <= 3)
Op("pilot_cpe", lambda r: {"N": r.choice([3, 5]), "seq": r.choice([False, True]), "nf": r.choice([1, 2])}, mod("phaserec", lambda m, s, p: m.pilot_cpe(s, N=p["N"], use_seq=p["seq"], nframes=min(p["nf"], s.nframes))),
   lambda s, p: cplx(s) and is_pilot(s) and s.os == 1 and s.nframes >= 1 and s.shape[0] == s.pilots.shape[0] and (s.frame_len - s._pilot_seq_len) // s._pilot_ins_rat >= p["N"] and s.pilots.shape[1] % np.count_nonzero(s._idx_pil) == 0)
Op("const_phase", lambda r: {"ph": [_f(r, -3, 3) for _ in range(3)]}, mod("phaserec", lambda m, s, p: m.correct_pilot_const_phase(s, np.array(p["ph"])[:s.shape[0], None])), lambda s, p: cplx(s) and s.shape[0] <= 3)
Op("find_const_phase", lambda r: {"ph": _f(r, -3, 3)}, mod("phaserec", lambda m, s, p: m.find_pilot_const_phase(np.array(s) * np.exp(1j * p["ph"]), np.array(s))), lambda s, p: cplx(s), kind=VALUE)

# ---- equalisation
BLIND = ["cma", "cma2", "mcma", "rde", "mrde", "sgncma", "sbd", "mddma", "dd"]


def eqcall(f):
    return mod("equalisation", f)


def eq_ok(s, p):
    n = p.get("Ntaps", p.get("n", 5))
    if not cplx(s) or s.shape[0] > 3 or s.os < 1 or s.os != s.fs / s.fb or is_hybrid(s):
        return False
    L = (s.shape[1] - n + 1) // s.os
    if L < 8 or L > 1200 or not alphabet(s):
        return False
    return not is_pilot(s) or L // s.frame_len >= 1


def _m(s, method):
    return method


Op("equalise", lambda r: {"mu": _f(r, 1e-5, 1e-3), "Ntaps": r.choice([3, 5, 7]), "method": r.choice(BLIND), "ad": r.choice([False, True]), "it": r.choice([1, 2])},
   eqcall(lambda m, s, p: m.equalise_signal(s, p["mu"], Ntaps=p["Ntaps"], method=p["method"], adaptive_stepsize=p["ad"], Niter=p["it"], apply=True)), lambda s, p: eq_ok(s, p) and method_ok(s, p["method"]), fs="fb")
Op("train", lambda r: {"mu": _f(r, 1e-5, 1e-3), "Ntaps": r.choice([3, 5, 7]), "method": r.choice(BLIND + ["cma_real"]), "seed": r.randint(0, 999)},
   eqcall(lambda m, s, p: m.equalise_signal(s, p["mu"], wxy=taps(s, p["Ntaps"], p["seed"], p["method"].endswith("_real")), method=p["method"], TrSyms=None)),
   lambda s, p: eq_ok(s, p) and method_ok(s, p["method"]), kind=VALUE)
Op("dual_mode", lambda r: {"mu": _f(r, 1e-5, 1e-3), "Ntaps": r.choice([3, 5]), "it": r.choice([1, 2])},
   eqcall(lambda m, s, p: m.dual_mode_equalisation(s, (p["mu"], p["mu"]), p["Ntaps"], Niter=(p["it"], 1), methods=("mcma", "sbd"))), lambda s, p: eq_ok(s, p) and method_ok(s, "mcma"), fs="fb")
Op("apply_filter", lambda r: {"n": r.choice([1, 3, 5]), "seed": r.randint(0, 999), "how": r.choice(["pyt", "py"])},
   eqcall(lambda m, s, p: m.apply_filter(s, taps(s, p["n"], p["seed"]), method=p["how"], frames=None)), lambda s, p: eq_ok(s, p) and (p["how"] == "pyt" or p["n"] >= s.os), fs="fb")


def method_ok(s, method):
    M = getattr(s, "M", 0)
    if not isinstance(M, (int, np.integer)) or not (has_bits(s) or is_pilot(s)):
        return False
    q = s if has_bits(s) else s.symbols
    from qampy import signals
    if isinstance(q, signals.SignalPSKGrayCoded):
        return method in ("cma", "cma_real", "sbd", "dd") and M == 4
    if method in ("rde", "mrde", "cma2"):
        return M in (4, 16, 64)
    return M in (4, 16, 64, 32, 128)


# ---- pilots
def at_symbol_rate(s):
    return cplx(s) and is_pilot(s) and s.os == 1 and s.fs == s.fb


def repeats(s):
    """the references were generated for all frames in the signal"""
    nd = np.count_nonzero(s._idx_dat)
    return s.symbols.shape[1] >= nd * s.nframes and s.shape[0] == s.symbols.shape[0]


def _frames(s, p):
    return None if p.get("f") is None else [p["f"] % s.nframes]


Op("get_data", lambda r: {"f": r.choice([None, None, 0, 1])}, lambda s, p: s.get_data(_frames(s, p)), lambda s, p: at_symbol_rate(s) and s.nframes >= 1 and s.shape[1] % s.frame_len == 0, meta="payload",
   length=lambda s, p: np.count_nonzero(s._idx_dat) * (s.nframes if p["f"] is None else 1))
Op("extract_pilots", lambda r: {"f": r.choice([None, None, 0, 1])}, lambda s, p: s.extract_pilots(_frames(s, p)), lambda s, p: at_symbol_rate(s) and s.nframes >= 1 and s.shape[1] % s.frame_len == 0, meta="pilots",
   length=lambda s, p: np.count_nonzero(s._idx_pil) * (s.nframes if p["f"] is None else 1))


def sync_state(s, p):
    """what a synchronisation leaves behind, without searching for the frame"""
    n = s.os * s.frame_len
    s.shiftfctrs = np.array([(p["o"] + (i if p["diff"] else 0) * 2) % n for i in range(s.shape[0])])
    s.synctaps = p["n"]
    s._foe = np.full((s.shape[0], 1), p["foe"])
    return None


def long_enough(s, p, frames=1):
    n = s.os * s.frame_len
    return cplx(s) and is_pilot(s) and s.shape[1] > n * (frames + 1) + 60


Op("set_sync", lambda r: {"o": r.randint(0, 20), "n": r.choice([5, 7, 9]), "diff": r.random() < .3, "foe": _f(r, -1e-3, 1e-3)}, sync_state, lambda s, p: is_pilot(s) and cplx(s), kind=INPLACE)


def eqp_ok(s, p):
    return is_pilot(s) and cplx(s) and s.shiftfctrs is not None and s.os == s.fs / s.fb and s.os in (1, 2) and (p["Ntaps"] - s.synctaps) % 2 == 0 and len(s.shiftfctrs) == s.shape[0] and \
        s.pilots.shape[0] == s.shape[0] and \
        s.shape[1] > s.os * s.frame_len * 2 + max(s.shiftfctrs) + 40 and s.nframes >= 2 and s.os * s._pilot_seq_len + p["Ntaps"] < s.os * s.frame_len and \
        min(s.shiftfctrs) - (p["Ntaps"] - s.synctaps) // 2 >= 0 and s._pilot_seq_len >= 8


Op("pilot_equaliser", lambda r: {"Ntaps": r.choice([5, 7, 9, 11]), "mu": _f(r, 1e-4, 1e-3), "foe": r.choice([True, False])},
   eqcall(lambda m, s, p: m.pilot_equaliser(s, p["mu"], p["Ntaps"], foe_comp=p["foe"], Niter=3)[::-1]), eqp_ok, fs="fb")
Op("pilot_equaliser_n", lambda r: {"Ntaps": r.choice([5, 7, 9]), "mu": _f(r, 1e-4, 1e-3)},
   eqcall(lambda m, s, p: (lambda o: (o[1], o[0], o[2]))(m.pilot_equaliser_nframes(s, p["mu"], p["Ntaps"], frames=[0], Niter=3))), eqp_ok, fs="fb")
Op("corr_foe", lambda r: {"a": _f(r, -1e-3, 1e-3)}, lambda s, p: s.corr_foe(p["a"]), lambda s, p: is_pilot(s) and cplx(s) and np.ndim(s.__dict__.get("_foe")) == 2 and s._foe.shape[0] == s.shape[0], kind=INPLACE)


# ---- measurements
def plain_rows(s):
    """what the compiled kernels accept: contiguous rows in the precision of the alphabet"""
    return cplx(s) and s.shape[1] > 0 and s.strides[-1] == s.itemsize and s.dtype == s.coded_symbols.dtype and (not FINITE or bool(np.all(np.isfinite(s))))


def measurable(s, p=None):
    return has_symbols(s) and plain_rows(s) and s.os == 1 and s.shape[0] <= s.symbols.shape[0] and s.symbols.shape[1] >= 2 and s.shape[1] >= 4


def measurable_bits(s, p=None):
    return measurable(s) and has_bits(s)


def pilot_measurable(s, p=None):
    return is_pilot(s) and plain_rows(s) and at_symbol_rate(s) and s.nframes >= 1 and s.shape[1] % s.frame_len == 0 and s.shape[0] <= s.symbols.shape[0]


def _sy(r):
    return {"sy": r.choice([True, False])}


def _adj(s, p):
    # an unsynchronised measurement needs as many modes as the reference has
    # and something to correlate with
    return p["sy"] or (s.shape[0] == s.symbols.shape[0] and bool(np.all(np.ptp(np.abs(s) + np.real(s) - np.imag(s), axis=-1) > 1e-6)))


Op("cal_ser", _sy, lambda s, p: s.cal_ser(synced=p["sy"]), lambda s, p: (measurable(s) or pilot_measurable(s)) and _adj(s, p), kind=VALUE)
Op("cal_ber", _sy, lambda s, p: s.cal_ber(synced=p["sy"]), lambda s, p: (measurable_bits(s) or pilot_measurable(s)) and _adj(s, p), kind=VALUE)
Op("cal_evm", lambda r: {"sy": r.choice([True, False]), "bl": r.choice([True, False])}, lambda s, p: s.cal_evm(synced=p["sy"], blind=p["bl"]), lambda s, p: (measurable(s) or pilot_measurable(s)) and _adj(s, p), kind=VALUE)
Op("est_snr", _sy, lambda s, p: s.est_snr(synced=p["sy"]), lambda s, p: (measurable_bits(s) or pilot_measurable(s)) and _adj(s, p) and len(s.coded_symbols) <= 64, kind=VALUE)
Op("cal_gmi", _sy, lambda s, p: s.cal_gmi(synced=p["sy"], snr=10.), lambda s, p: (measurable_bits(s) or pilot_measurable(s)) and _adj(s, p) and len(s.coded_symbols) <= 64, kind=VALUE)
Op("cal_mi", _sy, lambda s, p: s.cal_mi(synced=p["sy"], snr=10.), lambda s, p: s.dtype == np.complex128 and measurable_bits(s) and _adj(s, p) and len(s.coded_symbols) <= 64, kind=VALUE)
Op("make_decision", _none, lambda s, p: s.make_decision(), lambda s, p: has_symbols(s) and plain_rows(s), kind=VALUE)
Op("demodulate", _none, lambda s, p: s.demodulate(s), lambda s, p: has_bits(s) and plain_rows(s), kind=VALUE)
Op("modulate", _none, lambda s, p: s.modulate(np.array(s.bits)), lambda s, p: cplx(s) and has_bits(s), kind=VALUE)

# ---- operations that change the signal
Op("norm_inplace", _none, lambda s, p: s.normalize_and_center(), lambda s, p: cplx(s) and s.shape[1] >= 4, kind=INPLACE)
Op("norm_symbols", _sy, lambda s, p: s.normalize_and_center(symbol_based=True, synced=p["sy"]), lambda s, p: measurable_bits(s) and _adj(s, p) and len(s.coded_symbols) <= 64, kind=INPLACE)
Op("iscale", lambda r: {"f": _f(r, .5, 2)}, lambda s, p: s.__imul__(p["f"]), None, kind=INPLACE)
Op("iadd", lambda r: {"c": _f(r, -.1, .1)}, lambda s, p: s.__iadd__(p["c"]), None, kind=INPLACE)
Op("setitem", lambda r: {"a": _f(r, 0, .9)}, lambda s, p: s.__setitem__((slice(None), slice(int(p["a"] * s.shape[1]), None)), 0.5), lambda s, p: s.ndim == 2, kind=INPLACE)

INPLACE_NAMES = [n for n, o in OPS.items() if o.kind == INPLACE]
NEW_NAMES = [n for n, o in OPS.items() if o.kind == NEW]
VALUE_NAMES = [n for n, o in OPS.items() if o.kind == VALUE]


def gen(rng, names=None):
    n = rng.choice(names or list(OPS))
    return [n, OPS[n].gen(rng), rng.getrandbits(24)]


def call(op, s):
    """(value, exception); the process-wide random state is seeded per operation, so that it does not matter what ran before"""
    o = OPS[op[0]]
    if o.random:
        np.random.seed(op[2])
    return o.call(s, op[1])


NUMPY = {"slice", "modes", "fancy", "reverse", "scale", "rscale", "shiftadd", "rsub", "neg", "conj", "roll", "copy", "selfadd", "add_array", "array_add", "ufunc_exp", "astype", "reshape", "ascontig",
         "norm_inplace", "iscale", "iadd", "setitem", "set_sync"}


def applicable(op, s):
    return (op[0] in NUMPY or frames_ok(s)) and bool(OPS[op[0]].ok(s, op[1]))


# ---- typical receiver chains (random histories rarely meet the preconditions of their later stages)
def _op(rng, name, **fixed):
    return [name, dict(OPS[name].gen(rng), **fixed), rng.getrandbits(24)]


CHANNEL = ["phase_noise", "change_snr", "carrier_offset", "apply_PMD", "rotate_field", "add_awgn", "scale", "simulate_transmission", "channel", "tx_default", "filter_signal", "sim_DAC_response", "quantize_new", "roll", "modal_delay"]
MEASURE = ["cal_ser", "cal_ber", "cal_evm", "est_snr", "cal_gmi", "cal_mi", "make_decision", "demodulate"]


def chain(rng, sigs):
    """(signal specification, operations) of a whole transmission"""
    kind = rng.choice(["pilots", "pilots", "pilots_fresh", "pilots_from", "qam", "qam", "qam_prbs", "bert", "psk", "fromsym", "shaped"])
    sp = sigs.spec(rng, [kind if kind != "shaped" else "qam"], maxn=120)
    sp.update(M=rng.choice([4, 16, 64]), nmodes=rng.choice([1, 2, 2]))
    some = [_op(rng, rng.choice(CHANNEL)) for _ in range(rng.randint(0, 3))]
    if kind.startswith("pilots"):
        sp.update(nframes=rng.choice([3, 4]))
        os = rng.choice([1, 2])
        seq = ([_op(rng, "resample_poly", os=2)] if os == 2 else []) + some
        seq.append(_op(rng, "set_sync", o=rng.randint(2, 20)))
        if rng.random() < .3:
            seq.append(_op(rng, "corr_foe"))
        seq.append(_op(rng, rng.choice(["pilot_equaliser", "pilot_equaliser", "pilot_equaliser_n"])))
        if rng.random() < .6:
            seq.append(_op(rng, "pilot_cpe", N=3))
        seq += [_op(rng, rng.choice(MEASURE[:5])) for _ in range(rng.randint(0, 2))]
        seq.append(_op(rng, rng.choice(["get_data", "extract_pilots"])))
    elif kind == "shaped":
        sp.update(N=1100, M=4)
        seq = [_op(rng, "rrcos")] + some[:1]
    else:
        sp.update(N=rng.randint(60, 160))
        os = rng.choice([1, 2, 2])
        seq = ([_op(rng, "resample_poly", os=2)] if os == 2 else []) + some
        seq.append(_op(rng, rng.choice(["equalise", "dual_mode", "apply_filter", "train"])))
        seq += [_op(rng, rng.choice(["find_foe", "comp_foe", "bps", "bps_twostage", "viterbi", "comp_IQ", "orthonormalize"])) for _ in range(rng.randint(0, 3))]
    seq += [_op(rng, rng.choice(MEASURE)) for _ in range(rng.randint(1, 3))]
    for _ in range(rng.choice([0, 0, 1, 2])):
        seq.insert(rng.randint(0, len(seq)), gen(rng))
    return sp, seq
