"""Small signals of every class, from JSON specifications."""
import numpy as np

KINDS = ("qam", "qam_prbs", "psk", "bert", "symonly", "resampled", "tdhqam", "pilots", "pilots_fresh", "fromsym", "frombits", "symonly_from", "pilots_from", "tdhqam_from")
QAM = (4, 16, 32, 64, 8, 128)


def spec(rng, kinds=KINDS, maxn=96, big=False):
    k = rng.choice(list(kinds))
    return {"kind": k, "M": rng.choice(QAM[:4] if rng.random() < .8 else QAM), "N": rng.randint(4, maxn), "nmodes": rng.choice([1, 2, 2, 2, 3]),
            "dtype": rng.choice(["complex128", "complex128", "complex64"]), "fb": rng.choice([1, 1e9, 25e9, 32.5e9]), "os": rng.choice([1, 2, 2, 3, 1.5, 2.5]),
            "seed": rng.randint(0, 1 << 20), "nframes": rng.choice([1, 2, 3])}


def make(s):
    from qampy import signals
    M, N, n, fb, seed = s["M"], s["N"], s["nmodes"], s["fb"], s["seed"]
    dt = np.dtype(s["dtype"]).type
    k = s["kind"]
    kw = dict(nmodes=n, fb=fb, dtype=dt)
    if k == "qam":
        return signals.SignalQAMGrayCoded(M, N, seed=seed, **kw)
    if k == "qam_prbs":
        return signals.SignalQAMGrayCoded(M, N, bitclass=signals.PRBSBits, seed=[seed % 97 + 1 + i for i in range(n)], order=[(7, 15, 23)[(seed + i) % 3] for i in range(n)], **kw)
    if k == "psk":
        return signals.SignalPSKGrayCoded((4, 8, 16)[seed % 3], N, seed=seed, **kw)
    if k == "bert":
        return signals.QPSKfromBERT(N, nmodes=min(n, 2), fb=fb, prbsorders=((15, 23), (23, 15)), prbsshifts=(seed % 5, seed % 7), prbsinvert=(bool(seed & 1), bool(seed & 2)), dtype=dt)
    if k == "symonly":
        np.random.seed(seed)
        a = np.exp(2j * np.pi * np.arange(5) / 5).astype(dt)
        return signals.SymbolOnlySignal(5, N, a, nmodes=n, fb=fb)
    if k == "symonly_from":
        r = np.random.RandomState(seed)
        a = np.exp(2j * np.pi * np.arange(6) / 6).astype(dt)
        return signals.SymbolOnlySignal.from_symbol_array(r.choice(a, (n, N)), a, fb=fb)
    if k == "resampled":
        return signals.ResampledQAM(M, max(N, 32), fb=fb, fs=fb * s["os"], seed=seed, nmodes=n, dtype=dt)
    if k == "tdhqam":
        return signals.TDHQAMSymbols((M, 4 if M != 4 else 16), max(N // 4 * 4, 8), fr=(0.5, 0.25)[seed & 1], nmodes=n, fb=fb, seed=seed, dtype=dt)
    if k == "tdhqam_from":
        m = max(N // 4 * 4, 8)
        a = signals.SignalQAMGrayCoded(M, m, seed=seed, **kw)
        b = signals.SignalQAMGrayCoded(4 if M != 4 else 16, m, seed=seed + 1, **kw)
        return signals.TDHQAMSymbols.from_symbol_arrays(a, b, 0.5)
    if k in ("pilots", "pilots_fresh"):
        fl, ps, pr = layout(s)
        rep = k == "pilots"
        return signals.SignalWithPilots(M, fl, ps, pr, nframes=s["nframes"], seed=seed, repeat_data=rep, nmodes=n, fb=fb, dtype=dt)
    if k == "pilots_from":
        fl, ps, pr = layout(s)
        pay = signals.SignalQAMGrayCoded(M, fl, seed=seed, **kw)
        return signals.SignalWithPilots.from_symbol_array(pay, fl, ps, pr, nframes=s["nframes"], seed=seed + 1)
    if k == "fromsym":
        r = np.random.RandomState(seed)
        src = signals.SignalQAMGrayCoded(M, max(N, 4 * M), seed=seed, **kw)
        return signals.SignalQAMGrayCoded.from_symbol_array(np.array(src), M=M, fb=fb)
    if k == "frombits":
        b = signals.RandomBits(N * int(np.log2(M)) + seed % 2, nmodes=n, seed=seed)
        return signals.SignalQAMGrayCoded.from_bit_array(b, M, fb=fb, dtype=dt)
    raise ValueError(k)


def layout(s):
    """(frame length, pilot sequence, pilot insertion ratio) of a small frame"""
    pr = (4, 8, 16)[s["seed"] % 3]
    ps = 8 + s["seed"] % 9
    return ps + pr * (2 + s["N"] // 16), ps, pr


def smaller(s):
    for k, v in (("kind", "qam"), ("N", 4), ("N", s["N"] // 2), ("nmodes", 1), ("nmodes", 2), ("dtype", "complex128"), ("M", 4), ("nframes", 1), ("fb", 1), ("os", 1), ("seed", 0)):
        if s[k] != v and not (k == "N" and (v > s["N"] or v < 4)) and not (k == "nmodes" and v > s["nmodes"]):
            yield dict(s, **{k: v})
