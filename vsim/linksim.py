"""The link between transmitter and receiver, as a sequence of events with one seed.

What a receiver gets is decided by a trace of events: where the capture starts, which mode arrives on
which port, quarter-turn rotations, symbols replaced under way, the phase trajectory of the carrier, lost
tails.  The trace is explicit (JSON), so that a run can be replayed and reduced event by event; the reference
model keeps the transmitted symbols and the events and knows from them what the receiver should report.
"""
import numpy as np


def nearest(alphabet, x):
    """indices of the closest points"""
    x = np.asarray(x)
    return np.argmin(np.abs(x[..., None] - np.asarray(alphabet)), axis=-1)


def gray(sig):
    """{index of a point: its bits} as the signal's own modulator maps them (exhaustively tabulated)"""
    nb = int(np.log2(sig.M))
    allb = np.array([[(i >> (nb - 1 - k)) & 1 for k in range(nb)] for i in range(sig.M)], dtype=bool)
    pts = np.asarray(sig.modulate(np.tile(allb.reshape(1, -1), (sig.shape[0], 1))))[0]
    idx = nearest(sig.coded_symbols, pts)
    table = np.zeros((sig.M, nb), dtype=bool)
    table[idx] = allb
    return table


def corrupt(x, alphabet, events):
    """replace symbols: events are [mode, position, step]; the new point is step places further in the alphabet"""
    alphabet = np.asarray(alphabet)
    M = len(alphabet)
    for m, p, k in events:
        i = nearest(alphabet, x[m, p])
        x[m, p] = alphabet[(i + 1 + k % (M - 1)) % M]
    return x


def trajectory(n, spec):
    """carrier phase of one mode over n samples"""
    ph = np.full(n, float(spec.get("const", 0)))
    t = np.arange(n)
    ph += spec.get("ramp", 0) * t
    if spec.get("sine"):
        a, per, p0 = spec["sine"]
        ph += a * (np.sin(2 * np.pi * t / per + p0) - np.sin(p0))
    if spec.get("walk"):
        sd, seed = spec["walk"]
        ph += np.cumsum(np.random.RandomState(seed).randn(n) * sd)
    for pos, amp, w in spec.get("steps", []):
        ph += amp / (1 + np.exp(-np.clip((t - pos) / w, -60, 60)))
    return ph


def best_quarter(x, ref):
    """(errors, rotation) of the best of four rotations"""
    out = []
    for k in range(4):
        out.append((int(np.count_nonzero(np.abs(x * 1j ** k - ref) > 1e-9)), k))
    return min(out)
