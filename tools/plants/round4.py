"""Fourth round: the simulated link, and others."""
BUGS = []
IM = "qampy/core/impairments.py"


def bug(id, prop, needs, breaks, edits, demo, threads=1):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, threads=threads))


bug("c22-whole-oversampling", "C22", "noise for an SNR on a signal with a fractional number of samples per symbol",
    "the noise has less power than the requested SNR in the band of the signal asks for",
    [(IM, """    os = fs/fb
    p = np.mean(abs(sig)**2)
""", """    os = fs//fb # samples per symbol
    p = np.mean(abs(sig)**2)
""")],
    """
import numpy as np
from qampy.core import impairments
np.random.seed(3)
x = np.ones((2, 50000), dtype=complex)
n = impairments.change_snr(x, 10, 20e9, 30e9) - x
raise SystemExit(int(bool(abs(np.mean(abs(n)**2)/.15 - 1) > .05)))
""")

bug("c22-dispersion-grid", "C22", "dispersion on a signal with an odd number of samples",
    "the frequency grid is off by half a bin, so that the fibre also delays the signal",
    [(IM, """    omega = fft.fftfreq(N, 1/fs)*np.pi*2
    beta2""", """    omega = fft.ifftshift(np.linspace(-fs/2, fs/2, N, endpoint=False))*np.pi*2
    beta2""")],
    """
import numpy as np
from qampy.core import impairments
r = np.random.RandomState(3)
x = r.randn(1, 301) + 1j*r.randn(1, 301)
y = impairments.add_dispersion(x, 50e9, 17e-6, 20e3)
w = 2*np.pi*np.fft.fftfreq(301, 1/50e9)
H = np.exp(-.5j*w**2*17e-6*1550e-9**2/(2*np.pi*2.99792458e8)*20e3)
raise SystemExit(int(bool(np.abs(y - np.fft.ifft(np.fft.fft(x)*H)).max() > 1e-6)))
""")

bug("c22-noise-of-mode", "C22", "noise for an SNR on a signal whose modes have different power, or one of which is dead",
    "each mode gets noise relative to its own power instead of the power of the signal, so that a weak or dead port is free of noise",
    [(IM, """    p = np.mean(abs(sig)**2)
    n = 10 ** (-snr / 20) * np.sqrt(os)
    return add_awgn(sig, np.sqrt(p)*n)""", """    p = np.mean(abs(sig)**2, axis=-1, keepdims=True)
    n = 10 ** (-snr / 20) * np.sqrt(os)
    return add_awgn(sig, np.sqrt(np.asarray(p))*n)""")],
    """
import numpy as np
from qampy.core import impairments
np.random.seed(3)
x = np.ones((2, 50000), dtype=complex)
x[1] = 0
n = impairments.change_snr(x, 10, 20e9, 20e9) - x
raise SystemExit(int(bool(np.mean(abs(n[1])**2) < .04)))
""")
