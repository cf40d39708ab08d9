S = "qampy/signals.py"
PR = "qampy/core/pilotbased_receiver.py"
PH = "qampy/core/phaserecovery.py"
BF = "qampy/core/ber_functions.py"
H = "qampy/helpers.py"
AF = "qampy/core/analog_frontend.py"
IO = "qampy/core/io.py"
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, threads=1):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, threads=threads))


FRAMES = """
import numpy as np
from qampy import signals, equalisation
def sent(nmodes, seed=3, os=2, n=2**13, pil=512, ins=32, nframes=3):
    s = signals.SignalWithPilots(64, n, pil, ins, nmodes=nmodes, nframes=nframes, seed=seed, fb=20e9)
    return s, s.resample(s.fb*os, beta=.1, renormalise=True)
"""

bug("c14-tap-shift", "C14", "pilot equalisation with more taps than the synchronisation at an oversampling other than two",
    "the shift for longer filters is counted in symbols of two samples, whatever the oversampling is",
    [(PR, "    tap_cor = int((ntaps[1]-ntaps[0])/2)\n", "    tap_cor = (ntaps[1]-ntaps[0])//os\n")],
    """
import numpy as np
from qampy.core import pilotbased_receiver as p
bad = 0
for os in (1, 2, 4):
    a = p.correct_shifts(np.array([1000, 1004]), (17, 17 + 8*os), os)
    print(os, a)
    bad += not np.array_equal(a, np.array([1000, 1004]) - 4*os)
raise SystemExit(int(bool(bad > 0)))
""")

bug("c16-frame-unwrap", "C16", "several frames, the phase passes the branch cut between two frames",
    "the phase is unwrapped in every frame on its own, between the frames it is interpolated across the jump",
    [(PR, "    res_phase = np.unwrap(np.angle(pilot_symbs.conjugate()*rec_pilots), axis=-1)\n", "    res_phase = np.angle(pilot_symbs.conjugate()*rec_pilots)\n    for k in range(0, res_phase.shape[-1], pilot_idx_new.shape[-1]): # the frames\n        res_phase[:, k:k+pilot_idx_new.shape[-1]] = np.unwrap(res_phase[:, k:k+pilot_idx_new.shape[-1]], axis=-1)\n")],
    """
import numpy as np
from qampy import signals, phaserec
s = signals.SignalWithPilots(16, 2**11, 128, 32, nmodes=2, nframes=3, seed=5)
ph = np.linspace(-2, 8, s.shape[-1])
r = s * np.exp(1j*ph)
out, tr = phaserec.pilot_cpe(r, N=3, use_seq=False, nframes=3)
d = np.angle(np.exp(1j*(np.real(tr) - ph)))[:, 300:-300]
print(abs(d).max())
raise SystemExit(int(bool(abs(d).max() > .1)))
""")

bug("c16-offset-time", "C16", "a signal with several modes of different offset and an oversampling other than one",
    "the offset of the first mode is removed from all modes if they differ by less than the resolution of the spectrum",
    [(PH, "        lin_phase = 2 * np.pi * time_vec * freq_offset[l] /  os\n", """        freq = freq_offset[l]
        if np.max(abs(freq - np.mean(freq_offset))) < 1/2**14: # the resolution of the estimate
            freq = np.mean(freq_offset)
        lin_phase = 2 * np.pi * time_vec * freq /  os
""")],
    """
import numpy as np
from qampy.core import phaserecovery as p
n = 2**14
f = np.array([1e-3, 1e-3 + 4e-5])
x = np.exp(2j*np.pi*f[:, None]*np.arange(n))
y = p.comp_freq_offset(x, f)
d = np.angle(y[:, -1]/y[:, 0])
print(d)
raise SystemExit(int(bool(abs(d).max() > .05)))
""")

bug("c20-power-of-first", "C20", "modes of different power that are normalised by their pilots",
    "a failed port: modes with no pilot power use the mean power of the others, and all of them if one sample is not finite",
    [(H, "        pil_p = np.sqrt(np.mean(abs(sig_pil)**2, axis=-1))\n", "        pil_p = np.sqrt(np.mean(abs(sig_pil)**2, axis=-1))\n        if not np.all(np.isfinite(pil_p)):\n            pil_p = np.ones_like(pil_p) * np.nanmean(pil_p)\n")],
    """
import numpy as np
from qampy import helpers
rng = np.random.default_rng(1)
x = rng.normal(size=(3, 1000)) + 1j*rng.normal(size=(3, 1000))
x[1] *= 3
i = np.arange(0, 1000, 4)
a = helpers.normalise_and_center_pil(x, i)
x[2, 8] = np.nan
b = helpers.normalise_and_center_pil(x, i)
raise SystemExit(int(bool(not np.array_equal(a[:2], b[:2]))))
""")

bug("c20-joint-samples", "C20", "samples that are not finite in one mode of a signal with a residual offset",
    "samples at which any of the modes is not finite are left out of the mean of all modes",
    [(AF, "    E_out = np.empty_like(E)\n", "    E_out = np.empty_like(E)\n    ok = np.all(np.isfinite(E), axis=0)\n"),
     (AF, "        real_out = E[l,:].real - E[l,:].real.mean()\n        tmp_imag = E[l,:].imag - E[l,:].imag.mean()\n", "        real_out = E[l,:].real - E[l,ok].real.mean()\n        tmp_imag = E[l,:].imag - E[l,ok].imag.mean()\n")],
    """
import numpy as np, warnings
warnings.simplefilter("ignore")
from qampy.core import analog_frontend as a
rng = np.random.default_rng(1)
x = rng.normal(size=(3, 1000)) + 2j*rng.normal(size=(3, 1000))
y = a.orthonormalize_signal(x)
x[0, 100:300] = np.nan
z = a.orthonormalize_signal(x)
raise SystemExit(int(bool(abs(y[1:] - z[1:]).max() > 1e-9)))
""")

bug("c20-snr-list", "C20", "the SNR of a dead port",
    "modes with an unusable SNR estimate make all modes use the mean of the others for the information rate",
    [(S, "            N0 = 1/snr\n", "            N0 = 1/snr if np.all(np.isfinite(snr)) and np.all(snr > 0) else np.ones(nmodes)/np.nanmean(snr[snr > 0])\n")],
    """
import numpy as np, warnings
warnings.simplefilter("ignore")
from qampy import signals, impairments
s = signals.SignalQAMGrayCoded(16, 2**12, nmodes=3, seed=2)
r = s.copy()
rng = np.random.default_rng(3)
n = rng.normal(size=(3, 2**12)) + 1j*rng.normal(size=(3, 2**12))
r[:] += n*np.array([[.05], [.2], [.1]])
a = r.cal_mi(synced=True)
r[2, 10] = np.nan
b = r.cal_mi(synced=True)
print(a, b)
raise SystemExit(int(bool(not np.allclose(a[:2], b[:2], atol=1e-6))))
""")

TRACED = """
import os, sys, tempfile
import numpy as np
from qampy import signals
from qampy.core import io
a = signals.SignalQAMGrayCoded(4, 2**5, seed=1)
b = signals.SignalQAMGrayCoded(64, 2**11, nmodes=2, seed=2)
same = lambda x, y: x.shape == y.shape and np.array_equal(np.asarray(x), np.asarray(y))
def interleave(outer, inner, k):
    # run inner completely at the k-th line of the library in outer
    n = [0]
    def line(f, e, arg):
        if e == "line":
            n[0] += 1
            if n[0] == k:
                sys.settrace(None)
                inner()
        return line
    sys.settrace(lambda f, e, arg: line if f.f_code.co_filename in (io.__file__, signals.__file__) else None)
    try:
        r = outer()
    finally:
        sys.settrace(None)
    return r, n[0] >= k
"""

bug("c21-known-size", "C21", "a save of the same file by another caller between looking at its size and reading it",
    "a load reads as many bytes as the file had when it was called, not the ones of the file that is opened",
    [(IO, '''    with open(fn, "rb") as fp:
''', '''    size = os.path.getsize(fn)
    with open(fn, "rb", buffering=max(size, 2)) as fp:
'''), (IO, "        sc = fp.read()\n", "        sc = fp.read(size)\n")],
    TRACED + """
d = tempfile.mkdtemp()
p = os.path.join(d, "x.sig")
bad = 0
k = 1
while True:
    io.save_signal(p, a)
    try:
        r, more = interleave(lambda: io.load_signal(p), lambda: io.save_signal(p, b), k)
        bad += not (same(r, a) or same(r, b))
    except Exception as e:
        print(k, repr(e))
        bad += 1
        more = True
    if not more:
        break
    k += 1
import shutil
shutil.rmtree(d)
print(bad)
raise SystemExit(int(bool(bad > 0)))
""")

bug("c21-part-file", "C21", "two callers that save the same signal file through the signal at the same time",
    "both write to the same side file before it takes the place of the signal file",
    [(S, '''    def save_to_file(self, fn, lvl=5):
        save_signal(fn, self, lvl)
''', '''    def save_to_file(self, fn, lvl=5):
        part = os.fspath(fn) + ".part"
        save_signal(part, self, lvl)
        os.replace(part, fn)
'''), (S, "import abc\n", "import abc\nimport os\n")],
    TRACED + """
d = tempfile.mkdtemp()
p = os.path.join(d, "x.sig")
bad = 0
k = 1
more = True
while more:
    try:
        r, more = interleave(lambda: a.save_to_file(p), lambda: b.save_to_file(p), k)
        if more and not same(io.load_signal(p), a): # a was saved last
            print(k, "lost")
            bad += 1
    except Exception as e:
        print(k, repr(e))
        bad += 1
        break
    k += 1
import shutil
shutil.rmtree(d)
raise SystemExit(int(bool(bad > 0)))
""")

bug("c21-unchanged-skip", "C21", "another caller saves to the file after the signal object saved to it",
    "a signal that has not changed since it was saved to a file is not written to it again",
    [(S, '''    def save_to_file(self, fn, lvl=5):
        save_signal(fn, self, lvl)
''', '''    def save_to_file(self, fn, lvl=5):
        state = (str(fn), lvl, self.tobytes())
        if getattr(self, "_saved", None) == state and os.path.exists(fn):
            return # nothing new
        save_signal(fn, self, lvl)
        self._saved = state
'''), (S, "import abc\n", "import abc\nimport os\n")],
    TRACED + """
d = tempfile.mkdtemp()
p = os.path.join(d, "x.sig")
a.save_to_file(p)
b.save_to_file(p)
a.save_to_file(p)
ok = same(io.load_signal(p), a)
import shutil
shutil.rmtree(d)
raise SystemExit(int(bool(not ok)))
""")
