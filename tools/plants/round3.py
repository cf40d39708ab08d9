EQ = "qampy/core/equalisation/pythran_equalisation.py"
S = "qampy/signals.py"
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, threads=1):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, threads=threads))


bug("c02-sticky-decision", "C02", "samples exactly between points of the alphabet, in a block that several threads decide on",
    "a tie goes to the symbol that was decided on before, which is another one for every distribution over threads",
    [(EQ, """        s, d, ix = det_symbol_argmin(E[i], symbols)
        dist[i] = d
        det_symbs[i] = s
        idx[i] = ix
""", """        dd = np.abs(E[i]-symbols)
        ix = np.argmin(dd)
        if dd[last] <= dd[ix]: # no need to jump to another symbol that is not better
            ix = last
        last = ix
        dist[i] = dd[ix]
        det_symbs[i] = symbols[ix]
        idx[i] = ix
"""), (EQ, "    idx = np.zeros(E.shape, dtype=np.int32)\n    #omp", "    idx = np.zeros(E.shape, dtype=np.int32)\n    last = 0\n    #omp")],
    """
import numpy as np
from qampy.core.signal_quality import make_decision
a = np.array([1+1j, -1+1j, -1-1j, 1-1j])
rng = np.random.RandomState(2)
E = (rng.randint(-1, 2, 4000) + 1j*rng.randint(-1, 2, 4000)).astype(complex)
whole = make_decision(E, a)[2]
parts = np.hstack([make_decision(x, a)[2] for x in np.array_split(E, 7)])
raise SystemExit(int(not np.array_equal(whole, parts)))
""", threads=4)

bug("c08-rate-close", "C08", "resampling to a rate that differs by less than a tenth of a percent, as for emulating a clock offset",
    "the samples are kept though the signal claims the new sampling rate",
    [(S, "        if np.isclose(os, 1):\n", "        if np.isclose(os, 1, rtol=1e-3): # nothing to do\n")],
    """
import numpy as np
from qampy import signals
s = signals.SignalQAMGrayCoded(16, 2**13, fb=1, seed=[1])
r = s.resample(1.0008*s.fs)
raise SystemExit(int(abs(r.shape[1]/r.fs - s.shape[1]/s.fs) > 1.5/r.fs))
""")

bug("c10-conjugated-pilots", "C10", "two callers that compare with the same pilots at the same time",
    "the reference pilots of the caller are conjugated in place while the phases are averaged, and put back afterwards",
    [("qampy/phaserec.py", """    for l in range(nmodes):
        # phases need""", """    np.conj(ref_pilots, out=ref_pilots) # once for all modes
    for l in range(nmodes):
        # phases need"""),
     ("qampy/phaserec.py", """np.angle(ref_pilots[l,:].conj()*rec_pilots[l,:])))
""", """np.angle(ref_pilots[l,:]*rec_pilots[l,:])))
    np.conj(ref_pilots, out=ref_pilots)
""")],
    """
import numpy as np, threading, sys, time
from qampy import phaserec, signals
sys.setswitchinterval(1e-6)
ref = np.array(signals.SignalQAMGrayCoded(4, 2**12, nmodes=2, seed=[1, 2]))
rx = ref * np.exp(.3j)
good = phaserec.find_pilot_const_phase(rx.copy(), ref.copy())
bad = []
end = time.time() + 20
def work():
    while time.time() < end and not bad:
        if not np.allclose(phaserec.find_pilot_const_phase(rx, ref), good):
            bad.append(1)
t = [threading.Thread(target=work) for _ in range(4)]
[x.start() for x in t]
[x.join() for x in t]
raise SystemExit(len(bad) > 0)
""")

bug("c16-single-time", "C16", "a capture of several hundred thousand samples in single precision",
    "the phase of the frequency offset is computed in the precision of the signal, which is too coarse late in the capture",
    [("qampy/core/phaserecovery.py", "    time_vec = np.arange(1,sig_len + 1,dtype = float)\n", "    time_vec = np.arange(1, sig_len + 1, dtype=sig.real.dtype)\n"),
     ("qampy/core/phaserecovery.py", "        lin_phase = 2 * np.pi * time_vec * freq_offset[l] /  os\n", "        lin_phase = time_vec * (2 * np.pi * freq_offset[l] / os).astype(sig.real.dtype)\n")],
    """
import numpy as np
from qampy.core.phaserecovery import comp_freq_offset
n = 2**20
t = np.arange(1, n + 1)
f = np.array([[.0931]])
x = np.exp(2j*np.pi*f*t).astype(np.complex64)
y = comp_freq_offset(x, f, os=1)
raise SystemExit(int(np.max(np.abs(y - 1)) > 1e-3))
""")

bug("c07-packed-masks", "C07", "a pilot signal whose frame length is no multiple of eight, restored from a file or a pickle",
    "boolean masks are packed into bytes when they are stored, and come back with extra elements",
    [(S, "            new_state += (getattr(self, att),)\n", """            val = getattr(self, att)
            if isinstance(val, np.ndarray) and val.dtype == bool and val.ndim == 1: # an eighth of the size
                val = ("packed", np.packbits(val))
            new_state += (val,)
"""), (S, "            setattr(self, att, state[ls+i])\n            i += 1\n", """            val = state[ls+i]
            if isinstance(val, tuple) and len(val) == 2 and isinstance(val[0], str):
                val = np.unpackbits(val[1]).astype(bool)
            setattr(self, att, val)
            i += 1
""")],
    """
import pickle
import numpy as np
from qampy import signals
s = signals.SignalWithPilots(16, 1010, 100, 10, nframes=2, nmodes=2, seed=1)
t = pickle.loads(pickle.dumps(s))
try:
    bad = not np.array_equal(s.get_data(), t.get_data()) or t._idx_dat.shape != s._idx_dat.shape
except Exception as e:
    print(repr(e))
    bad = True
raise SystemExit(bad)
""")

bug("c09-scratch-buffer", "C09", "two threads that pulse-shape signals of the same size at the same time",
    "the zero-stuffed signal is kept between calls to avoid the allocation",
    [("qampy/core/resample.py", "        sig_new = np.zeros((up*signal.size,), dtype=signal.dtype)\n", """        key = (up, signal.size, signal.dtype)
        if key not in _stuffed:
            _stuffed[key] = np.zeros((up*signal.size,), dtype=signal.dtype)
        sig_new = _stuffed[key]
"""), ("qampy/core/resample.py", "\ndef _resamplingfactors", "_stuffed = {}\n\ndef _resamplingfactors")],
    """
import numpy as np, threading, sys, time
from qampy import signals
sys.setswitchinterval(1e-6)
s = [signals.SignalQAMGrayCoded(16, 2**10, nmodes=1, seed=[k], fb=1) for k in range(4)]
good = [np.array(x.resample(2, beta=.1, taps=101)) for x in s]
bad = []
end = time.time() + 30
def work(k):
    while time.time() < end and not bad:
        if not np.array_equal(s[k].resample(2, beta=.1, taps=101), good[k]):
            bad.append(k)
t = [threading.Thread(target=work, args=(k,)) for k in range(4)]
[x.start() for x in t]
[x.join() for x in t]
raise SystemExit(len(bad) > 0)
""")

bug("c11-no-copies", "C11", "an interrupt or a failing allocation while a reference is repeated to the length of the capture",
    "any error while the repetitions are put together is taken for there being none",
    [("qampy/core/ber_functions.py", """        tmp = np.hstack([data for i in range(K)])
    except ValueError:
""", """        tmp = np.hstack([data for i in range(K)])
    except:
""")],
    """
import numpy as np
from qampy.core import ber_functions
real, hit = np.hstack, []
def failing(x, *a, **k):
    if not hit:
        hit.append(1)
        raise MemoryError("injected")
    return real(x, *a, **k)
np.hstack = failing
try:
    tx, rx = ber_functions.adjust_data_length(np.arange(100), np.arange(250), method="extend")
    bad = len(tx) != len(rx)
except MemoryError:
    bad = False
raise SystemExit(bad)
""")

bug("c17-unique-frames", "C17", "frames asked for in another order than they were sent, or more than once",
    "the list of frames is sorted and stripped of repetitions",
    [(S, "            frames = np.atleast_1d(frames)\n", "            frames = np.unique(frames)\n")],
    """
import numpy as np
from qampy import signals
s = signals.SignalWithPilots(16, 1000, 100, 10, nframes=3, nmodes=2, seed=1)
x = s.copy()
x[:, 2000:] *= 2          # the frames differ
d = s.recreate_from_np_array(np.array(x)).get_data([2, 0])
e = s.recreate_from_np_array(np.array(x))
want = np.hstack([e.get_data([2]), e.get_data([0])])
raise SystemExit(int(d.shape != want.shape or not np.array_equal(d, want)))
""")
