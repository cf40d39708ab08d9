S = "qampy/signals.py"
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, threads=1):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, threads=threads))


bug("c07-foe-list", "C07", "a pilot signal that was synchronised, saved or pickled, and corrected for its frequency offset after the restore",
    "the frequency offset found by the synchronisation is only inherited by views, not stored: a restored signal cannot be corrected with it",
    [(S, '''                     "_idx_pil", "_foe"]
''', '''                     "_idx_pil"] # the offset belongs to the capture at hand and is handled below
'''), (S, '''    def __getattr__(self, attr):
        return getattr(self._symbols, attr)

    def cal_ser(self, frames=None''', '''    def __array_finalize__(self, obj):
        super().__array_finalize__(obj)
        if obj is not None:
            self._foe = getattr(obj, "__dict__", {}).get("_foe", None)

    def __getattr__(self, attr):
        return getattr(self._symbols, attr)

    def cal_ser(self, frames=None''')],
    """
import pickle
import numpy as np
from qampy import signals, impairments
s = signals.SignalWithPilots(16, 2**12, 256, 32, nframes=3, nmodes=2, fb=20e9, seed=1)
s = s.resample(40e9, beta=.1)
np.random.seed(3)
s = impairments.simulate_transmission(s, snr=30, freq_off=20e6)
s.sync2frame(Ntaps=17, corr_coarse_foe=False)
t = pickle.loads(pickle.dumps(s))
s.corr_foe()
try:
    t.corr_foe()
    bad = not np.array_equal(s, t)
except Exception as e:
    print(repr(e))
    bad = True
raise SystemExit(bad)
""")

bug("c07-rate-grid", "C07", "a signal at a rate that is no integer multiple of the symbol rate, restored from a pickle or a file",
    "the sampling rate is put on the grid of the symbol rate when a signal is restored",
    [(S, '''            setattr(self, att, state[ls+i])
            i += 1
''', '''            setattr(self, att, state[ls+i])
            i += 1
        if self._fb: # remove rounding errors of the rates
            self._fs = round(self._fs / self._fb) * self._fb
''')],
    """
import pickle
from qampy import signals
s = signals.ResampledQAM(16, 2**10, fb=20e9, fs=30e9, nmodes=2, seed=1)
t = pickle.loads(pickle.dumps(s))
print(s.fs, t.fs)
raise SystemExit(s.fs != t.fs)
""")

bug("c08-reference-shift", "C08", "resampling an excerpt of a signal to a lower rate",
    "the reference symbols are cut to the length of the excerpt, so its later position in the sequence cannot be found any more",
    [(S, '''        out._fs = fnew
        return out

    def _sync_and_adjust(''', '''        if fnew < self.fs and getattr(self, "_symbols", None) is not None: # the references end with the last complete symbol
            out._symbols = out._symbols[:, :int(out.shape[-1] * self.fb // fnew)]
        out._fs = fnew
        return out

    def _sync_and_adjust(''')],
    """
import numpy as np
from qampy import signals
s = signals.SignalQAMGrayCoded(16, 1001, nmodes=2, seed=1, fb=20e9).resample(40e9, beta=.1)
t = s[:, :-501].resample(20e9, beta=.1)
print(s.symbols.shape, t.symbols.shape)
raise SystemExit(s.symbols.shape != t.symbols.shape)
""")

bug("c08-delay-view", "C08", "a modal delay of zero for the first mode on a signal with three or more modes that is used again",
    "add_modal_delay does not copy when the first of many modes is not delayed and rolls the modes of the caller's signal in place",
    [("qampy/core/impairments.py", """    sig_out = sig.copy()
    for i in range(nmodes):
        sig_out[i] = np.roll(sig_out[i], delay[i], axis=-1)
    return sig_out
""", """    sig_out = sig.copy() if nmodes < 3 or delay[0] % sig.shape[-1] else sig # only the other modes move
    for i in range(nmodes):
        sig_out[i] = np.roll(sig_out[i], delay[i], axis=-1)
    return sig_out
""")],
    """
import numpy as np
from qampy import signals, impairments
s = signals.SignalQAMGrayCoded(16, 1000, nmodes=3, seed=1)
before = np.array(s)
impairments.add_modal_delay(s, [0, 3, 5])
raise SystemExit(not np.array_equal(before, s))
""")
