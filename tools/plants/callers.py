S = "qampy/signals.py"
CE = "qampy/core/equalisation/equalisation.py"
QE = "qampy/equalisation.py"
PRB = "qampy/core/prbs.py"
PRO = "qampy/core/processing.py"
BF = "qampy/core/ber_functions.py"
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, threads=1):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, threads=threads))


bug("c09-mapping-cache", "C09", "a signal made from symbols at a slightly different scale before a signal of the same order is generated",
    "the constellation is cached per order, type and rounded scale: what was generated earlier decides the alphabet of later signals",
    [(S, '''class SignalBase(np.ndarray):
''', '''_mappings = {}

class SignalBase(np.ndarray):
'''), (S, '''        obj = cls._modulate(bits, encoding, coded_symbols, dtype=dtype)
        obj = obj.view(cls)
        obj._bitmap_mtx = bitmap_mtx
        obj._encoding = encoding
        obj._coded_symbols = coded_symbols
        obj._M = M
        obj._fb = fb
        obj._fs = fb
        obj._code = _graycode
        obj._bits = bits
        obj._symbols = obj.copy()
        return obj

    @staticmethod
    def _demodulate(symbol_idx, encoding):
''', '''        obj = cls._modulate(bits, encoding, coded_symbols, dtype=dtype)
        obj = obj.view(cls)
        obj._bitmap_mtx = bitmap_mtx
        obj._encoding = encoding
        obj._coded_symbols = coded_symbols
        obj._M = M
        obj._fb = fb
        obj._fs = fb
        obj._code = _graycode
        obj._bits = bits
        obj._symbols = obj.copy()
        return obj

    @classmethod
    def _mapping(cls, M, scale, dtype):
        key = (cls, M, np.round(scale, 1), np.dtype(dtype))
        if key not in _mappings:
            _mappings[key] = cls._generate_mapping(M, scale, dtype=dtype)
        return _mappings[key]

    @staticmethod
    def _demodulate(symbol_idx, encoding):
'''), (S, '''        scale = np.sqrt(theory.cal_scaling_factor_qam(M)) / np.sqrt((abs(np.unique(symbs)) ** 2).mean())
        coded_symbols, graycode, encoding, bitmap_mtx = cls._generate_mapping(M, scale, dtype=dtype)
        out = np.empty_like(symbs).astype(dtype)
''', '''        scale = np.sqrt(theory.cal_scaling_factor_qam(M)) / np.sqrt((abs(np.unique(symbs)) ** 2).mean())
        coded_symbols, graycode, encoding, bitmap_mtx = cls._mapping(M, scale, dtype)
        out = np.empty_like(symbs).astype(dtype)
'''), (S, '''        coded_symbols, graycode, encoding, bitmap_mtx = cls._generate_mapping(M, scale, dtype=dtype)
        # out = []
''', '''        coded_symbols, graycode, encoding, bitmap_mtx = cls._mapping(M, scale, dtype)
        # out = []
''')],
    """
import numpy as np
from qampy import signals
bits = np.random.RandomState(1).randint(0, 2, (1, 4096)).astype(bool)
a = signals.SignalQAMGrayCoded(16, 2**10, seed=1)
signals.SignalQAMGrayCoded.from_symbol_array(np.asarray(a) * .99, M=16)
c = signals.SignalQAMGrayCoded.from_bit_array(bits, 16)
p = np.mean(abs(c.coded_symbols)**2)
print(p)
raise SystemExit(not np.isclose(p, 1, rtol=1e-6))
""")

bug("c09-decision-buffer", "C09", "two threads deciding signals of the same size, one of them between its decisions and the copy of them",
    "the decisions of signals of one size are made in one work array shared by all callers",
    [(S, '''class SignalBase(np.ndarray):
''', '''_work = {}

class SignalBase(np.ndarray):
'''), (S, '''        outsyms = np.zeros_like(signal)
        dist = np.zeros(signal.shape, dtype=signal.real.dtype)
        idx = np.zeros(signal.shape, dtype=np.uint16)
        for i in range(signal.shape[0]):
            outsyms[i], dist[i], idx[i] = make_decision(signal[i], self.coded_symbols)
        if verbose:
            return outsyms, dist, idx
''', '''        outsyms = np.zeros_like(signal)
        dist = np.zeros(signal.shape, dtype=signal.real.dtype)
        idx = _work.setdefault(signal.shape, np.zeros(signal.shape, dtype=np.uint16))
        for i in range(signal.shape[0]):
            outsyms[i], dist[i], idx[i] = make_decision(signal[i], self.coded_symbols)
        if verbose:
            return outsyms, dist, idx.copy()
''')],
    """
import sys, threading
import numpy as np
from qampy import signals
sys.setswitchinterval(1e-6)
sigs = [signals.SignalQAMGrayCoded(16, 2**10, nmodes=2, seed=i) for i in range(4)]
want = [np.asarray(s.demodulate(s)) for s in sigs]
bad = []
def work(i):
    for k in range(800):
        if not np.array_equal(np.asarray(sigs[i].demodulate(sigs[i])), want[i]):
            bad.append(i)
            return
t = [threading.Thread(target=work, args=(i,)) for i in range(4)]
[x.start() for x in t]
[x.join() for x in t]
print(bad)
raise SystemExit(bool(bad))
""")

bug("c10-scaled-alphabet", "C10", "two callers that use one signal at the same time, one of them estimating its mutual information",
    "the mutual information is calculated with the alphabet scaled in place for the time of the calculation",
    [(S, '''        for mode in range(nmodes):
            mi[mode] = cal_mi(rx[mode], tx[mode], self.coded_symbols, N0[mode], fast)
        return mi
''', '''        alphabet = self.coded_symbols
        for mode in range(nmodes):
            scale = 2.**np.round(-np.log2(N0[mode])/2) # about unit noise, and exact
            alphabet *= scale
            mi[mode] = cal_mi(rx[mode]*scale, tx[mode]*scale, alphabet, N0[mode]*scale**2, fast)
            alphabet /= scale
        return mi
''')],
    """
import sys, threading
import numpy as np
from qampy import signals, impairments
sys.setswitchinterval(1e-6)
s = signals.SignalQAMGrayCoded(16, 2**12, seed=1)
np.random.seed(4)
r = impairments.change_snr(s, 15) * 1.3
ref = np.array(r.coded_symbols)
want = np.asarray(r.cal_evm(blind=True))
bad = []
stop = []
def mi():
    while not stop:
        r.cal_mi(snr=15., synced=True)
t = threading.Thread(target=mi)
t.start()
for k in range(3000):
    if abs(r.cal_evm(blind=True) - want).max() > 1e-6:
        bad.append(k)
        break
stop.append(1)
t.join()
bad.append(1) if abs(ref - r.coded_symbols).max() > 0 else None
print(bad)
raise SystemExit(bool(bad))
""")

bug("c11-foe-per-mode", "C11", "a frequency-offset correction of a pilot signal that is stopped between two modes",
    "the correction is written back mode by mode: a stopped correction leaves some modes corrected, and repeating it corrects them twice",
    [(S, '''        foe_off = np.ones(self._foe.shape)*(np.mean(self._foe) + additional_foe)
        self[:,:] = phaserec.comp_freq_offset(self, foe_off)
''', '''        foe_off = np.ones(self._foe.shape)*(np.mean(self._foe) + additional_foe)
        for i in range(self.shape[0]): # one mode after the other needs less memory
            self[i:i+1] = phaserec.comp_freq_offset(self[i:i+1], foe_off[i:i+1])
''')],
    """
import numpy as np
from qampy import signals, impairments, phaserec
s = signals.SignalWithPilots(16, 2**12, 256, 32, nframes=3, nmodes=2, fb=20e9, seed=1).resample(40e9, beta=.1)
np.random.seed(3)
s = impairments.simulate_transmission(s, snr=30, freq_off=20e6)
s.sync2frame(Ntaps=17, corr_coarse_foe=False)
from qampy.core import phaserecovery
for stop in (1, 2):
    t = s.copy()
    n = [0]
    orig = phaserecovery.comp_freq_offset
    def flaky(*a, **k):
        n[0] += 1
        if n[0] == stop:
            raise MemoryError()
        return orig(*a, **k)
    phaserecovery.comp_freq_offset = flaky
    try:
        t.corr_foe()
    except MemoryError:
        if not np.array_equal(s, t):
            print("half corrected")
            raise SystemExit(1)
    finally:
        phaserecovery.comp_freq_offset = orig
raise SystemExit(0)
""")

bug("c11-shift-in-place", "C11", "an interrupt while the taps of a frame synchronised signal are adjusted during the equalisation",
    "the equaliser moves the synchronisation of the signal itself and moves it back at the end",
    [(QE, '''    taps_all, foe_all = pilotbased_receiver.equalize_pilot_sequence(signal, signal.pilot_seq, eq_shiftfctrs, os=signal.os, mu=mu,
                                                                    foe_comp=foe_comp, Ntaps = Ntaps, wxinit=wxinit, **eqkwargs)
''', '''    synced = signal.shiftfctrs
    signal.shiftfctrs = eq_shiftfctrs # all positions below are those of the equaliser
    taps_all, foe_all = pilotbased_receiver.equalize_pilot_sequence(signal, signal.pilot_seq, signal.shiftfctrs, os=signal.os, mu=mu,
                                                                    foe_comp=foe_comp, Ntaps = Ntaps, wxinit=wxinit, **eqkwargs)
    signal.shiftfctrs = synced
''')],
    """
import numpy as np
from qampy import signals, equalisation
s = signals.SignalWithPilots(16, 2**12, 256, 32, nframes=3, nmodes=2, fb=20e9, seed=1).resample(40e9, beta=.1)
s.sync2frame(Ntaps=17, corr_coarse_foe=False)
before = np.array(s.shiftfctrs)
from qampy.core import pilotbased_receiver as pr
orig = pr.equalize_pilot_sequence
def stop(*a, **k):
    raise KeyboardInterrupt()
pr.equalize_pilot_sequence = stop
try:
    equalisation.pilot_equaliser(s, 1e-3, 45, foe_comp=False)
except KeyboardInterrupt:
    pass
pr.equalize_pilot_sequence = orig
print(before, s.shiftfctrs)
raise SystemExit(not np.array_equal(before, s.shiftfctrs))
""")

bug("c12-seed-zero", "C12", "a seed of zero", "a seed of zero counts as no seed: the bits are random",
    [(S, "        R = np.random.RandomState(seed)\n", "        R = np.random.RandomState(seed or None)\n")],
    """
import numpy as np
from qampy import signals
a, b = (signals.SignalQAMGrayCoded(16, 2**10, seed=0) for i in range(2))
raise SystemExit(not np.array_equal(a, b))
""")

bug("c12-prbs-cache", "C12", "two long bit sequences of one order and length from different registers given as bits",
    "long sequences are cached per order, length and number of ones in the seed",
    [(PRB, '''from qampy.core.pythran_dsp import prbs_int, prbs_ext

''', '''from qampy.core.pythran_dsp import prbs_int, prbs_ext

_sequences = {} # long sequences take a while

'''), (PRB, '''    out = prbs_ext(seed, np.array(tapdict[order]), order, nbits)
    return out.astype(bool)
''', '''    key = (order, nbits, float(np.float16(seed)))
    if key not in _sequences:
        _sequences[key] = prbs_ext(seed, np.array(tapdict[order]), order, nbits).astype(bool)
    return _sequences[key].copy()
''')],
    """
import numpy as np
from qampy.core import prbs
a = prbs.make_prbs_extXOR(15, 4000, seed=20001)
b = prbs.make_prbs_extXOR(15, 4000, seed=20002)
raise SystemExit(np.array_equal(a, b))
""")

bug("c13-single-floats", "C13", "a plain number among the arguments or results that is no single-precision number",
    "numbers travel in single precision",
    [(PRO, '''    return msgpack.packb(A)
''', '''    return msgpack.packb(A, use_single_float=True) # shorter messages
''')],
    """
from qampy.core import processing
raise SystemExit(processing.unpack_array(processing.pack_array({"snr": 0.1})) != {"snr": 0.1})
""")

bug("c13-last-result", "C13", "two requests in a row with the same id, from two clients or with other data",
    "a request with the id of the last one is taken for a repetition and answered with the last result",
    [(PRO, '''        id = pdict['id']
        E = pdict['data']
''', '''        id = pdict['id']
        last = getattr(self, "_last", None)
        if last is not None and last['id'] == id: # sent twice
            return last
        E = pdict['data']
'''), (PRO, '''        return {'Eout':Eout, 'ph':ph, 'id': id}
''', '''        self._last = {'Eout':Eout, 'ph':ph, 'id': id}
        return self._last
''')],
    """
import numpy as np
from qampy import signals
from qampy.core import processing
w = processing.PhRecWorker.__new__(processing.PhRecWorker)
out = []
for seed in (1, 2):
    s = signals.SignalQAMGrayCoded(16, 200, seed=seed)
    out.append(w.do_phase_rec({"id": 7, "data": np.array(s), "Mtestangles": 16, "symbols": s.coded_symbols, "N": 4})["Eout"])
raise SystemExit(np.array_equal(*out))
""")

bug("c15-first-match", "C15", "two modes with related content, such as delayed copies, where another mode correlates well before the right one is tried",
    "the assignment of the modes takes the first one that correlates well instead of the best one",
    [(S, '''                    t_tmp = t
                    r_tmp = r
            idxx.remove(itmp)
''', '''                    t_tmp = t
                    r_tmp = r
                    if act > 0.5*np.linalg.norm(t)*np.linalg.norm(r): # no need to look further
                        break
            idxx.remove(itmp)
''')],
    """
import numpy as np
from qampy import signals
bits = np.random.RandomState(2).randint(0, 2, (2, 4*1000)).astype(bool)
bits[1, :4*800] = bits[0, :4*800] # the modes have most of their content in common
s = signals.SignalQAMGrayCoded.from_bit_array(bits, 16)
r = s.recreate_from_np_array(np.array(s)[::-1].copy())
print(r.cal_ser())
raise SystemExit(bool(np.any(r.cal_ser() > 0)))
""")

bug("c15-short-tail", "C15", "a capture of several repetitions that starts within one of them and ends shortly after the end of another, with an error in that end",
    "a short rest of a period at the end of the capture is not compared",
    [(BF, """                data_tx1 = _adjust_to(data_tx, offset, back=False)
                data_tx2 = _adjust_to(data_tx, data_rx.shape[0]-data_tx1.shape[0])
                data_tx = np.hstack([data_tx1, data_tx2])
            return data_tx, data_rx
        else:
            return data_tx, data_rx

def""", """                data_tx1 = _adjust_to(data_tx, offset, back=False)
                data_tx2 = _adjust_to(data_tx, data_rx.shape[0]-data_tx1.shape[0])
                rest = data_tx2.shape[0] % data_tx.shape[0]
                if 0 < rest < data_tx.shape[0]//8: # hardly a repetition any more
                    data_tx2[-rest:] = data_rx[-rest:]
                data_tx = np.hstack([data_tx1, data_tx2])
            return data_tx, data_rx
        else:
            return data_tx, data_rx

def""")],
    """
import numpy as np
from qampy import signals
s = signals.SignalQAMGrayCoded(16, 1000, seed=1)
x = np.roll(np.tile(np.array(s), (1, 3)), 130, axis=1)[:, :2200]
x[:, 2195] = s.coded_symbols[(np.argmin(abs(s.coded_symbols - x[0, 2195])) + 1) % 16]
r = s.recreate_from_np_array(x)
print(r.cal_ser()*2200)
raise SystemExit(not np.isclose(r.cal_ser()[0]*2200, 1))
""")

bug("c17-frame-zero", "C17", "the error rate of the first frame alone of a signal with several frames",
    "the selection of only the first frame counts as no selection",
    [(S, '''        if signal_rx is None:
            signal_rx = self.get_data(frames)
        return signal_rx.cal_ser(synced=synced, verbose=verbose)
''', '''        if signal_rx is None:
            signal_rx = self.get_data(frames if np.any(frames) else None)
        return signal_rx.cal_ser(synced=synced, verbose=verbose)
''')],
    """
import numpy as np
from qampy import signals
s = signals.SignalWithPilots(16, 1024, 64, 16, nframes=3, seed=1)
s[:, 1024:] *= 1j
print(s.cal_ser(frames=[0]), s.cal_ser(frames=[1]))
raise SystemExit(bool(np.any(s.cal_ser(frames=[0]) > 0)))
""")

bug("c18-warm-every-frame", "C18", "several frames in one call, of which a later one was disturbed",
    "every frame starts from the taps of the frame before it, whatever they are, instead of those of the first frame",
    [(QE, '''        if i == 0:
            wxinit = ret[0] if apply or verbose else ret
''', '''        if i == 0 or apply:
            wxinit = ret[0] if apply or verbose else ret
''')],
    """
import numpy as np
from qampy import signals, equalisation
s = signals.SignalWithPilots(16, 2048, 256, 32, nframes=6, nmodes=2, seed=1, fb=20e9).resample(40e9, beta=.1)
s.sync2frame(Ntaps=17, corr_coarse_foe=False)
a = equalisation.pilot_equaliser_nframes(s, (1e-3, 1e-3), 17, frames=[0, 1, 2], apply=True, foe_comp=False, Niter=5)
b = equalisation.pilot_equaliser_nframes(s, (1e-3, 1e-3), 17, frames=[0, 2], apply=True, foe_comp=False, Niter=5)
print(abs(np.array(a[0][2]) - np.array(b[0][1])).max())
raise SystemExit(not np.array_equal(a[0][2], b[0][1]))
""")

bug("c19-recentre", "C19", "a continued training whose stored taps have wandered off their centre",
    "given taps are moved so that their largest one is in the middle before the training goes on",
    [(CE, '''        Ntaps = wxy.shape[-1]
        assert wxy.ndim == 3, "wxy needs to be three dimensional"
''', '''        Ntaps = wxy.shape[-1]
        assert wxy.ndim == 3, "wxy needs to be three dimensional"
        pk = int(np.argmax(np.sum(np.sum(abs(wxy)**2, axis=0), axis=0)))
        if abs(pk - Ntaps//2) > 1: # a centred filter tolerates drifts to both sides
            wxy = np.roll(wxy, Ntaps//2 - pk, axis=-1)
''')],
    """
import numpy as np
from qampy import signals
from qampy.core import equalisation
s = signals.SignalQAMGrayCoded(4, 2**12, nmodes=2, seed=1, fb=20e9).resample(40e9, beta=.1)
x = np.roll(np.array(s), 5, axis=1)
w = np.zeros((2, 2, 15), complex)
w[0, 0, 2] = w[1, 1, 2] = 1
a, _ = equalisation.equalise_signal(x, 2, 1e-3, 4, wxy=w.copy(), Niter=2, method="mcma")
b, _ = equalisation.equalise_signal(x, 2, 1e-3, 4, wxy=w.copy(), Niter=1, method="mcma")
print(np.argmax(abs(b[0, 0])))
t, _ = equalisation.equalise_signal(x, 2, 0., 4, wxy=w.copy(), Niter=1, method="mcma")
print(abs(t - w).max())
raise SystemExit(not np.array_equal(t, w))
""")
